package kotlin

import "github.com/xaxys/bubbler/definition"

// VExpr is how the target writes an expression.
func (g *KotlinGenerator) VExpr(e definition.Expr, value string) (string, error) {
	return g.generateExpr(e, value)
}
