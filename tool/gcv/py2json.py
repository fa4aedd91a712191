import ast, json, sys

OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^',
       ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in', ast.USub: '-', ast.UAdd: '+', ast.Not: '!', ast.Invert: '~'}


def N(k, n=None, s='', a=(), v='', f=None):
    r = {'k': k, 'l': getattr(n, 'lineno', 0)}
    if s:
        r['s'] = s
    if a:
        r['a'] = list(a)
    if v:
        r['v'] = v
    if f:
        r['f'] = f
    return r


def block(ss):
    return N('block', ss[0] if ss else None, a=[stmt(s) for s in ss])


def func(n):
    a = n.args
    ps = [{'name': x.arg} for x in a.args]
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        p['def'] = expr(d)
    f = {'name': getattr(n, 'name', ''), 'params': ps, 'deco': [ast.unparse(d) for d in getattr(n, 'decorator_list', [])]}
    if isinstance(n, ast.Lambda):
        f['expr'] = expr(n.body)
    else:
        f['body'] = [stmt(s) for s in n.body]
    return f


def target(t):
    return expr(t)


def stmt(n):
    t = type(n).__name__
    if t in ('Import', 'ImportFrom'):
        return N('import', n)
    if t == 'Pass':
        return N('pass', n)
    if t == 'Expr':
        if isinstance(n.value, ast.Constant):
            return N('pass', n)
        return N('expr', n, a=[expr(n.value)])
    if t == 'FunctionDef':
        return N('funcdef', n, f=func(n))
    if t == 'ClassDef':
        return N('classdef', n, s=n.name, v=(ast.unparse(n.bases[0]) if n.bases else ''), a=[stmt(s) for s in n.body])
    if t == 'Assign':
        return N('pyassign', n, a=[target(x) for x in n.targets] + [expr(n.value)])
    if t == 'AnnAssign':
        if n.value is None:
            return N('pass', n)
        return N('pyassign', n, a=[target(n.target), expr(n.value)])
    if t == 'AugAssign':
        return N('expr', n, a=[N('assign', n, s=OPS[type(n.op)] + '=', a=[target(n.target), expr(n.value)])])
    if t == 'If':
        a = [expr(n.test), block(n.body)]
        if n.orelse:
            a.append(block(n.orelse))
        return N('if', n, a=a)
    if t == 'While':
        return N('while', n, a=[expr(n.test), block(n.body)])
    if t == 'For':
        if isinstance(n.target, ast.Name):
            return N('foreach', n, s=n.target.id, a=[expr(n.iter), block(n.body)])
        return N('foreach', n, a=[expr(n.iter), block(n.body), target(n.target)])
    if t == 'Return':
        return N('return', n, a=[expr(n.value)] if n.value is not None else [])
    if t == 'Break':
        return N('break', n)
    if t == 'Continue':
        return N('continue', n)
    if t == 'Raise':
        return N('throw', n, a=[expr(n.exc)] if n.exc else [N('const', n, s='None')])
    if t == 'Assert':
        return N('assert', n, a=[expr(n.test)])
    if t == 'Try':
        return N('try', n, a=[block(n.body)] + [block(h.body) for h in n.handlers])
    raise SyntaxError('unsupported statement %s at line %d' % (t, n.lineno))


def expr(n):
    t = type(n).__name__
    if t == 'Constant':
        v = n.value
        if v is None or v is True or v is False:
            return N('const', n, s=str(v))
        if isinstance(v, int):
            return N('num', n, v=str(v))
        if isinstance(v, float):
            return N('flt', n, s=repr(v))
        if isinstance(v, str):
            return N('str', n, s=v)
        if isinstance(v, bytes):
            return N('bytesLit', n, s=v.decode('latin1'))
        return N('const', n, s='None')
    if t == 'Name':
        return N('id', n, s=n.id)
    if t == 'Attribute':
        return N('mem', n, s=n.attr, a=[expr(n.value)])
    if t == 'Subscript':
        return N('idx', n, a=[expr(n.value), expr(n.slice)])
    if t == 'Slice':
        if n.step is not None:
            raise SyntaxError('slice step')
        none = N('const', n, s='None')
        return N('slice', n, a=[expr(n.lower) if n.lower else none, expr(n.upper) if n.upper else none])
    if t == 'BinOp':
        return N('bin', n, s=OPS[type(n.op)], a=[expr(n.left), expr(n.right)])
    if t == 'BoolOp':
        op = '&&' if isinstance(n.op, ast.And) else '||'
        r = expr(n.values[0])
        for v in n.values[1:]:
            r = N('bin', n, s=op, a=[r, expr(v)])
        return r
    if t == 'UnaryOp':
        return N('un', n, s=OPS[type(n.op)], a=[expr(n.operand)])
    if t == 'Compare':
        r = None
        left = n.left
        for op, c in zip(n.ops, n.comparators):
            x = N('bin', n, s=OPS[type(op)], a=[expr(left), expr(c)])
            r = x if r is None else N('bin', n, s='&&', a=[r, x])
            left = c
        return r
    if t == 'IfExp':
        return N('cond', n, a=[expr(n.test), expr(n.body), expr(n.orelse)])
    if t == 'Call':
        return N('call', n, a=[expr(n.func)] + [expr(a) for a in n.args] + [N('kwarg', n, s=k.arg, a=[expr(k.value)]) for k in n.keywords])
    if t == 'Tuple':
        return N('tuple', n, a=[expr(x) for x in n.elts])
    if t == 'List':
        return N('arr', n, a=[expr(x) for x in n.elts])
    if t == 'ListComp' and len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name) and not n.generators[0].ifs:
        return N('listcomp', n, s=n.generators[0].target.id, a=[expr(n.elt), expr(n.generators[0].iter)])
    if t == 'Lambda':
        return N('func', n, f=func(n))
    if t == 'JoinedStr':
        return N('str', n, s='<f-string>')
    if t == 'Starred':
        return N('spread', n, a=[expr(n.value)])
    raise SyntaxError('unsupported expression %s at line %d' % (t, n.lineno))


for line in sys.stdin:
    src = json.loads(line)
    try:
        out = {'body': [stmt(s) for s in ast.parse(src).body]}
    except SyntaxError as e:
        out = {'err': str(e)}
    sys.stdout.write(json.dumps(out) + '\n')
    sys.stdout.flush()
