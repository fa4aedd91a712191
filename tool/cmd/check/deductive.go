package main

func init() {
	reg := func(id, rule string, assume ...string) {
		checks[id] = func(r *Run) { r.deductive(rule, assume...) }
	}
	reg("C17", "the content of a name is a fold over its characters; loop invariants relate the fold of the result to the fold of the part read, for names of any length",
		"that converting again changes nothing, dotted names, and the shape of the words compare two runs: they are searched on the compiled code over all names up to a length and random longer ones (bounded)")
	reg("C18", "every operation of OrderedMap from an arbitrary well-formed table, for arbitrary keys and values",
		"the table is verified at int keys and values; its code is the same for every instantiation")
	reg("C20", "all package pairs (any number of segments, any names), any output directory, any list of prefixes, any file path: loop invariants over the segments and the prefixes",
		"segments are not '..' (the grammar forbids it)", "filepath.Join and Clean have their documented meaning; that a cleaned relative path without leading .. stays inside is their meaning",
		"which generator calls which path function is checked on the compiled code of the wire checks only")
	reg("C22", "visible content as a fold over the characters, preserved by indentation for every text and amount and by normalisation for every text (loop invariant over the lines)",
		"that each line moves by exactly the amount, and what text/template itself does, are searched on the compiled code over all texts of a few characters and random longer ones (bounded)")
	reg("C19", "all 64-bit operands, every pair of operators, triples of nine of them, parentheses, signs, comparison, logic and conditional; expressions with more operators are covered through the recursion of the evaluator only",
		"floating-point operands are not covered")
	reg("C10", "schemas of up to four entries of every form, every number up to 2^60, in enums declared one after the other; the visitors run from source on the parse trees of the repository's own parser",
		"enums with more entries are covered through the per-entry step only", "that every target writes the numbers is searched on the compiled code (bounded)")
	reg("C11", "every width, length and declared size (64-bit numbers, in bits and in bytes), structs of up to three elements of every kind",
		"structs of more elements are covered through the sum over the field list")
	reg("C12", "every declared width (any 64-bit number, in bits, bytes or both) for every type, every constant value, every enum number")
	reg("C13", "every width before the element, structs of up to three elements of every kind",
		"structs of more elements are covered through the position kept by the field loop")
	reg("C23", "the effect contract of every function of the command, the compiler and the targets, by an inference of what each writes and a rule per instruction: no iteration over a map whose order could matter, no goroutine or select, no write to a package variable after initialisation, no printing of an address, and calls only of listed library functions taken to depend on their arguments and on files",
		"the listed library packages (strings, fmt, strconv, sort, text/template, path/filepath, os file functions, antlr and others, /verif/tool/gover/effects.go) have the same effect contract", "the files that a run reads do not change", "what function values write to package variables, other than the closures of the code itself, is not tracked; the search on the compiled code covers it")
	bounded := func(id, explain string, assume ...string) {
		checks[id] = func(r *Run) {
			r.deductive(explain, assume...)
			r.Level = "other"
			r.Coverage["explanation"] = "bounded, not counted as proof: " + explain
		}
	}
	bounded("C09", "every obligation of the contracts is discharged on the current source: the expression visitors make the tree of the grammar for every operator, cast and conditional over operands of every kind with any constants, every pair of operators groups as the grammar says, accessors belong to their field and to each struct that embeds it; the expression printers of the nine targets write every kind of node as a text that the target's grammar reads as that node and as one operand wherever it stands, for two shapes of operands, and every integer constant as a literal of its value",
		"by induction over the tree: a text read as one operand can stand for any operand (the printers use the texts of operands only by joining them)", "the target grammars as written in the contracts", "the templates that place the expressions into accessors, floating-point constants and whole expressions up to five operators deep are searched on the compiled code only")
	bounded("C14", "every obligation of the contracts is discharged on the visitors and table functions of the current source for every pattern of equal and distinct names (names are compared for equality only, so the few names used stand for all) in scopes of up to four declarations of every kind, two or three units; the four table functions of a unit are discharged for arbitrary positions",
		"scopes with more declarations are searched on the compiled code only")
	bounded("C16", "every obligation of the contracts is discharged on the current source: printing of integers by the shared formatter and by the eight targets that dispatch to it, for every 64-bit integer, signed or unsigned, every base and option; decimal notation of every 63-bit integer with each sign and the value of a literal in every type; the listed notations at the ends of the ranges, floats and texts of up to two units of an alphabet of escapes",
		"the digits of a number are those strconv and fmt write; other notations, floats, strings and the generated code of a whole schema are searched on compiled code only")
	bounded("C21", "every obligation of the contracts is discharged on the visitors and validators of the current source for every option name known and some unknown ones, literals of every kind (any integer), eight forms of fields, pairs of options, every threshold of the unroll setting, every combination of the flags; option values compared as texts of up to ten characters",
		"the output of the targets under options and the built command are searched on compiled code only")
	bounded("C24", "every obligation, the absence of run-time panics among them, is discharged on the visitors of the current source for every 63-bit number in every place for a number, in schemas of one or two elements of every kind: fields and arrays of every type and size form, constants, options, enums and their values, nested and recursive structs, all operators and operand kinds of expressions one or two deep, pairs of accessors, pairs of statements of a file",
		"the lexer and parser (generated code and its run-time library) are taken as total", "the targets, the command and other schemas, damaged ones and any token order are searched on the compiled code only", "memory suffices for the output, whose length in C and C++ is proportional to the lengths of arrays; nesting is not so deep that the stack ends")
	bounded("C15", "every obligation of the contracts is discharged on the compilation functions of the current source for every import graph of three files (512, two orders of imports) and of four files (4096, without self-imports), every spelling of a list, every pattern of packages of three files, and the checks before reading from every state of up to two open and two compiled files",
		"graphs of five to eight files are searched on the compiled code only", "files do not change while being compiled; two paths name one file only if they are equal after cleaning (no links)")
}
