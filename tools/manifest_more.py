
DV = "contracts laid over the repository's own functions (postconditions, loop invariants, representation invariants, written in Go); obligations generated from go/ssa of the current source, discharged by z3"
def dv(what, level="proof", more=""):
    return dict(technique=DV, level=level, level_note=what + " The same contracts also run on the compiled code to look for failing inputs (not counted as proof). Trusted: the translation in tool/gover, go/ssa, z3, the library functions listed in the evidence." + more)
CLAIMED["C18"] = dv("Every OrderedMap operation from an arbitrary table satisfying the representation invariant: postcondition and invariant re-established, loops by invariant, no bound on size or keys.")
CLAIMED["C17"] = dv("Content (letters and digits, case aside) as a fold over the characters: loop invariants of the four converters, the underscore cutters and the recognisers, for identifiers of any length.", more=" Idempotence and dotted names compare two runs and are searched only (bounded).")
CLAIMED["C19"] = dv("Bit masks, roundings and size strings for every 64-bit argument; the calculator for symbolic operands, every operator, every pair of operators, parentheses, signs and conditionals; longer expressions bounded by three operators.")
CLAIMED["C22"] = dv("Indentation by any amount keeps everything but the padding character, normalisation keeps everything visible in order, for texts of any length (folds, loop invariant over the lines); slices and counting of templates.", more=" The exact shift of every line and template expansion by text/template are searched only (bounded).")
CLAIMED["C20"] = dv("Difference, the relative path texts and the output path, for every pair of packages, prefix list and file path, with loop invariants over segments and prefixes.", more=" filepath.Join/Clean are uninterpreted; resolution of the texts is also searched on compiled code, with files written into a scratch tree (bounded).")
VIS = " The visitors are executed symbolically from their SSA; the parse trees come from the repository's own (generated, trusted) parser, with numbers as symbolic holes."
CLAIMED["C09"] = dv("Bounded: by induction over expressions, the visitors make the tree of the grammar and the printers of the nine targets write a text that the target reads as that tree, discharged per kind of node on their source for every operator, cast and integer constant, with representative operands; accessors and their fields, embedded ones included." + VIS, level="other", more=" The templates around the expressions and whole random expressions are searched on compiled code.")
CLAIMED["C10"] = dv("Enum numbering for every number, up to four entries of any form and several enums." + VIS, more=" What each target writes is searched only (bounded).")
CLAIMED["C11"] = dv("Struct sizes, dynamic flags, byte rounding, declared sizes and overflow for every width, length and size; up to three elements of thirteen kinds per struct." + VIS)
CLAIMED["C12"] = dv("Every 64-bit width for every type, array and constant; every constant value; every enum number." + VIS)
CLAIMED["C13"] = dv("Alignment for every width of up to three elements of thirteen kinds per struct, embedding and dynamic parts included." + VIS)
CLAIMED["C14"] = dv("Bounded: all patterns of equal names in scopes of up to four declarations of every kind and up to three units, discharged on the visitors' source; the table functions of a unit for arbitrary positions." + VIS, level="other")
CLAIMED["C15"] = dv("Bounded: all import graphs of three files and of four without self-imports, spellings, packages, broken imports and precheck states, discharged on the compilation functions' source.", level="other", more=" Files are those the harness makes.")
CLAIMED["C16"] = dv("Bounded: printing in every target discharged on the source for every 64-bit integer, signed or unsigned, every base and option; decimal notation of every 63-bit integer, listed notations at the ends of the ranges, texts over an alphabet of escapes discharged on the source of the visitors." + VIS, level="other", more=" Floats, strings and generated schemas are searched on compiled code.")
CLAIMED["C21"] = dv("Bounded: option names, literals of every kind (any integer), field forms, pairs of options, every unroll threshold, every combination of flags, discharged on the source of visitors, validators and option setters." + VIS, level="other", more=" The output under options and the built command are searched only.")
CLAIMED["C24"] = dv("Bounded: no panic, a placed error or sound sizes, discharged on the source of the visitors for every 63-bit number in every place for a number in schemas of one or two elements of every kind, all operators, options and accessors." + VIS, level="other", more=" Parser and targets are searched only: grammar-made, damaged and random texts, the built command.")
CLAIMED["C23"] = dv("Every function of the command, the compiler and the targets is checked against an effect contract: no map order, goroutine, package variable, address or listed impure call can reach its results; runs are also repeated and compared on the compiled code.")
