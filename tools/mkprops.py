#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
T = "generator/target/"
TG = [T+"c/c.go", T+"cpp/cpp.go", T+"csharp/csharp.go", T+"java/java.go", T+"golang/golang.go",
      T+"commonjs/commonjs.go", T+"esm/esm_encode.go", T+"esm/esm_decode.go", T+"esm/esm.go",
      T+"python/python.go", T+"kotlin/kotlin.go", T+"kotlin/kotlin_encode.go", T+"kotlin/kotlin_decode.go"]
P = []
def p(id, title, st, over, qt, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Encoders write every fixed-width field at its declared bits",
  "In every target language the generated encoder writes each integer, boolean, enum and float field at the bit offset fixed by declaration order and declared widths: bit i of a little-endian field goes to data bit offset+i (least significant bit first inside a byte), and a big-endian field has its 8-bit groups in the opposite order. No bit belonging to another field is changed, whatever values the fields hold. Two targets given the same schema and values therefore produce identical bytes.",
  ["inputs", "programs"], "all values of all fields; all widths 1..64, start positions within a byte, both byte orders, all nine targets",
  "The end-to-end matrix samples a few widths, offsets and boundary values; the bit position formula depends on (offset mod 8, width, order, type) and on every value bit.",
  TG, [("chunking of a field into data bytes (encode)", T+"*/generateEncodeImpl"), ("data-byte expressions per type", T+"*/generateEncode*")],
  ["generated encode functions"])
p("C02", "Decoding returns exactly the encoded field values",
  "In every target language, decoding a buffer gives each integer, boolean, enum and float field the value stored in its declared bits, for every possible buffer content; signed fields narrower than their type are sign-extended from their top declared bit. Hence decode(encode(v)) equals v for every v whose fields fit their declared widths.",
  ["inputs", "programs"], "all buffer contents and field values; all widths, start positions, orders, all nine targets",
  "Tests round-trip a handful of values; a wrong mask, shift or sign bit shows only for particular widths, offsets and value bits.",
  TG, [("chunking of a field into field bytes (decode)", T+"*/generateDecodeImpl"), ("sign extension", T+"*/generateDecode* sign extension")],
  ["generated decode functions"])
p("C03", "Constant fields are always written and always enforced",
  "Encoding writes the declared value of every constant field at its declared bits regardless of the state of the object. Decoding fails whenever any bit of a constant field, including one inside a nested or embedded struct, differs from the declared value, and does not fail for that reason otherwise.",
  ["inputs", "programs"], "all buffer contents, all constant widths/orders/types, all nine targets",
  "Tests flip one or two constants; the check must reject each of the 2^n-1 other bit patterns and accept the declared one.",
  TG+["definition/field.go"], [("constant emission and comparison", T+"*/GenEncodeConstant, GenDecodeConstant")], ["generated decode result"])
p("C04", "Arrays and nested or embedded structs are laid out consecutively",
  "Array elements occupy consecutive bit ranges of the element width starting at the array's position, in index order; a nested struct occupies exactly its own encoding at its position; an embedded struct's fields appear as if declared in place. Encoding and decoding use the same positions for every element, also when encoding or decoding at a non-zero start position and after variable-length fields.",
  ["inputs", "programs"], "all element values, element widths, lengths, nesting shapes, start positions, all nine targets",
  "Tests use a few array lengths and start at position zero; element positions depend on index, width, start, unrolling and preceding dynamic fields together.",
  TG+["compiler/proto_visitor.go"], [("array loops and unrolled element code", T+"*/generateEncodeArray*, generateDecodeArray*"), ("embedding", "compiler/proto_visitor.go VisitFieldEmbedded")], ["generated encode/decode functions"])
p("C05", "Strings and byte blobs are framed so that decode inverts encode",
  "A string is written as its UTF-8 bytes followed by one zero byte; a byte blob is written as its length in little-endian groups of seven bits with a continuation flag followed by its content; everything after it is shifted by exactly that many bytes. Decoding inverts this for every content without zero bytes (strings) and every length (blobs), and fields following a dynamic field are placed and read after it.",
  ["inputs", "programs"], "all contents and lengths incl. the 7-bit group boundaries, all positions among other fields, all nine targets",
  "Tests use short payloads; length groups of three or more bytes and combinations with following packed fields are not reached.",
  TG, [("string/bytes codecs", T+"*/GenEncodeString, GenEncodeBytes, GenDecodeString, GenDecodeBytes")], ["generated encode/decode functions"])
p("C06", "Reported sizes agree with the bytes really used",
  "The size an object reports before encoding equals the number of bytes the encoder writes and returns; the static size constant equals the size of the fixed part. Given a complete frame followed by anything, the size probe returns the frame's length, and decode consumes exactly that many bytes; given too little data it returns a negative number whose magnitude is greater than the data given and never greater than the true frame length.",
  ["inputs", "programs"], "all object contents, all data prefixes, all nine targets",
  "Every prefix of every encoding is one case; tests probe a few prefixes of a few messages.",
  TG+["definition/struct.go"], [("encode size, decode size", T+"*/generateEncodeSize, generateDecodeSize")], ["encode_size, decode_size, encode, decode results"])
p("C07", "Probing or decoding never reads outside the given data",
  "For arbitrary bytes of arbitrary length, the size probe of every target, and decode in the targets whose decode is given the length of the data and checks it, never read a byte outside the data and never accept a length larger than the data. Truncated or malformed data is reported as a failure, not as a crash or a value made of missing bytes.",
  ["inputs", "programs"], "all byte strings of all lengths, all schema shapes, all nine targets",
  "Malformed data is an adversarial space: tests contain a few truncated and overlong inputs per target.",
  TG, [("bounds checks of the size probe", T+"*/generateDecodeSize"), ("probe before decode", T+"*/generateDecode")], ["decode_size and decode results"])
p("C08", "Code-generation options never change the wire format",
  "For every schema, the bytes produced and the values recovered are the same under every combination of loop-unroll threshold, sign-extension method, decimal-number, memory-copy, compatible, minimal, inner-class, single-file and relative-path options. The options change only the shape of the generated code.",
  ["configurations", "inputs", "programs"], "all option combinations a target accepts, all schemas and values",
  "The option matrix of the tests varies one option at a time on one schema.",
  TG+["generator/gen/gen_option.go", "generator/gen/gen_dispatcher.go"], [("unroll threshold, sign extension, number formatting", "generator/gen, "+T+"*")], ["generated encode/decode functions"])
p("C09", "Custom accessors compute the declared expression",
  "A custom getter returns, and a custom setter stores in its own field, the expression written in the schema applied to the stored or given value: in the generated code, as the target language groups it, every operator of the schema is the target's own operator of that meaning on the same operands, with the precedence and grouping of the schema's grammar (bubbler.g4: '**' and '?:' group to the left, a sign directly before a literal belongs to the constant), casts are to the target's type that stands for the named one, and constants have their value. This holds in every target language that accepts the expression, for fields of embedded structs too.",
  ["inputs", "programs"], "all expressions of the grammar, all argument values, all nine targets",
  "Tests contain three or four expressions; operator precedence and grouping errors appear only for particular operator combinations.",
  ["definition/expr.go", "compiler/proto_visitor.go", "generator/gen/gen_dispatcher.go"]+TG, [("expression tree construction", "compiler/proto_visitor.go VisitExpr*"), ("expression printing", T+"*/GenExpr*")], ["generated accessor bodies"])
p("C10", "Enum numbering is the declared one in every target",
  "An enum value with an explicit number has that number; one without has the number of the value declared just before it plus one (zero when first). Every target's generated enum lists every value of the schema, in order, with exactly that number, and a field constant naming an enum value uses that number.",
  ["inputs", "programs"], "all enum declarations, all nine targets", "Tests declare a few small enums with in-range numbers.",
  ["compiler/proto_visitor.go", "definition/enum.go"]+TG, [("auto-numbering", "compiler/proto_visitor.go VisitEnum*"), ("enum emission", T+"*/generateEnum")], ["generated enum definitions"])
p("C11", "A struct's size is the exact sum of its fields and is enforced",
  "The size computed for a struct is the sum of the sizes of its fields (an embedded struct counted once, an array as element size times length), it is flagged dynamic exactly when some field is variable-length, and its size is a whole number of bytes or the schema is rejected. A declared struct size different from that sum, or declared on a dynamic struct, is rejected; no size arithmetic wraps around.",
  ["inputs"], "all field lists, widths, lengths and declared sizes", "Tests have one or two mismatching sizes; sums, products and wrap-around cannot be sampled.",
  ["definition/struct.go", "definition/field.go", "compiler/proto_visitor.go", "definition/type.go"], [("field size sum", "definition/struct.go SumFieldBitSize, ForEachField"), ("declared size check", "compiler/proto_visitor.go VisitStruct")], ["compile errors, generated sizes"])
p("C12", "Field widths outside what the type can carry are rejected",
  "A field declared narrower than one bit, wider than its type, or with a width where the type does not allow one (strings, blobs, and structs and arrays of structs other than their own width) is rejected; every width from one bit up to the type's width is accepted for integers, booleans, floats and enums, and a field without a width gets its type's width. Constant values and enum numbers that do not fit the declared width are rejected.",
  ["inputs"], "all types and all declared widths", "Widths form a 64-bit space per type; tests try a few.",
  ["compiler/proto_visitor.go", "definition/type.go", "definition/literal.go"], [("width validation", "compiler/proto_visitor.go VisitFieldNormal/VisitFieldConstant/VisitSize")], ["compile errors"])
p("C13", "Content that must start on a byte boundary is never misaligned",
  "Strings, byte blobs and fields of struct type (and arrays of them; an embedded struct counts as the fields it brings in) are accepted only where their position is a multiple of eight bits, counted from the start of the struct or from the end of the last variable-length field; every misaligned use is rejected and no aligned use is rejected for that reason.",
  ["inputs", "programs"], "all field sequences", "Alignment depends on the sum of all preceding widths; tests contain one or two misaligned schemas.",
  ["compiler/proto_visitor.go", "definition/struct.go", "definition/field.go"], [("alignment check", "compiler/proto_visitor.go VisitStruct/VisitField")], ["compile errors"])
p("C14", "No two declarations of one scope share a name",
  "Within a struct (fields including those brought in by embedding, and accessor names), within an enum, and within a compilation unit including its imports, a second declaration of the same name is rejected with an error and the first declaration stays in force; distinct names are never reported as duplicates, also when the same file is imported along several paths.",
  ["inputs", "programs"], "all sets of declarations and import graphs", "Duplicates arise from combinations (embedding twice, diamond imports); tests have two or three.",
  ["definition/compilation_unit.go", "definition/struct.go", "definition/enum.go", "util/ordered_map.go", "compiler/proto_visitor.go", "compiler/import_visitor.go"],
  [("scope insertion", "definition/compilation_unit.go AddLocalType, AddLocalName, AddGlobalType, AddGlobalName"), ("field/enum insertion", "compiler/proto_visitor.go")], ["compile errors"])
p("C15", "Import graphs: cycles rejected, each file compiled once, dependencies first",
  "Compiling a file succeeds only if its import graph is acyclic; a cycle of any length, including a file importing itself, is reported as an error and never loops. Every reachable file is compiled exactly once whatever the number of import paths, each after all files it imports, and two different files with the same package are rejected.",
  ["programs", "histories"], "all finite import graphs", "Tests contain one cycle and one diamond; the ordering must hold for every graph.",
  ["compiler/compilation_runtime.go", "compiler/import_visitor.go", "definition/package.go", "util/ordered_map.go"], [("compile stack and unit table", "compiler/compilation_runtime.go compile, precheckFilePath, precheckPackageName")], ["compile result, order of generated units"])
p("C16", "Literals keep their value from schema to generated code",
  "An integer, float, boolean or string literal written in a schema in any accepted notation denotes the usual value, is rejected if it cannot be represented (an integer whose magnitude takes more than 63 bits is), and appears in the generated code of every target, whatever base is chosen for printing, as a literal of that target with the same value.",
  ["inputs"], "all literals in all notations, all targets and the decimal-number option", "Literal space is infinite: 64-bit boundaries, signs, escapes and bases are sampled by a handful.",
  ["compiler/literal_visitor.go", "definition/literal.go", "generator/gen/gen_dispatcher.go", "util/type.go"]+TG, [("literal parsing", "compiler/literal_visitor.go"), ("integer literal formatting", "generator/gen/gen_dispatcher.go MakeIntLit, FormatIntLiteral")], ["generated constants"])
p("C17", "Name conversions never lose or merge name content",
  "Converting an identifier between naming styles keeps all its letters and digits in order, changing only case and separators; converting an already converted name to the same style leaves it unchanged for snake_case, for camelCase of names that start with a letter, for PascalCase results with a small letter and for ALLCAP results without digits (the other results are words the styles read differently, as A1A). The all-capitals and all-small recognisers accept exactly the names made of such letters, digits and underscores, and so everything the converters to those styles produce from an identifier.",
  ["inputs"], "all identifiers", "Identifier space is infinite; tests list a few dozen names.",
  ["util/name_style.go"], [("conversions", "util/name_style.go ToPascalCase, ToCamelCase, ToSnakeCase, ...")], ["generated names"])
p("C18", "The insertion-ordered table behaves as one for every operation sequence",
  "After any sequence of put, must-put, anonymous put, get, has, rank, remove, clear and sub-range operations, the table holds exactly the entries put and not removed, lookup by key returns the value last stored under that key and rank its position, keys are unique (anonymous entries have none and are never found by key), and the iteration order is the order of first insertion; a failed operation leaves it unchanged.",
  ["histories"], "all operation sequences and keys", "Histories are unbounded; there are no direct tests of this container.",
  ["util/ordered_map.go"], [("ordered map", "util/ordered_map.go")], ["table contents and iteration order"])
p("C19", "Template arithmetic and bit helpers compute what they say",
  "Arithmetic in code templates over integers evaluates with the usual precedence of its operators, operators of equal precedence from the left, and parentheses, with results as 64-bit integers; rounding of bit counts to bytes, size strings and lowest/highest-bit masks equal their mathematical definitions for every argument in range.",
  ["inputs"], "all expressions and all integer arguments", "Tests evaluate no boundary arguments; masks and roundings have off-by-one traps at multiples of eight and at 64.",
  ["util/calc.go", "util/bitwise.go", "util/size.go", "util/template.go"], [("calculator", "util/calc.go"), ("bit masks", "util/bitwise.go"), ("size strings", "util/size.go")], ["template output"])
p("C20", "Output and import paths stay inside the output directory and resolve",
  "A generated file is placed at the output directory joined with the unit's path after removing the first configured prefix that is a leading path-segment sequence of it, never outside the output directory. The relative path from one package or file to another resolves, from the first's location (the package's own directory where a package is a directory, as in Go), to the second's location, for all package pairs; a path that would leave the output directory is refused.",
  ["inputs", "configurations"], "all package pairs, output directories and prefix lists", "Package pairs are quadratic and unbounded; tests list a few pairs.",
  ["generator/gen/gen_ctx.go", "definition/package.go", "fileio/path.go", "generator/gen/gen_option.go"], [("relative package path", "definition/package.go Difference, ToRelativePath, ToPyRelativePath"), ("output path", "generator/gen/gen_ctx.go WriteFile")], ["paths of files written, include/import lines"])
p("C21", "Options are validated against the declared option set",
  "An option statement or field option with a name known for that position is accepted exactly when its value has the declared type (and, for an order, is one of the two), and its value is then the one used; a repeated option is rejected; an unknown name is reported by a warning and has no effect, and an omitted option behaves as its documented default. Command-line settings outside their documented values are rejected before any file is written, and each setting takes effect as the one it names.",
  ["inputs", "configurations"], "all option names, values and positions", "The tests set each option once with a good and at most one bad value.",
  ["compiler/option_validator.go", "compiler/info_visitor.go", "definition/option.go", "generator/gen/gen_option.go", "generator/gen/gen_util.go", "main.go"], [("option validation", "compiler/option_validator.go"), ("command-line options", "generator/gen/gen_option.go")], ["compile errors, exit status"])
p("C22", "Text post-processing changes only layout",
  "Indentation, template expansion and generated-text normalisation never drop, duplicate or reorder non-blank content of the generated text; indenting shifts every non-empty line by exactly the requested amount.",
  ["inputs"], "all texts", "Texts are unbounded; tests only exercise the shipped templates.",
  ["util/indent.go", "util/template.go", "generator/gen/gen_ctx.go"], [("indent", "util/indent.go"), ("template expansion", "util/template.go"), ("normalisation", "generator/gen/gen_ctx.go")], ["generated text"])
p("C23", "Generation is a function of schema and options",
  "Compiling the same schemas with the same options always yields byte-identical output files, whatever the process, hash seeds, working directory or spelling of the paths, and whatever other generators did before in the same process.",
  ["histories", "configurations"], "all repetitions of all runs", "A test run sees one schedule of map iteration; nondeterminism shows up rarely.",
  ["util/ordered_map.go", "definition", "compiler", "generator"], [("insertion-ordered tables instead of map iteration", "util/ordered_map.go")], ["output files"])
p("C24", "The compiler ends with a result or an error for every input",
  "For every schema text the compiler terminates with generated output or with an error message that names the file, with the line for an error in the text of a schema; it never crashes while memory suffices, and no size or length computed for an accepted schema is a wrapped-around number.",
  ["inputs"], "all schema texts", "Crashing inputs are outside what the tests list; overflow needs values near 2^63.",
  ["compiler/proto_visitor.go", "compiler/literal_visitor.go", "compiler/info_visitor.go", "compiler/import_visitor.go", "definition/literal.go", "main.go"], [("visitors", "compiler/*.go"), ("size arithmetic", "compiler/proto_visitor.go VisitSize")], ["exit status and messages"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(d, ensure_ascii=False)+"\n" for d in P))
for d in P:
    assert len(d["title"]) <= 80, d["id"]
