"""The property list: the one source of properties.jsonl and MANIFEST.json (see gen.py)."""

L = "crates/math-core/src/lib.rs"
P = "crates/math-core/src/parser.rs"
TQ = "crates/math-core/src/token_queue.rs"
LX = "crates/math-core/src/lexer.rs"
TP = "crates/math-core/src/text_parser.rs"
TK = "crates/math-core/src/token.rs"
EN = "crates/math-core/src/environments.rs"
ER = "crates/math-core/src/error.rs"
HU = "crates/math-core/src/html_utils.rs"
SP = "crates/math-core/src/specifications.rs"
CC = "crates/math-core/src/custom_cmds.rs"
GS = "crates/math-core/src/global_state.rs"
CM = "crates/math-core/src/commands.rs"
CH = "crates/math-core/src/character_class.rs"
CD = "crates/math-core/src/color_defs.rs"
AF = "crates/math-core/src/atof.rs"
PD = "crates/math-core/src/predefined.rs"
AST = "crates/mathml-renderer/src/ast.rs"
ATT = "crates/mathml-renderer/src/attribute.rs"
ESC = "crates/mathml-renderer/src/escaping.rs"
LEN = "crates/mathml-renderer/src/length.rs"
TB = "crates/mathml-renderer/src/table.rs"
FM = "crates/mathml-renderer/src/fmt.rs"
SY = "crates/mathml-renderer/src/symbol.rs"
CLI = "crates/math-core-cli/src/main.rs"
RP = "crates/math-core-cli/src/replace.rs"
HE = "crates/math-core-cli/src/html_entities.rs"
CF = "crates/math-core-cli/src/config_file.rs"
PY = "crates/math-core-python/src/lib.rs"
WA = "crates/math-core-wasm/src/lib.rs"

I, H, C, PR = "inputs", "histories", "configurations", "programs"

PROPS = []


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note,
                      observe=observe or ["the value returned by the public conversion functions"],
                      state=state or []))


p("C01", "Conversion is total: it ends with MathML or a reported error",
  "Converting any string, under any configuration and after any history of earlier conversions, "
  "terminates and returns either MathML or an error value. It never panics, hangs, overflows an "
  "index or reports an internal error, and neither does creating a converter from arbitrary macro "
  "definitions.",
  [I, C, H], "every input string x configuration x sequence of conversions through one converter",
  "The tests sample a few hundred well-chosen expressions; the guarantee is about every string, "
  "also malformed, truncated and adversarial ones.",
  [P, TQ, LX, TP, L], [("parse loop over the token queue", P), ("UTF-8 boundary handling", LX)],
  "generated-input search (grammar, mutation, token soup) for panics, hangs and internal errors",
  "Exploration of randomly generated histories with debug assertions and overflow checks on.")

p("C02", "Output is well-formed XML and user strings stay data",
  "Every successful conversion yields exactly one well-formed XML element named math. Text, "
  "operator names, tags, labels, unknown command names and macro bodies supplied by the user "
  "appear only as character data or attribute values: no input can introduce an element, an "
  "attribute or an entity of its own choosing.",
  [I, C], "every input that converts, under every configuration",
  "Tests compare fixed snapshots; escaping has to hold at every place where a user string can reach "
  "the output, with every metacharacter.",
  [AST, ESC, HU, L, P], [("escaping writers", ESC), ("per-node emit", AST)],
  "grammar-directed fuzzing with metacharacters and canaries against an independent XML parser",
  "Exploration; the XML parser, allow-list of elements/attributes and canary rule are the oracle.")

p("C03", "Output follows the MathML Core content model",
  "Every successful conversion yields MathML in which each element has the number and kind of "
  "children MathML requires (two for a fraction or a script, three for a sub-and-superscript, rows "
  "only in tables, cells only in rows, text only in token elements), and each attribute has a "
  "syntactically valid value.",
  [I, C], "every input that converts, under every configuration",
  "Missing or surplus children arise from combinations (a switch inside an argument, an empty macro "
  "as a script base) that no fixed list covers.",
  [AST, P, TB, ATT, LEN], [("child slots of each node", AST), ("arguments and sequences", P)],
  "grammar-directed fuzzing against a MathML content-model validator",
  "Exploration against a validator written from MathML Core.")

p("C04", "Errors point into the input and render in every format",
  "Every reported error carries a byte range that lies inside the input, starts no later than it "
  "ends and falls on character boundaries, and a non-empty message. Every rendering of it (plain "
  "message with line and column, HTML, diagnostic report) succeeds, and the HTML rendering shows the "
  "source escaped.",
  [I, C], "every input that is rejected",
  "Tests pin a few error messages; spans are computed at over a hundred error sites and are only "
  "wrong for particular inputs.",
  [ER, P, TQ, LX, TP, HU], [("error construction sites", P), ("error renderings", ER)],
  "fuzzing of rejected inputs against span and rendering invariants",
  "Exploration over generated rejected inputs.")

p("C05", "Pretty-printing changes only white space between elements",
  "Switching pretty-printing on or off never changes the element tree, attributes or text of the "
  "result, only white space between elements. The automatic mode equals always for block and never for inline "
  "formulas, every pretty-printed line is indented by its nesting depth in the configured unit, and "
  "nothing is broken up inside token elements.",
  [I, C], "every input that converts x indentation settings x display style",
  "Tests pretty-print a fixed corpus in one or two styles; each node type has its own line-breaking code.",
  [AST, FM, TB, L], [("new_line_and_indent in each node's emit", AST), ("pretty-print decision", L)],
  "metamorphic relation: pretty vs. compact output of the same input, parsed and compared",
  "Exploration; indentation is recomputed independently from the parsed tree.")

p("C06", "The math element carries exactly the configured envelope",
  "The root element has the display attribute exactly for block formulas and the XML namespace "
  "exactly when configured, and changing these settings changes nothing else in the output. With "
  "annotation on, the formula is wrapped in a semantics element whose annotation contains exactly the LaTeX source, and "
  "whose first child has the same content as the output without annotation.",
  [I, C], "every input that converts x envelope settings",
  "The tests use one formula per setting; source text must survive escaping for every input.",
  [L, AST, ESC], [("math element and annotation emission", L)],
  "metamorphic relation over envelope settings, annotation round trip",
  "Exploration.")

p("C07", "Conversions are deterministic and local conversions leave no trace",
  "The result of a conversion depends only on the input, the display style, the configuration and (for "
  "global-state conversions) the global-state conversions since the last reset. Conversions with local state, and "
  "conversions before a reset, have no influence on any later result. Threads that share a converter get the same results as one after another.",
  [I, H, C], "every interleaving of local conversions, global conversions, batches and resets on one converter, and of threads",
  "Tests run one or two conversions per converter; leakage shows only in particular histories.",
  [L, GS, CC], [("local copy of the state", L), ("reset", L)],
  "stateful model-based testing: random histories compared with fresh converters",
  "Exploration over random histories of up to 9 operations.",
  state=[{"name": "global state", "meaning": "equation counter, labels, custom commands", "where": GS}])

p("C08", "Equations are numbered as in LaTeX",
  "In a numbered environment each row (for multline: only the last, for equation: the environment) gets the next number "
  "unless it is suppressed or starred, a custom tag replaces the number without consuming it, and "
  "numbers increase by one across all formulas that share a state. Rows without "
  "number carry none, and \\tag is rejected where LaTeX rejects it.",
  [I, H], "every sequence of formulas made of numbered and unnumbered environments with tags, stars and suppression",
  "The counter lives across rows, environments and conversions; tests sample single environments.",
  [EN, P, TB, GS, L], [("numbering policy per environment", EN), ("row emission", TB)],
  "stateful model-based testing against a reference numbering model",
  "Exploration against a small reference model of LaTeX numbering.",
  state=[{"name": "equation counter", "meaning": "last number given out", "where": GS}])

p("C09", "Every label and reference resolves to the equation it names",
  "A label marks the row it is written in and gives that row's element an id of the configured prefix plus the "
  "percent-encoded label. A reference links to exactly that id and shows the number or tag of that equation; a reference to a "
  "label that is not defined shows ?? and raises the undefined-reference warning, which is raised in no other case.",
  [I, H], "every sequence of labelled equations and references in any order through any entry point",
  "Resolution is a relation between distant parts of a history; tests have a handful of label pairs.",
  [P, GS, L, AST, TB, EN], [("label map", GS), ("reference emission", AST)],
  "stateful model-based testing against a reference label map",
  "Exploration against a reference label map.",
  state=[{"name": "label map", "meaning": "label to tag", "where": GS}])

p("C10", "Batch conversion equals converting one by one",
  "Converting a list of formulas as a batch gives, for every formula, the result of converting them one after the other with shared state, "
  "except that references may also point forward to labels defined later in the batch. Errors in "
  "one formula do not affect the others beyond what they do one by one.",
  [I, H], "every list of formulas",
  "Tests batch two or three fixed formulas.",
  [L, GS], [("convert_all", L)],
  "differential testing: batch vs. sequential conversion on the same list",
  "Exploration.")

p("C11", "A custom command means its body with the arguments substituted",
  "Using a custom command gives the same formula as writing its body with the arguments substituted, whether "
  "it was defined by configuration, by \\newcommand or by \\def, and however its uses are nested in one another and "
  "in other constructs, wherever a use is accepted.",
  [PR, I], "every set of macro definitions (0 to 9 parameters, macros using macros) x every use",
  "Tests use a few macros with one or two parameters; token-queue manipulation depends on lookahead and nesting.",
  [TQ, P, CC, LX], [("expansion into the token queue", TQ), ("macro storage", CC)],
  "differential testing: conversion with macros vs. conversion of the textually substituted source",
  "Exploration; bodies that begin with a script are excluded (documented limitation).")

p("C12", "Definitions take effect at once and last as configured",
  "A definition takes effect right behind it, for all later uses in the formula and no earlier one, at whatever nesting "
  "it is written. It is forgotten at the end of the formula unless it was made with \\global or \\gdef or the converter "
  "runs in the global group; then it stays for the formulas that follow until a reset, and never reaches conversions with local state.",
  [PR, H, C], "every interleaving of definitions, nesting, uses, formulas and resets",
  "Whether a redefinition reaches exactly the uses behind it depends on lookahead and history.",
  [CC, P, TQ, L, GS], [("command tables", CC), ("definitions", P)],
  "stateful model-based testing against a reference interpreter of definitions",
  "Exploration against a reference interpreter. Groups inside a formula do not limit definitions (unlike TeX); see DESIGN.md.",
  state=[{"name": "command table", "meaning": "current meaning of each custom command", "where": CC}])

p("C13", "Defining commands obey LaTeX's rules",
  "\\newcommand rejects a name that is already taken, \\renewcommand one that is not, \\providecommand keeps "
  "an existing meaning, and \\def always succeeds. \\let copies the meaning a command has at that moment, so that later "
  "redefinitions of the original do not change the copy, whereas a command defined by a body sees later redefinitions.",
  [PR, H], "every sequence of definitions over built-in, configured and new names",
  "Tests check one order of each; interaction of copies and redefinitions is a matter of history.",
  [P, CC, TQ], [("definition commands", P), ("copied meanings", CC)],
  "stateful model-based testing against a reference interpreter of definitions",
  "Exploration.")

p("C14", "The expansion limit is exact and bounds expansion",
  "A formula whose custom commands expand at most as often as the configured limit converts exactly as with an unlimited "
  "setting, and one that needs more is rejected with the expansion-limit error, also for "
  "recursive macros. The count starts afresh for every formula.",
  [PR, C], "every macro program x every limit",
  "Tests check one recursive macro at the default limit.",
  [P, TQ, L], [("expansion counter", P)],
  "metamorphic search over the limit: threshold at the exact number of expansions",
  "Exploration; the number of expansions is known by construction.")

p("C15", "Ignoring unknown commands changes nothing else",
  "With unknown commands ignored, an input without unknown commands gives the same result and no unknown-command warning. "
  "An input with unknown commands converts, shows each of them by name with the configured class, raises "
  "the warning, and is rejected when they are not ignored.",
  [I, C], "every input x unknown commands at any position",
  "Tests have one unknown command at top level.",
  [P, TQ, L, CC, AST], [("unknown command token", TQ), ("warning flag", P)],
  "differential testing between the two settings with unknown commands planted anywhere",
  "Exploration.")

p("C16", "White space and comments between tokens do not matter",
  "Adding, removing or changing white space, line breaks or comments between the tokens of a formula "
  "in math mode never changes the result, as long as a control word stays separated from a following letter "
  "and a run of primes stays together with the superscript behind it.",
  [I], "every formula x every placement of white space and comments",
  "Tests have single spaces at usual places only.",
  [LX, TQ, P], [("white-space skipping", LX), ("peeking past white space", TQ)],
  "metamorphic relation: the same token list printed with different spacing",
  "Exploration.")

p("C17", "Braces that only delimit an argument do not matter",
  "An argument consisting of one token gives the same formula with and without braces (large operators and function names apart, "
  "which take their scripts along, and commands that stand for several tokens, of which a bare argument is the first), redundant braces around an argument "
  "that is one atom change nothing, and a group gives the same content and spacing as that content without braces "
  "where its ends are ordinary atoms. The spacing attributes of an operator that stands alone in an argument are not part of this.",
  [I], "every command with arguments x argument shapes",
  "Argument parsing differs per command; tests use one form each.",
  [P, TQ], [("argument parsing", P)],
  "metamorphic relation on argument delimiters",
  "Exploration.")

p("C18", "Text content is preserved",
  "The visible text of \\text and its relatives is exactly the given characters: each character, run of white space, escaped "
  "symbol, text command and accent appears once, in order, whatever the nesting of text commands and groups. A text style "
  "reaches over exactly its argument, and a size declaration to the end of its group.",
  [I], "every text string over all of Unicode and all text commands",
  "Tests check short ASCII texts.",
  [TP, P, ESC, AST], [("text parser", TP)],
  "differential testing against a reference text-mode interpreter",
  "Exploration against a reference interpreter of text mode.")

p("C19", "Math alphabets map each letter to its Unicode counterpart",
  "Every font command maps every letter, digit and Greek letter to the corresponding Unicode mathematical "
  "alphanumeric symbol (with the historical exceptions of the Letterlike block) and leaves every other character alone, "
  "alone or inside longer expressions.",
  [I], "every font command x every character, exhaustively, and random expressions",
  "Tests sample a few letters per font; the holes in the Unicode ranges are the risk.",
  [ATT, P, AST, CM], [("character transformation", ATT)],
  "exhaustive enumeration plus generated expressions against tables built from Unicode",
  "Exhaustive over font x character; exploration for compositions.")

p("C20", "Lengths are converted exactly",
  "A dimension in any supported unit appears in the output as the equivalent length (numerically equal under TeX's unit "
  "ratios, absolute units on the basis of 10pt to 1rem), with its sign and wherever it stands. Nested raised boxes add up. "
  "A malformed number, an unknown unit, or a text unit in place of a math unit (or the reverse) is rejected rather than misread.",
  [I], "every decimal number x unit x command that takes a length",
  "Tests have a few round numbers.",
  [SP, AF, LEN, P], [("length parsing", SP), ("number parsing", AF), ("length printing", LEN)],
  "generated numbers and units against exact rational arithmetic",
  "Exploration; tolerance of single-precision rounding.")

p("C21", "Colours are the requested colours",
  "A colour name gives its colour in the palette and an rgb, RGB or HTML specification exactly the sRGB colour it denotes, on exactly "
  "the content it applies to: up to the end of the group or cell, or the argument. An unknown name and a malformed "
  "specification are rejected.",
  [I], "every named colour, hex, rgb and gray specification x context",
  "Tests check two or three colours.",
  [CD, P, AST], [("colour table", CD), ("colour scope", P)],
  "exhaustive names plus generated specifications against an independent colour table",
  "Exhaustive over names; exploration of specifications and contexts.")

p("C22", "Tables keep their cells, alignment and rules",
  "A table or matrix has one row per line and one cell per column entry, in order, with the content that "
  "was written there, never loses or merges a cell, and gives each cell the alignment and each border the rules "
  "(solid and dashed, single and multiple) of its column specification and horizontal rules; fences and numbers stay outside the cells.",
  [I], "every environment x every grid x column specification x rule placement",
  "Tests show single tables; alignment and border bookkeeping depend on position.",
  [EN, TB, P, SP], [("row and cell separators", P), ("table emission", TB), ("column specification", SP)],
  "generated grids against a reference table model",
  "Exploration against a reference model.")

p("C23", "Negation negates exactly the next symbol",
  "\\not in front of a relation gives the negated relation's Unicode character where there is one and otherwise the "
  "relation with a combining slash, keeps its scripts and spacing, and never affects anything but the one symbol that follows. The same holds for the other "
  "overlays and for other symbols, where they are accepted.",
  [I], "every symbol x context",
  "Tests cover about ten relations.",
  [P, SY, CM], [("negation of symbols", SY)],
  "exhaustive enumeration of symbols against Unicode canonical composition",
  "Exhaustive over symbols; exploration for contexts.")

p("C24", "A symbol typed as Unicode equals its command",
  "Typing a symbol's Unicode character directly gives the same formula as its command wherever the symbol may "
  "occur, including in scripts, after \\not, as delimiter and under font commands.",
  [I], "every symbol command with a Unicode equivalent x context",
  "Tests cover a few characters.",
  [LX, CH, CM, P], [("character classification", CH), ("command table", CM)],
  "differential testing of command vs. character over all commands and random contexts",
  "Exhaustive over commands, exploration over contexts; commands that differ by design are listed.")

p("C25", "The command-line tool replaces exactly the formulas",
  "In a document, the command-line tool replaces each delimited formula by its conversion and leaves every other "
  "byte as it was, for any choice of delimiters. Unbalanced, mismatched or nested delimiters are reported, "
  "and escaped delimiters are left alone when so configured.",
  [I, C], "every document x every choice of delimiters",
  "Tests use short documents with common delimiters.",
  [RP, CLI, HE], [("delimiter scanner", RP)],
  "differential testing of the built binary against a naive reference replacer plus the library",
  "Exploration through the real binary.")

p("C26", "HTML entities in formulas are decoded",
  "In documents, references to the five characters reserved in HTML (& < > and both quotes, by name or decimal number) inside formulas "
  "are decoded exactly once before conversion, wherever in the formula they stand (except directly after another ampersand), and everything else, "
  "other references, incomplete ones and bare ampersands included, is left as it is.",
  [I], "every string of references and near-references",
  "Tests check a handful of entities.",
  [HE, RP], [("entity decoder", HE)],
  "generated references against an independent decoder, through the real binary",
  "Exploration through the real binary.")

p("C27", "The command-line tool changes files only as asked",
  "The command-line tool modifies a file only when asked to write and when its content changes, treats only HTML "
  "files in recursive mode, never touches anything in a dry run or when a formula fails, and its exit code tells "
  "success, I/O failure and conversion failure apart.",
  [H, C, I], "every directory tree x flag combination",
  "Tests run on single strings, not on file trees.",
  [CLI, RP], [("file handling", CLI)],
  "stateful testing of the binary on generated directory trees against a file-system model",
  "Exploration in scratch directories.")

p("C28", "A configuration file means the same as the API configuration",
  "Converting with settings and macros from a configuration file gives the same result as the library with the same settings. "
  "Settings left out have the documented defaults, ill-typed settings and bad macros are rejected with their own exit codes, and a "
  "file named explicitly takes the place of the default one.",
  [C, I], "every configuration x input",
  "Tests parse one configuration file.",
  [CF, CLI, L], [("configuration file", CF), ("deserialisation", L)],
  "differential testing of the binary with generated TOML against the library",
  "Exploration.")

p("C29", "The Python package gives the same results as the library",
  "Every option, conversion, batch, reset, warning and error of the Python package gives the same result as "
  "the Rust library for the same input and history, and failures are Python exceptions or inline error HTML as requested. "
  "Conversions from several threads give what they give one after another, in some order.",
  [I, C, H], "every configuration x history",
  "Python tests cover a few examples.",
  [PY], [("bindings", PY)],
  "differential testing of the built extension module against the Rust library on generated histories",
  "Exploration.")

p("C30", "Operators get TeX's spacing",
  "The spacing of an operator depends only on its class and those of its neighbours as in TeX: relations and "
  "binary operators are spaced only between operands, unary signs are not, and the result is the same wherever the operator came "
  "from (character, command, macro).",
  [I], "every sequence of atoms of all classes",
  "Tests show single operators; spacing depends on both neighbours and context.",
  [P, SY, AST], [("operator classes", P), ("default spacing", SY)],
  "generated atom sequences against TeX's class rules",
  "Exploration.")

p("C31", "Formulas compose: a construct contains what was written in it",
  "The conversion of a construct contains the conversions of its parts, in order, and the conversion of a sequence is the sequence of the conversions. "
  "No part is lost, duplicated or moved out of its construct.",
  [I], "every formula built from the supported constructs",
  "Tests show each construct with one simple content.",
  [P, AST], [("recursive descent", P)],
  "generated formulas with their intended structure: marks recovered from the output tree",
  "Exploration with an independently generated intended tree.")

p("C32", "Abbreviations and options mean what they stand for",
  "A built-in abbreviation (\\iff, \\pmod, \\bra, \\set, \\colonequals, \\binom, \\lim, \\quad, pmatrix, ...) gives the same result as what LaTeX defines it "
  "to be, wherever it stands, in macros too. The options unicode_substitution and allow_unreliable_rendering change the commands "
  "they are about and nothing else.",
  [I, C], "every abbreviation in every formula, under all settings of the two options",
  "Tests show each abbreviation once; what it stands for depends on its place (style, neighbours, macros).",
  [CM, PD, P], [("command table", CM), ("definitions", PD)],
  "metamorphic relation: abbreviation vs. its definition in generated formulas, and outputs with and without the options",
  "Exploration with a table of definitions taken from LaTeX, amsmath, mathtools, braket and colonequals.")

p("C33", "Delimiters stretch exactly when asked to",
  "The delimiters of \\left, \\middle and \\right and the fences of constructs grow with what they enclose, those of \\big and its kin have "
  "the requested one of the four sizes, and arrows and accents that are to stretch do. Every other symbol keeps its size wherever it stands.",
  [I], "every delimiter, arrow and accent in every construct",
  "Tests show single delimiters; whether a symbol stretches in MathML depends on the browser's dictionary and on where it stands.",
  [P, SY, AST], [("delimiters", P), ("stretchy attributes", AST), ("symbol table", SY)],
  "generated formulas with the intended size of every delimiter, against the size the MathML operator dictionary and attributes give it",
  "Exploration with an independently generated intended tree.")

p("C34", "Font commands distribute over their content",
  "A font command applied to a formula gives the same symbols as applied to each of its letters, ends with its argument, and the innermost one wins.",
  [I], "every font command x formula",
  "Tests apply fonts to one letter.",
  [P, AST, ATT], [("font state", P)],
  "metamorphic relation: font of a sequence vs. sequence of fonts",
  "Exploration.")

p("C35", "Every symbol is set in TeX's style",
  "Each symbol gets the size and style (display, text, script, scriptscript) that TeX gives it: by its place in fractions, scripts, roots, limits, accents and "
  "tables, by style commands up to the end of their group, and by the constructs that set a style of their own.",
  [I], "every formula built from the supported constructs, in both display modes",
  "Tests show single constructs; the style of a symbol depends on everything around it.",
  [P, AST], [("style tracking", P), ("displaystyle and scriptlevel attributes", AST)],
  "generated formulas with the style of every symbol by TeX's rules, against the style the MathML rules give it in the output",
  "Exploration with an independently generated intended tree; constructs left out are known findings.")

p("C36", "Structural mistakes are reported, sound formulas are not",
  "A formula with a structural mistake (a missing or superfluous brace, \\end, \\left or \\right, constructs that cross, the end of another environment, a second "
  "sub- or superscript, a missing argument, a stray $, #1, & or \\limits, an unknown command, environment or colour, ...) is rejected, also when the mistake comes out "
  "of a macro; a misplaced $ or #1 and an unknown command are reported at the place where they stand; a formula without a mistake is accepted.",
  [I], "every formula built from the supported constructs, with at most one mistake at any place in it",
  "Tests show single mistakes in short formulas; whether one goes unnoticed depends on the tokens and constructs around it.",
  [P, "crates/math-core/src/token_queue.rs", "crates/math-core/src/error.rs"], [("closing tokens and arguments", P)],
  "formulas generated as lists of pieces known to be sound, with one piece removed, exchanged, swapped or inserted so that the result is unsound in LaTeX",
  "Exploration; what math-core deliberately tolerates (\\middle outside \\left, extra columns) is not claimed.")

p("C37", "Numbers stay whole, and scripts and arguments apply to what they stand at",
  "Digits, with single points between them and white space or comments anywhere among them, are one number in the output, with exactly these characters; a point that "
  "is not between two digits and every letter stand alone; a script applies to the whole number (or group, or letter) in front of it, while an argument or script without "
  "braces takes a single digit or letter; braces group, and a group of one element is that element.",
  [I], "every sequence of digits, points, letters, punctuation, groups, scripts and commands with arguments, wherever it stands",
  "Tests show 12.5 and a few scripts; where numbers end depends on the tokens, comments and groups around them.",
  [P], [("numbers and arguments", P)],
  "token sequences read by an independent reference reader (maximal numbers, single-token arguments) and compared with the elements of the output",
  "Exploration with an independent reference reader; macros that supply part of a number are left out, since the start of a macro ends a number.")

NOT_APPLICABLE = {
}
PENDING = "Planned; its check is not built yet."
