GENQ = "Every program of " + SUBSET + ", in every spelling and layout the grammar gives it"
ORACLE = "Sampled, not proved: millions of programs per run against an independent generator, model and printer, which were themselves cross-checked with acorn. Trusts those, and the stated subset."

prop("C01", "Parsing ends, without crash, for every text",
  "For every text, ratel::parse returns: no panic, abort, stack overflow or endless loop, with memory and errors bounded by a multiple of the text's length, and stack by its depth of nesting alone: a text that repeats a construct side by side, however often, or nests it a few hundred levels deep fits in the stack of an ordinary thread. A rejected text comes with at least one error. Whatever was accepted can be printed in both modes, serialised, shown with Debug, visited, scope-analysed and transformed, also without panic.",
  ["inputs"], "Every text, valid or not, in which constructs are not nested thousands deep (parser, printer and transformer are recursive)",
  "Tests feed a few dozen texts; one loop that waits for a closing bracket at the end of input, or one index off the end of the buffer, takes an input nobody wrote down.",
  [LEX] + PARSER + ["ratel/src/lib.rs"], [("end of text as a NUL byte and an EndOfProgram token", "ratel/src/lexer/mod.rs"), ("loops that end at a closing token or at an error", "ratel/src/parser/mod.rs, ratel/src/parser/expression.rs, ratel/src/parser/statement.rs"), ("one error handler that skips the failing token", "ratel/src/parser/error.rs")],
  "crash, hang, memory and error-count monitoring under hostile texts (exhaustive short ones, random, token soup, mutated, truncated, nested, large)",
  "Sampled: over a million texts a minute; nesting bounded at a few hundred levels; nesting hundreds of thousands of levels deep does overflow the stack, which is recorded as findings, by construct. A crash or hang is attributed to its input by running it alone in a process of its own under a limit on processor time.")

prop("C02", "No text makes the library touch memory it should not",
  "Whatever the text, safe calls are memory safe: parsing, using, transforming and dropping a module, reading its errors, and driving the lexer by itself never read or write outside a live object, use freed or uninitialised memory, race, or leak. Every string in a tree, an error or an output is valid UTF-8. The module keeps nothing of the caller's text, which may be changed or freed after parsing.",
  ["inputs", "histories"], "Every text; every order of uses and drops",
  "The crates read the text through a raw pointer, jump through tables by unchecked index, write output through unchecked copies and keep trees in an arena; a read one byte too far passes any test.",
  [LEX, "ratel/src/lexer/util.rs", "ratel/src/parser/expression.rs", "ratel/src/parser/statement.rs", "ratel/src/module.rs", "ratel-codegen/src/lib.rs", "ratel-transformer/src/scope.rs", "ratel/src/astgen/value.rs"],
  [("unchecked reads of the text up to a NUL byte", "ratel/src/lexer/mod.rs"), ("handler tables indexed by token and byte", "ratel/src/parser/expression.rs, ratel/src/parser/statement.rs, ratel/src/lexer/mod.rs"), ("unchecked copy and UTF-8 in the writer", "ratel-codegen/src/lib.rs"), ("erased lifetime of the module's body", "ratel/src/module.rs")],
  "AddressSanitizer with each arena item in a heap block of its own, debug assertions of the standard library, Miri, UTF-8 monitors",
  "Sampled texts. Aliasing rules (stacked borrows) are not judged: toolshed's cells break them by design. The two crates' arena, toolshed, is a patched copy (see toolshed/Cargo.toml).")

prop("C03", "Parsing a valid program gives the syntax tree ECMAScript gives it",
  "Every valid program of the supported ECMAScript subset is accepted, and the tree returned is the one the ECMAScript grammar assigns to it: same statements in the same order, operator precedence and associativity, member and call chains, patterns, classes, literals with their exact text. Redundant parentheses leave no trace.",
  ["programs", "inputs"], GENQ,
  "The tests parse a few dozen fixed snippets; precedence, nesting and context interactions between all pairs of constructs cannot be sampled by hand.",
  PARSER + [LEX], [("expression parser with binding powers", "ratel/src/parser/nested.rs, ratel/src/parser/expression.rs"), ("statement dispatch on tokens", "ratel/src/parser/statement.rs"), ("functions, classes, patterns", "ratel/src/parser/function.rs")],
  "differential monitoring of parse results against a model tree (generated programs, independent printer)", ORACLE)

prop("C04", "Text is only accepted when every token of it is accounted for",
  "A text whose brackets do not balance, where a binary operator lacks an operand, where two operands stand side by side without an operator, where a word no expression begins with takes the place of an operand, or where a value stands left of an assignment, is rejected with an error. When a text is accepted, printing the result gives back every name, literal, keyword and operator of the text, in order, with none dropped, added or repeated.",
  ["inputs"], "Every token sequence obtained from a program of the supported subset by removing, adding, swapping or repeating tokens or cutting it short",
  "Hardly any test feeds malformed text; the ways to be malformed are unbounded.",
  PARSER + [LEX, "ratel/src/parser/error.rs"], [("error recovery of the parser", "ratel/src/parser/error.rs and every `_ => self.error()` arm"), ("loops that end at a closing token", "ratel/src/parser/mod.rs, ratel/src/parser/expression.rs")],
  "mutation monitoring: texts malformed by construction must be rejected, accepted texts must keep every token", "Sampled mutants. Rejection is only demanded where the text is malformed by construction, so other invalid programs ratel accepts are outside of this property.")

prop("C05", "Every node knows where it stands in the source",
  "The start and end of every node of a parsed program lie on its own tokens: the range holds the node's text, its children's ranges are inside of it (but for a few fixed conventions listed in DESIGN.md, such as a call beginning at its parenthesis), and siblings do not overlap. The ranges written to ESTree JSON are these.",
  ["programs", "inputs"], GENQ,
  "Tests compare trees without locations, and the JSON tests pin the locations of short single-line snippets only.",
  PARSER + ["ratel/src/ast/mod.rs", "ratel/src/ast/node.rs", "ratel/src/error.rs"], [("node construction at token and child boundaries", "ratel/src/parser/mod.rs (alloc_at_loc and in_loc callers)"), ("token locations", "ratel/src/lexer/mod.rs loc, start, end")],
  "offline checking of every node's recorded range against the token positions the printer wrote", ORACLE + " Node kinds whose ranges ratel draws differently from ESTree are held to the range ratel's convention gives them.")

prop("C06", "ESTree JSON says what the program says",
  "Serialising a parsed program gives well-formed JSON with the ESTree types, fields, values, order and flags of the program: operators, kinds, computed, static, generator, prefix and shorthand flags, number values to the last digit, raw texts, and the start and end of every node. Other formats of serde, such as those that take the announced number of fields or items at its word, get the same.",
  ["programs", "configurations"], GENQ,
  "The JSON tests pin one snippet per node type; escaping, numbers and flags are value dependent.",
  ["ratel/src/astgen/mod.rs", "ratel/src/astgen/expression.rs", "ratel/src/astgen/statement.rs", "ratel/src/astgen/function.rs"], [("Serialize impls per node type", "ratel/src/astgen/*.rs"), ("literal values", "ratel/src/astgen/expression.rs")],
  "differential monitoring of the serialised JSON (own JSON parser) against JSON built from the model tree", ORACLE + " ratel's deviations from ESTree that its own tests pin are written into the model (DESIGN.md lists them).")

prop("C07", "Printing a program and parsing the output gives the same program",
  "For every program that parses, the printed text, minified or pretty, parses again to the same syntax tree, literal texts included. Printing does not change the tree it prints.",
  ["programs", "configurations"], GENQ + ", printed in both modes",
  "The tests compare printed text for fixed snippets; whether separators, quotes and parentheses are enough depends on every combination of neighbouring constructs.",
  GENF, [("parentheses by binding power", "ratel-codegen/src/expression.rs"), ("separators between statements and words", "ratel-codegen/src/statement.rs, ratel-codegen/src/lib.rs")],
  "round-trip monitoring of printed output against the parsed tree and the model tree", ORACLE)

prop("C08", "Other JavaScript engines read the printed text as the same program",
  "For every program ratel accepts as ECMAScript does, the printed text, minified or not, is ECMAScript by the judgement of independent parsers, and means the same program to them: the same tree with the same operators, names and literals. Nothing depends on how ratel itself would read it.",
  ["programs"], GENQ + ", and the JavaScript people have written",
  "Tests compare printed text with strings written down beforehand. A printer and a parser that share a misunderstanding agree with each other; only a second opinion shows it.",
  GENF + PARSER, [("the writer of expressions and statements", "ratel-codegen/src/expression.rs, ratel-codegen/src/statement.rs")],
  "differential monitoring of printed texts with acorn and V8, on generated programs and on the JavaScript installed in the sandbox",
  "Sampled. Trusts acorn (its one known confusion, about `/`, is left to V8) and the sandbox's corpus, some 75,000 pieces within the supported subset.")

prop("C09", "Printing is stable, and its two modes agree",
  "Printing what was parsed from printed text gives the same text again, in either mode. Minifying pretty output gives the minified output of the original, and prettifying minified output gives its pretty output.",
  ["programs", "configurations"], GENQ + ", for the four combinations of modes",
  "No test prints its own output again.",
  GENF, [("the two generators", "ratel-codegen/src/lib.rs")],
  "fixpoint monitoring: printed texts are parsed and printed again and compared", ORACLE)

prop("C10", "Layout, comments and optional semicolons do not change the program",
  "Two texts with the same tokens parse to the same tree, whatever white space, line terminators (LF, CR, CRLF) and comments stand between the tokens. Leaving out a semicolon where ECMAScript inserts one changes nothing either.",
  ["inputs"], "Every program of " + SUBSET + ", every arrangement of white space, line ends and comments between its tokens, and every choice of semicolons to leave out",
  "Tests use one layout per snippet; the arrangements are unbounded and the parser has a fast path per layout.",
  [LEX] + PARSER, [("white space and comment skipping, line end tracking", "ratel/src/lexer/mod.rs"), ("automatic semicolon insertion", "ratel/src/parser/statement.rs")],
  "metamorphic monitoring: six layouts of one token list against the model tree", ORACLE + " Left out: line terminators other than LF and CR, Unicode spaces, HTML-like comments.")

prop("C14", "Errors point at the token that made them",
  "Every reported error has a range that lies in the text, on character boundaries, and its raw text is the text of that range. When a valid program is broken at one place, by a character no token begins with, a closing bracket that does not fit, or by ending there, the first error is at that place. The message shown gives its line and column, quotes the lines around it one below the other, and underlines it.",
  ["inputs"], "Every text that is rejected; every token boundary of every program of " + SUBSET,
  "Two tests check the message of an error; positions depend on line ends, multi-byte characters and the place of the failure.",
  ["ratel/src/error.rs", "ratel/src/parser/error.rs", LEX], [("error handler recording the current token", "ratel/src/parser/error.rs"), ("source excerpt with underline", "ratel/src/error.rs Display")],
  "monitoring of error records and messages under hostile texts and seeded breakage at a known place", "Sampled. Where the text is broken in a way a longer token could absorb, the error only has to cover the place.")

prop("C15", "The lexer splits text as the ECMAScript token grammar does",
  "For every text, the token kinds, their ranges and texts, the line-end flag, accessor names and template texts follow from longest match over white space, comments, punctuators, keywords, identifiers, numbers, strings, templates and regular expressions. A text that has no such token at a place gives an unexpected token there, and the end of the text stays the end. The operator of a token has the token's spelling, its table entries (prefix, infix, assignment, category) are those of the grammar, and binding powers rank binary operators as ECMAScript does.",
  ["inputs"], "Every text without NUL characters and BOM",
  "The lexer tests read each token once in a clean context; the scanner is table driven with hand-written fast paths, so that behaviour depends on the bytes that follow.",
  [LEX, "ratel/src/lexer/token.rs", "ratel/src/lexer/labels.rs", "ratel/src/lexer/templates.rs"], [("byte handler table", "ratel/src/lexer/mod.rs BYTE_HANDLERS"), ("keyword recognition", "ratel/src/lexer/mod.rs, ratel/src/lexer/labels.rs"), ("operators by longest match", "ratel/src/lexer/mod.rs")],
  "lockstep monitoring against a second scanner written from the token tables", "Sampled texts: token soup, hostile and valid ones. Control characters count as white space, as ratel has it; non-ASCII characters count as identifier parts.")

VIS = ["ratel-visitor/src/lib.rs", "ratel-visitor/src/expression.rs", "ratel-visitor/src/statement.rs", "ratel-visitor/src/function.rs"]

prop("C11", "The visitor meets every node once, in order, with its parents",
  "Visiting a module calls the callback of every node of the tree exactly once, in source order, parents before children, with the node's own value and location, each set of children bracketed by one push and one pop of its parent. Statement lists, scopes entered and left, uses of references and declarations are reported at their places. Visiting from any statement gives the events of that statement, and visiting changes nothing.",
  ["programs"], GENQ,
  "There is one test of the visitor; a child left out or visited twice goes unseen in all the others.",
  VIS, [("Visitable implementations that walk the children", "ratel-visitor/src/*.rs"), ("callbacks of the Visitor trait", "ratel-visitor/src/lib.rs")],
  "trace monitoring: the events of a recording visitor against the events computed from the model tree", ORACLE)

prop("C12", "Scope analysis finds each name in the scope that declares or uses it",
  "Scope analysis of a module gives one scope per function, method, arrow, block, switch body and catch, nested as in the source, each with its parent. The names a scope lists as declared are those bound directly in it (variables, parameters, functions, classes, imports, catch parameters, destructured names), those it lists as used are those referred to directly in it, and it knows of a use of this. Looking a name up finds it exactly when it is listed.",
  ["programs"], GENQ,
  "Two tests of the analysis with one snippet each; names in patterns, heads of loops and imports, and lookups in large scopes, depend on the program.",
  ["ratel-transformer/src/scope.rs"] + VIS, [("ScopeAnalyzer as a visitor", "ratel-transformer/src/scope.rs"), ("reference events", "ratel-visitor/src/*.rs")],
  "monitoring of scope trees against those computed from the model tree", ORACLE)

prop("C13", "The ES2015 transform replaces every arrow function, and nothing else",
  "After the transform every arrow function, at any depth, has become an anonymous function expression with the same parameters, and the same body or a body returning its expression, while all other nodes, their order and locations are as before. The result can be printed in both modes, and the output parses to the same tree, without arrows. It can be visited and analysed like any tree, and transforming again changes nothing.",
  ["programs"], GENQ + " with arrow functions in any place",
  "The tests transform a handful of arrows; nesting, neighbours and the places a function expression needs parentheses in are open ended.",
  ["ratel-transformer/src/lib.rs", "ratel-transformer/src/es2015/arrow.rs", "ratel-transformer/src/es2015/mod.rs"] + VIS, [("swap of the node a pointer leads to", "ratel-transformer/src/lib.rs"), ("arrow to function", "ratel-transformer/src/es2015/arrow.rs")],
  "differential monitoring of the transformed tree and its printed forms against the transformed model", ORACLE + " The meaning of this, arguments and new.target in an arrow is not kept by the transform: a known finding.")

prop("C16", "A result depends on the text alone, and modules do not affect each other",
  "Parsing the same text gives the same tree, positions, prints, JSON, Debug text, scopes and errors each time: on any thread, beside other threads, after or among any other work, in another process, and when the source string is changed or freed after parsing. Modules alive at the same time do not affect one another, in whatever order they are dropped.",
  ["inputs", "schedules", "histories"], "Every text, every order and interleaving of parses, operations and drops on up to eight threads",
  "Tests parse, look and drop one module at a time on one thread.",
  ["ratel/src/lib.rs", "ratel/src/module.rs", LEX] + GENF[:1], [("module owning arena and source", "ratel/src/lib.rs, ratel/src/module.rs"), ("arena allocation of nodes", "toolshed, as used in ratel/src/parser/mod.rs")],
  "metamorphic monitoring of result fingerprints across repeats, interleavings, threads and processes", "Sampled orders and schedules; threads run freely behind a barrier, so the interleavings are those the machine gives.")

prop("C17", "Memory is bounded by the text and given back",
  "Once a module, or the errors of a rejected text, are dropped, all memory taken on their behalf is free again. Printing, serialising and Debug leave nothing allocated behind once their result is dropped. While parsing, memory stays within a fixed amount plus a fixed multiple of the length of the text.",
  ["inputs", "histories"], "Every text and every sequence of operations on its module",
  "No test looks at memory.",
  ["ratel/src/lib.rs"] + PARSER[:1] + ["ratel/src/error.rs"], [("arena freed with the module", "ratel/src/module.rs"), ("errors own their text", "ratel/src/error.rs")],
  "conservation monitoring with a counting allocator", "Sampled texts; the constants are 200 KB and 600 bytes per byte of text.")

prop("C18", "The WebAssembly functions give what the library gives",
  "transform gives the code generator's output for the text in the mode asked for, generate_ast the Debug text of the body and generate_ast_estree the JSON of the module, compact or indented. For a rejected text each gives `Error: ` followed by the messages of all errors, in order. None of them panics.",
  ["inputs", "configurations"], "Every text and both values of every flag",
  "The crate has no tests.",
  ["ratel-wasm/src/lib.rs"], [("exported functions", "ratel-wasm/src/lib.rs")],
  "differential monitoring of the exported functions against the library functions", "The crate is compiled natively as a library from its own source; the JavaScript glue made by wasm-bindgen is not run.")

prop("C19", "Work grows linearly with the text",
  "Parsing, printing in both modes, serialising, visiting, scope analysis, the transform and dropping take time proportional to the length of the text, for every construct repeated or chained many times: a text 32 times as long takes about 32 times as long.",
  ["inputs"], "Every construct of " + SUBSET + ", repeated, chained or (within the recursion limit) nested",
  "The tests use texts of a line or two, and measure nothing.",
  PARSER + [LEX] + GENF + ["ratel-transformer/src/scope.rs"], [("list builders with a tail pointer", "toolshed, as used in ratel/src/parser/*.rs"), ("scope maps", "ratel-transformer/src/scope.rs")],
  "monitoring of processor time per stage on texts of two sizes", "A stage is reported when the time per byte is more than eight times higher on the large text in three measurements of three, so smaller super-linear terms stay unseen.")

prop("C20", "Debug shows the tree, and equality is equality of programs",
  "The Debug text of a module's body, plain or alternate, shows every node with its kind, contents and order, so that the tree can be read back from it. Two parsed bodies are equal exactly when they are the same program: whatever layout, comments and redundant parentheses, equal; any difference in a name, literal, operator, flag or in structure, unequal.",
  ["programs"], GENQ,
  "The tests compare trees with assert_eq all over: an equality that overlooks a field would let every one of them pass.",
  ["ratel/src/ast/mod.rs", "ratel/src/ast/node.rs", "ratel/src/ast/expression.rs", "ratel/src/ast/statement.rs", "ratel/src/ast/function.rs", "ratel/src/ast/types.rs"], [("Debug and PartialEq of nodes and locations", "ratel/src/ast/mod.rs, ratel/src/ast/node.rs"), ("derived implementations", "ratel/src/ast/*.rs")],
  "monitoring of Debug texts read back by a parser of our own, and of equality under relayout and tweaks", ORACLE)

prop("C21", "Minified output carries no layout; pretty output is laid out by nesting",
  "Both modes print the same tokens. Minified output has no line break and no space other than single ones where two tokens would otherwise run together, is never longer than the pretty output, and has no parentheses, semicolons or commas that the program could do without (but for a few habits of the printer). Pretty output puts each statement, member and block item on a line of its own, indented by four spaces for each level of nesting, closing brackets back at the level of their opening line, and single spaces around binary operators, after commas, colons, semicolons and statement keywords and before bodies, and none within brackets.",
  ["programs"], GENQ,
  "The tests print some sixty short programs; indentation and spacing depend on every combination of construct and depth.",
  GENF, [("indent, dedent and pretty-only writes", "ratel-codegen/src/lib.rs"), ("layout of blocks, lists and operators", "ratel-codegen/src/*.rs")],
  "monitoring of the printed text against layout rules computed from its own tokens and the nesting of the tree", ORACLE + " A few spacing habits of the printer that carry no meaning are accepted as they are; DESIGN.md lists them.")


prop("C22", "A node that was replaced is replaced for every reader",
  "When an expression or statement of a parsed module is replaced, by Node::set or by swap, alloc, alloc_as_loc and list of TransformerCtxt, with a node from elsewhere or a newly built one, then printing in both modes, ESTree JSON, Debug, visiting, scope analysis and the transform show the edited program: the new node in that place, with the positions it was given, and all else as it was. The printed text parses to the edited program, whatever was put where.",
  ["programs", "histories"], "Every program, every place of an expression (other than targets of assignments and patterns), every sequence of edits; places of statements in lists, and bodies replaced by blocks, expression statements and throws",
  "The tests of the transform look at a few arrow functions; printing is otherwise only tried on trees as the parser makes them, whose shape (parentheses needed or not) the parser guarantees.",
  ["ratel/src/ast/node.rs", "ratel-transformer/src/lib.rs", "ratel-visitor/src/lib.rs", "ratel-codegen/src/expression.rs", "ratel-codegen/src/statement.rs"], [("cells of nodes", "ratel/src/ast/node.rs Node"), ("building and replacing nodes", "ratel-transformer/src/lib.rs TransformerCtxt"), ("parentheses where the new parent needs them", "ratel-codegen/src/expression.rs, ratel-codegen/src/lib.rs")],
  "monitoring of all readers after random edits, against the same edits of a model tree", ORACLE)

prop("C23", "A part of a program, taken on its own, is what it is in the program",
  "Any statement or expression of a parsed module can be given to a generator, a serialiser, a formatter or a visitor by itself. Printed alone, minified or pretty, it parses to that same statement or expression, and its text is the text that it has within the whole program's output; so are its ESTree JSON and Debug text; a visitor gets exactly the events of that part. A Generator of one's own receives whole characters, the same text as the built-in ones, and as many dedents as indents, never more dedents than indents before them.",
  ["programs"], "Every program, every expression and statement of it (other than assignment targets, patterns, the operand of `new`, the head of a `for`, and template parts)",
  "The tests print, serialise and visit whole modules with the built-in generators only.",
  GENF + ["ratel/src/astgen/expression.rs", "ratel/src/astgen/statement.rs", "ratel-visitor/src/lib.rs"], [("ToCode and Generator", "ratel-codegen/src/lib.rs"), ("Serialize of nodes", "ratel/src/astgen/mod.rs, ratel/src/ast/node.rs"), ("Visitable of nodes", "ratel-visitor/src/lib.rs")],
  "monitoring of all readers of random parts of a program, against the whole's output and the model of the part", ORACLE)
