"""The properties, and how each is decided. `python3 drivers/rules.py` writes properties.jsonl and
MANIFEST.json from this."""
import json, os

MC, R = "crates/math-core/src/", "crates/mathml-renderer/src/"
I, H, C, S, PR, F = "inputs", "histories", "configurations", "schedules", "programs", "fault_sequences"

P = []


def prop(id, title, statement, over, text, why, files, mech, rule, technique, note, assume=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule,
                  technique=technique, note=note, assume=assume, level=level))


prop("C01", "Every conversion returns markup or an ordinary error",
     "For every input string, display style and configuration, creating a converter and converting with it in any mode returns either markup or an ordinary error: "
     "it never panics, aborts, overflows the stack, loops without end or reports an internal error. "
     "Memory stays proportional to the input, except where custom commands multiply it, which their limits bound.",
     [I, C, H], "all strings (hostile soups, deep and wide nesting, exploding custom commands, malformed definitions), all configurations",
     "tests convert a fixed list of formulas with ordinary nesting; a panic, overflow or endless loop needs an input nobody thought of",
     [MC + "parser.rs", MC + "lexer.rs", MC + "token_queue.rs", R + "ast.rs"],
     [("nesting limit and error returns", MC + "parser.rs"), ("expansion and token limits", MC + "token_queue.rs")],
     "A case converts one generated input (soups of command fragments, commands with odd arguments, deep or wide nesting, exploding definitions, mutated corpus formulas) under a random configuration; "
     "it counts as non-trivial when a converter could be made and at least one conversion was observed to return; distinct by input, style and configuration. "
     "Odd shards run the production build on small stacks (2 MB), even shards the build with debug assertions and overflow checks.",
     "totality monitor: panic hook, crash/hang isolation, allocation accounting on debug-assertion and production builds",
     "Any panic, abort, stack overflow, internal error, case of more than 60 s CPU time or disproportionate memory on the executed inputs is reported.",
     ["a 2 MB stack (the default of Rust threads) is what a caller provides in production builds"])

prop("C02", "The output is well-formed and nothing in the input can inject markup",
     "Whatever legal text the input, its custom commands and the error texts contain, the output parses as XML with a single math root (error output: as one HTML element). "
     "Only the elements, attributes and attribute values of the converter's own vocabulary occur; characters of the input appear in it only as escaped text.",
     [I, C], "all inputs of XML-legal characters, all configurations with trusted CSS class and id prefix",
     "tests look at the exact output of some formulas, never at hostile text in every place where text can end up",
     [R + "escaping.rs", R + "ast.rs", MC + "html_utils.rs", MC + "error.rs", MC + "lib.rs"],
     [("escaping of text", R + "escaping.rs"), ("percent-encoding of ids", MC + "html_utils.rs")],
     "A case is an input biased towards markup-significant characters in every text-carrying position; non-trivial when markup or an error rendering was parsed and checked against the vocabulary.",
     "well-formedness and vocabulary monitor (own XML parser) on every output and error rendering",
     "Decides every output seen; the vocabulary is that of the documented output.",
     ["`css_classes` and `id_prefix` are trusted configuration values", "control characters which XML forbids are outside the property"])

prop("C03", "The output is structurally valid MathML",
     "Every element of the output has the number and kind of children which MathML requires of it: fractions, roots and scripts have their operands, tables contain only rows and rows only cells, "
     "token elements contain only text, prescripts come in pairs, annotations stand only in semantics.",
     [I, C], "all inputs accepted by the converter, all configurations",
     "snapshots show the structure of some formulas; combinations of constructs are unlimited",
     [R + "ast.rs", R + "table.rs", MC + "parser.rs"], [("node constructors and emission", R + "ast.rs")],
     "A case is an accepted input (half valid-by-construction formulas, half mutated or hostile); non-trivial when markup was produced and its whole tree checked.",
     "structural validator over the parsed output tree", "Decides every output seen.")

prop("C04", "Local conversions are pure",
     "Converting with local state gives the same result for the same input and configuration, whatever was converted before in any mode, "
     "in whatever order, on whatever thread, and at the same time as other conversions on the same converter.",
     [I, H, S], "all inputs, all histories of calls, all interleavings of threads sharing a converter",
     "tests convert each formula once on a fresh converter and single-threaded",
     [MC + "lib.rs", MC + "global_state.rs", MC + "token_queue.rs"], [("state is created per call or borrowed mutably", MC + "lib.rs")],
     "A case is a set of formulas (many with definitions, labels and numbers) converted on a fresh converter as reference and then again after random histories and concurrently from several threads; "
     "non-trivial when at least two results were compared.",
     "differential monitor against a fresh converter under random histories and real threads",
     "Decides the histories and interleavings run; data races themselves are looked for in C21.")

prop("C05", "Equation numbers count up by one over the rows that carry one",
     "With document state, the rows of numbered environments are numbered 1, 2, 3, … in document order: "
     "every row of the environments that number rows, the environment itself where it has one number, except rows whose number is suppressed or replaced by a tag. "
     "A failing formula takes at most the numbers of the rows it completed before its error; a reset starts again at 1; conversions with local state neither see nor change the count.",
     [I, H, C], "all documents of formulas with numbered and starred environments, \\nonumber, \\notag, \\tag, \\tag*, nested tables, failing formulas, resets",
     "tests cover single formulas and short sequences; the count depends on the whole history",
     [MC + "environments.rs", MC + "parser.rs", MC + "lib.rs", R + "table.rs"],
     [("numbering state", MC + "environments.rs"), ("document state", MC + "global_state.rs")],
     "A case is a document generated together with the expected number of every row; non-trivial when it shows at least two numbers or a suppressed one. "
     "The numbers in the output are read off the last cell of every row.",
     "online reference model of the equation counter over generated documents", "Decides the documents generated; \\tag with \\nonumber in one row is the known finding.")

prop("C06", "References resolve to the number of their label",
     "A reference shows the number or tag of the row carrying its label and links to an id that exists in the document; an unresolved reference shows question marks and raises the warning. "
     "When a document is converted as a whole, references to later labels resolve; one formula after the other, exactly those to labels already seen. "
     "(Labels of rows which a failing formula completed may remain known.)",
     [I, H, C], "all documents with labels and references in any order, all label texts, id prefixes, duplicate labels, failing formulas",
     "tests have a few label/reference pairs", [MC + "lib.rs", MC + "parser.rs", MC + "environments.rs", MC + "html_utils.rs"],
     [("label map and placeholders", MC + "lib.rs")],
     "A case is a document generated together with the expected text, target and warning of every reference; non-trivial when it contains at least one reference.",
     "reference model of labels over generated documents; link targets are looked up in the output", "Decides the documents generated.")

prop("C07", "Converting a whole document equals converting its formulas in turn",
     "Converting a list of formulas at once gives for each formula what converting them one after the other with document state gives, except for references to labels that only appear later. "
     "It leaves no trace in the converter.",
     [I, H, C], "all lists of formulas", "tests have a handful of fixed lists", [MC + "lib.rs"], [("whole-document conversion", MC + "lib.rs")],
     "A case is a list of stateful formulas, compared formula by formula between both ways (references masked where they are forward); non-trivial when at least two formulas were converted.",
     "differential monitor between the two entry points", "Decides the lists generated.")

prop("C08", "A custom command means its body with the arguments put in",
     "Using a custom command gives the same output as writing its body in its place with the arguments substituted, however it was defined (configuration, \\newcommand and the like, \\def, \\let, in an earlier formula) and however deep the uses nest. "
     "(The class which decides the space before a command is documented to be fixed by the first symbol of its body when it is defined; where that is not known then, the spacing alone may differ.)",
     [I, C], "all definitions with up to nine parameters, all uses, nested uses, arguments that use other commands, parameters within text, lengths, colours, delimiters and numbers",
     "tests expand a few definitions", [MC + "custom_cmds.rs", MC + "token_queue.rs", MC + "parser.rs"], [("expansion", MC + "token_queue.rs")],
     "A case is a formula with definitions and uses, generated together with its hand-expanded form; non-trivial when at least one command is used and the expanded form was accepted; distinct by expanded form, definitions, formula and configuration.",
     "metamorphic oracle: expanded by the generator vs. expanded by the code", "Decides the definitions generated.")

prop("C09", "A definition is visible exactly where its scope says",
     "A definition holds from where it is made to the end of its formula, or over the following formulas of the document if it is global (\\gdef, \\global or the configuration option). \\newcommand fails if the name means anything at that point, "
     "\\renewcommand if it means nothing, \\providecommand keeps what there is, \\def and \\let replace it; a global definition also replaces one local to the formula. Local conversions see the configuration only, a reset forgets all but the configuration, "
     "and a body keeps the meaning its names have where it is used.",
     [I, H, C], "all histories of formulas, resets and modes with definitions, redefinitions and uses anywhere in a formula (groups, cells, arguments, bodies)",
     "tests have a few scopes; visibility depends on the whole history", [MC + "token_queue.rs", MC + "custom_cmds.rs", MC + "parser.rs", MC + "lib.rs"],
     [("stores of definitions", MC + "token_queue.rs"), ("definitions", MC + "custom_cmds.rs")],
     "A case is a random history of formulas with definitions and uses on one converter, run against a reference interpreter which predicts the letters shown or the kind of error; non-trivial when at least one definition was carried out; distinct by history and configuration.",
     "reference interpreter of definitions as online oracle over histories", "Decides the histories generated.")

prop("C10", "The expansion limit is exact",
     "A formula whose custom commands expand no more often than the configured limit converts as without limit; with one expansion more it is rejected with the error for that. "
     "The limit applies to each formula on its own, and an endless recursion is always cut off. (Aliases made by \\let are outside the count.)",
     [I, C], "all programs of terminating definitions, all limits", "tests have one program at one limit", [MC + "token_queue.rs", MC + "parser.rs"],
     [("expansion counter", MC + "token_queue.rs")],
     "A case is a sequence of terminating formulas for which a reference interpreter counts the expansions n; they are run with limits around n; non-trivial when n > 0; distinct by formulas and configuration.",
     "counting oracle (reference interpreter) around the limit", "Decides the programs generated.")

prop("C11", "Errors point at the mistake",
     "The range of an error is a range of the input on character boundaries, it points at the offending piece where a single mistake is planted in a correct formula (for a mistake in a custom command: at its use), and it moves with text put in front. "
     "Every rendering of the error works and carries the message and the position.",
     [I, C], "all rejected inputs, all renderings", "tests pin messages of some inputs", [MC + "error.rs", MC + "lexer.rs", MC + "parser.rs", MC + "token_queue.rs"],
     [("spans of tokens", MC + "lexer.rs"), ("renderings", MC + "error.rs")],
     "A case is a rejected input or a correct formula with one planted mistake; non-trivial when an error was reported and its range and renderings were checked.",
     "invariant monitor on every error, planted-mistake oracle, shift relation", "Decides the errors seen.")

prop("C12", "Pretty-printing changes layout only",
     "With pretty-printing the output is the same tree with the same text as without, differing only in whitespace between elements, indented consistently with the configured unit; "
     "automatic pretty-printing is pretty for block and compact for inline formulas.",
     [I, C], "all inputs, all indentations", "tests pretty-print a few formulas", [R + "fmt.rs", R + "ast.rs", R + "table.rs", MC + "lib.rs"],
     [("indentation", R + "fmt.rs")],
     "A case is an accepted input converted compactly and pretty; non-trivial when the tree has nested elements.", "differential monitor modulo layout", "Decides the inputs generated.")

prop("C13", "Each output option changes exactly what it is for",
     "The display style, XML namespace and annotation options change only the root element, its attributes and the annotation, which holds exactly the input; options that concern something not in the formula change nothing. "
     "The outcome (markup or error) does not depend on any of them.",
     [I, C], "all inputs, all pairs of configurations", "tests use each option on a few formulas", [MC + "lib.rs"], [("envelope of the output", MC + "lib.rs")],
     "A case compares the same input under pairs of configurations; non-trivial when markup was produced.", "differential monitor between configurations", "Decides the pairs run.")

prop("C14", "Whitespace and comments between tokens do not matter",
     "Inserting whitespace, line breaks or comments between the tokens of a formula in math mode changes neither the output nor whether it is accepted.",
     [I], "all formulas, all layouts", "tests write each formula in one layout", [MC + "lexer.rs", MC + "token_queue.rs", MC + "parser.rs"], [("lexing", MC + "lexer.rs")],
     "A case lays one token sequence out in several ways; non-trivial when two different source texts were compared.", "metamorphic monitor over layouts", "Decides the layouts generated.")

prop("C15", "Braces around a one-token argument do not matter",
     "Writing the one-token argument of a command or script with no, one or two pairs of braces gives the same output up to grouping that has no effect.",
     [I], "all formulas with one-token arguments", "tests write arguments one way", [MC + "parser.rs", MC + "token_queue.rs"], [("arguments", MC + "parser.rs")],
     "A case lays one token sequence out with different bracing of its one-token arguments; non-trivial when two different source texts were compared.", "metamorphic monitor over bracing", "Decides the formulas generated.")

prop("C16", "Unknown commands are reported, or shown and warned about",
     "A formula with unknown commands is rejected with an error naming the first of them and pointing at it; when they are to be ignored, each is shown by name as an error element in its place, the rest is unaffected, and the warning is raised exactly then.",
     [I, C], "all formulas, all unknown names in all positions", "tests have a few unknown commands", [MC + "parser.rs", MC + "lexer.rs", R + "ast.rs"], [("unknown commands", MC + "parser.rs")],
     "A case is a correct formula in which unknown commands are planted as atoms; non-trivial when at least one was planted and the outcome compared with that of the formula with a placeholder.",
     "planted-command oracle", "Decides the formulas generated.")

prop("C17", "Text commands show exactly the text given",
     "The text of a text command appears in the output character for character: spaces are kept (as non-breaking spaces), quotation marks are curled, symbol commands give the character they stand for, and an accent combines with the character of its argument. "
     "Nested style commands apply to exactly their text, the innermost one deciding (bold and italic combine, \\emph in \\emph cancels, \\text keeps the style); size switches last to the end of the text, and \\raisebox moves exactly its text.",
     [I, C], "all texts of printable characters, accents, symbol commands and nested style commands", "tests convert a few texts",
     [MC + "text_parser.rs", MC + "lexer.rs", R + "ast.rs"], [("text mode", MC + "text_parser.rs")],
     "A case is a text generated together with its expected character and style sequence; non-trivial when the text contains something other than plain letters.",
     "generator-side model of text, compared with the text and HTML styling of the output", "Decides the texts generated; the accent table is Unicode composition.")

prop("C18", "The command line tool replaces formulas and nothing else",
     "In a document every delimited formula is replaced by its converted form and every other byte is kept; delimiters, escapes and entities act as documented. "
     "Unbalanced or nested delimiters are reported instead of guessed at.",
     [I, C], "all documents, all delimiter pairs, all options", "tests replace in short strings", ["crates/math-core-cli/src/replace.rs", "crates/math-core-cli/src/html_entities.rs", "crates/math-core-cli/src/main.rs"],
     [("replacement", "crates/math-core-cli/src/replace.rs")],
     "A case is a document generated from pieces of text and formulas with a random delimiter configuration, run through the real binary; the expected output is assembled from the library's conversions; non-trivial when it contains a formula.",
     "differential monitor: real binary vs. document assembled from the library's results", "Decides the documents generated.")

prop("C19", "The command line tool writes only what it is asked to",
     "Files change only in the writing modes, only those selected (a named file, or the .html files below a directory) and only when every formula of the file converts (unless told to continue); a file which cannot be converted stays byte for byte as it was, and nothing else appears, changes or vanishes. "
     "The exit status tells success, failing conversions, unreadable files, a missing, a malformed and an unusable configuration apart.",
     [I, C, H, F], "all directory trees, modes and failing files", "the tests do not run the binary on files", ["crates/math-core-cli/src/main.rs", "crates/math-core-cli/src/config_file.rs"],
     [("modes", "crates/math-core-cli/src/main.rs")],
     "A case is a scratch directory tree with a configuration and a mode, run through the real binary as an unprivileged scratch job; the tree afterwards is compared with a model; non-trivial when the model expects a change or an error.",
     "file-system monitor around the real binary against a model of the modes", "Decides the trees generated.")

prop("C20", "The Python module behaves like the library",
     "Every conversion and every error of the Python module, under every combination of options, gives what the library gives for the same input and configuration, for every sequence of calls (failing conversions raise LatexError with the message of the library, or give its HTML with continue_on_error); invalid options raise, and threads sharing a converter see their calls as if made one after the other, or the lock reported.",
     [I, C, H, S], "all inputs, options and call sequences, several threads", "its tests convert a few formulas", ["crates/math-core-python/src/lib.rs", "python/math_core/__init__.py"],
     [("binding", "crates/math-core-python/src/lib.rs")],
     "A case is a sequence of calls on a Python converter mirrored on the library in another process; non-trivial when at least one result was compared.",
     "differential monitor: Python extension vs. library process; register and counter linearizability of concurrent histories", "Decides the sequences and the thread interleavings run.")

prop("C21", "No undefined behaviour and no data race in the unsafe code",
     "No conversion reads or writes memory it does not own, breaks a precondition of an unsafe function, makes an invalid value (a character or string that is not Unicode) or races with another, on any input, in the library and in the command line tool.",
     [I, S, C], "all inputs and thread interleavings", "tests run without any sanitizer", [R + "arena.rs", R + "super_char.rs", R + "itoa.rs", MC + "string_pool.rs", R + "escaping.rs"],
     [("arena and unsafe blocks", R + "arena.rs")],
     "A case is one conversion (or one call history) under AddressSanitizer or Miri; distinct by input.", "AddressSanitizer with the standard library's precondition checks, and Miri (undefined behaviour, data races)", "Reports what the sanitizers see on the executed inputs; strings are checked for UTF-8 at the interface only.")

prop("C22", "Lengths and spaces come out with the size asked for",
     "Every length given to \\hspace, \\kern, \\hskip, \\mspace, \\mkern, \\mskip, \\raisebox and \\genfrac, literally or by custom commands, appears in the output with the value the input asks for: 10 points are one rem, the other TeX units are relative to the point, em and ex stay, 18 mu are one em; the fixed spaces have the widths of TeX. "
     "Numbers that need up to 19 digits are read to single precision, longer ones read or rejected, and everything that is no length, or has the wrong kind of unit, is rejected.",
     [I], "all decimal numbers and units in all commands taking lengths", "tests have a few lengths", [MC + "atof.rs", MC + "specifications.rs", R + "length.rs", MC + "parser.rs"],
     [("number parser", MC + "atof.rs"), ("length printing", R + "length.rs")],
     "A case is a number, unit and command; the value in the output is compared with the exact decimal value within float precision; non-trivial when a length was found in the output.",
     "numeric oracle in exact arithmetic", "Decides the lengths generated.")

prop("C23", "Math alphabets map every letter to its right character",
     "Each alphabet command shows exactly the letters, digits and Greek letters of its argument in that alphabet and leaves everything else as it is, through every nesting and grouping.",
     [I], "all letters and digits under all alphabets and nestings", "tests cover some letters of some alphabets", [R + "attribute.rs", MC + "parser.rs", R + "super_char.rs"],
     [("character mapping", R + "attribute.rs")],
     "A case is a formula with alphabet commands generated together with the expected characters, from a table made of the Unicode names; non-trivial when at least one character is changed by an alphabet.",
     "independent Unicode-name table as oracle", "Decides the formulas generated; all single letters are enumerated.")

prop("C24", "A configuration file means what the same options mean in code",
     "A configuration read from its serialised form gives the same results as the one built in code with the same options; missing keys mean the defaults, and invalid values are rejected.",
     [C, I], "all configurations", "tests read a few", [MC + "lib.rs", "crates/math-core-cli/src/config_file.rs"], [("deserialisation", MC + "lib.rs")],
     "A case is a random configuration written out by the check and read back, compared on random formulas; non-trivial when at least one option differs from its default.",
     "differential monitor between both ways to configure", "Decides the configurations generated.")

prop("C25", "Tables have the cells, alignment and rules of the source",
     "Every table of the output has exactly the rows and cells of the source in order, each cell holding what its source gives on its own, with the alignment, separators and horizontal rules that the environment and column specification ask for.",
     [I], "all tables, column specifications and rules", "tests have a few tables", [R + "table.rs", MC + "parser.rs", MC + "specifications.rs", MC + "environments.rs"], [("table emission", R + "table.rs")],
     "A case is a table generated together with its grid of cells, alignments and rules; non-trivial when it has more than one cell.",
     "generator-side grid model compared with the output table", "Decides the tables generated.")

prop("C26", "The output tree has the structure of the formula",
     "The output contains the atoms of the formula in their order, and fractions, roots, scripts, accents, braces, stacks and fences have exactly the operands written, at every nesting.",
     [I], "all formulas", "snapshots show some formulas", [MC + "parser.rs", R + "ast.rs"], [("parser", MC + "parser.rs")],
     "A case is a formula generated together with its expected tree; non-trivial when the tree has at least one construct.", "generator-side tree model compared with the normalised output", "Decides the formulas generated.")

prop("C27", "Spacing between atoms follows TeX",
     "The space between neighbouring operators and operands is that of TeX's table for their classes, whether it comes from attributes of the output or from the defaults of MathML Core, including forced classes (\\mathbin and the like), binary operators in unary position (which are ordinary), brace groups (ordinary, and transparent for what is inside), the parts of fractions (also of infix ones such as \\over; each is a formula of its own), tight spacing in scripts, and explicit spaces. As the library has it, a \\left...\\right pair counts as an opening and a closing delimiter.",
     [I], "all sequences of atoms of all classes, in all styles", "snapshots show some sequences", [MC + "character_class.rs", MC + "parser.rs", R + "symbol.rs", R + "attribute.rs"], [("classes and spacing", MC + "character_class.rs")],
     "A case is a sequence of atoms with the spaces TeX puts between them; compared with the effective spaces of the output; non-trivial when at least one non-zero space is expected.",
     "TeX's inter-atom table with effective MathML Core spacing as oracle", "Decides the sequences generated.")

prop("C28", "Style and limits placement follow TeX",
     "Every symbol is set in the style (display, text, script, scriptscript) that TeX's rules give it, limits of operators stand above and below exactly when TeX puts them there, and \\mathchoice selects the alternative of that style.",
     [I], "all nestings of fractions, scripts, roots, style switches, tables", "snapshots show some", [MC + "parser.rs", R + "ast.rs", R + "attribute.rs"], [("style of the parser", MC + "parser.rs")],
     "A case is a formula generated with the expected style of every leaf, compared with the effective style of the output by the MathML Core rules; non-trivial when at least two styles or a limits decision occur.",
     "effective-style oracle", "Decides the formulas generated.")

prop("C29", "Colour applies to exactly its scope",
     "Every symbol has the colour of the innermost colour command or switch in whose scope it stands, switches ending with their group, cell or argument; every notation of the same colour gives the same colour, a colour's name the colour it names; what names no colour is rejected.",
     [I], "all nestings of colour commands and switches", "tests have a few", [MC + "color_defs.rs", MC + "parser.rs", R + "ast.rs"], [("colour switches", MC + "parser.rs")],
     "A case is a formula generated with the expected colour of every leaf; non-trivial when at least two colours occur.", "effective-colour oracle", "Decides the formulas generated.")

prop("C30", "Unbalanced grouping is rejected",
     "A formula with a missing, superfluous or mismatched brace, \\left/\\right or environment delimiter is rejected, whatever surrounds it.",
     [I], "all valid formulas with one grouping token removed, added, swapped or replaced", "tests have a few mistakes", [MC + "parser.rs", MC + "token_queue.rs", MC + "lexer.rs"], [("closing tokens", MC + "parser.rs")],
     "A case is a valid formula with one grouping mistake planted which a balance checker confirms; non-trivial when the original was accepted.", "planted-mistake oracle", "Decides the mistakes generated.")

prop("C31", "Every symbol command shows its symbol",
     "Every symbol command shows the character (or characters) which Unicode has for the symbol of that name, in every context; where the character can be typed, typing it gives the very same output, and every character that is typed is shown as it is.",
     [I], "all symbol commands and characters", "tests show some symbols", [MC + "commands.rs", R + "symbol.rs"], [("command table", MC + "commands.rs")],
     "A case is a command in a random context; its text is compared with an independent table by Unicode names; non-trivial when the command is in the table.", "independent table as oracle", "The table covers common commands.")

prop("C32", "Negation and combining marks give the right character",
     "\\not (and \\slashed, \\vertoverlay) on a symbol shows the negated character where Unicode has one and the symbol with the mark right after its first character otherwise, for commands and typed characters alike; what is negated already stays, and everything around keeps its place.",
     [I], "all relations", "tests negate a few", [MC + "parser.rs", R + "symbol.rs"], [("negation", MC + "parser.rs")],
     "A case negates one relation in a random context; compared with Unicode normalisation; non-trivial when a negated character was compared.", "Unicode normalisation as oracle", "All relations are enumerated.")

prop("C33", "Delimiters, accents and arrows grow exactly where asked",
     "What stands after \\left, \\middle or \\right, around a matrix, binomial or cases, as a wide accent or as an extensible arrow grows with its content; a delimiter, accent or arrow of any other kind, wherever it stands, has the size of its glyph; and each command of the \\big family gives its one size.",
     [I], "all delimiters, accents and arrows in all contexts", "tests show a few delimiters", [MC + "parser.rs", MC + "commands.rs", R + "ast.rs", R + "attribute.rs"], [("stretching", R + "ast.rs")],
     "A case is a formula generated with the growth of every delimiter, accent and arrow; what the output does is decided as MathML Core does, by attributes, form and operator dictionary; non-trivial when at least two were compared.", "expected-growth oracle with the MathML Core operator dictionary", "Operators about which the dictionary leaves a doubt are left out.")

prop("W01", "The JavaScript module behaves like the library",
     "Every conversion and every error of the JavaScript (WebAssembly) module, under every combination of options and for every sequence of calls, gives what the library gives for the same input and configuration: "
     "the same markup, or a LatexError with its message, label, report and context, positions in UTF-16 units and the index of the failing formula (or its HTML, when told not to throw). Invalid options throw; no call traps.",
     [I, C, H], "all inputs, options and call sequences", "no test of the stable suite runs the module, and none runs anything on a 32-bit target", ["crates/math-core-wasm/src/lib.rs", MC + "custom_cmds.rs", MC + "error.rs"],
     [("binding", "crates/math-core-wasm/src/lib.rs")],
     "A case is a sequence of calls on a JavaScript converter in node, mirrored on the library in another process; non-trivial when at least one result was compared. Half of the workers run the module as built for users, half with overflow checks, debug assertions and precondition checks of unsafe functions in it.",
     "differential monitor: WebAssembly module in node (plain and checked build) vs. library process", "Decides the sequences generated.")

NA = {}

DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 W01".split()

RULES = {p["id"]: p["rule"] for p in P}
ASSUMPTIONS = {p["id"]: p["assume"] for p in P if p["assume"]}
LEVELS = {p["id"]: p["level"] for p in P}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])),
                               ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py setup",
             checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                          technique="runtime monitoring: " + p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["id"] in DONE],
             not_applicable=[dict(property=k, reason=v) for k, v in NA.items()] +
                            [dict(property=p["id"], reason="no check yet") for p in P if p["id"] not in DONE])
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


if __name__ == "__main__":
    main()
