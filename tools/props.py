IN = ["inputs"]
WHY = "The tests parse and print a fixed list of examples; "
RT = [("pest grammar", "src/parser/expression_grammar.pest"), ("parser", "src/parser/"), ("textify", "src/textify/")]

prop("C01", "Parsing never panics",
     "For every text, parsing returns either a plan or a parse error that can be displayed. It never panics, whatever characters (multi-byte ones included), numbers, sections, line order or indentation the text contains, with or without extension declarations.",
     IN, "every text given to the parser",
     WHY + "a panic hides behind one particular malformed token, and the set of malformed texts is unbounded.",
     ["src/parser/structural.rs", "src/parser/common.rs", "src/parser/expressions.rs", "src/parser/relations.rs", "src/parser/types.rs", "src/parser/extensions.rs", "src/parser/chunks.rs"],
     [("error returns instead of unwraps", "src/parser/*.rs"), ("RuleIter", "src/parser/common.rs")],
     "seed texts that together use every grammar rule: every window of 2 adjacent bytes (quick: every second position) replaced by arbitrary ASCII bytes; at every token a symbolic character, a multi-byte character, long runs of one character, long multi-byte runs, long digit runs, and truncation; at every line deletion, duplication, swap, any re-indentation up to 8 columns, a symbolic first character, an extra line, and a line of 2,100 multi-byte characters at either parity, open, quoted or closed. Every returned error is displayed.",
     "texts further than one edit from a seed; stack exhaustion by deep nesting; memory exhaustion; float literals with arbitrary digits (the decimal-to-binary conversion is left concrete).")

prop("C02", "Formatting shows and reports what it cannot print, and never panics",
     "Formatting any plan that decodes from protobuf, however incomplete or inconsistent, returns a text and a list of errors that can be displayed, without panicking, and the parser takes that text without panicking. A relation or relation input, read source, schema column, filter or projection of a read without a text for it, condition, measure or its filter, ordering, distinct invocation or partial phase, nested field reference, sort field, join or set type, cast, if-then clause, function argument, output type, expression, literal, field reference, type or type parameter that is missing or of a kind the format does not support, an anchor that is not declared, a mapping or grouping reference out of range, and a literal whose value or precision has no text are each replaced by a !{...} token and reported as an error, while the text around them stays that of the plan; unknown nullability is reported too. No token is printed without an error, no error is reported for a sound plan, a text with a token does not parse, and damage to one root relation leaves the text of the others unchanged.",
     IN, "every plan message with damaged or unsupported parts",
     WHY + "any of some hundred fields can be missing, unknown or out of range, in any place of any plan.",
     ["src/textify/foundation.rs", "src/textify/rels.rs", "src/textify/expressions.rs", "src/textify/types.rs", "src/textify/values.rs", "src/textify/plan.rs"],
     [("ErrorToken, Scope::failure, Scope::expect", "src/textify/foundation.rs"), ("Value::Missing", "src/textify/values.rs")],
     "48 kinds of damaged expressions in 12 places, 9 of types in 5 places, 50 of relations in 7 places, 4 of plan relations between sound ones; every 32-bit join type, set operation, sort direction, cast behaviour, nullability, output mapping entry and grouping reference, anchors and precisions of any value up to two digits or at the limits, times of any 64-bit value, dates and timestamps around the limits of the calendar; 7 plans with any one of their 550 fields removed, repeated, emptied, given an unknown part, any 7-bit number, 8 extreme ones, or (text) any first character.",
     "two damaged fields at once; binary literals, which are left out on request, and the output mappings of extension relations; fields in other plans.")

prop("C03", "Types survive text in both directions",
     "Every supported type (simple types, lists, precision types, interval_day, user-defined types with type parameters), at any nesting and nullability and in any position a type can take, is printed as the documented text and that text parses back to exactly the same type. Written precisions outside 0 to 12 are rejected, compound type names are case-insensitive, and any identifier that is not a built-in type name works as the name of a user-defined type, with or without the u! prefix.",
     IN, "every type expression and every identifier",
     WHY + "type names, nullability, precision and nesting combine in more ways than are listed.",
     ["src/parser/types.rs", "src/textify/types.rs", "src/parser/expression_grammar.pest"],
     [("parse_simple_type, parse_compound_type, parse_user_defined_type", "src/parser/types.rs"), ("Textify for ptype::Kind", "src/textify/types.rs")],
     "all simple types, nesting depth 4 (40 with one arbitrary level), 3 type parameters (260 with one arbitrary), symbolic precisions (up to 6 digits), type names of 4 (thorough 5) symbolic identifier characters and built-in names extended by one character.",
     "deeper nesting, more parameters, longer names; struct, map, decimal and fixed-size types, type variations (not parseable).")

prop("C04", "Numbers and constants are kept exactly or rejected",
     "Integer and boolean literals, field references, limits and offsets, anchors and version numbers have exactly the value that is written, and print as exactly the value they hold, for every value of their type. A written number that does not fit the field that must hold it (and a negative limit or offset, or a negative anchor) is a parse error, never a different number.",
     IN, "every integer value and every run of digits",
     WHY + "wrap-around and truncation show only at particular values of a 64-bit domain.",
     ["src/parser/common.rs", "src/parser/expressions.rs", "src/parser/relations.rs", "src/textify/expressions.rs"],
     [("check_integers", "src/parser/common.rs"), ("to_int_literal", "src/parser/expressions.rs"), ("CountMode, OffsetMode", "src/parser/relations.rs")],
     "all 2^32 / 2^64 values when printing; texts of up to 9 symbolic digits and of up to 24 leading fixed digits around the limits of i32, u32, i64 and u64, with either sign, in 12 positions.",
     "longer runs of symbolic digits; numbers inside extension arguments (C20, C21); floating-point literals (C30).")

prop("C05", "Strings and quoted names keep every character",
     "Any string literal, table name, column name or root name, of any Unicode characters, survives printing and parsing unchanged, in every position it can take, with its nullability. A quoted text means what the escape rules say: \\n, \\t, \\r, \\0 and \\u{..} are the usual characters, any other escaped character is itself, and a name may be written bare or quoted with the same meaning.",
     IN, "every string",
     WHY + "escaping errors show only for particular characters and neighbours.",
     ["src/parser/common.rs", "src/textify/types.rs", "src/textify/expressions.rs"],
     [("unescape_string", "src/parser/common.rs"), ("escaped, Name, is_identifer", "src/textify/types.rs")],
     "all ASCII strings of 2-3 (thorough 4) characters in 7 positions, one arbitrary character of most (thorough: all) Unicode ranges between two others, 300-character strings with two symbolic characters, all quoted texts of 3 (thorough 5) ASCII characters, \\u escapes of up to 4 (6) digits.",
     "longer arbitrary strings; names inside extension relations (C21).")

prop("C06", "Dates, times and timestamps denote the written instant",
     "A date, time, timestamp or precision time/timestamp literal has the value that the proleptic Gregorian calendar and 24-hour clock give to its text, at the precision of its type and with its nullability, and every such value prints as text that denotes it. A text that is no such date or time, whose fraction is finer than the type can hold, or whose instant does not fit, is a parse error.",
     IN, "every date and time text and value",
     WHY + "calendar and unit arithmetic goes wrong only around leap years, epochs, precisions and range ends.",
     ["src/parser/expressions.rs", "src/textify/expressions.rs", "src/precision.rs"],
     [("parse_date_to_days, parse_time_to_precision_units, parse_timestamp_to_precision_units, duration_to_precision_units", "src/parser/expressions.rs"), ("days_to_date_string, precision_timestamp_to_string, precision_time_to_string", "src/textify/expressions.rs")],
     "8 base dates, 9 times of day (fractions of 0 to 11 digits) and 6 timestamps (years 1 to 9999, the ends of 64-bit nanoseconds), each with every pair (thorough: dates every triple) of its digits symbolic, for all 14 literal types; both separators; 13 texts with any one character replaced, inserted or deleted, or replaced and followed by another, everywhere.",
     "printing years beyond 9999; the 60th second; picosecond values (truncated with a reported error).")

prop("C07", "Day intervals keep every field, with their documented text",
     "An interval_day literal prints its non-zero days, seconds and sub-seconds in that order with the unit of its precision, and parses back to exactly the same fields, precision and nullability, for every field value. Text that is not such a sequence of terms, uses a unit other than the type's, repeats or reorders terms, or overflows a field is a parse error, and values beyond Substrait's allowed range are reported when printed.",
     IN, "every interval value and duration text",
     WHY + "units, order, sign and range combine freely.",
     ["src/parser/expressions.rs", "src/textify/expressions.rs", "src/precision.rs"],
     [("parse_interval_day_duration", "src/parser/expressions.rs"), ("write_interval_day_to_second_literal", "src/textify/expressions.rs"), ("SupportedPrecision", "src/precision.rs")],
     "all values of each field next to zero and non-zero others, all five precisions; nine duration texts with every 2-character window arbitrary.",
     "two arbitrary fields at once; texts further than one window from the bases.")

prop("C08", "Expressions survive text in both directions",
     "Every expression built from field references, literals, function calls, casts (with any failure behaviour) and if-then clauses, at any nesting, is printed as the documented text, and that text, with any optional spaces, parses back to exactly the same expression: same functions, argument order, output types, branches and cast targets.",
     IN, "every expression tree",
     WHY + "constructs interact (casts in arguments, conditions in branches) in more ways than are listed.",
     ["src/parser/expressions.rs", "src/textify/expressions.rs"],
     RT, "all trees of depth 2 over every construct with up to 3 arguments or clauses, sampled shapes of depth 4, 22 literal kinds in 10 places of 9 constructs, calls and if-thens of up to 260 arguments and chains of depth 40, with one arbitrary part, all 31-bit references, optional spaces at every token boundary.",
     "deeper or wider trees; lambdas, subqueries, window functions and nested types (not supported).")

prop("C09", "Relations and their output mappings survive text in both directions",
     "Every plan built from the standard relations (Read, Read:Virtual, Filter, Project, Sort, Fetch, Join of every type, Cross, Set of every operation, Aggregate, Root), with any output mapping on each, is printed as the documented text without errors, and that text parses back to exactly the same plan. Inputs keep their order, references keep pointing to the same columns, a mapping that is the identity is the direct output, and an explicit emit of a Read is kept verbatim.",
     IN, "every plan of standard relations",
     WHY + "relations, widths, mappings and nesting combine freely.",
     ["src/parser/relations.rs", "src/textify/rels.rs", "src/parser/structural.rs", "src/textify/plan.rs"],
     RT, "each relation over tables of up to 3 columns with every mapping of up to 3 (thorough 4) references, each relation over each relation with remapped outputs on both, all join types with 0-3 references, sets of 2-4 inputs, up to 3 sort fields, virtual tables of up to 4 (5) rows, projections of up to 4 (5) items, up to 3 (4) roots, mappings over 5-12 columns that are the identity but for one arbitrary entry, chains of 130 relations and 260 rows, columns, inputs or sort fields with one arbitrary part at the first, middle or last place (any place up to 17); any two of 12 forms of expression (constants true, false, null, 0, 1 among them), equal ones included, at the expression places of each relation.",
     "other deep trees and wide tables; identity mapping of semi/anti/single/mark joins is kept explicit (equivalent); bare references among a Project's computed expressions; sort fields with custom comparison.")

prop("C10", "The table of declared extensions answers as declared",
     "Whatever sequence of URNs, functions, types and type variations is put into SimpleExtensions, each insertion answers exactly what is wrong with it: an anchor already taken in its kind (naming both), a URN not yet known, both, or a u! prefix on something other than a type; the first declaration of an anchor stays, one without a known URN is kept and reported, types lose the u! prefix. An anchor leads to the URN and name declared for it in its kind and to nothing else. A full name leads to its anchor only if it is declared once; a function's base name only if a single function has it, and with an anchor only if the name fits that function (a base name fits every signature, a full name itself); names are reported as unique exactly when they are. The exported declarations are all that were kept, sorted by anchor and kind, and rebuild an equal table.",
     ["inputs", "histories"], "every sequence of insertions and every lookup",
     "The tests insert one or two declarations; which lookups clash depends on the whole table.",
     ["src/extensions/simple.rs"],
     [("SimpleExtensions", "src/extensions/simple.rs"), ("CompoundName", "src/extensions/simple.rs")],
     "every sequence of 3 (thorough 4) insertions with arbitrary 32-bit anchors and URN references and two names each, with lookups of any 32-bit anchor; three declarations of 6 names with arbitrary anchors against 8 written names, with and without any anchor; all names of up to 5 (6) printable characters against patterns of up to 4 (5); up to 260 declarations with two that clash.",
     "longer sequences; the layout of the declarations' text (C15).")

prop("C11", "Aggregates keep their grouping sets, measures and outputs",
     "An Aggregate with any grouping sets (one, several, empty ones among them), measures and outputs is printed as the documented text (a single set without parentheses, several each in parentheses, _ for an empty one), and that text parses back to exactly the same relation. Parsing lists each distinct grouping expression once, in order of first appearance, and each set refers to its expressions; an output equal to a grouping expression refers to it, every other function call is a measure of its own, in order, and any other output is a parse error. Parentheses around a single set change nothing. Relations above see as many columns as there are outputs. A plan whose sets hold their own expressions (the deprecated form), or that has any other order of expressions, measures and mapping, prints the same text as the sets and outputs it denotes.",
     IN, "every Aggregate relation",
     WHY + "which expressions are equal, which outputs are measures and where each lands in the mapping depends on all sets and outputs together.",
     ["src/parser/relations.rs", "src/textify/rels.rs"],
     [("build_grouping_fields, parse_aggregate_output, parse_grouping_sets", "src/parser/relations.rs"), ("Relation::from_aggregate, get_grouping_sets", "src/textify/rels.rs")],
     "1-3 (thorough 4) sets of up to 2 expressions of 8 kinds, of which any may be equal; 5 groupings with every list of up to 3 (thorough 4) outputs of the grouping expressions and 5 measures; an output of 7 other kinds in either place; every mapping of up to 3 entries over 1-3 expressions and 0-2 measures with up to 2 sets; 4 relations above; up to 260 expressions with one repeated, as one set or one each, and (up to 40) a rollup.",
     "more sets; measures that equal a grouping expression, and filters, phases and invocations of measures, which the text does not show.")

prop("C17", "Every accepted text has one canonical form",
     "Whenever the parser accepts a text, however it is spelled or laid out, formatting the resulting plan without errors gives text that parses to exactly the same plan, and formatting that plan gives the same text again.",
     IN, "every text the parser accepts, with or without registered extensions",
     WHY + "the parser accepts many more spellings than the formatter prints; a spelling read as something the formatter shows otherwise is found only by trying it.",
     ["src/parser/expression_grammar.pest", "src/parser/structural.rs", "src/parser/relations.rs", "src/parser/expressions.rs", "src/textify/plan.rs", "src/textify/rels.rs"],
     RT, "10 documents that use every section, relation, addendum and literal kind: any one byte deleted, replaced by or preceded by an arbitrary ASCII byte; every window of 2 bytes (quick: every second position) replaced by arbitrary ones; multi-byte characters, runs and cuts inserted (quick: every third position); every line dropped, repeated, exchanged, re-indented or preceded by another.",
     "texts further than one such edit from the documents; floating-point literals with arbitrary digits (C30); plans whose formatting reports an error (C02).")

prop("C18", "Output options change the text, not the plan",
     "Formatting with literal types always shown shows every literal with its type, with extension anchors always shown shows every function and type with its full name and #anchor, with a multi-line threshold n spreads exactly the virtual tables with at least one and at least n rows over several lines; all of these, alone or combined (OutputOptions::verbose() included) and whatever the switches for URNs, extensions, read types, nullability and binaries, print plans without errors as text that parses back to the same plan. Set to Never, literal_types leaves out exactly the types of literals (a null keeps its own), and show_simple_extension_anchors exactly signatures and anchors. Any other indent string stands exactly where each level's two spaces would, in every section.",
     IN, "every supported plan and every setting of literal_types, show_simple_extension_anchors, virtual_table_multiline_threshold and indent",
     WHY + "each option multiplies the texts a plan can have, and unit tests look at one option at a time.",
     ["src/textify/foundation.rs", "src/textify/types.rs", "src/textify/expressions.rs", "src/textify/rels.rs"],
     [("OutputOptions", "src/textify/foundation.rs"), ("NamedAnchor", "src/textify/types.rs")],
     "22 kinds of literals, nullable or not, in 4 constructs and 6 places; extension arguments in 8 places; sets of 1-3 functions of 8 names and 3 types with anchors; virtual tables of 0-6, 12-17, 64, 65, 130 and 260 rows with any 64-bit threshold; 6 documents under 24 settings, and under 2 with any indentation of 0-3 printable characters or tabs; 22 literals and pairs of 8 names with Never.",
     "show_emit; parsing texts shown with Never or another indentation.")

prop("C19", "The registry keeps names, type URLs and namespaces apart",
     "After any sequence of registrations, each namespace (relations, extension tables, enhancements, optimizations) holds exactly the extensions registered in it: a name already taken in the namespace is refused as a duplicate, otherwise a type URL already taken as a conflict naming its owner, and a refused registration changes nothing. The names listed are those, sorted; arguments given under a name go to that name's handler and the payload gets that type's URL; a payload is decoded by the handler of its type URL under that handler's name; an unknown name or type URL is reported as not found, and a handler's error is passed on. Copies are independent, descriptors are kept in order, and a protobuf message put into an Any comes out unchanged, only as its own type.",
     ["inputs", "histories"], "every sequence of registrations and lookups",
     "The tests register one or two extensions; whether names, URLs and namespaces are mixed up depends on the whole sequence.",
     ["src/extensions/registry.rs", "src/extensions/any.rs"],
     [("ExtensionRegistry::register, parse_with_type, decode_with_type_and_context", "src/extensions/registry.rs"), ("Any, AnyRef", "src/extensions/any.rs")],
     "every sequence of 3 (thorough 4) registrations of 2 names and 2 URLs in 4 namespaces; every pair (thorough: 4 in a row) of 6 names and 6 URLs in one; 24 registrations filling all namespaces plus one more; copies; payload bytes, messages and descriptors arbitrary; every type URL with one character changed or dropped.",
     "longer sequences; arbitrary symbolic names (hash tables over symbolic keys).")

prop("C20", "Extension handlers read exactly the arguments they ask for",
     "When a handler accepts its arguments, any positional arguments it did not look at are refused with their number, and any named ones with their sorted names; a handler's own error comes first, and output columns do not count. A named argument is converted to the type asked for only from a value of that kind (an expression also from an integer, float, string or boolean, as a non-nullable literal) and otherwise reported with its name, the kind expected and the kind found, tuples element by element in order; an absent one is none, or missing where required. Values, tuples, references and argument lists are what they were built from, and named columns convert to a schema and back unchanged, while columns without names and schemas with unequal counts are refused.",
     IN, "every argument list, value and handler",
     "The tests read one or two arguments; an argument silently ignored or converted needs a particular combination of presence, kind and access.",
     ["src/extensions/args.rs", "src/extensions/registry.rs"],
     [("ArgsAccess", "src/extensions/args.rs"), ("ExtensionArgs::parse", "src/extensions/args.rs"), ("ExtensionProtoConvert", "src/extensions/registry.rs")],
     "every subset of 4 named arguments against every subset asked for, 0-2 positional ones, 6 ways of asking; up to 260 arguments with one not asked for; 12 kinds of values with arbitrary contents read as 8 types in 3 ways, and as tuple elements in 3 places; schemas of 0-4 columns.",
     "the internal Reference target type (not exported); values nested deeper (C21).")

prop("C22", "A parse error names the line at fault",
     "When a document is rejected because of one invalid line, the parse error's line number is the physical, 1-based number of that line in the text (for a multi-line Read:Virtual, its first line) and its quoted text comes from that line. This holds for syntax errors and for semantic ones (unknown functions, types or extensions, wrong number of inputs, out-of-range numbers, misplaced addenda, headers and declarations), in every section, whatever blank lines and line endings surround it and whatever follows it.",
     IN, "every document with one invalid line",
     WHY + "an off-by-some line number needs a particular combination of blank lines, continuation lines and the stage that detects the error.",
     ["src/parser/structural.rs", "src/parser/chunks.rs", "src/parser/errors.rs", "src/parser/relations.rs"],
     [("ParseContext", "src/parser/errors.rs"), ("line numbers", "src/parser/chunks.rs")],
     "a 31-line document with every section, relation kind and addendum kind: about 90 invalid lines, each with LF or CRLF endings and six patterns of blank lines (up to 260); nine valid lines that make another line invalid; 53 lines too many (a second declaration, header, enhancement, detail or input, an addendum too late) that make themselves or another line invalid; every window of 2 adjacent characters (quick: every second position) of the header, version and plan lines replaced by arbitrary ASCII, where any error must name that line.",
     "documents with two invalid lines; the message after the location.")

prop("C30", "Floating-point literals keep their value through text",
     "Every finite fp64 or fp32 literal is printed as text that parses back to exactly the same number and type.",
     IN, "every floating-point value", WHY + "shortest-digit printing and decimal parsing go wrong only at particular values.",
     ["src/textify/expressions.rs", "src/parser/expressions.rs"], RT, "", "",
     na="Deciding it symbolically needs the bit-level semantics of core's float printing (Grisu/Dragon with 64x64-bit multiplication by table entries) and parsing (Eisel-Lemire, 128-bit products, big-integer fallback) over a 64-bit input: the executor has no floating-point theory and the queries are products of symbolic 64-bit values, out of reach for Z3 here. Concrete literals are exercised inside C08. One defect found while reading was repaired (e3e600c).")

prop("C23", "Conversions between text, JSON, YAML and protobuf keep the plan",
     "Converting with the command-line layer (Cli::run_with_io, Format::read_plan and write_plan) writes, in the target format, exactly the plan that was read in the source format, for every pair of text, JSON, YAML and protobuf; conversions among JSON, YAML and protobuf also keep the parts that text does not show. Text is read with the given extension registry and written exactly as the library formats it; there and back is the same text. JSON may hold Any messages as typeUrl/value or, for the core schema and the registered descriptors, as @type with fields inline. Input that is not a plan in its format (bad syntax, invalid UTF-8, truncated or corrupt bytes, an unknown @type) is an error and nothing is written. A plan that text cannot show in full is written and its formatting issues returned; otherwise success is returned. Input may arrive and output be taken in pieces of any size and with interruptions; a failing reader or writer is an error, and success means that all of the output was taken.",
     IN, "every plan, pair of formats, reader and writer",
     "The tests convert one small plan for a few pairs from complete buffers and look for substrings; a lost field, a wrong fallback or a partial read needs a particular plan, format or stream.",
     ["src/cli.rs", "src/json.rs"],
     [("Format::read_plan, write_plan", "src/cli.rs"), ("parse_json, build_descriptor_pool", "src/json.rs"), ("read_text_input, write_text_output", "src/cli.rs")],
     "13 plans that text shows (symbolic names, every literal kind, edge integers, extensions, versions, several roots, a 70,000-character name) in all 16 pairs and there and back; 9 plans with parts text does not show in 9 pairs; one (thorough 2) arbitrary ASCII bytes at every position of 5 documents; non-UTF-8 sequences of 8 kinds; one arbitrary byte at half (thorough: all) positions of a protobuf plan, every truncation, all messages of up to 2 bytes; one arbitrary ASCII byte at sampled (thorough: all) positions of a JSON and a YAML plan, and after the JSON plan; 9 Any messages with 0 to 3 descriptor sets; 12 plans with formatting issues; readers and writers with pieces of 1 to 2^20 bytes interrupted, failing or refusing at any of the first 4 reads or 20 writes.",
     "two arbitrary bytes in JSON or YAML; the reading of JSON that neither reader documents. The generated serde code, serde_json, serde_yaml, prost and prost-reflect are executed as they are and used as the oracle for what a JSON, YAML or protobuf document means.")

prop("C24", "The command line picks formats, files and exit codes as documented",
     "Format names text, json, yaml, protobuf, proto and pb are known in any letter case and no others. Without -f/-t the format follows from the last extension of the file name in any letter case (.substrait, .txt; .json; .yaml, .yml; .pb, .proto, .protobuf), a name without a known extension and - have none; -f and -t win over names, and a conversion without a format for either side is an error that writes nothing. --show-literal-types shows the types of all literals in text output and changes nothing else. validate reads text and writes the formatted text whatever the files are called. Options are accepted in short, long and = forms in any order, unknown or repeated ones, wrong formats and missing values are refused. Run on files, the input file is left alone, the output file is replaced by exactly the output, and the exit code is success only if the whole run succeeded without formatting issues; missing files, files that cannot be created, input that is no plan and formatting issues (whose text is still written) give failure.",
     IN, "every command line and file name",
     "The tests try a dozen file names and no exit code, option form or file; the choice of format is a function of arbitrary strings and of which options are present.",
     ["src/cli.rs", "src/main.rs"],
     [("Format::from_str, from_extension", "src/cli.rs"), ("resolve_input_format, resolve_output_format", "src/cli.rs"), ("run_with_extensions, get_reader, get_writer", "src/cli.rs")],
     "format names: all ASCII strings of up to 9 characters and every name with any one character replaced or inserted; file names: all ASCII strings of up to 7 characters and 72 patterns with 1-2 arbitrary characters; 200+ command lines of convert and validate with every option form; 8 x 8 file names with every named format; 12 runs over files (a small file system in the harness stands in for the kernel's; native replays use real files in a scratch directory).",
     "standard input and output through the process's real streams; help and version texts; directories, permissions and other operating-system behaviour.")

prop("C21", "Registered extensions survive text in both directions",
     "With a registry, every extension relation (leaf, single, multi) and every addendum (one enhancement and any optimizations on any standard relation; exactly one Ext detail on Read:Extension) is printed with its name, positional and named arguments (strings, integers, floats, booleans, null, references, typed expressions, enum values, tuples) and output columns, and that text, with named arguments and addendum lines in any order, gives the handler exactly the same arguments back. The output columns are the width parents see, and a handler sees the emitted width of each input in order. Unknown or unregistered names, wrong child counts, and misplaced, repeated or missing addenda are parse errors. A detail that no handler knows or can decode is shown as a !{..} token, reported once, and the rest of the plan is still shown.",
     IN, "every extension relation, addendum and argument list",
     WHY + "argument kinds, places, counts and nesting combine freely, and handlers are user code.",
     ["src/parser/extensions.rs", "src/parser/structural.rs", "src/textify/extensions.rs", "src/textify/addenda.rs", "src/textify/rels.rs", "src/extensions/registry.rs"],
     [("ExtensionInvocation, AddendumInvocation", "src/parser/extensions.rs"), ("Addenda", "src/parser/structural.rs"), ("AddendumLines", "src/textify/addenda.rs"), ("from_extension", "src/textify/rels.rs")],
     "18 kinds of value (symbolic integers, references, strings, enum names) in 7 argument positions and 6 places; tuples of every shape to depth 3 with up to 2 elements (depth 2 with up to 3), and wider and deeper ones; all 64-bit integers; all ASCII strings of 1-2 (thorough 3) characters; 0 to 12 positional and named arguments, and 40 or 200 positional ones, with one arbitrary value; 0 to 11 and 260 output columns with one arbitrary; 0 to 5 inputs of arbitrary shape; addenda on 12 relation shapes, with 0-1 enhancement and 0-4 optimizations; 34 malformed texts in 3 contexts.",
     "more arguments; arbitrary symbolic argument names; float arguments other than sampled ones (C30).")

prop("C15", "Extension declarations are kept, sorted and checked",
     "The Extensions section lists exactly the declared URNs, functions, types and type variations, URNs and then each kind in its own subsection in order of anchor, and parses back to the same declarations. In text, subsections may come in any order, split or repeated, with optional spaces; a URN is any text without spaces, a function may carry a signature suffix, a type may carry the u! prefix. A repeated anchor of the same kind, a reference to a URN that is not declared before, a u! prefix on a function or variation, a signature on a type or variation, a declaration outside its subsection or with the wrong indentation is a parse error; in a plan to be printed each duplicate or dangling declaration is reported.",
     IN, "every set of declarations",
     WHY + "duplicates, dangling references and orders depend on the whole set of anchors.",
     ["src/extensions/simple.rs", "src/parser/extensions.rs", "src/textify/plan.rs"],
     [("SimpleExtensions", "src/extensions/simple.rs"), ("ExtensionParser", "src/parser/extensions.rs"), ("PlanWriter", "src/textify/plan.rs")],
     "0-3 URNs and 0-2 (thorough 3) declarations of any kinds with arbitrary one-digit anchors and URN references; identifiers of 3 and signatures of 1 arbitrary characters, URNs of 3 arbitrary printable characters, anchors of every length; 17 spellings and malformed forms.",
     "more declarations; URNs with spaces or control characters; names that are not identifiers.")

prop("C16", "Function and type names resolve to the declared anchor",
     "Whatever functions and types are declared (same base name with different signatures, the same name under several URNs, names that are prefixes of others), a call or type prints as the shortest documented name that identifies it (base name if no other function has it, else the full name with signature, with #anchor when the name alone is ambiguous) and parses back to the same anchor. A written name without anchor must fit exactly one declaration (a base name fits every signature of it, a full name only itself), a name with anchor must fit the declaration of that anchor; anything else is a parse error. Functions, types and variations are separate name spaces.",
     IN, "every set of declarations and every reference to them",
     WHY + "ambiguity depends on all the declared names together.",
     ["src/extensions/simple.rs", "src/textify/types.rs", "src/parser/types.rs", "src/parser/expressions.rs"],
     [("resolve_function, find_by_name, is_name_unique", "src/extensions/simple.rs"), ("NamedAnchor", "src/textify/types.rs")],
     "all sets of 1-2 functions of 8 names and of 3 functions of 6 names with arbitrary increasing 3-digit anchors, called from 4 places; 4-12, 30, 130 and 260 functions with two clashing; 9 written names with no, each, or a foreign anchor against those sets; sets of 1-3 types of 4 names in 3 places.",
     "larger sets; the @urn suffix of a written reference, which the parser ignores.")

prop("C12", "Indentation decides the plan tree",
     "Each relation is an input of the nearest preceding relation that is indented one level (two spaces) less, in the order written; unindented relations are the plan's relations in order. A line without such a parent, with odd indentation or with a stray character before it, an addendum that is not directly below its relation (before the relation's inputs), and a relation with a number of inputs other than its own (none for reads and leaves, one for Filter, Project, Sort, Fetch, Aggregate, ExtensionSingle and Root, two for Join and Cross, at least two for Set, any for ExtensionMulti) is a parse error. Printing indents every tree that way, however wide or deep.",
     IN, "every sequence of lines and indentations",
     WHY + "the tree depends on all the indentations together.",
     ["src/parser/structural.rs", "src/parser/relations.rs", "src/textify/rels.rs"],
     [("TreeBuilder::add_line, IndentedLine", "src/parser/structural.rs"), ("Relation", "src/textify/rels.rs")],
     "all sequences of 1-5 (thorough 6) lines at depths 0-4; nodes with 8 to 260 inputs and chains of 8 to 130 with a fork (anywhere, or at the ends and the middle beyond 17); 14 relations with 0-4 inputs, at two depths, with or without a following relation; an addendum at every line and depth of a 5-relation tree; any ASCII character before any line.",
     "longer or deeper plans; non-space indentation of several characters.")

prop("C13", "Layout does not change the plan",
     "Blank lines between the lines of a document (except inside a subsection of declarations or a multi-line relation), spaces, tabs and carriage returns at line ends, CRLF line endings and a missing final newline do not change what a text means, and a virtual table means the same written inline or with `- ` continuation lines at any of the allowed places.",
     IN, "every text and every layout of it",
     WHY + "layout changes combine with every construct and every line.",
     ["src/parser/structural.rs", "src/parser/chunks.rs", "src/parser/expression_grammar.pest"],
     [("Parser::next_chunk, parse_line", "src/parser/structural.rs"), ("ChunkCursor", "src/parser/chunks.rs")],
     "6 documents that use every section and relation; at every line, lines of a multi-line relation included: 1-4 blank lines of 0-3 arbitrary white-space characters, 1-2 trailing ones, CR endings on that or all lines, no final newline; virtual tables of 0-4 rows with a break at any subset of the allowed places.",
     "other documents; blank lines inside declarations or continuation lines, which end them.")

prop("C14", "Version and sections are kept and checked",
     "A plan's version (three numbers, producer, git hash) is printed as the Version section and parses back to the same version, whatever single-line text the producer and hash are; the two detail lines may come in either order. An absent or empty version prints no section. Sections are optional, but appear at most once and in the order Version, Extensions, Plan. A misspelt header, text before the first header, a version that is not three numbers, an unknown detail, or a detail with the wrong indentation is a parse error.",
     IN, "every version and sequence of sections",
     WHY + "sections, headers and details combine in any order.",
     ["src/parser/structural.rs", "src/textify/plan.rs"],
     [("Parser::parse_line, parse_version_header, parse_version_detail", "src/parser/structural.rs"), ("PlanWriter::write_version", "src/textify/plan.rs")],
     "producers and hashes of 1-3 arbitrary printable characters (also inside longer non-ASCII text), 75 version numbers, all sequences of 1-4 sections empty or not, each header with one arbitrary character replaced, appended, or a space inserted, 16 spellings of the version section.",
     "producers with line breaks or surrounding spaces; repeated detail lines, of which the last counts.")
