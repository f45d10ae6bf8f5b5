"""The properties: one entry per check. `python tools/gen.py` writes
properties.jsonl and MANIFEST.json from it."""

REF = "exhaustive bounded exploration of the real implementation, every execution compared with an executable reference model"
DIRECT = "exhaustive bounded exploration of the real implementation, an invariant judged on every execution"

DOC = "mau/parsers/document_parser.py"
LEX = "mau/lexers/document_lexer.py"
BASE = "mau/lexers/base_lexer.py"
TXT = "mau/parsers/text_parser.py"
TXL = "mau/lexers/text_lexer.py"
PROC = "mau/parsers/document_processors/"
MAN = "mau/parsers/managers/"
BV = "mau/visitors/base_visitor.py"
JV = "mau/visitors/jinja_visitor.py"
TOK = "mau/parsers/managers/tokens_manager.py"
PRE = "mau/parsers/preprocess_variables_parser.py"
ARG = "mau/parsers/arguments_parser.py"
ENV = "mau/environment/environment.py"
CLI = "mau/cli.py"

PROPS = []


def prop(pid, title, statement, text, why, files, mechanism, technique=REF, note="", over=("inputs",), level="exploration", state=(), observe=("the tree produced by the base visitor", "the messages received by the message handler")):
    PROPS.append(
        {
            "id": pid, "title": title, "statement": statement, "over": list(over), "text": text, "why": why, "files": files,
            "mechanism": mechanism, "technique": technique, "note": note, "level": level, "state": list(state), "observe": list(observe),
        }
    )


prop(
    "C01", "Every text is either processed or rejected with one reported error",
    "Processing any text either produces a tree or reports exactly one error to the message handler and raises Mau's own exception; no other exception escapes and processing always ends. Processing the same text again with the same variables gives the same result.",
    "all texts of at most 3 to 6 characters over the significant characters, all documents of at most 3 to 4 lines over an alphabet of line shapes, deep and long repetitions of each construct",
    "The tests run a few hundred well-formed snippets; the statement is about every text, and malformed or degenerate combinations (an empty item, an include that cannot be read, a name that is missing) are exactly those nobody writes a test for.",
    [LEX, BASE, DOC, TXT, BV, "mau/__init__.py"],
    [("a lexer tries all its rules and falls back to text", BASE + ":_process"), ("a parser tries all its functions on each token", "mau/parsers/base_parser.py:parse"), ("errors are wrapped in messages", "mau/message.py")],
    DIRECT, "All texts within the bounds of the families; a structure that is too deep for the recursion limit has to be rejected with one error. Trusts that 20 CPU seconds on a text below 1 KiB mean no termination.",
    over=("inputs", "programs"),
)
prop(
    "C02", "The kind of a line depends only on its shape and no text is lost",
    "Each line that is not inside of a block is recognised as one kind (header, list item, block fence, label, arguments, variable, inclusion, control, horizontal rule, comment, paragraph) from what is written on that line only, whatever the lines before and after it. Consecutive lines that match no special shape are one paragraph, joined with single spaces, and no part of their text is lost.",
    "all lines of at most 4 to 5 characters over the significant characters and all documents of 2 to 3 such lines",
    "Tests check one example per kind of line; shapes that are nearly special (a dot without a space, two or four dashes, a prefix without text) and their combination with the following line are not sampled.",
    [LEX, DOC, PROC], [("ordered list of line rules", LEX + ":_process_functions"), ("ordered list of node processors", DOC + ":_process_functions")],
    note="Agreement of the whole tree with an independent interpreter for every document in the bounds.",
)
prop(
    "C03", "The source position of every node is the text it comes from",
    "The position recorded for every node (file, line and column of start and end) is the range of the source that contains the text of that node, for nodes at any depth, inside blocks, items, macros and after any preceding lines. Moving a construct down by some lines, or inserting text before it on the same line, moves its positions by the same amount.",
    "all documents that put each inline and block construct in each place, after each kind of preceding line, up to nesting depth 3",
    "Tests assert positions for single constructs at the top of a document; offsets are accumulated through nested lexers and parsers, so an error shows only in particular nestings.",
    ["mau/text_buffer.py", "mau/token.py", BASE, TXT, DOC, LEX], [("contexts carry start and end position", "mau/token.py"), ("nested parsers are given the start of their text", "mau/parsers/base_parser.py:lex_and_parse")],
    DIRECT, "An independent oracle computes from the source what text each node has to cover. Texts with variables and quoted arguments with escapes are outside of the domain.",
)
prop(
    "C04", "An error is reported once, for the right file, where the wrong construct is",
    "When a document is wrong, exactly one error is reported, it names the file that contains the error (an included file when the error is there) and its position falls on the wrong construct. This holds wherever the construct appears: nested blocks, list items, headers, labels, macro arguments, included files, values of variables.",
    "every wrong construct of a list of about 60 in every place of a list of about 20, after different preceding lines",
    "Tests check the text of error messages for isolated snippets; the position depends on all the places the text was moved through.",
    ["mau/message.py", "mau/parsers/base_parser.py", BASE, DOC, TXT, PROC], [("parser exceptions carry the context of the wrong token", "mau/parsers/base_parser.py:create_parser_exception"), ("lexer exceptions carry the position of the buffer", BASE + ":create_lexer_exception")],
    DIRECT, "The wrong part of each construct is marked by hand; the check is that the reported position is inside of it for every placement.",
)
prop(
    "C05", "Comments and empty lines have no effect on the document",
    "Inserting a comment line, a comment block, or further empty lines where there is already one, between any two constructs, does not change the tree, and neither does the way the text ends (with or without final line feeds). A comment never hides or joins the constructs around it, except that it separates paragraphs like an empty line does.",
    "every inert piece inserted in every gap of every document of 2 to 3 constructs, with the constructs' own pending arguments, labels and conditions",
    "Tests have one comment in one document; the statement ranges over all gaps between all pairs of constructs, including those between a prefix line and the node it belongs to.",
    [LEX, DOC], [("comment rules of the lexer", LEX + ":_process_comment"), ("empty line tokens are consumed between nodes", DOC)],
    note="The tree is compared both with the tree of the original document and with the reference interpreter.", over=("inputs", "programs"),
)
prop(
    "C06", "Inline markup: closed markers give styles, everything else is literal text",
    "In a text, a style marker or a verbatim or escape marker that is closed gives one node that contains what is between the markers, nested in any way, and a marker that is not closed, and any other character, is plain text. The characters of the text are preserved in order, and a backslash makes the next character literal.",
    "all texts of at most 5 to 8 characters over the markers, brackets, quotes, backslash and letters, in every place where text can appear",
    "Tests have one example per style and a few nestings; markers can be interleaved, repeated and broken in combinatorially many ways.",
    [TXL, TXT], [("style markers are tried with a saved position and abandoned when not closed", TXT + ":_parse_style"), ("verbatim and escape", TXT)],
    note="Tree equality with the reference interpreter on every text in the bounds.",
)
prop(
    "C07", "Any text can be written literally in any place",
    "For any text there is a way to write it literally (a backslash before each special character, or verbatim and escape markers, or quotes in arguments, or raw blocks) and the plain text of the node found there is exactly the original text. This holds in paragraphs, headers, items, labels, arguments and macro arguments.",
    "all texts of at most 3 to 4 characters over the special characters in 20 places with 4 ways of writing",
    "A round trip over all short texts is an exhaustive statement about escaping; the tests have a handful of escaped characters.",
    [TXL, TXT, ARG, PRE, "mau/lexers/arguments_lexer.py"], [("escape rules of the lexers", TXL), ("quotes in arguments", ARG)],
    DIRECT, "The escaping rules are those of the documentation, implemented by the check; the text is compared with the one found in the tree.",
)
prop(
    "C08", "A variable is replaced by its value wherever it is used",
    "A variable in curly braces is replaced by its value in every place that accepts variables (paragraphs, headers, items, labels, arguments, inclusions, conditions, macros, values of other variables), whatever the value contains, and the result is processed as if the value had been written there. Escaped braces and verbatim text are left alone, a name that is not defined is an error.",
    "all texts of 1 to 3 pieces over an alphabet of variable uses, escapes and markers, in all the places, with values of all types",
    "Tests substitute a few values in paragraphs; a value can contain any markup and every place has its own path through the code.",
    [PRE, "mau/lexers/preprocess_variables_lexer.py", TXT, PROC], [("preprocessing of the text before it is parsed", PRE)],
    note="Tree equality with the reference interpreter.",
)
prop(
    "C09", "Variable definitions: the last one before a line counts for that line",
    "A variable defined in the document is visible from the following line on with the value given, its definition can use other variables and can be changed, enabled or disabled later. Definitions written in blocks count for what follows the block as well, the ones in included files do not change the variables of the including document.",
    "all documents of 1 to 4 lines over an alphabet of definitions and uses, all names and values of a list, through blocks, items and included files",
    "Histories of definitions and uses: the order and the nesting matter, tests have one definition and one use.",
    [PROC + "variable_definition.py", DOC, PROC + "block_engines/default.py", ENV], [("definition stored in the environment of the parser", PROC + "variable_definition.py")],
    note="Trees and final variables are compared with the reference interpreter.", over=("inputs", "histories"),
)
prop(
    "C10", "Arguments are split into unnamed, named, tags and subtype as written",
    "A list of arguments is split at the commas that are not in quotes; each element is unnamed, named, a tag, or the subtype according to its prefix and to the equal sign, without surrounding spaces and quotes. All of them are found in the node in the order they were written, the same way for every node and every notation that takes arguments, and lists that are not valid are errors.",
    "all lists of at most 5 to 6 characters over the significant ones, all lists of at most 3 to 4 pieces, on all the kinds of nodes",
    "Tests have a few lists; quotes, escapes, spaces, prefixes and equal signs interact.",
    [ARG, "mau/lexers/arguments_lexer.py", "mau/nodes/node_arguments.py"], [("arguments are parsed and collected by kind", ARG)],
    note="Tree equality with the reference interpreter.",
)
prop(
    "C11", "Aliases supply the subtype, default arguments and names of positional arguments",
    "When arguments use an alias, the node gets the subtype of the alias, its default named arguments, in their order, unless they are given explicitly, and its names are assigned to the positional arguments in order. This works the same for user aliases and for predefined ones and never changes the definition of the alias.",
    "every combination of defaults, names, subtype and given arguments from lists, used up to 3 times in a document",
    "Tests have one or two aliases; the interplay of explicit, positional and default arguments is combinatorial and a shared mutable default shows only at the second use.",
    [ARG, PROC + "arguments.py"], [("alias lookup and merge of defaults", ARG + ":process_arguments_with_variables")],
    note="Tree equality with the reference interpreter.", over=("inputs", "configurations"),
)
prop(
    "C12", "Arguments, labels and conditions apply to the next node only",
    "Arguments, labels and conditions written before a node are attached to that node, all together and in any order, and to no other node: they are consumed exactly once whatever the kind of the node. When a condition excludes the node, its arguments and labels disappear with it; the ones inside of a block do not leave the block.",
    "all sequences of 1 to 4 attachment lines over an alphabet, before each kind of node, followed by each kind of node",
    "A leak of pending attachments shows only with a particular pair of nodes; tests attach one thing to one node.",
    ["mau/parsers/buffers/arguments_buffer.py", "mau/parsers/buffers/label_buffer.py", "mau/parsers/buffers/control_buffer.py", DOC, PROC], [("buffers are popped by the node that consumes them", "mau/parsers/buffers")],
    note="Tree equality (with parents) with the reference interpreter.", over=("inputs", "histories"),
)
prop(
    "C13", "Conditional content: exactly what the condition selects is processed",
    "A condition compares the text of the value of a variable with a text, for equality or inequality, and the next node or the inline content is part of the document exactly when it holds; inline conditions choose between the two given texts. Excluded content leaves no trace: no node, no footnote, no header, no numbering.",
    "all conditions over lists of names, operators and values, before every kind of node and in every inline place, and sequences of conditional nodes",
    "Tests check a true and a false condition on a paragraph; each kind of node registers different things that must not leak.",
    ["mau/parsers/buffers/control_buffer.py", PROC + "control.py", "mau/parsers/condition_parser.py", "mau/lexers/condition_lexer.py", TXT], [("the control buffer is evaluated before the node is stored", "mau/parsers/buffers/control_buffer.py")],
    note="Tree and final variables are compared with the reference interpreter.",
)
prop(
    "C14", "Every inline macro gives its node with its arguments and content",
    "An inline macro (link, mail, image, class, unicode, raw, header, footnote, conditional or generic) gives one node of its kind with the text, the target and the other arguments where its syntax says, positional or named. Missing mandatory arguments are errors, a generic macro keeps all its arguments, and the macro ends at its closing bracket.",
    "all macros over lists of names and of up to 3 arguments, in all the inline places",
    "Tests have one or two examples per macro; argument order, quoting and nesting of macros in arguments are not covered.",
    [TXT, "mau/nodes/macro.py", ARG], [("one parse function per macro name", TXT + ":_parse_macro")],
    note="Tree equality (with parents) with the reference interpreter.",
)
prop(
    "C15", "Lists: nesting follows the prefix length, numbering the start argument",
    "Consecutive items form one list whose nesting follows the length of the prefixes and whose kind follows the prefix characters, and every item ends in the tree in order with its level. An ordered list starts from 1, from the given number, or from where the previous ordered list of the document stopped.",
    "all sequences of 1 to 5 items over the prefixes, all starts, sequences of lists and other nodes",
    "Tests have regular lists; levels that jump, change kind, and continue after other nodes are histories.",
    [PROC + "list.py", "mau/nodes/list.py"], [("items are grouped recursively by level", PROC + "list.py"), ("the last index is kept for the next list", DOC)],
    note="Tree equality (with parents) with the reference interpreter.", over=("inputs", "histories"),
)
prop(
    "C16", "Headers and the table of contents agree with each other",
    "Each header has the level of its prefix and an internal identifier, given or computed from its text, and each table of contents lists exactly the headers of its document, in order, nested by level with each header under the closest previous header of a lower level. It does not matter whether the headers come before or after the table of contents.",
    "all sequences of 1 to 6 headers over 4 to 5 levels with a table of contents in all places, all header texts and arguments of lists",
    "Trees of headers with skipped and repeated levels form an infinite family; tests have two or three.",
    [PROC + "header.py", MAN + "toc_manager.py", "mau/nodes/header.py"], [("headers are collected during parsing and nested at the end", MAN + "toc_manager.py")],
    note="Tree equality (with parents) with the reference interpreter; in addition the plain and nested lists are compared with each other.",
)
prop(
    "C17", "Header links point to the header with the given name",
    "Every header link is connected to the header of the document that has that name, before or after the link, and shows the given text or the text of the header. A name that no header has, a name used by two headers, and a header connected to itself are errors, also for links written in the text of macros and in blocks that share the document.",
    "all pairs of links and definitions in both orders in 13 places, sequences of up to 3 to 4 parts",
    "Tests have one link after or before one header; the place of the link and of the header decide which collection they end in.",
    [MAN + "header_links_manager.py", TXT, PROC + "header.py", PROC + "block_engines/default.py"], [("links and headers are collected and matched at the end", MAN + "header_links_manager.py")],
    note="Tree equality (with parents) with the reference interpreter.",
)
prop(
    "C18", "Footnotes: each mention gets its body, numbers and lists follow the bodies",
    "Each footnote mention is connected to the body with its name, before or after it; the footnotes are numbered from 1 in the order in which their bodies are written, and each footnote list contains all the footnotes of the document in that order. A mention without a body and two bodies with the same name are errors.",
    "all sequences of up to 4 parts over mentions, bodies, lists and blocks",
    "The numbering and matching depend on the whole history of mentions and bodies, also through blocks and excluded content; tests have one footnote.",
    [MAN + "footnotes_manager.py", "mau/nodes/footnote.py", PROC + "block.py", TXT], [("mentions and bodies are collected and matched at the end", MAN + "footnotes_manager.py")],
    note="Tree equality (with parents) with the reference interpreter.", over=("inputs", "histories"),
)
prop(
    "C19", "Block groups collect exactly the blocks that name them",
    "A block with a group and a position is not shown where it is written, but in every place where the group is included, under its position and in the order in which the blocks are written. Two blocks with the same group and position, and the inclusion of a group that does not exist, are errors.",
    "all sequences of up to 4 parts over blocks with groups, inclusions, containers and excluded blocks",
    "Matching happens at the end of the document and depends on the order and the containers; tests have one group.",
    [MAN + "blockgroup_manager.py", PROC + "block.py", PROC + "include.py"], [("blocks are stored by group and matched at the end", MAN + "blockgroup_manager.py")],
    note="Tree equality (with parents) with the reference interpreter.", over=("inputs", "histories"),
)
prop(
    "C20", "Isolated blocks are documents of their own, the others part of the document",
    "The content of an isolated block has its own headers, links, footnotes, tables of contents and groups, and in these it does not affect the document around it nor sees what the document collects. The content of a block that is not isolated behaves as if it was written in the document for headers, links, footnotes and tables of contents.",
    "all documents of up to 3 parts split in all ways between a block and the document, nested up to depth 3",
    "Isolation is the absence of influence between two arbitrary documents, which examples cannot show.",
    [PROC + "block_engines/default.py", PROC + "block.py", "mau/parsers/base_parser.py", MAN], [("a new parser with its own managers processes the block", PROC + "block_engines/default.py"), ("managers are merged for non isolated blocks", MAN)],
    note="Tree equality (with parents) and final variables against the reference interpreter, and block content against the same content as a document.", over=("inputs", "programs"),
)
prop(
    "C21", "Raw and source blocks keep their lines exactly, with markers and highlights",
    "Raw and source blocks contain the lines written in them, one node per line with its number, with no markup processed and no line lost or added, including empty lines and spaces. In source blocks a marker at the end of a line becomes the marker or the highlight of that line, and the language is the one given.",
    "all blocks of 1 to 4 lines over an alphabet of lines, all arguments of a list, in all the fences",
    "Every line of code is a possible input; tests have simple ones.",
    [PROC + "block_engines/raw.py", PROC + "block_engines/source.py", "mau/nodes/raw.py", "mau/nodes/source.py", LEX], [("lines are stored without parsing", PROC + "block_engines/raw.py"), ("markers are split from the end of the line", PROC + "block_engines/source.py")],
    note="Tree equality (with parents) with the reference interpreter.",
)
prop(
    "C22", "Included files: content, variables in both directions, recursion",
    "The inclusion of a Mau file contains exactly the document the file gives on its own, with the variables of the including document unless they are not passed and with those given in the inclusion; nothing defined in it leaks out. The inclusion of a raw file contains its lines, a file that cannot be read and a file that includes itself (directly or through others) are errors, and the same file can be included many times.",
    "all graphs of up to 3 files over an alphabet of contents and inclusions, with all options",
    "The set of files is a graph with a history of variables; tests have one file.",
    [PROC + "include.py", "mau/nodes/include.py"], [("the call stack of files is passed to the parser of the file", PROC + "include.py")],
    note="Tree equality (with parents) and final variables against the reference interpreter, in a scratch directory.", over=("inputs", "programs"),
)
prop(
    "C23", "The two notations of an inclusion are equivalent; every inclusion gives its node",
    "The arguments of an inclusion can be written after the colon or in square brackets before it, with the same result; using both is an error. Each inclusion gives a node of its kind with its arguments, and images have their address, alternate text and classes.",
    "all inclusions over a list of types and up to 3 arguments in both notations",
    "Tests check some types in one of the notations; the equivalence is over all types and arguments.",
    [PROC + "include.py", "mau/nodes/include.py", ARG], [("arguments from the line or from the buffer", PROC + "include.py")],
    note="Both notations are compared with each other and with the reference interpreter.",
)
prop(
    "C24", "The environment is a tree of variables: each operation has one meaning",
    "After any sequence of operations on an environment (define, update with dictionaries or other environments, with or without a namespace or overwriting, copy, read), a dotted name gives the last value written to it, names in a namespace form one dictionary, and no other name changes. Dictionaries and environments given to it or read from it stay independent of it.",
    "all states reachable with the operations of an alphabet (fixed point or depth 5), all histories of at most 2 to 3 operations, pairs of environments",
    "The contents are the result of a history of operations and aliasing of nested dictionaries shows only after a later operation; tests execute one or two operations.",
    [ENV], [("names are stored flat with a separator and made nested on reading", ENV)],
    "explicit-state model checking (breadth-first search of the reachable states), every transition replayed on the implementation",
    "The model is a flat dictionary of names; every transition of the model is replayed on the implementation from the start and all the observations are compared.",
    over=("histories",), level="model_checking", state=[("variables", "the values by dotted name", ENV)], observe=("values read with each method of the environment",),
)
prop(
    "C25", "For every node the most specific template that fits is used",
    "A template can be named after a node kind with further requirements (subtype, tags, own fields, kind, subtype and fields of the parent, prefixes), in any order; each node is rendered with a template whose requirements it all meets, and among them the most specific one. When there is none, an error names the node.",
    "all sets of 1 to 3 template names out of all combinations of requirements, for every kind of node, with and without prefixes, in all orders of requirements",
    "Specificity is an order over sets of requirements: the tests use a few pairs of templates.",
    [JV], [("templates are parsed from their names and sorted by specificity", JV), ("the first matching template is used", JV)],
    note="The rendered output tells which template was used for each node; it is compared with a reference implementation of the selection.", over=("inputs", "configurations"), observe=("the rendered output", "the messages received by the message handler"),
)
prop(
    "C26", "Templates see all the values of their node; sources have a fixed precedence",
    "The template of a node can use all its arguments, labels, fields and its rendered content, whatever the nesting, and the rendered pieces are joined with the strings configured for that kind of node. When several sources give a template with the same name, the given ones win over the ones in directories, these over the ones of providers, these over the default ones.",
    "all documents of 1 to 2 constructs in all containers rendered with templates that show everything, all combinations of sources that provide two templates, trees of directories",
    "Tests render a node at a time with one template; the values are passed down through the rendering of nested nodes and each source is a configuration.",
    [JV, BV, "mau/environment/environment.py"], [("the visitor visits the children before the template is rendered", JV + ":_visit_default"), ("templates of the sources are merged in order", JV + ":__init__")],
    note="The output is compared with the one of a reference renderer applied to the reference tree.", over=("inputs", "configurations"), observe=("the rendered output", "the messages received by the message handler"),
)
prop(
    "C27", "The YAML output contains the whole tree, whatever the characters",
    "The YAML output, loaded by a YAML parser, is the tree the base visitor gives for the same text, with all types preserved. This holds for every character a text can contain and for texts that look like other YAML values.",
    "all characters of the basic plane and samples of the others in all places, all texts of at most 2 characters over the YAML indicators, words that look like values, all documents of 1 to 3 constructs",
    "A serialisation is faithful if it is for every text; tests have plain ASCII documents.",
    ["mau/visitors/yaml_visitor.py", BV], [("the tree is serialised at the end of the visit", "mau/visitors/yaml_visitor.py")],
    DIRECT, "Trusts the YAML parser of the standard distribution used for loading (PyYAML). Lone surrogates are outside of the domain.", observe=("the YAML text",),
)
prop(
    "C28", "A run depends on its input only",
    "Processing a text gives the same result and the same messages whatever was processed before in the same process with other environments. The definitions of the document and default settings are all that a run adds to the environment given to it: an object used again gives what a new one with those variables gives. The result does not depend on the hash seed, the locale, the working directory or the optimisation level.",
    "all sequences of 2 to 3 runs out of 40 different ones (with errors, variables, aliases, includes, templates), shared environments and shared objects, 12 settings of the process",
    "State that survives a run shows only in the second run; tests start from new objects.",
    ["mau/__init__.py", DOC, "mau/parsers/base_parser.py", ENV, JV, ARG], [("environments are cloned for each parser", "mau/parsers/base_parser.py"), ("class attributes and default arguments are not modified", DOC)],
    DIRECT, "Every run of a sequence is compared with the same run alone in a new process.", over=("histories", "configurations"), state=[("process state", "what a run could leave behind: class attributes, module globals, the environment given", "mau")], observe=("results, messages and output of every run",),
)
prop(
    "C29", "The command line: options to variables, output and exit status",
    "The command writes exactly the output of the processing to the chosen output (standard output, the given file, or the default name), with exit status 0, and touches no other file; on any wrong input it writes no output, reports one error and exits with a status different from 0. Configuration, environment files and environment variables are visible to documents and templates under their names.",
    "all combinations of documents, input names, outputs, visitors, environment options and flags of the lists, with and without existing files",
    "Tests call the functions of the command line one at a time with mocks; the options interact.",
    [CLI, "mau/__init__.py"], [("options are turned into an environment", "mau/__init__.py:load_environment_files"), ("main processes the file and writes the output", CLI + ":main")],
    note="A model of the command line computes output, files and exit status; a part of the cases is executed as complete processes.", over=("inputs", "configurations"), observe=("exit status, standard output, files of the directory",),
)
prop(
    "C30", "The nodes of a document form a tree and a copy of it is independent",
    "Every node of a processed document has exactly one place in it (the content of a group that is included many times excepted), its parent is one of the nodes that contain it, and following parents from any node ends. A deep copy of a document has the same content, arguments, labels and positions, shares no node with the original, and changes to it are not seen in the original.",
    "all constructs in all containers and sequences of 2 to 4 constructs",
    "The tests do not exercise copies at all (they are excluded from coverage); tables of contents, footnotes and links copy parts of the document.",
    ["mau/nodes/node.py", "mau/nodes/block.py", "mau/nodes/paragraph.py", "mau/nodes/macro.py", "mau/nodes/include.py", "mau/nodes/list.py", "mau/nodes/header.py", MAN], [("each kind of node implements its copy", "mau/nodes/node.py:deepcopy")],
    DIRECT, "Every node of original and copy is visited. Arguments are shared by shallow copies, which is not observable in a processed document.",
)
prop(
    "C31", "Settings: valid ones have their effect, wrong ones are reported",
    "Every setting of the parser and of the visitors has its documented effect when its value is valid, and settings that a document does not use change nothing. A value that cannot be used (of the wrong type, an unknown provider, a directory that cannot be read, a template that is not valid or whose rendering fails) ends in exactly one reported error, never in another exception.",
    "all settings with all the values of 26 kinds for every document; all kinds of node with wrong templates of 40 kinds from all sources; directories, prefixes and providers of 26 kinds",
    "Settings come from a YAML file written by a user: each can have a value of each type, and is read only by some documents. Tests give valid values.",
    [DOC, "mau/parsers/base_parser.py", JV, BV], [("settings of the parser are read when they are used", DOC), ("templates are collected from the sources when the visitor is created", JV + ":__init__")],
    over=("inputs", "configurations"), observe=("the tree or the rendered output", "the messages received by the message handler"),
)
prop(
    "C32", "The debug tag gives messages and changes nothing else; logs are complete",
    "A node with the debug tag gives one message each time it is visited, with its position and its values, in the order of the visit, and the output is the same as without the tag. The message handler that writes logs writes the text and the position of every message (lines start from 1), at the configured levels.",
    "all kinds of node with the tag in all places of all documents of 1 to 2 constructs, with each visitor; all errors of the list with all levels and prefixes",
    "The tag can be on any node, and nodes are visited through lists, tables of contents, footnotes and links; tests have one tagged paragraph.",
    [BV, JV, "mau/message.py"], [("the debug message is sent before a node is visited", BV + ":visit"), ("messages are formatted and written to the logger", "mau/message.py:LogMessageHandler")],
    over=("inputs", "configurations"), observe=("the messages received by the message handler", "the records of the logger", "the rendered output"),
)
prop(
    "C33", "Visitors: options and replaced methods apply to every node",
    "A visitor that replaces the method of a kind of node gets every node of that kind, wherever it is, and what it returns takes the place of that node in the result and in the data given to the nodes around it. Options of visitors (data without positions or parents, steps before and after) change exactly that.",
    "all constructs with all pairs of other constructs, with all options and with visitors that replace the method of each kind of node",
    "New visitors are the way to extend the program; each method has to be called from every place where a node of that kind can be, and tests call the methods of the visitors of the distribution.",
    [BV, JV, "mau/visitors/yaml_visitor.py"], [("the method is chosen from the type of the node", BV + ":visit"), ("lists of nodes are visited in order", BV + ":visitlist")],
    over=("inputs", "configurations"), observe=("the data returned by the visitor",),
)
prop(
    "C34", "The inclusions and the table of contents given with a document are complete",
    "Together with the document, the processing gives the list of all the files that were included, directly or by other files, in blocks, footnotes or groups, in order, each with the including file, its variables and its position; inclusions that are excluded by a condition are not in it. It also gives the headers of the document, as a list and as a hierarchy.",
    "all sequences of 1 to 3 inclusions of all kinds, wrong inclusions in all of them, sequences of 1 to 3 headers in all containers",
    "Inclusions are collected by a parser for each block and file, and merged; tests have one inclusion, or one level of nesting.",
    [PROC + "include.py", PROC + "block_engines/default.py", MAN + "toc_manager.py", DOC], [("each inclusion is recorded by the parser that executes it", PROC + "include.py"), ("the calls of nested parsers are added to the ones of the external parser", PROC + "block_engines/default.py")],
    observe=("the output of the parser",),
)
