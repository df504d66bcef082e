LSP = 'ginko_ls/src/server.rs'
CLI = 'ginko/src/main.rs'
MIRABS = 'static analysis: trace-partitioned abstract interpretation of rustc MIR with a property automaton'

p('C01', 'The command line verdict and exit status match the analysis outcome',
  'The command line tool exits with status 0 and prints the "no issues found" verdict if and only if the requested file '
  'could be read and no file of the analysed project has a diagnostic. In every other case - unreadable file, or at '
  'least one diagnostic in the requested or any included file - it exits with a nonzero status and never prints that verdict.',
  'inputs configurations', 'every input file, every set of included files, every combination of options',
  'No test runs the binary; the verdict depends on every file of the project having been looked at.',
  [CLI, D + 'project.rs'], [('main', CLI)], MIRABS,
  'All abstract paths of the main function: two ghost booleans per project file (has parser / analysis diagnostics), '
  'verdict automaton at every exit. Sound for the paths of the MIR; library calls are opaque.', ['process exit status', 'standard output'])

p('C04', 'Every diagnostic of every project file is shown by the front ends',
  'The command line tool prints, and the language server publishes under the address of its own file, every diagnostic '
  'of every project file. The printed form has the path, 1-based line and column, severity and message of the '
  'diagnostic; the published form has its message, code and range.',
  'inputs histories', 'every project content and every sequence of document events',
  'The tests never run a front end; one skipped file or one filtered list is invisible to them.',
  [CLI, LSP, D + 'diagnostics.rs'], [('main', CLI), ('printer of diagnostics', D + 'diagnostics.rs'), ('publish loop', LSP)],
  MIRABS, 'Iteration automaton over files and diagnostics in the MIR of the CLI, the printer and each event handler; '
  'value-flow terms of every printed / published field.', ['standard output', 'textDocument/publishDiagnostics'])

p('C13', 'Document events update the project with the newest text and republish',
  'After opening or changing a document the project holds the newest full text of that document under its own path and '
  'the diagnostics of all project files are published again from the updated project. Closing a document '
  'removes it from the project and retracts the diagnostics shown for it.',
  'histories', 'every sequence of open / change / close / configuration notifications',
  'No test drives the server; the order update-then-publish and the choice of the text only show over event histories.',
  [LSP], [('did_open, did_change, did_close handlers', LSP)], MIRABS,
  'Typestate automaton (updated -> published for all files) over the abstract traces of the handler coroutines.',
  ['textDocument/publishDiagnostics'])

p('C14', 'Advertised capabilities are exactly the implemented requests',
  'The server advertises a request capability if and only if it implements that request, and advertises full '
  'document synchronisation with open and close notifications, which is how it reads change events.',
  'configurations', 'every client and every initialisation option',
  'No test starts the server; a capability without a handler (or the reverse) only shows with a client.',
  [LSP], [('initialize handler', LSP)], 'static analysis: abstract interpretation of the initialize result against the set of '
  'overridden trait methods', 'All results of initialize are enumerated; compared with the methods in the impl of the server trait.')

A = D + 'analysis.rs'
GHOST = 'static analysis: trace-partitioned abstract interpretation of rustc MIR with ghost state per declaration'

p('C02', 'Severity is a total function of the error code',
  'Every error code has exactly one default severity, and the severity with which a diagnostic is printed, published and '
  'counted is the one of its own code in the severity table of the project.',
  'inputs configurations', 'every error code and every diagnostic',
  'Only the codes that some test happens to provoke are ever looked up; a code without an entry aborts.',
  [D + 'diagnostics.rs', D + 'error_codes.rs', CLI, LSP], [('severity table', D + 'diagnostics.rs'), ('error codes', D + 'error_codes.rs')],
  'static analysis: abstract interpretation of the table construction, value-flow of the looked-up severity',
  'All error codes enumerated from the type; all insertions of the table construction.', ['severity label of a diagnostic'])

p('C19', 'Every unresolved reference is reported exactly once, at its own position',
  'In a device tree source that is not a plugin, a reference in a property value or a cell is reported as unresolved, at its own position and '
  'once, if and only if neither the whole file nor its includes define its label or path. References of re-opened nodes, '
  '/delete-node/ and /omit-if-no-ref/ at the top level are reported likewise if nothing before them defines a node with their label or path.',
  'inputs', 'every file, every number and order of declarations, values and cells',
  'A skipped cell, value or kind of declaration loses an error silently; tests contain a few references each.',
  [A], [('Analysis::analyze_file', A), ('deferred references', A)], GHOST,
  'All abstract traces of the file analysis; each reference kind and position class; recursion by coinduction.', ['diagnostics of a file'])

p('C20', 'Unresolved references are reported only in complete device trees',
  'References are reported as unresolved only if the file is a device tree source (.dts) and is not a plugin; '
  'include files, overlays, files of unknown type and files with a /plugin/ directive never get such an error.',
  'inputs configurations', 'every combination of file type, position of /plugin/ and kind of reference',
  'False alarms in every include file of a project would make the tool unusable; tests cover one combination each.',
  [A], [('Analysis::analyze_file', A)], GHOST,
  'File type and plugin directive as ghosts over all abstract traces of the file analysis.', ['diagnostics of a file'])

p('C21', 'Nodes and labels are found under their own path and label, also via includes',
  'After analysis each node of a file can be looked up under its path (the path of its parent extended by its full name '
  'including the unit address; for nodes in the body of a resolved re-opened node of a .dts file: the path of that node) and each '
  'labelled node and property under its label. What an included file provides is available in the including file, '
  'even if the included file has errors.',
  'inputs', 'every tree of nodes, every nesting depth, every number of includes',
  'The tables drive references, hover and definition; wrong keys for some shapes are only seen where a test looks them up.',
  [A, D + 'ast.rs'], [('analysis of nodes', A), ('Path::with_child', D + 'ast.rs')], GHOST,
  'All abstract traces; nested nodes by coinduction over the recursion; keys compared as terms.',
  ['node lookup by label and path', 'diagnostics of a file'])

p('C27', 'Positions are lines and UTF-16 columns of the text',
  'The reader yields the bytes of the text one after the other, looking ahead does not consume, and the position after each byte is the '
  'zero-based line (counting line feeds) and the number of UTF-16 code units since the start of that line.',
  'inputs', 'every text, every mix of line ends and of characters of 1, 2, 3 and 4 bytes',
  'Tests use ASCII; positions after other characters are only visible in an editor.',
  [D + 'reader.rs'], [('ByteReader', D + 'reader.rs')],
  'static analysis: abstract interpretation of the reader, one run per byte value',
  'All byte values that occur in UTF-8, all abstract states of the reader (end or not).', ['positions of tokens and diagnostics'])

p('C32', 'The version header is checked for presence, uniqueness and place',
  'A device tree source (.dts) without a /dts-v1/ header gets exactly one NonDtsV1 error; each further header gets one '
  'DuplicateDirective error at its position; a first header that follows any declaration other than an include gets one '
  'MisplacedDtsHeader error. No other file gets these errors.',
  'inputs', 'every sequence of declarations of every kind and every file type',
  'The sequences of ten declaration kinds are unbounded; tests sample four.',
  [A], [('Analysis::analyze_file', A)], GHOST,
  'Ghost automaton over all declaration kinds, all file types, all abstract traces.', ['diagnostics of a file'])

p('C38', 'Problems of includes are reported at the include',
  'An include in an analysed file is reported at its own position: with an IOError if its file cannot be found, with a cyclic dependency error if it closes '
  'a cycle, else with ErrorsInInclude exactly if the included project file has at least one diagnostic - found in parsing or in analysis - '
  'of severity error.',
  'inputs histories', 'every include graph and every set of diagnostics of the included files',
  'Needs several files with errors of each kind; tests have one include.',
  [A, D + 'project.rs'], [('analysis of includes', A), ('ProjectFile::has_errors', D + 'project.rs')], GHOST,
  'All outcomes of path lookup, cycle check and error check enumerated over the abstract traces.', ['diagnostics of a file'])

p('C45', 'The test for include cycles finds every cycle and nothing else',
  'Each include that is met in a round of analysis becomes an edge between the including and the included file, in one graph for all files of the round from which no '
  'edge is ever lost. Adding edges reports a cycle exactly if the element they are added to can be reached again from itself along the edges added so far - '
  'over any number of elements, in any order of adding -, and the search for it ends.',
  'inputs histories', 'every graph, every order in which its edges are added',
  'Graphs with branches that meet again, several ways back, and cycles that do not contain the new edge; tests have ten small graphs.',
  [D + 'import_guard.rs', A, D + 'project.rs'], [('ImportGuard::add', D + 'import_guard.rs'), ('analysis of includes', A), ('Project::add_file_with_text', D + 'project.rs')], GHOST,
  'Roles of the local collections are found by a first abstract run; the exactness argument is the usual one of graph search: each element is expanded at most once, each edge of an '
  'expanded element is followed, membership tests are on sets that get each element that is put on the work list.', ['diagnostics of a file'])

p('C40', 'compatible consists of strings only',
  'For a property called compatible each value that is not a string is reported exactly once, at the position of that value, with '
  'NonStringInCompatible; no other property and no string value gets this error.',
  'inputs', 'every property, every number and kind of values, at any nesting depth',
  'Depends on every value of every property in every node being visited.',
  [A], [('analysis of properties', A)], GHOST, 'Value kind as ghost, all abstract traces of the property analysis.', ['diagnostics of a file'])

p('C42', 'The file type is determined by the file ending',
  'The type of a project file is a device tree source for the ending dts, an include for dtsi and an overlay for dtso or overlay, unknown for '
  'anything else, always taken from the path of that file, whether it comes from disk, from an include or from an editor.',
  'inputs histories', 'every path and every way a file enters the project',
  'The type decides which checks run at all; tests only use .dts.',
  [D + 'project.rs', D + 'data.rs', LSP], [('FileType', D + 'project.rs')],
  'static analysis: abstract evaluation of the ending table, value-flow of the type into every project file',
  'All known endings plus the default; all functions that create project files.', ['diagnostics of a file'])


PRJ = D + 'project.rs'
p('C15', 'A file has one entry, under its canonical path',
  'The project has at most one entry per file: a file is stored, looked up and removed under its canonical path (or the path as given if it '
  'does not exist on disk), no matter which spelling of the path is used, and no matter if it comes from disk, an include or an editor.',
  'inputs histories', 'every spelling of a path, every order of adding, including, looking up and removing files',
  'Tests use one canonical spelling per file; aliases such as a symbolic link or dir/../dir need several operations.',
  [PRJ, D + 'ast.rs'], [('Project', PRJ), ('Include::path', D + 'ast.rs')], MIRABS,
  'Every operation on the map of files in every public method of the project (private helpers followed); canonicalization is opaque and idempotent.',
  ['project files', 'lookup of diagnostics and trees'])

p('C16', 'Include cycles terminate',
  'Adding a file terminates for every include graph, including files that include themselves or each other: a file is only parsed because of an include '
  'if it is not part of the project yet, and it becomes part of the project before its own includes are followed; ordering the files for analysis '
  'enters each file at most once.',
  'inputs', 'every finite include graph',
  'A cycle of a shape that no test has makes the process run out of stack.',
  [PRJ], [('Project::add_file_with_text', PRJ)], MIRABS,
  'All abstract traces of adding a file; recursion by a well-founded argument: each recursive call adds an entry to the project or to the visited files.')

p('C17', 'Files are analysed after the files they include',
  'Whenever a file is added or changed all files of the project are analysed once, each one after all files that it includes directly or indirectly '
  '(as far as they do not include each other), so that labels and nodes of included files are known irrespective of '
  'the names of the files and of the order of adding them.',
  'inputs histories', 'every include graph, every name and insertion order of the files',
  'Order errors depend on names, depth and shape of the include graph; tests have two files.',
  [PRJ], [('Project::add_file_with_text', PRJ)], MIRABS,
  'Depth-first post-order as an automaton over all abstract traces; includes that do not exist are excluded.', ['diagnostics of a file'])

p('C33', 'Adding a file replaces everything the project knew about it',
  'After a file is added or updated, its source text, syntax tree, file type, parser diagnostics, analysis diagnostics and analysis context are those of '
  'the new text alone, nothing of a former version remains; each other file of the project is re-analysed with its own tree '
  'and file type. A file read from disk (directly or as include) has the unaltered text of that file.',
  'histories', 'every sequence of additions and updates',
  'Needs sequences of updates with different contents; a stale field shows only then.',
  [PRJ], [('Project::add_file, Project::add_file_with_text', PRJ)], MIRABS,
  'All abstract traces; the fields of the last entry inserted per file are compared as terms; included files by coinduction.',
  ['diagnostics of a file', 'project files'])

p('C36', 'Includes are searched next to the file first, then in the include paths in order',
  'An include resolves to the first existing file among the directory of the including file and then the configured include paths in '
  'their order. Configured include paths that do not exist are ignored.',
  'inputs configurations', 'every list of include paths, every directory layout',
  'Order and fall-through need several directories with equally named files.',
  [PRJ, D + 'ast.rs'], [('Include::path', D + 'ast.rs'), ('Project::set_include_paths', PRJ)], MIRABS,
  'All abstract traces of the resolution, of the configuration and of the creation of the list handed to the parser.')

VIS = D + 'visitor.rs'
p('C08', 'The item under a position is the one whose span contains it',
  'The item found at a position of a file is the include, reference (in a value, cell, re-opened node, top-level /delete-node/ or '
  '/omit-if-no-ref/) or label of a node or property whose span contains the position - start inclusive, end exclusive - at any '
  'nesting depth. Nothing is found if there is no such item.',
  'inputs', 'every file, every nesting depth, every position',
  'Boundaries, later elements of lists and deep nesting need more positions than tests sample.',
  [VIS, D + 'data.rs'], [('ItemAtCursor visitor', VIS), ('Span::contains', D + 'data.rs')], MIRABS,
  'All abstract traces of the visitor; recursion over nested nodes by coinduction; every element of every list is an obligation.',
  ['hover', 'goto definition'])

p('C09', 'Positions and ranges of the language server are those of the library',
  'Every position and range in an answer or a published diagnostic of the language server has the line and the character of the '
  'position of the library, with start and end as in its span. The position of a request is handed to the library unchanged.',
  'inputs', 'every request, every document, every diagnostic',
  'Off-by-one and swapped coordinates only show at particular positions; no test drives the server.',
  [LSP], [('conversion of positions and spans', LSP)], MIRABS,
  'Value-flow terms of every Position/Range built in any handler and of every position handed to the library.',
  ['textDocument/publishDiagnostics', 'hover', 'goto definition', 'document symbols'])

p('C34', 'The outline has every declaration once, nested as in the file',
  'The document symbols of a file have exactly one symbol, in file order, for each root node, re-opened node, include, top-level /delete-node/ and '
  '/omit-if-no-ref/, and nested below it one for each property, node, deleted node and deleted property of its body. Each has the '
  'name of its element, the whole span of the element as range and the span of the name as selection range.',
  'inputs', 'every file, every nesting depth, every number of declarations',
  'A skipped kind of element, a lost nesting level or swapped ranges need files no test asks the outline of.',
  [LSP], [('document_symbol handler', LSP)], MIRABS,
  'Completeness automaton over all loops of the handler; recursion by coinduction; terms of name and ranges.', ['document symbols'])

p('C37', 'Configured include paths reach the project before files are analysed',
  'The include paths of the project are all those given on the command line (of the tool and of the server) and all those of the client '
  'configuration, both at initialisation and when the configuration changes; they are set before the requested file is '
  'added. The file analysed by the command line tool is the one given to it.',
  'inputs configurations', 'every command line and every client configuration',
  'No test runs the binaries with options; a dropped list only shows with includes found by the second source of paths.',
  [LSP, CLI, 'ginko_ls/src/main.rs'], [('main functions', CLI), ('initialize and did_change_configuration', LSP)], MIRABS,
  'All abstract traces of both main functions and the two handlers; contents of the vector handed to the project.')

p('C39', 'Hover and definition answer with the declaration the analysis resolves to',
  'Hover and goto-definition on a reference answer with the name and the position (span of the name, in the file it is declared in) of '
  'the node that the analysis of the document has for its label or path. On an include they answer with its file name and its resolved '
  'file, on a label hover answers with its text; otherwise there is no answer.',
  'inputs', 'every document, every position, every graph of includes',
  'The wrong file or span only shows for declarations of other files or shadowed labels; no test drives the server.',
  [LSP, D + 'analysis.rs'], [('hover and goto_definition handlers', LSP)], MIRABS,
  'All abstract traces of the two handlers and of the lookup functions of the library.', ['hover', 'goto definition'])

EFFECT = 'static analysis: effect analysis over the call graph of the MIR'
p('C10', 'Standard output of the language server carries nothing but the protocol',
  'Nothing that the language server runs - its own code and everything it calls in the library - prints to standard output or reads '
  'standard input other than by the protocol transport; the log goes to standard error.',
  'inputs histories', 'every request, every document, every option of the server',
  'A single print on a rare path corrupts the framing for the client; no test runs the server.',
  [LSP, 'ginko_ls/src/main.rs', D], [('main of the server', 'ginko_ls/src/main.rs')], EFFECT + ', value flow of the log writer',
  'Every function reference (called or passed on) in every body reachable in the server; other crates are trusted by name of the function.',
  ['standard output'])

p('C11', 'The tools only read: nothing on disk is changed',
  'Checking files - with the library, the command line tool or the language server - never creates, changes or removes files, runs no '
  'other program, opens no network connection and does not change the environment or working directory of the process.',
  'inputs histories', 'every input and option',
  'Tests do not look at the file system afterwards; an effect on a rare path is invisible.',
  [D, CLI, LSP], [('all functions', D)], EFFECT,
  'Every function reference in every body of the three crates against the list of effectful interfaces of std and tokio.',
  ['file system'])

p('C12', 'The language server cannot deadlock on its project lock',
  'No handler of the language server acquires the lock of the project while it holds it (directly, in a function or in a closure it calls), '
  'and none holds it while it waits for the client.',
  'schedules histories', 'every interleaving of requests and notifications',
  'A second acquisition only blocks under a particular interleaving or in a rare branch.',
  [LSP], [('handlers, publish_diagnostics', LSP)], 'static analysis: lock-order dataflow over MIR guard lifetimes',
  'May-held guards at every program point including temporaries; callee summaries over the call graph; lock order graph acyclic.',
  ['answers of the server'])

p('C18', 'Diagnostics are deterministic',
  'The same sources, options and sequence of events give the same diagnostics in the same order in every run: nothing depends on the '
  'iteration order of hash containers, the time, randomness, threads, addresses or environment variables.',
  'inputs histories', 'every input; every seed of the hash containers',
  'Hash order differs between runs only for some contents; a test that passes once proves nothing.',
  [D, CLI, LSP], [('all functions', D)], 'static analysis: flow of hash iteration order, effect analysis',
  'Every creation of an iterator over a hash container is followed to its consumer (ordered results need a sort or an ordered container); '
  'every reference to a nondeterministic source.', ['standard output', 'textDocument/publishDiagnostics'])

LEX = D + 'tokens/lexer.rs'
LEXTECH = 'static analysis: abstract interpretation of the MIR of the lexer over a symbolic input, product with a reference automaton'
LEXBND = ('Every abstract trace from each lexer state with every helper inlined; every input byte is a term over its 256 values, loops are closed by '
          'a fixpoint, so inputs of any length are covered. Files below 4 GiB.')
p('C28', 'Every byte sequence is divided into tokens by longest match',
  'The text is divided into tokens by longest match: names (a letter or "_", where a node or property name is expected also , . + - # ?; a name goes '
  'on with letters, digits and ,._+-?# and may have one @ part), labels (a name followed by ":"), numbers (a digit, then letters and digits), '
  'references ("&label", "&{path}", a "&" alone is an empty reference), strings, directives, punctuation, and unknown characters as a whole. '
  'Whitespace and both kinds of comments are skipped everywhere; a string, path or comment that the end of the file cuts off is one unknown token. '
  'The content of a name, label, number or reference token is its exact text.',
  'inputs', 'every text, in every state of the lexer',
  'A character class that is wrong in one byte, or a rule that is wrong at the end of the file, only shows for that byte or that end.',
  [LEX], [('Lexer::next and its helpers', LEX)], LEXTECH, LEXBND, ['tokens', 'diagnostics of a file'])

p('C29', 'Strings keep their exact content',
  'A string token ends at the first double quote that no backslash escapes; an escaped quote stands for a quote and an escaped backslash for one '
  'backslash, and all other characters of the text, ASCII or not, including line breaks, are in its content unchanged.',
  'inputs', 'every string content of any length',
  'Escape handling has a state; only particular sequences (escaped backslash before the closing quote, say) show a mistake.',
  [LEX], [('Lexer::string', LEX)], LEXTECH, LEXBND, ['string values'])

p('C25', 'Directives are recognised by their exact keyword',
  'A directive token extends from a slash followed by a letter to the next slash, and is the directive of a keyword (dts-v1, plugin, memreserve, bits, '
  'delete-property, delete-node, omit-if-no-ref, include) if and only if the text between the slashes is exactly that keyword; any other text is '
  'kept as an unknown directive.',
  'inputs', 'every text between two slashes',
  'Tests spell the keywords correctly; a keyword that is taken for another, or a prefix match, does not show.',
  [LEX], [('Lexer::compiler_directive', LEX)], LEXTECH, LEXBND, ['tokens'])

p('C26', 'Token positions are exact',
  'The span of every token starts at the position of its first character and ends at the position behind its last character, whatever whitespace, '
  'comments, line breaks and non-ASCII characters come before it or are in it; its source is the file of the lexer.',
  'inputs', 'every text',
  'Diagnostics and navigation point into the text through these spans; a span that is off after a comment or in a multi-line token is rarely sampled.',
  [LEX, D + 'reader.rs'], [('Lexer::next and its helpers', LEX)], LEXTECH, LEXBND + ' That the reader maps bytes to positions is C27.',
  ['diagnostic ranges', 'navigation targets'])

PAR = D + 'parser.rs'
PARTECH = 'static analysis: compositional abstract interpretation of the MIR of the parser with a token history automaton per grammar unit'
PARBND = ('Every abstract trace of each unit of the grammar (file, primary, payload, values, value, cell, byte string, reference, semicolon), helpers inlined, '
          'loops closed by a fixpoint, the other units replaced by their contract, which is checked on their own bodies. ')

p('C03', 'No syntax error is silently dropped',
  'Whenever the parser gives up on a construct, skips a token that the grammar does not allow there, or leaves out a part of a declaration, at least one '
  'diagnostic of the file says so; an error that one level of the parser receives from another is either passed on or reported exactly once, and '
  'diagnostics that were collected before an unrecoverable error are kept.',
  'inputs', 'every sequence of tokens',
  'Tests check some error messages; one forgotten arm in the recovery makes a broken file look clean.',
  [PAR, D + 'project.rs'], [('Parser::file, primary, node_payload, cells', PAR)], PARTECH,
  PARBND + 'Every Err is tracked from where it is made or received to the result or the list of diagnostics.', ['diagnostics of a file'])

p('C05', 'Reading a file always comes to an end',
  'For every text the lexer and the parser finish: every round of every loop and every recursive descent without a round consumes at least one '
  'byte of the text or one token.',
  'inputs', 'every text, in particular truncated and malformed ones',
  'An error recovery that does not consume the token it stumbles over loops for ever only on that token.',
  [LEX, PAR], [('loops of the lexer and the parser', PAR)], 'static analysis: progress automaton over loop heads and recursion in the abstract '
  'interpretation of the MIR', PARBND + 'A loop head is armed when it is reached and disarmed by a consumed token or byte; reaching it armed is a violation. '
  'Recursion without a consumed token is searched for in the call graph of the units.', ['termination'])

p('C06', 'No input makes the lexer or parser panic',
  'No text, however malformed, makes the lexer or the parser abort: every index, slice, unwrap, expect, unreachable!, arithmetic overflow and division in them, '
  'and in the functions that they call, is safe for every input.',
  'inputs', 'every text',
  'A slice or unwrap on an input that nobody thought of takes the language server down with all its documents.',
  [LEX, PAR, D + 'reader.rs', D + 'ast.rs'], [('Lexer::next', LEX), ('Parser::file', PAR)],
  'static analysis: abstract interpretation of the MIR; every panicking terminator and call is an obligation',
  PARBND + 'A panic that an abstract trace reaches is a violation. Assumptions: fewer than 2^31 columns and lines, memory suffices; nesting is C07.',
  ['process abort'])

p('C44', 'No text or request makes analysis, project or front ends panic',
  'Whatever the text of the files, the includes between them, the files on disk, the command line and the contents of the requests are: the analysis, the project, the '
  'look-ups at a position, the printing of diagnostics and syntax trees, the command line tool and the handlers of the language server do '
  'not panic. Every index, slice, unwrap, expect, assertion, division, arithmetic overflow and partial library call outside the reading of text is safe wherever it is reached.',
  'inputs histories', 'every text, include graph, state of the disk, command line and request',
  'An unwrap that holds for all files of the tests fails for the one with no header, no include path, no line at that place; it ends the language server with all its documents.',
  [A, PRJ, VIS, D + 'ast.rs', D + 'data.rs', D + 'diagnostics.rs', D + 'import_guard.rs', LSP, CLI],
  [('Project::add_file_with_text', PRJ), ('DiagnosticPrinter', D + 'diagnostics.rs'), ('Backend', LSP), ('main', CLI)],
  'static analysis: census of the panicking operations in the MIR, each judged by abstract interpretation of its function and its callers',
  'Each operation is judged in its function with unknown arguments, then with the functions it calls, then in each caller (three levels). Assumptions: positions and lengths stay '
  'below 2^31, memory suffices, standard library and dependencies do not panic by themselves, file paths of the project are absolute (C15), the tokens of a declaration '
  'follow each other in the text (C30), ends of standard output are not followed (println).',
  ['process abort'])

p('C07', 'Deeply nested nodes are rejected, not a crash',
  'The parser descends into nested nodes only while a counter of open nodes is below a fixed limit, and every descent counts: on reaching the limit it '
  'reports a diagnostic instead. No other recursion of the parser depends on the depth of nesting in the input.',
  'inputs', 'every nesting depth',
  'A test nests a few levels; the stack overflows at some tens of thousands.',
  [PAR], [('node_payload', PAR), ('MAX_NODE_DEPTH', PAR)], 'static analysis: call graph cycles of the parser and a depth counter automaton in the abstract '
  'interpretation', 'Every cycle of the call graph of the parser passes a point where the counter was compared with its limit and incremented; '
  'the counter is restored on every path.', ['diagnostics of a file', 'process abort'])

p('C22', 'Every name in a file is checked by the rules for its kind',
  'Every node name, unit address, property name and label that is written in a declaration, a re-opened or deleted node or property, an /omit-if-no-ref/, or '
  'a reference by label or path is checked by the rules for its kind exactly where it is written, whatever follows it, with the span of its token.',
  'inputs', 'every declaration in every context',
  'There are about a dozen places that accept a name; tests do not write a bad name at each of them.',
  [PAR], [('check_is_label, check_is_node_name, check_is_property_name and their callers', PAR)], PARTECH,
  PARBND + 'Each name that leaves a token for the tree has to pass the checker of its kind on the same trace.', ['diagnostics of a file'])

p('C23', 'Names obey the rules of the specification, violations at their position',
  'A node name is 1 to 31 letters, digits and ,._+- and starts with a letter (except "__symbols__"); a unit address is 1 to 31 of the same characters; '
  'a property name is 1 to 31 characters out of these and ? and #; a label is 1 to 31 letters, digits and _ and does not start with a digit. A '
  'violation is reported - the first illegal character at its own position, else too long, empty or an illegal start - and nothing else is.',
  'inputs', 'every name',
  'Alphabets have hundreds of characters and the positions depend on the part of the name; tests sample a few.',
  [PAR], [('check_is_label, check_is_node_name, check_is_property_name', PAR)],
  'static analysis: abstract interpretation of the MIR over a symbolic text with finite domains for its characters',
  'Each function over a text of any length; characters are terms over the 128 ASCII values and one for all others; the sets of accepted and reported '
  'characters are computed and compared with the specification.', ['diagnostics of a file'])

p('C24', 'Numbers and byte strings have exactly the value that is written',
  'A number that starts with 0x is read as hexadecimal, one that starts with 0 as octal, any other as decimal, as 32 bits in a cell and 64 bits in '
  '/memreserve/; a byte string has one byte for each pair of hexadecimal digits, in order. A number that does not fit or has a wrong digit, an odd number of '
  'digits and other characters in a byte string are reported at their token.',
  'inputs', 'every number and byte string of any length',
  'Prefix, base and width interact; tests try a handful of numbers.',
  [PAR], [('cell, memory address, byte string', PAR)], 'static analysis: abstract interpretation of the MIR over the prefix classes of a symbolic text',
  'Numbers: four classes of texts by prefix and length (these decide the conversion), the conversion itself is the one of the Rust library. Byte strings: '
  'two arbitrary successive digits in an arbitrary position of a text of any length.', ['values in the tree', 'diagnostics of a file'])

p('C30', 'The syntax tree has exactly the declarations of the file, in order',
  'For a text without syntax errors the tree has one element for each declaration of the text, in order, of the kind that is written, with the name, label, '
  'reference, values and child declarations that are written: nothing is lost, duplicated, merged or attached to another declaration. A node name is '
  'split at its first @; a path has one element for each nonempty component.',
  'inputs', 'every well-formed file',
  'Analysis, hover, printing and navigation only see the tree; a lost value or swapped field on a rare form is not noticed by sampled texts.',
  [PAR, D + 'ast.rs', LEX], [('Parser::file, primary, node_payload, property_values, property_value, cell', PAR)], PARTECH,
  PARBND + 'Every element of the tree is compared with the tokens consumed on the trace (kind and content of each token). Expressions up to three nested '
  'parentheses; their inner structure is not in the tree.', ['syntax tree'])

p('C31', 'Placement rules: properties before nodes, /omit-if-no-ref/ only on nodes',
  'Within a node, every property after the first child node is reported at the position of the property, however many declarations lie between; '
  '/omit-if-no-ref/ before a property is reported at the directive; neither is reported when the rule is kept.',
  'inputs', 'every sequence of declarations in a node',
  'The state that remembers the first child node has to be set by each form of node and survive everything between.',
  [PAR], [('node_payload', PAR)], PARTECH, PARBND + 'History of the kinds of the declarations of a node of any length.', ['diagnostics of a file'])

p('C41', 'Missing semicolons are reported, and only those',
  'After each declaration that a semicolon ends, any other token (or the end of the file) is reported as a missing semicolon directly before that token, '
  'which is not lost unless it is an unknown character (names behind that are then read as behind a semicolon); the declaration is kept. If the semicolon is there it is consumed and nothing is reported.',
  'inputs', 'every declaration form followed by every token',
  'Each declaration form has its own call; a missing call makes the next declaration disappear or the error go unnoticed.',
  [PAR], [('expect_semicolon and its callers', PAR)], PARTECH, PARBND, ['diagnostics of a file', 'syntax tree'])

p('C35', 'Printing writes every part of a declaration',
  'The printed form of a declaration (shown by the language server and used for hover and outline texts) contains every part of it in the order and with '
  'the punctuation of the source syntax: labels, /omit-if-no-ref/, names with unit addresses, all values, cells and bytes in order, '
  'numbers in a base that can be read back, strings with quotes and backslashes escaped.',
  'inputs', 'every syntax tree: any number of values, cells, bytes, any text',
  'A part that is left out or misplaced for some number of items or some text only shows with that number or text.',
  [D + 'ast.rs'], [('Display implementations', D + 'ast.rs')],
  'static analysis: abstract interpretation of the Display implementations on MIR; written pieces against a table of the syntax',
  'Every Display implementation of the syntax tree, every abstract trace; parts are opaque (each has its own obligation); loops by an item automaton '
  'with separators. White space is not compared.', ['hover text', 'outline names'])

na('N01', 'Printing and parsing are inverse', 'Parsing the printed form of any tree yields an equal tree.',
   'inputs', 'every tree', 'A round trip holds or fails per value; tests sample a few texts.', [D + 'ast.rs', PAR], [('Display implementations', D + 'ast.rs')],
   'Equality of a tree with the parse of its own printed form quantifies over the interplay of two recursive functions on unbounded values: no per-path '
   'argument on the source decides it. The two halves that can be decided are claimed: what the parser puts into the tree (C30) and what printing writes of a tree (C35).')
na('N02', 'Merged trees equal those of dtc', 'The tree of nodes and properties that results from all re-opened nodes, deletions and includes is the one the dtc compiler builds.',
   'inputs', 'every source with any includes', 'Equivalence with a reference implementation over all inputs.', [A], [('analysis of nodes', A)],
   'The oracle is another program, not available here and not a rule about the shape of this code; the structural parts (every declaration is recorded under '
   'its own path and label, includes are merged) are claimed as C21.')
na('N03', 'Every request is answered in bounded time', 'The language server answers each request and publishes diagnostics within a bound that depends only on the size of the project.',
   'schedules inputs', 'every workload and schedule', 'Timing depends on the scheduler and the size of the input.', [LSP], [('handlers', LSP)],
   'Bounds on running time are runtime quantities; static analysis here decides that nothing blocks for ever (C12) and that reading a file ends (C05).')
na('N04', 'Events are handled in the order in which they arrive', 'Concurrent notifications for the same document take effect in the order in which the client sent them.',
   'schedules', 'every interleaving of handlers', 'Needs schedules that no test forces.', [LSP], [('document event handlers', LSP)],
   'The order in which the handlers run is decided by the tower-lsp runtime (a dependency that buffers up to four requests concurrently), not by code of this repository; '
   'no source-level argument here can establish it.')
