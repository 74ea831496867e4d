#!/usr/bin/env python3
"""Writes properties.jsonl (kept in one place, one entry per property)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': hook}})


D = 'ginko/src/dts/'
API = ['Project::add_file_with_text', 'Project::get_diagnostics', 'Project::get_root', 'Project::find_at_pos']
TREEHOOK = 'read access to the syntax tree (types re-exported under cfg(ginko_verif))'
prop('C01', 'Every text is processed: no crash, no hang',
     'For every text, however malformed, adding it to a project, asking for its diagnostics and its tree, printing both, and looking up any cursor position returns normally in bounded time. '
     'The file is part of the project afterwards. Bounded memory only: nesting so deep that the stack is exhausted is a recorded finding.',
     ['inputs'], 'all UTF-8 texts of any content and file type', 'Tests run about 60 fixed texts; the claim is about every text, in particular about truncated and garbled ones typed in an editor.',
     [D + 'tokens/lexer.rs', D + 'parser.rs', D + 'analysis.rs', D + 'diagnostics.rs', D + 'reader.rs', D + 'visitor.rs'],
     [('every failure is a diagnostic', D + 'parser.rs'), ('lexer always consumes at least one character', D + 'tokens/lexer.rs')], observe=API)
prop('C02', 'Positions of tree nodes and diagnostics are exact',
     'Every name, value, label, reference, node and property of the tree, and every diagnostic, carries the exact range of the source text it stands for: zero-based lines, columns counted in UTF-16 code units, end exclusive. '
     'This holds for any mixture of line breaks, comments and non-ASCII characters before it.',
     ['inputs'], 'all texts, all tree elements and diagnostics', 'Tests look at positions in a handful of single-line ASCII texts.',
     [D + 'reader.rs', D + 'tokens/lexer.rs', D + 'parser.rs', D + 'data.rs', D + 'ast.rs'],
     [('position advanced per consumed character', D + 'reader.rs'), ('spans of composite items', D + 'ast.rs')], observe=API, hook=TREEHOOK)
prop('C03', 'Malformed sources are never silently accepted',
     'A text that is not a well-formed device-tree source of the supported language (a missing or superfluous token, a malformed name, path or literal, an unterminated string, comment or bracket, a property after a node, a misplaced directive) always gets at least one diagnostic of severity error.',
     ['inputs'], 'all texts outside the language', 'The set of malformed texts is unbounded; the tests contain about twenty.',
     [D + 'parser.rs', D + 'tokens/lexer.rs'], [('expected-token checks', D + 'parser.rs'), ('name checks', D + 'parser.rs')], observe=API)
prop('C04', 'Well-formed sources get no syntax errors',
     'A text that is a well-formed device-tree source of the supported language is parsed completely and gets no syntax, naming or literal error, wherever comments, labels, /bits/, parenthesised expressions and optional directives are used.',
     ['inputs'], 'all texts of the language', 'The tests contain a few well-formed texts, hardly any combining features.',
     [D + 'parser.rs', D + 'tokens/lexer.rs'], [('recursive-descent parser', D + 'parser.rs'), ('context dependent lexing of names', D + 'tokens/lexer.rs')], observe=API)
prop('C05', 'The syntax tree says what the source says',
     'Whenever a tree is produced, it contains exactly the statements, nodes, properties, labels, names, references and values of the source, in source order and with their nesting; nothing is lost, duplicated, reordered or attached to another parent.',
     ['inputs'], 'all texts for which there is a tree', 'Tests compare a few small trees.',
     [D + 'parser.rs', D + 'ast.rs', D + 'tokens/lexer.rs'], [('tree construction', D + 'parser.rs')], observe=['Project::get_root'], hook=TREEHOOK)
prop('C06', 'A missing semicolon costs one diagnostic and nothing else',
     "When semicolons are missing (or replaced by a character that starts no token), parsing goes on as if they were there: each one yields one diagnostic \"Expected ';'\" directly behind the preceding token (at the odd character, if there is one), and the tree contains everything else. "
     'Nothing else in the text is reported because of it, as long as the text behind it can be read without the semicolon.',
     ['inputs'], 'all texts with any subset of their semicolons removed or mistyped', 'Tests remove one semicolon in a few fixed places.',
     [D + 'parser.rs', D + 'tokens/lexer.rs'], [('expected-semicolon recovery', D + 'parser.rs'), ('lexer is set back to expecting a name', D + 'tokens/lexer.rs')], observe=API, hook=TREEHOOK)
prop('C07', 'Names, labels and paths follow the naming rules, exactly',
     'Labels (letters, digits, _; not starting with a digit), node names and unit addresses (letters, digits and , . _ + -; names start with a letter), property names (also ? and #) and the elements of path references are checked against their character set, their first character, being present, and the limit of 31 characters. '
     'A violation is reported with its kind, message and exact range (the first illegal character for illegal characters), and a name that obeys the rules is not reported.',
     ['inputs'], 'all names in all positions where labels, nodes, properties and references are written', 'Tests check a few names; the boundaries (31/32 characters, first characters, unit addresses, path elements, non-ASCII) are open.',
     [D + 'parser.rs'], [('name checks', D + 'parser.rs')], observe=API)
prop('C08', 'Structural rules are reported exactly where they are broken',
     'Properties after nodes, /omit-if-no-ref/ before a property, a missing, repeated or misplaced /dts-v1/ header, non-string values of compatible, a semicolon after an include and unbalanced parentheses are each reported once per offence, at the offending place, depending on the file type where the rule does. '
     'A source that breaks none of these rules gets none of these reports.',
     ['inputs'], 'all texts and file types', 'Tests exercise each rule once in a minimal file.',
     [D + 'analysis.rs', D + 'parser.rs', D + 'data.rs'], [('header state', D + 'analysis.rs'), ('order of items', D + 'parser.rs')], observe=API)
prop('C09', 'Unresolved references are reported: all of them and only them',
     'In a complete source (.dts that is no plugin), a label or path reference in a value is reported as unresolved exactly if no label or node of that name is defined anywhere in the file or its includes; a reference used as a statement (node extension, /delete-node/) is reported exactly if it is not defined before that statement. '
     'Labels of nodes and properties count as definitions. Labels of nodes that are reached through several openings or through references count with their full path; fragments and plugins report none.',
     ['inputs', 'histories'], 'all sources with labels, nested nodes, reopened nodes and references', 'Tests have three files with one or two references.',
     [D + 'analysis.rs', D + 'project.rs'], [('collected labels and flat nodes', D + 'analysis.rs'), ('late resolution of value references', D + 'analysis.rs')],
     [('labels, label paths, flat nodes', 'what is defined so far', D + 'analysis.rs')], observe=API)
prop('C10', 'The item under the cursor and its definition are found exactly',
     'For every position, the lookup returns the label, reference or include whose range contains that position (start included, end excluded) and nothing elsewhere; the target of a reference is the node that carries the label last, or has the path, with the file and the range of its name. '
     'References that do not stand for a node have no target.',
     ['inputs'], 'all sources and all cursor positions', 'Tests query a handful of positions.',
     [D + 'visitor.rs', D + 'project.rs', D + 'analysis.rs', D + 'data.rs'], [('search by range', D + 'visitor.rs'), ('definition tables', D + 'analysis.rs')],
     observe=['Project::find_at_pos', 'Project::get_node_position', 'Project::document_reference'])
prop('C11', 'Includes resolve to the first match of the search order',
     'An include names the first existing file among: the directory of the including file, the configured include directories in their order, the working directory; absolute names, "..", symbolic links and repeated slashes denote what the file system says they denote, and one file reached under several names is one file of the project. '
     'An include that names nothing readable is reported as an error at the include statement, and only then.',
     ['inputs', 'configurations'], 'all directory layouts, include names, include directories and working directories', 'The only include test uses one directory and plain names.',
     [D + 'project.rs', D + 'ast.rs', D + 'parser.rs'], [('include path search', D + 'ast.rs'), ('canonical paths as keys', D + 'project.rs')], observe=['Project::files', 'Project::get_diagnostics'])
prop('C12', 'A file sees everything its includes define, and their errors',
     'Adding a file loads the files it includes, transitively, and every file of the project is analysed after those it includes: labels and nodes defined in included files are visible behind the include exactly like own ones (a later definition wins), in the target file and position of a lookup too. '
     'An include statement is reported as "contains errors" exactly if the included file has a diagnostic of severity error. (Nodes that an include adds below a label of a sibling include are a recorded finding.)',
     ['inputs', 'configurations'], 'all acyclic include graphs and contents', 'Tests have one including and one included file; order and transitivity are open.',
     [D + 'project.rs', D + 'analysis.rs'], [('analysis in dependency order', D + 'project.rs'), ('merging of definitions', D + 'analysis.rs')],
     [('files', 'sources, trees, analysis results', D + 'project.rs')], observe=['Project::files', 'Project::get_diagnostics', 'Project::get_node_position'])
prop('C13', 'Cyclic includes are reported, and only cyclic includes',
     'For every include graph, analysis terminates; every cycle of includes contains at least one include statement that is reported as cyclic, each reported include statement is an edge whose target lies on a cycle, and the chain in the message is an existing cycle of files. '
     'Projects without cycles get no such report, also when a file is included several times on different ways.',
     ['configurations', 'histories'], 'all directed include graphs, any order of adding and changing the files', 'Tests cover a self-include and one two-file cycle.',
     [D + 'import_guard.rs', D + 'project.rs', D + 'analysis.rs'], [('graph of includes seen so far', D + 'import_guard.rs')], observe=['Project::get_diagnostics'])
prop('C14', 'Diagnostics depend on the current contents only, not on the history',
     'After every addition, change or removal of a file and every change of the include directories, whatever was done before, the diagnostics, trees and lookups of every file in the project are those of a fresh project holding the same texts, except for which statement of a cycle of includes is reported. '
     'Repeating the same sequence of operations gives the same results.',
     ['histories'], 'all sequences of operations on a project', 'Tests add at most two files and never change or remove one.',
     [D + 'project.rs', D + 'analysis.rs'], [('re-analysis of all files after every change', D + 'project.rs')], [('files', 'known files by canonical path', D + 'project.rs')],
     observe=['Project::add_file_with_text', 'Project::remove_file', 'Project::get_diagnostics'])
prop('C15', 'Published diagnostics converge to the state of the documents',
     'When the language server has handled all notifications, the diagnostics published last for every file of the project are exactly those of the current texts, with the right file, range, severity, code and message, however many edits arrived in a burst and whatever was included. '
     'A change that removes the cause of a diagnostic removes the published diagnostic in every file that showed it, and a closed document shows none.',
     ['schedules', 'histories'], 'all sequences and timings of didOpen, didChange, didClose, didChangeConfiguration', 'There is no test of the server at all.',
     ['ginko_ls/src/server.rs', D + 'project.rs'], [('publish after every change', 'ginko_ls/src/server.rs')], [('project behind a lock', 'shared state', 'ginko_ls/src/server.rs')],
     observe=['textDocument/publishDiagnostics'])
prop('C16', 'The server survives every client and answers every request once',
     'The language server answers every request exactly once, with the result for the document state when the request arrived, and keeps running for any well-formed sequence of notifications and requests: unknown, unsaved, closed and reopened documents, texts with errors, positions outside the text, empty change lists, foreign URI schemes, any configuration.',
     ['histories', 'inputs'], 'all message sequences of a client', 'There is no test of the server at all.',
     ['ginko_ls/src/server.rs', 'ginko_ls/src/main.rs', D + 'project.rs'], [('early returns for unknown documents', 'ginko_ls/src/server.rs')], observe=['JSON-RPC responses'])
prop('C17', 'The outline mirrors the source',
     'The document symbols of an open document list, in source order and nested like the source, exactly its root and extension nodes, includes, deletions and omit directives with all their properties, sub-nodes and deletions: right name, symbol kind, deprecation tag, full range and range of the name. '
     'Documents without a tree have no outline.',
     ['inputs'], 'all documents', 'There is no test of the server at all.',
     ['ginko_ls/src/server.rs', D + 'ast.rs'], [('symbol construction', 'ginko_ls/src/server.rs')], observe=['textDocument/documentSymbol'])
prop('C18', 'Hover and go-to-definition answer for the item under the cursor',
     'At every position of a document, go-to-definition on a reference leads to the name of the node it stands for, also in another file, and on an include to the start of the included file; hover shows the label, the include name or the description of the referenced node. '
     'At all other positions, and for references or includes that lead nowhere, the answer is empty.',
     ['inputs'], 'all documents, all positions', 'There is no test of the server at all.',
     ['ginko_ls/src/server.rs', D + 'project.rs', D + 'visitor.rs'], [('requests on the shared project', 'ginko_ls/src/server.rs')], observe=['textDocument/hover', 'textDocument/definition'])
prop('C19', 'The command line verdict and report match the diagnostics',
     'The command line tool exits with 0 and says that no issues were found exactly if neither the given file nor any file it includes has a diagnostic, and exits with a failure otherwise, also when the file cannot be read. '
     'Its report shows every diagnostic once: message, line and column (one-based), and the source lines with the range marked.',
     ['inputs', 'configurations'], 'all files, includes and -i options', 'The tool itself has no test; the printer has a few on single-line ranges.',
     ['ginko/src/main.rs', D + 'diagnostics.rs', D + 'project.rs'], [('exit status', 'ginko/src/main.rs'), ('rendering of a diagnostic', D + 'diagnostics.rs')], observe=['exit status', 'standard output'])
prop('C20', 'Every kind of diagnostic has its one severity everywhere',
     'Too long names, non-string compatible values and repeated headers are warnings, all other kinds are errors; library, language server and command line agree on the severity of each kind, and an include statement counts as erroneous only because of errors in the included file, never because of warnings.',
     ['inputs'], 'all kinds of diagnostics, wherever they are shown', 'Tests never look at a severity.',
     [D + 'error_codes.rs', D + 'diagnostics.rs', 'ginko_ls/src/server.rs', D + 'analysis.rs'], [('severity map', D + 'error_codes.rs')], observe=['Diagnostic::severity', 'textDocument/publishDiagnostics'])
prop('C21', 'Literals have their exact value or are rejected',
     'Decimal, octal and hexadecimal numbers are read exactly over the full range (32 bits in cells, 64 bits in memory reservations) and rejected with an error at the literal beyond it or when malformed; byte strings are pairs of hexadecimal digits; strings are the text between the quotes with escapes resolved. '
     'A literal is never silently changed.',
     ['inputs'], 'all literals', 'Tests have a dozen literals, none at the limits.',
     [D + 'parser.rs', D + 'tokens/lexer.rs'], [('number parsing', D + 'parser.rs'), ('string lexing', D + 'tokens/lexer.rs')], observe=API, hook=TREEHOOK + '; Memreserve::numbers')
prop('C22', 'Comments and white space never change the meaning',
     'Two texts with the same tokens, however white space, line breaks, line comments and block comments are placed between them, have the same tree and the same diagnostics apart from positions.',
     ['inputs'], 'all pairs of texts with the same tokens', 'Tests never compare two layouts of a text.',
     [D + 'tokens/lexer.rs', D + 'parser.rs'], [('skipping of white space and comments', D + 'tokens/lexer.rs')], observe=API, hook=TREEHOOK)
prop('C23', 'Syntax errors name the place and what was expected there',
     'When a source cannot be parsed, the first token that does not fit is reported: the diagnostic has its range (or the place behind the preceding token, when something is missing there, or the end of the file) and its message names what is expected there.',
     ['inputs'], 'all texts that cannot be parsed', 'Tests check a few such messages.',
     [D + 'parser.rs', D + 'diagnostics.rs', D + 'tokens/token.rs'], [('expected-token errors', D + 'parser.rs')], observe=API)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
