#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
T="crates/brack-tokenizer/src/"; P="crates/brack-parser/src/"; X="crates/brack-transformer/src/"
PL="crates/brack-plugin/src/"; E="crates/brack-expander/src/"; G="crates/brack-codegen/src/"
M="crates/brack-project-manager/src/"; L="crates/brack-language-server/src/"
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    props.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=n,meaning=m,where=w) for n,m,w in state],
        "mechanism":[dict(name=n,where=w) for n,w in mech],"observe_at":observe,"hook_needed":None}})

TOKTESTS="Ten tests tokenize ten fixed short files/strings; whether it holds for every interleaving of brackets, escapes, spaces and newlines is not sampled."
PARTESTS="The 29 parser tests feed hand-made token lists of one or two tokens to single sub-parsers; whole documents are never parsed."

p("C01","Tokenizing a document loses and invents nothing",
"Every UTF-8 document can be tokenized, and writing its tokens out in order (text, module and name tokens as their own text; every other token as the one character it stands for) gives back exactly the document, with CRLF line ends read as LF. The token list ends with exactly one end-of-file token and contains no empty text, module or name token.",
["inputs"],"all UTF-8 documents, any length up to tens of kilobytes, any characters (NUL, emoji, combining marks, CR, CRLF) and any bracket nesting, balanced or not",
TOKTESTS,[T+"dispatch.rs",T+"tokenize.rs",T+"text.rs",T+"backslash.rs",T+"utils.rs"],
[("dispatch consumes one grapheme per step and either pools it or emits it",T+"dispatch.rs"),("separate splits off exactly one grapheme",T+"utils.rs")],
["tokenize / tokenize_str","brack compile --output-level 1"],
[("pool","text collected for the token being read",T+"tokenizer.rs"),("untreated","rest of the document",T+"tokenizer.rs")])

p("C02","Token locations are the exact positions of their characters",
"Each token's location starts at the zero-based line and column (in user-perceived characters) of its first character and ends just after its last one, so that every token starts where the previous one ended, or at column 0 of the next line after a newline token. The end-of-file token sits at the very end of the document.",
["inputs"],"all UTF-8 documents, including long lines, many lines, wide and combining characters, escapes and unbalanced brackets",
TOKTESTS,[T+"dispatch.rs",T+"newline.rs",T+"text.rs",T+"identifier.rs",T+"module.rs",T+"backslash.rs"],
[("line/column advanced once per grapheme, token_start_* set after each token",T+"dispatch.rs")],
["tokenize / tokenize_str"],
[("line, column","position of the next unread character",T+"tokenizer.rs"),("token_start_line, token_start_column","where the token being read started",T+"tokenizer.rs")])

p("C03","Every character is classified as text or syntax by the bracket context",
"Outside all brackets only the six bracket characters, newlines and backslash escapes are syntax and everything else is text; inside at least one open bracket, dots, commas and spaces are separate punctuation too. After an opening bracket, text ending just before a dot is a module and text ending just before a space or closing bracket is the name (once per opening bracket, until a bracket closes); later text is plain text, cut at the next special character. A backslash makes a following backslash, bracket, dot or comma a token of that kind that neither opens, closes nor names anything, and a closing bracket ends one open bracket of its kind if there is one and none otherwise.",
["inputs"],"all UTF-8 documents; in particular every mix of the three bracket kinds, unbalanced ones included",
TOKTESTS,[T+"dispatch.rs",T+"backslash.rs",T+"square_bracket_open.rs",T+"square_bracket_close.rs",T+"angle_bracket_open.rs",T+"angle_bracket_close.rs",T+"curly_bracket_open.rs",T+"curly_bracket_close.rs",T+"identifier.rs",T+"module.rs"],
[("ordered match on (head, next head) with nesting counts and looking_for_identifier",T+"dispatch.rs")],
["tokenize / tokenize_str"],
[("angle/square/curly_nest_count","open brackets of each kind",T+"tokenizer.rs"),("looking_for_identifier","a command name is still expected",T+"tokenizer.rs")])

p("C04","Parsing accepts exactly the documented grammar and keeps every token",
"Parsing succeeds exactly when the token stream is derivable from the documented concrete grammar (brack.cst.ebnf) with every repetition and option taken as far as possible, and otherwise ends with an error rather than a crash or a partial tree. When it succeeds, the leaves of the tree read from left to right are the token stream: same kinds, same texts, same order, none missing or repeated, an escape being a backslash node holding the escaped character as text.",
["inputs"],"all token streams the tokenizer can produce, at least up to the lengths and nesting the generators reach; nesting depth up to 100",
PARTESTS,[P+"parse.rs",P+"stmt.rs",P+"expr.rs",P+"bracket.rs",P+"square.rs",P+"angle.rs",P+"curly.rs",P+"escaped.rs",P+"expr_or_close.rs","brack.cst.ebnf"],
[("recursive descent, greedy, EOF required at the end",P+"parse.rs")],["parse"])

p("C05","The parse tree groups paragraphs, lines and brackets correctly",
"Every document of the grammar has a parse tree, in which runs of lines separated by blank lines are separate statements, each line of a statement is one expression (or one stray closing bracket), and newlines between them are kept where they occurred. Each bracket node is of the kind of its opening bracket, contains exactly the elements up to the matching closing bracket of that kind (which it owns), nested brackets forming nested nodes; a bracket that is not closed ends at the first closing bracket of another kind or the end of file, without owning it.",
["inputs"],"all token streams the tokenizer can produce; nesting depth up to 100",
PARTESTS,[P+"parse.rs",P+"stmt.rs",P+"expr.rs",P+"bracket.rs",P+"square.rs",P+"angle.rs",P+"curly.rs",P+"bracket_close.rs",P+"newline.rs"],
[("(expr | newline)* close? loop per bracket kind",P+"square.rs"),("statement/newline loop",P+"parse.rs")],["parse"])

p("C06","Tree nodes carry exact locations and unique ids",
"Every document of the grammar has a parse tree, in which every leaf has the location of its token and every inner node spans from the start of its first to the end of its last child (an unclosed bracket up to the end of the token that cut it off). In the syntax tree derived from it, every text, module and name node has the location of the source characters it came from, every statement, line and command the location of its parse-tree node, and every argument spans its contents. No two nodes of one tree share an id.",
["inputs"],"all documents of the grammar, including multi-line commands, columns and lines beyond one digit, nested commands and unclosed brackets",
"Existing parser tests use mock locations (0,0) everywhere and never look at ids.",
[P+"cst.rs",P+"escaped.rs",P+"square.rs",P+"expr.rs",T+"tokens.rs",X+"transform.rs",X+"utils.rs",X+"ast.rs"],
[("CST::add / merge_location",P+"cst.rs"),("Uuid::new_v4 per node",P+"cst.rs")],["parse","transform"])

p("C07","Diagnostics are exactly the violations of the syntax rules",
"For every document of the grammar, the reported problems are exactly these, each once, at the place concerned: a bracket not closed; a closing bracket that opens nothing; a command whose first, second or third element is not a module (or macro), a dot, a name (or macro) respectively; a dot in or after the place of the name; a comma that does not stand between two arguments; and a backslash not followed by a backslash, bracket, dot or comma. A document that breaks none of these rules is reported clean.",
["inputs"],"all documents that parse; every command shape, nesting, and combination of several problems",
"The transformer has no active tests at all.",
[X+"utils.rs",X+"square.rs",X+"angle.rs",X+"curly.rs",X+"stmt.rs",X+"backslash.rs",X+"error.rs"],
[("check_* functions run on the flattened children of every bracket",X+"utils.rs")],["transform (second result)"])

p("C08","The syntax tree of a clean document says what the document says",
"For a document of the grammar that breaks no syntax rule (nothing is to be reported about it), the syntax tree has one statement per paragraph and one expression per line, containing in order exactly its literal texts (escapes resolved) and commands. Each command has its kind, module and name followed by one expression per comma-separated argument, holding in order the argument's texts, spaces between them and nested commands; spaces at the ends of an argument and newlines inside a command are dropped, and nothing else is.",
["inputs"],"all documents without problems, any number of arguments, any nesting up to 100, any Unicode text",
"The transformer has no active tests at all.",
[X+"transform.rs",X+"utils.rs",X+"document.rs",X+"stmt.rs",X+"expr.rs",X+"square.rs",X+"angle.rs",X+"curly.rs",X+"backslash.rs"],
[("check_valid_arguments splits at commas",X+"utils.rs"),("transform::aux maps nodes",X+"transform.rs")],["transform (first result)"])

p("C09","Each macro is expanded once, in place, and nothing else changes",
"Every outermost macro command of a document is given to its plugin exactly once, in document order, together with the whole unexpanded syntax tree and that macro's id, and is replaced by the node the plugin returns. All other nodes, including ids, locations and order, are left as they were, and if any expansion fails the whole expansion fails.",
["inputs","programs"],"all syntax trees (any number and position of macros, also inside arguments of other commands) and all macro plugins (returning texts, subtrees, identical trees, failing)",
"There are no tests of the expander.",
[E+"expand.rs",PL+"plugins.rs",PL+"plugin.rs"],[("expand_other rebuilds children, expand_angle calls the plugin",E+"expand.rs")],["expander","brack compile --output-level 4"])

p("C10","Each command is called once with its arguments bound to its signature",
"Generating output calls every inline and block command of the document exactly once, arguments before the command that contains them and siblings from left to right, and puts the call's result in place of the command. The i-th parameter receives the i-th argument's generated text, an optional parameter without argument receives none, an array parameter receives all remaining arguments; fewer or more arguments than the signature allows, or a failing call, is an error and no output is produced.",
["inputs","programs"],"all expanded documents and all signatures of mandatory parameters followed by optional ones followed by at most one array; other parameter orders must at least not crash",
"There are no tests of code generation.",
[G+"square.rs",G+"curly.rs",G+"expr.rs",G+"stmt.rs",G+"generate.rs",PL+"types.rs",PL+"plugins.rs"],
[("arguments generated first, arg_counter bounds, positional binding",G+"square.rs")],["generate","brack compile"])

p("C11","Commands are resolved by module, name and bracket kind",
"A command in square brackets runs the inline command, one in curly brackets the block command and one in angle brackets the macro that the plugin loaded under exactly that module name declares under exactly that name, calling the entry point declared for it. Commands of the same name but another kind or module are never run instead, and if no such command exists generation fails.",
["inputs","configurations"],"all sets of loaded plugins, including plugins sharing command names, one name declared for several kinds, and entry points named differently from commands",
"There are no tests of plugin lookup.",
[PL+"plugin.rs",PL+"plugins.rs",G+"square.rs",G+"curly.rs",E+"expand.rs"],
[("signature_to_metadata keyed by (name, kind)",PL+"plugin.rs"),("name_to_plugin",PL+"plugins.rs")],["generate","expander"])

p("C12","Hooks see every element of their kind once and decide its output",
"With a text, expression, statement or document hook enabled, every text, every expression (line or argument), every statement and the whole document respectively is passed, once and with the output generated for it, to that hook's plugin, and replaced by what it returns; expressions are hooked after their contents, statements after their lines, the document last. Without the hook (also if a plugin merely declares a command of that name) the generated output is used unchanged, and texts, lines and statements are concatenated without separators.",
["inputs","configurations"],"all documents and all combinations of the four hooks over one or more plugins",
"There are no tests of hooks.",
[G+"text.rs",G+"expr.rs",G+"stmt.rs",G+"generate.rs",PL+"plugins.rs"],
[("call_*_hook returns None when no plugin has the hook",PL+"plugins.rs")],["generate","brack build"])

p("C13","Inconsistent plugins are rejected when they are loaded",
"Loading a plugin fails if its module is not a valid WebAssembly plugin whose metadata can be read, or if it is configured with a document, statement, expression or text hook but does not declare a command of that name, or declares it with any other kind than block (document, statement) or inline (expression, text). A set of plugins in which two have the same hook is rejected; every other set is accepted, and commands that happen to bear a hook's name are unrestricted while that hook is off.",
["configurations","programs"],"all combinations of hook flags, declared commands and kinds, over one or more plugins, and damaged plugin files",
"There are no tests of plugin loading.",
[PL+"plugin.rs",PL+"plugins.rs",PL+"feature_flag.rs",PL+"metadata.rs"],[("checks in Plugin::new and Plugins::new",PL+"plugin.rs")],["Plugin::new","Plugins::new"])

p("C14","Compiling never crashes and is a function of document and plugins",
"For any document and any well-formed set of plugins, compiling ends normally with an output or with an error message and failure status, never with a panic, abort or endless loop, whatever the document's syntax errors. Compiling the same document with the same plugins again gives the same output.",
["inputs","programs"],"all UTF-8 documents up to tens of kilobytes with nesting depth up to 100, with plugins whose calls succeed, fail or return malformed data",
"Tests cover ten tokenizer inputs and single-token parser calls; no test runs the pipeline.",
[T+"dispatch.rs",X+"transform.rs",E+"expand.rs",G+"square.rs",G+"curly.rs",PL+"types.rs","src/main.rs"],
[("errors are propagated as Result",G+"square.rs"),("iterative tokenizer",T+"dispatch.rs")],["brack compile"])

p("C15","The compile command does what its options say",
"brack compile loads exactly the plugins in the given directory (or, without the option, the one named by BRACK_PLUGINS_PATH) from files named <letters>_<alphanumerics>.wasm, under the module name before the underscore and without hooks, and prints the tokens, parse tree, syntax tree, expanded tree or final output for output level 1 to 5 (5 if not given), as JSON if asked. It fails with a non-zero status and prints no result for a missing or unreadable directory, plugin or document, a file not ending in .[], another level, or JSON at level 5; syntax errors found at level 3 are listed instead of the tree unless JSON was asked for.",
["configurations","inputs"],"all combinations of options, environment, plugin directories and documents",
"No test runs the command line.",
["src/main.rs","src/sub_commands.rs"],[("run_compile",  "src/main.rs")],["brack compile: exit status, standard output"])

p("C16","A build writes the generated output of every document, and only that",
"A successful brack build writes, for every file docs/NAME.[] of the project, out/NAME.BACKEND holding exactly what generating that document with the configured plugins and hooks gives, creates no other file in out and lists the files. It fails with a non-zero status if the configuration is missing or malformed, a plugin cannot be obtained or loaded, or a document cannot be generated, and never writes an output for a document it could not generate; source documents and configuration are never changed.",
["inputs","configurations","histories"],"all projects with at least one document: any number and names of documents (also other files beside them), any backend and plugin configuration, repeated builds after edits",
"No test builds a project.",
[M+"project.rs",M+"config.rs",M+"document.rs",M+"plugin.rs","src/main.rs"],[("Project::build",M+"project.rs")],["brack build: exit status, files under out"])

p("C17","Builds use exactly the configured plugin, downloading it once",
"A build uses, for each configured plugin, the file its owner, repository, release version and the project's backend designate, under the configured name and with exactly the configured hooks (absent means off). It is downloaded once from the release URL and reused from the plugins directory by later builds without network access, until owner, repository, version, hooks or backend change, when the newly designated file is used.",
["histories","configurations"],"all histories of builds and configuration edits (plugin name, owner, repository, version, hooks, backend, added and removed plugins)",
"No test downloads anything.",
[M+"project.rs",M+"plugin.rs",M+"config.rs"],[("cache path plugins/{name}_{hash of schema and backend}.wasm",M+"project.rs"),("PluginSchema deserialization",M+"plugin.rs")],
["HTTPS requests sent, files in plugins, brack build output"])

p("C18","A failed or interrupted download never poisons later builds",
"If a download fails (refused connection, HTTP error, transfer broken off, or the file cannot be written completely) or the process dies at any moment of it, the build fails without using partial data, and no incomplete plugin is ever found under the name later builds look for. Once the cause is gone, the next build downloads what is missing and succeeds, and plugins already downloaded remain usable.",
["fault_sequences","crash_points"],"all sequences of builds with network and disk faults and kills at any point of fetching several plugins",
"No test injects faults.",
[M+"project.rs"],[("write to a temporary name, then rename",M+"project.rs"),("status check before use",M+"project.rs")],["brack build under faults: exit status, plugins directory, later build"])

p("C19","Adding a plugin updates the configuration fully or not at all",
"brack add github:OWNER/REPO@VERSION downloads that release file and on success records owner, repository and version under the repository's name up to its first dot, without hooks, keeping every document setting and every other plugin with its hooks; the result is a configuration that loads. If the argument is malformed, names another host kind, the plugin exists already, the configuration is missing or malformed, the download fails, or writing fails, it exits with a failure and the configuration file is unchanged.",
["histories","fault_sequences","inputs"],"all argument strings, existing configurations, sequences of adds, and network and disk faults",
"No test adds a plugin.",
[M+"plugin.rs",M+"config.rs","src/main.rs"],[("add_plugin: checks, download, then write and rename",M+"plugin.rs"),("PluginSchema Serialize/Deserialize",M+"plugin.rs")],["brack add: exit status, Brack.toml"])

p("C20","A new project is complete, loadable and never overwrites anything",
"brack new creates a directory of the given name with an empty docs/main.[], a Brack.toml that loads and carries exactly that name, version 0.1.0, an empty backend and no plugins, and a .gitignore for plugins and out, and the project builds at once. If something of that name exists already, or it cannot be created, it fails and leaves everything as it was.",
["inputs","histories"],"all project names usable as directory names (spaces, quotes, backslashes, Unicode included), existing files or directories of that name",
"No test creates a project.",
["src/main.rs",M+"config.rs"],[("create_dir first, then files","src/main.rs")],["brack new: exit status, files created"])

p("C21","Language server input framing is independent of how bytes arrive",
"Whatever way the byte stream of client messages is cut into reads (inside headers, inside multi-byte characters, several messages at once), the server handles every complete message exactly once, in order, as soon as its last byte has arrived, and none before; header fields other than Content-Length are ignored. Its own messages are framed with the exact byte length.",
["schedules","inputs"],"all cuttings of all sequences of messages, of sizes from a few bytes to many kilobytes, ASCII and not",
"The language server has no tests.",
[L+"server.rs"],[("take_message works on bytes and is repeated until the buffer has no complete message",L+"server.rs")],["language server: standard input and output"],
[("buffer","bytes received but not yet handled",L+"server.rs")])

p("C22","Every request gets exactly one response, and nothing else does",
"The server answers each request (a message with a method and a numeric or string id) with exactly one response bearing the same id, in the order of the requests: a result for the methods it supports (null if there is nothing to return) and otherwise an error, -32601 for unknown methods. Notifications and responses of the client are never answered, and a message that is neither is answered with one error -32600 without id.",
["histories","inputs"],"all message sequences: any order, repeated initialization, requests before initialization, unknown methods, ids of both kinds",
"The language server has no tests.",
[L+"server.rs",L+"request.rs",L+"response.rs",L+"notification.rs",L+"result.rs"],[("Server::dispatch",L+"server.rs")],["language server: standard input and output"])

p("C23","No client message can stop the language server",
"After any message sequence, including messages that are not JSON, lack or garble parameters, name files that do not exist or do not parse, or open projects whose configuration or plugins are broken or unreachable, the server keeps running and handles the next message as if the bad one had not been sent; it ends only, and cleanly, at the end of its input. A message that is not JSON is answered with error -32700 without id, a request with unusable parameters with error -32602 and its id.",
["histories","fault_sequences"],"all message sequences and states of the file system and network",
"The language server has no tests.",
[L+"server.rs",L+"notification.rs",L+"notification/did_open.rs",L+"notification/did_save.rs",L+"request.rs"],[("errors of handlers become error responses or log messages",L+"server.rs")],["language server: process state, standard output"])

p("C24","Saving a document publishes exactly its current diagnostics",
"When a client that announced support for published diagnostics saves a document that parses, the server publishes for that document's URI, once, exactly the problems of the file's current content, each with its location and message, and an empty list if there are none, so earlier ones disappear. It publishes nothing on other occasions, nothing for other documents, and nothing to clients without that support.",
["histories","inputs"],"all sequences of edits and saves of several documents and all documents that parse",
"The language server has no tests.",
[L+"notification/did_save.rs",L+"server.rs",X+"error.rs"],[("tokenize, parse, transform the saved file",L+"notification/did_save.rs")],["language server: textDocument/publishDiagnostics"])

p("C25","Semantic tokens mirror the token stream of the file",
"The semantic tokens returned for a document list every token of the file's current content in order, in the protocol's relative encoding of their start positions, with their length, and with the type of the announced legend for namespaces (modules), variables (names), functions (square), methods (curly) and macros (angle brackets), and a type outside the legend for all others. If the file cannot be read the result is null.",
["inputs","histories"],"all documents, edits between requests, several documents",
"The language server has no tests.",
[L+"request/semantic_tokens.rs",L+"request.rs"],[("separate: delta encoding",L+"request/semantic_tokens.rs")],["language server: textDocument/semanticTokens/full"])

p("C26","Completion offers exactly the loaded commands of the typed bracket's kind",
"When completion is triggered by an opening bracket in an open project, the server offers exactly the inline commands (square), block commands (curly) or macros (angle) of the plugins of the project opened last, each once, labelled module.name and inserting the name with the matching closing bracket; triggered by another character it offers none. With no open project, or no trigger character, the result is null.",
["histories","configurations"],"all plugin configurations and sequences of opening projects and completion requests",
"The language server has no tests.",
[L+"request/completion.rs",L+"notification/did_open.rs",M+"project.rs"],[("filter by return type and trigger character",L+"request/completion.rs")],["language server: textDocument/completion"])

p("C27","Commands running at the same time in one project do not disturb each other",
"However several builds, language servers opening the project, additions of plugins and creations of projects are interleaved in one project, each ends as it would alone (but a plugin being added by two at once, or a name given to two new projects, may be refused to all but one), a build or opening uses one complete configuration, and no other process ever finds a partial plugin or configuration. The configuration is at every moment the original one with some of the additions (of two made at once possibly only one), and exactly one of several creations of a name succeeds, leaving a complete project. Killing one of the processes at any moment harms neither the others nor later builds.",
["schedules","crash_points"],"all interleavings, at every access to the disk, of several processes working in one project, any of which may be killed",
"No test runs a project command, let alone two at once.",
[M+"project.rs",M+"plugin.rs","src/main.rs"],[("plugins and the configuration are written under a name of the process and moved into place",M+"project.rs"),("add_plugin: the configuration is replaced by a rename",M+"plugin.rs"),("new_project: the directory is created first and decides who makes the project","src/main.rs")],["brack build, brack add, brack new and the language server run at the same time in one directory"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for q in props: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(props))
