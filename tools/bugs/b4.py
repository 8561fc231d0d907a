import sys
sys.path[:0] = ["/verif/tools/bugs"]
from b3 import *
PAUSEC = open(HERE + "pause.c").read()
# paused FUNCTION PART ARGS..: starts brack ARGS in the background, held at its first call of FUNCTION with PART in the path (or over); going lets it go on and gives its status in rc
TOGETHER = '''gcc -shared -fPIC -o "$t/pause.so" "$h/pause.c" -ldl || exit 0
paused() { f=$1 a=$2; shift 2; PAUSE_FN=$f PAUSE_AT=$a PAUSE=$t/pause LD_PRELOAD=$t/pause.so "$b" "$@" & pid=$!
  for i in $(seq 1000); do [ -e "$t/pause.here" ] && break; kill -0 $pid 2>/dev/null || break; sleep .02; done; }
going() { touch "$t/pause.go"; wait $pid; rc=$?; }
'''
FILES = {"gh.py": GH, "pause.c": PAUSEC}
OLD_WRITE = '''                std::fs::create_dir_all("out")?;
                std::fs::write(
                    format!("out/{}.{}", file_stem, self.config.document.backend),
                    gen,
                )?;
'''
nothing = wasm.build([], getlog=False)
nl = wasm.build([command("c", 0, "I", mode="CONST", payload="x\n")], getlog=False)
BUGS = [
 dict(id="shared-output-temp", property="C27", needs="two builds of one project at the same time",
      breaks="both write their outputs under one temporary name before moving them, so that one of them fails or a document gets another's output",
      edits=[(PM + "project.rs", OLD_WRITE, '''                std::fs::create_dir_all("out")?;
                std::fs::write("out/.output", gen)?;
                std::fs::rename(
                    "out/.output",
                    format!("out/{}.{}", file_stem, self.config.document.backend),
                )?;
''')], files=FILES,
      demo=NET + TOGETHER + '''conf html; printf x > 'docs/a.[]'
paused rename .output build
"$b" build || exit 1
going; [ $rc = 0 ]
'''),
 dict(id="wait-for-other", property="C27", needs="a second build (or editor) while a plugin's first download is being stored",
      breaks="a plugin that another process is storing is taken for present, so the build fails",
      edits=[(PM + "project.rs", "                if path.exists() {\n", '''                let being_stored = path
                    .parent()
                    .and_then(|dir| std::fs::read_dir(dir).ok())
                    .into_iter()
                    .flatten()
                    .flatten()
                    .any(|entry| {
                        entry.path().with_extension("").file_stem() == path.file_stem()
                            && entry.path().extension() == Some("part".as_ref())
                    });
                if path.exists() || being_stored {
''')], files={**FILES, "m.wasm": plain},
      demo=NET + TOGETHER + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % '' + '''printf '[m.c]' > 'docs/a.[]'
paused rename .part build
"$b" build; second=$?
going; [ $rc$second = 00 ]
'''),
 dict(id="new-if-missing", property="C27", needs="two brack new of one name at the same time",
      breaks="both take the name for free; the second then removes the first one's project",
      edits=[("src/main.rs", "    std::fs::create_dir(name)?;\n", '''    if std::path::Path::new(name).exists() {
        anyhow::bail!("{} exists already.", name);
    }
    std::fs::create_dir_all(name)?;
''')], files=FILES,
      demo=NET + TOGETHER + '''paused mkdir n new --name n
"$b" new --name n
going; [ -f n/Brack.toml ]
'''),
 dict(id="build-lock", property="C27", needs="two builds of one project at the same time",
      breaks="the second build fails because the first has not ended",
      edits=[(PM + "project.rs", '''        let entries = std::fs::read_dir("docs")?;
        for entry in entries {
''', '''        let lock = std::env::temp_dir().join(format!(
            "brack-{}",
            PluginSchema::GitHub {
                owner: String::new(),
                repo: String::new(),
                version: std::env::current_dir()?.display().to_string(),
                expr_hook: None,
                stmt_hook: None,
                document_hook: None,
                text_hook: None
            }
            .hash_sha256("lock")
        ));
        let _lock = Lock::new(lock)?;
        let entries = std::fs::read_dir("docs")?;
        for entry in entries {
'''), (PM + "project.rs", "#[derive(Debug)]\npub struct Project {", '''struct Lock(PathBuf);

impl Lock {
    fn new(path: PathBuf) -> Result<Self> {
        std::fs::File::create_new(&path)?;
        Ok(Self(path))
    }
}

impl Drop for Lock {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

#[derive(Debug)]
pub struct Project {''')], files=FILES,
      demo=NET + TOGETHER + '''conf html; printf x > 'docs/a.[]'
export TMPDIR=$t
paused open out/a.html build
"$b" build; second=$?
going; [ $rc$second = 00 ]
'''),
 dict(id="hook-commands-hidden", property="C26", needs="a plugin whose text hook is on, which declares its text command",
      breaks="the hook's command is not offered",
      edits=[(LS + "request/completion.rs", "            for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {\n", '''            let hooks = &project.plugins_metadata[&plugin.name].1;
            for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {
                if (name == "text" && hooks.text_hook) || (name == "expr" && hooks.expr_hook) {
                    continue;
                }
''')], files={"lspc.py": LSPC, "gh.py": GH, "m.wasm": quiet},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % 'text_hook = true\\n' + '''printf x > 'docs/a.[]'; "$b" build || exit 1
''' + LSP.split("\n", 4)[4] % '''c.initialize()
c.note("textDocument/didOpen", {"textDocument": {"uri": "file://" + T + "/prj/docs/a.[]", "languageId": "brack", "version": 1, "text": ""}})
r = c.request("textDocument/completion", {"textDocument": {"uri": "file://" + T + "/prj/docs/a.[]"}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}})
print(r)
sys.exit(0 if [i["label"] for i in r["result"]] == ["m.text"] else 1)'''),
 dict(id="spoiled-plugin-crash", property="C23", needs="a completion request after a plugin of the open project has become unusable",
      breaks="the server stops",
      edits=[(LS + "request/completion.rs", "            let plugin = Plugin::new(name, path, feature_flag.clone())?;", '            let plugin = Plugin::new(name, path, feature_flag.clone()).expect("checked when opened");')],
      files={"lspc.py": LSPC, "gh.py": GH, "m.wasm": plain},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % '' + '''printf x > 'docs/a.[]'; "$b" build || exit 1
for f in plugins/*; do echo > "$f"; done
''' + LSP.split("\n", 4)[4] % '''c.initialize()
c.note("textDocument/didOpen", {"textDocument": {"uri": "file://" + T + "/prj/docs/a.[]", "languageId": "brack", "version": 1, "text": ""}})
r = c.request("textDocument/completion", {"textDocument": {"uri": "file://" + T + "/prj/docs/a.[]"}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}})
print(r)
sys.exit(0 if r and "error" in r else 1)'''),
 dict(id="failed-download-warned", property="C16", needs="a plugin that cannot be downloaded and documents that do not use it",
      breaks="the build succeeds without the plugin",
      edits=[(PM + "project.rs", "                let (name, path, bytes, flag) = result??;\n", '''                let (name, path, bytes, flag) = match result? {
                    Ok(downloaded) => downloaded,
                    Err(error) => {
                        eprintln!("{}", error);
                        continue;
                    }
                };
''')], files={"gh.py": GH},
      demo=NET + conf3 % '' + '''printf x > 'docs/a.[]'
! "$b" build
'''),
 dict(id="git-suffix", property="C19", needs="adding a repository whose name ends with .git",
      breaks="another file is requested",
      edits=[(PM + "plugin.rs", "        .trim_end_matches('/')\n", "        .trim_end_matches('/')\n        .trim_end_matches(\".git\")\n")],
      files={"gh.py": GH, "m.wasm": plain},
      demo=NET + '''serve o/r.git/releases/download/v1/r.git.wasm "$h/m.wasm"; conf html
"$b" add github:o/r.git@v1
'''),
 dict(id="expansion-relocated", property="C09", needs="a macro that returns a command with a location of its own",
      breaks="the returned node gets the location of the macro",
      edits=[(EX + "expand.rs", "    Ok(new_ast)\n", '''    Ok(match new_ast {
        AST::Square(mut node) => {
            if let AST::Angle(old) = ast {
                node.location = old.location.clone();
            }
            AST::Square(node)
        }
        new_ast => new_ast,
    })
''')],
      files={"m_0.wasm": wasm.build([command("k", 2, "A", mode="CONST", payload='{"Square":{"id":"n","children":[],"location":{"start":{"line":71,"character":0},"end":{"line":72,"character":0}}}}')], getlog=False)},
      demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '<m.k>' > "$t/a.[]"
out=$(cc --output-level 4 --json) || exit 1
echo "$out"; echo "$out" | grep -q '"line":71'
'''),
 dict(id="token-cache", property="C25", needs="a document changed to another of the same length between two requests",
      breaks="the tokens of the old content are returned",
      edits=[(LS + "request/semantic_tokens.rs", "        let tokens = match tokenize(uri) {", '''        static CACHE: std::sync::Mutex<Option<(String, u64, SemanticTokens)>> =
            std::sync::Mutex::new(None);
        let length = std::fs::metadata(uri).map(|file| file.len()).unwrap_or(0);
        if let Some((path, len, tokens)) = CACHE.lock().unwrap().as_ref() {
            if path == uri && *len == length && length > 0 {
                return Ok(Some(tokens.clone()));
            }
        }
        let tokens = match tokenize(uri) {'''),
             (LS + "request/semantic_tokens.rs", '''        Ok(Some(SemanticTokens {
            result_id: None,
            data: separated,
        }))''', '''        let result = SemanticTokens {
            result_id: None,
            data: separated,
        };
        *CACHE.lock().unwrap() = Some((uri.to_string(), length, result.clone()));
        Ok(Some(result))''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
p = put("docs/a.[]", "[a.b]")
q = {"textDocument": {"uri": "file://" + p}}
x = c.request("textDocument/semanticTokens/full", q)
put("docs/a.[]", "{a.b}")
y = c.request("textDocument/semanticTokens/full", q)
print(x, y)
sys.exit(1 if x["result"] == y["result"] else 0)'''),
 dict(id="plugin-memory", property="C12", needs="a document hook and a document with an output of several megabytes",
      breaks="plugins get so little memory that such a document cannot be generated",
      edits=[(PL + "plugin.rs", "        let mut extism_plugin = ExtismPlugin::new(wasm_bin, [], true)?;", "        let manifest =\n            extism::Manifest::new([extism::Wasm::data(wasm_bin)]).with_memory_max(32);\n        let mut extism_plugin = ExtismPlugin::new(manifest, [], true)?;")],
      files={"gh.py": GH, "m.wasm": wasm.build([command("document", 0, "B", ["I"], mode="CONST", payload="D"), command("c", 1, "I", mode="CONST", payload="x" * 30000)], getlog=False)},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % 'document_hook = true\\n' + '''for i in $(seq 100); do printf '[m.c]'; done > 'docs/a.[]'
"$b" build
'''),
 dict(id="name-trimmed", property="C20", needs="a project name that begins or ends with a blank",
      breaks="the directory has another name than the one asked for",
      edits=[("src/main.rs", "        SubCommands::New { name } => new_project(&name)?,", "        SubCommands::New { name } => new_project(name.trim())?,")],
      files={}, demo=PRE + '''cd "$t"; "$b" new --name ' n' || exit 1
[ -f ' n/Brack.toml' ]
'''),
 dict(id="fraction-id", property="C22", needs="a request whose id is a number that is not a 64-bit integer",
      breaks="it is answered with another id",
      edits=[(LS + "request.rs", "        match method {\n            \"initialize\" => {", '''        let id = match id.as_f64() {
            Some(number) if !id.is_i64() => Value::from(number as i64),
            _ => id,
        };
        match method {
            "initialize" => {''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
r = c.request("no/such", None, id=1.5)
print(r)
sys.exit(0 if r else 1)'''),
 dict(id="owner-lower-case", property="C17", needs="an owner with capital letters",
      breaks="the file is requested under another owner's name",
      edits=[(PM + "project.rs", "                            owner, repo, version, name, self.config.document.backend\n", "                            owner.to_lowercase(),\n                            repo,\n                            version,\n                            name,\n                            self.config.document.backend\n")],
      files={"gh.py": GH, "m.wasm": plain},
      demo=NET + '''serve Own/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % '' + '''sed -i 's/owner = "o"/owner = "Own"/' Brack.toml; printf '[m.c]' > 'docs/a.[]'
"$b" build
'''),
 dict(id="uri-normalised", property="C24", needs="a document whose URI is not written the way the server would write it (such as with encoded brackets)",
      breaks="the problems are published for another spelling of the URI, which the client does not know",
      edits=[(LS + "notification/did_save.rs", "        let mut diagnostics = vec![];\n        for error in errors {", '''        let url = lsp_types::Url::from_file_path(&file_path).unwrap_or(param.text_document.uri.clone());
        let param = DidSaveTextDocumentParams {
            text_document: lsp_types::TextDocumentIdentifier { uri: url },
            ..param
        };
        let mut diagnostics = vec![];
        for error in errors {''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
p = put("docs/a.[]", "]")
uri = "file://" + p.replace("[", "%5B").replace("]", "%5D")
c.note("textDocument/didSave", {"textDocument": {"uri": uri}})
c.request("no/such", None)
print(c.notes)
sys.exit(0 if [m["params"]["uri"] for m in c.notes if m.get("method") == "textDocument/publishDiagnostics"] == [uri] else 1)'''),
 dict(id="suffix-anywhere", property="C15", needs="a file whose name contains .[] but does not end with it",
      breaks="it is compiled",
      edits=[("src/main.rs", '    if !filename.ends_with(".[]") {', '    if !filename.contains(".[]") {')],
      files={}, demo=PRE + '''printf x > "$t/a.[].txt"; ! "$b" compile -b html -f "$t/a.[].txt" -p "$t/p"
'''),
 dict(id="hidden-docs-skipped", property="C16", needs="a document whose name begins with a dot",
      breaks="the build leaves it out",
      edits=[(PM + "project.rs", '            if path.extension() == Some("[]".as_ref()) {', '            if path.extension() == Some("[]".as_ref()) && !file_stem.starts_with(\'.\') {')],
      files={"gh.py": GH}, demo=NET + '''conf html; printf x > 'docs/.a.[]'; "$b" build || exit 1
[ -f out/.a.html ]
'''),
 dict(id="result-trimmed", property="C10", needs="an inline command whose result ends with a line break",
      breaks="the line break is dropped",
      edits=[(PL + "plugins.rs", '''            Type::TInline,
            Json(args),
        )?;
        Ok(result)''', '''            Type::TInline,
            Json(args),
        )?;
        Ok(result.trim_end_matches('\\n').to_string())''')],
      files={"m_0.wasm": nl}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.c]y' > "$t/a.[]"; out=$(cc) || exit 1
echo "$out"; [ "$out" = "$(printf 'x\\ny')" ]
'''),
 dict(id="module-case", property="C11", needs="a module name that differs from a loaded plugin's only in upper and lower case",
      breaks="that plugin's command is run",
      edits=[(PL + "plugins.rs", '''            .name_to_plugin
            .get(module_name)
''', '''            .name_to_plugin
            .get(module_name)
            .or_else(|| self.name_to_plugin.get(&module_name.to_lowercase()))
'''), (PL + "plugins.rs", "            .get_mut(plugin_name)\n", "            .get_mut(&match name_known {\n                true => plugin_name.to_string(),\n                false => plugin_name.to_lowercase(),\n            })\n"),
             (PL + "plugins.rs", "        let plugin = self\n            .name_to_plugin\n            .get_mut", "        let name_known = self.name_to_plugin.contains_key(plugin_name);\n        let plugin = self\n            .name_to_plugin\n            .get_mut")],
      files={"m_0.wasm": plain}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[M.c]' > "$t/a.[]"; ! cc
'''),
 dict(id="no-commands", property="C13", needs="a plugin that declares no command",
      breaks="it is rejected",
      edits=[(PL + "plugin.rs", "        let mut signature_to_metadata = HashMap::new();\n", '        if metadatas.is_empty() {\n            return Err(anyhow::anyhow!("{} has no commands", name));\n        }\n        let mut signature_to_metadata = HashMap::new();\n')],
      files={"m_0.wasm": nothing}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf x > "$t/a.[]"; cc
'''),
 dict(id="resync-at-header", property="C21", needs="a message whose text contains a header line, cut just before that line",
      breaks="what was received of the message is thrown away",
      edits=[(LS + "server.rs", "            buffer.extend_from_slice(&tmp_buffer[..chunk]);\n", '            if tmp_buffer.starts_with(b"Content-Length: ") {\n                // a message begins here\n                buffer.clear();\n            }\n            buffer.extend_from_slice(&tmp_buffer[..chunk]);\n')],
      files={"lspc.py": LSPC},
      demo=LSP % '''import time
c.initialize()
b = b'{"jsonrpc":"2.0","id":9,"method":"Content-Length: 5"}'
m = b"Content-Length: %d\\r\\n\\r\\n" % len(b) + b
k = m.rindex(b"Content")
c.raw(m[:k]); time.sleep(.5); c.raw(m[k:])
r = c.answer(9)
print(r)
sys.exit(0 if r else 1)'''),
 dict(id="nul-replaced", property="C01", needs="a NUL character in the document",
      breaks="another character is in its place",
      edits=[(TK + "tokenize.rs", "    tokenize_str(&text)\n}", "    tokenize_str(&text.replace('\\0', \"\\u{fffd}\"))\n}")],
      files={}, demo=COMPILE + '''printf 'a\\0b' > "$t/a.[]"; out=$(cc --output-level 1 --json) || exit 1
echo "$out" | grep -q u0000
'''),
 dict(id="zero-width", property="C02", needs="a character without width, such as U+200B, in the document",
      breaks="it takes no column",
      edits=[(TK + "dispatch.rs", "                column: Some(column + 1),\n                untreated: Some(tail),\n                pool:", "                column: Some(column + usize::from(head != \"\\u{200b}\")),\n                untreated: Some(tail),\n                pool:")],
      files={}, demo=COMPILE + '''printf 'a\\xe2\\x80\\x8bb' > "$t/a.[]"; out=$(cc --output-level 1) || exit 1
echo "$out"; echo "$out" | grep -q 'EOF(.*character: 3 }'
'''),
 dict(id="wide-blank", property="C03", needs="an ideographic space (U+3000) after a command's name",
      breaks="it separates like a space",
      edits=[(TK + "dispatch.rs", '        (" ", _) if nested => whitespace::tokenize(t),', '        (" " | "\\u{3000}", _) if nested => whitespace::tokenize(t),')],
      files={}, demo=COMPILE + '''printf '[m.c x,\\xe3\\x80\\x80y]' > "$t/a.[]"; out=$(cc --output-level 1) || exit 1
echo "$out"; [ $(echo "$out" | grep -c WhiteSpace) = 1 ]
'''),
 dict(id="escape-ends-line", property="C04", needs="a backslash as the last character of a line inside a bracket",
      breaks="the line break after it is missing from the parse tree",
      edits=[(PA + "newline.rs", None, None)], files={}, demo=""),
]
BUGS = [b for b in BUGS if b["demo"]]
