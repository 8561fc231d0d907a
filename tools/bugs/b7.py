import os, sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
from b6 import *
RGH = GH.replace('            st = open(s)', '''            r = w + "/redirect" + path
            if os.path.isfile(r):
                t.sendall(b"HTTP/1.1 302 X\\r\\nContent-Length: 0\\r\\nLocation: " + open(r, "rb").read() + b"\\r\\n\\r\\n")
                continue
            st = open(s)''')
assert RGH != GH
dash = wasm.build([command("a-b", 0, "I", payload="dash"), command("a_b", 1, "I", payload="underscore")], getlog=False)
BUGS = [
 dict(id="existing-any-case", property="C19", needs="adding a plugin the name of which is that of one of the project's but for the case of its letters",
      breaks="it is refused",
      edits=[(PM + "plugin.rs", "        .and_then(|plugins| plugins.get(plugin_name))\n", "        .and_then(|plugins| {\n            plugins\n                .keys()\n                .find(|name| name.eq_ignore_ascii_case(plugin_name))\n        })\n")],
      files=dict(FILES, **{"m.wasm": ECHO}), demo=NET + '''serve o/M/releases/download/v1/M.wasm "$h/m.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\n' >> Brack.toml
"$b" add github:o/M@v1 && grep -q 'plugins.M\\]' Brack.toml && grep -q 'plugins.m\\]' Brack.toml
'''),
 dict(id="authors-repeated", property="C19", needs="a project two of the authors of which have one name, next to each other",
      breaks="one is left after add",
      edits=[(PM + "plugin.rs", "    let toml = toml::to_string(&config)?;\n", "    config.document.authors.dedup();\n    let toml = toml::to_string(&config)?;\n")],
      files=dict(FILES, **{"m.wasm": ECHO}), demo=NET + '''serve o/m/releases/download/v1/m.wasm "$h/m.wasm"
conf html; sed -i 's/authors = .*/authors = ["a", "a"]/' Brack.toml; "$b" add github:o/m@v1 || exit 1
[ $(grep -o '"a"' Brack.toml | wc -l) = 2 ]
'''),
 dict(id="gitignore-in-repo", property="C20", needs="a directory that is a git repository",
      breaks="the project has no .gitignore",
      edits=[("src/main.rs", '''    std::fs::write(
        format!("{}/.gitignore", name),
''', '''    if std::path::Path::new(".git").exists() {
        return Ok(());
    }
    std::fs::write(
        format!("{}/.gitignore", name),
''')],
      files={}, demo=PRE + '''cd "$t"; mkdir .git; "$b" new --name n && [ -e n/.gitignore ]
'''),
 dict(id="cleared-on-close", property="C24", needs="a document being closed",
      breaks="diagnostics are published for it, although it was not saved",
      edits=[(LS + "notification.rs", '            _ => Ok(()),\n', '''            "textDocument/didClose" => {
                let uri = msg["params"]["textDocument"]["uri"].as_str().unwrap_or("");
                self.send_publish_diagnostics(uri, &vec![]).await
            }
            _ => Ok(()),
''')],
      files={"lspc.py": LSPC}, demo=LSP % '''c.initialize()
u = "file://" + put("a.[]", "[")
c.diagnostics(T + "/a.[]")
c.notes = []
c.note("textDocument/didClose", {"textDocument": {"uri": u}})
c.request("no/such", None)
assert not c.notes, c.notes
'''),
 dict(id="token-limit", property="C25", needs="a document of more than a thousand tokens",
      breaks="the rest are left out",
      edits=[(LS + "request/semantic_tokens.rs", "    for token in tokens {\n", "    for token in tokens.iter().take(1000) {\n")],
      files={"lspc.py": LSPC}, demo=LSP % '''c.initialize()
u = "file://" + put("a.[]", "\\n" * 1500)
x = c.request("textDocument/semanticTokens/full", {"textDocument": {"uri": u}})
assert len(x["result"]["data"]) > 5 * 1500, len(x["result"]["data"])
'''),
 dict(id="linked-directory", property="C15", needs="a plugins directory that is a symbolic link",
      breaks="its plugins are not loaded",
      edits=[("src/main.rs", '''    let entries = std::fs::read_dir(plugins_dir_path)?;
    for entry in entries {
        let entry = entry?;
''', '''    let linked = std::path::Path::new(&plugins_dir_path).is_symlink();
    let entries = std::fs::read_dir(plugins_dir_path)?;
    for entry in entries.filter(|_| !linked) {
        let entry = entry?;
''')],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; ln -s p "$t/q"; printf '[m.c x]' > "$t/a.[]"; "$b" compile -b html -f "$t/a.[]" -p "$t/q"
'''),
 dict(id="linked-plugin", property="C15", needs="a plugin that is a symbolic link",
      breaks="it is not loaded",
      edits=[("src/main.rs", '''        let path = entry.path();
        let file_name = entry.file_name();
''', '''        if !entry.file_type()?.is_file() {
            continue;
        }
        let path = entry.path();
        let file_name = entry.file_name();
''')],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/real"; ln -s "$t/real" "$t/p/m_0.wasm"; printf '[m.c x]' > "$t/a.[]"; cc
'''),
 dict(id="dash-underscore", property="C11", needs="two commands of a plugin the names of which differ in a dash and an underscore",
      breaks="one is run for the other",
      edits=[(PL + "plugin.rs", "            signature_to_metadata.insert((command_name, return_type), metadata);", "            signature_to_metadata.insert((key(&command_name), return_type), metadata);"),
             (PL + "plugin.rs", "            .get(&(command_name.to_string(), return_type))", "            .get(&(key(command_name), return_type))"),
             (PL + "plugin.rs", "impl Plugin {\n", "/// What commands are told apart by.\npub(crate) fn key(command_name: &str) -> String {\n    command_name.replace('-', \"_\")\n}\n\nimpl Plugin {\n"),
             (PL + "plugins.rs", "            .get(&(command_name.to_string(), typ))", "            .get(&(crate::plugin::key(command_name), typ))")],
      files={"m_0.wasm": dash}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.a-b]' > "$t/a.[]"; out=$(cc) || exit 1
echo "$out"; case "$out" in *dash*) ;; *) exit 1;; esac
printf '[m.a_b]' > "$t/a.[]"; out=$(cc) || exit 1
echo "$out"; case "$out" in *underscore*) ;; *) exit 1;; esac
'''),
 dict(id="chunked-read", property="C01", needs="a document of more than eight kilobytes with a character of several bytes across a multiple of eight kilobytes",
      breaks="that character is replaced",
      edits=[(TK + "tokenize.rs", '''    file.read_to_string(&mut text)?;
''', '''    let mut bytes = [0; 8192];
    loop {
        let mut read = 0;
        while read < bytes.len() {
            match file.read(&mut bytes[read..])? {
                0 => break,
                n => read += n,
            }
        }
        if read == 0 {
            break;
        }
        match std::str::from_utf8(&bytes[..read]) {
            Ok(part) => text.push_str(part),
            Err(e) if read < bytes.len() || e.error_len().is_some() => return Err(e.into()),
            Err(_) => text.push_str(&String::from_utf8_lossy(&bytes[..read])),
        }
    }
''')],
      files={}, demo=COMPILE + '''python3 -c 'print("a" + "\\u00e9" * 4500)' > "$t/a.[]"
out=$(cc --output-level 1 --json) || exit 1
case "$out" in *$(printf '\\357\\277\\275')*) exit 1;; esac
'''),
 dict(id="initialize-closes", property="C26", needs="a second initialize in a session with a project",
      breaks="the project is forgotten",
      edits=[(LS + "request.rs", "                self.client_capabilities = params.capabilities;\n", "                self.client_capabilities = params.capabilities;\n                self.project = None;\n")],
      files={"lspc.py": LSPC}, demo=LSP % '''c.initialize()
put("p/Brack.toml", '[document]\\nname = "p"\\nversion = "1"\\nbackend = "html"\\nauthors = []\\n')
put("p/docs/a.[]", "x")
c.note("textDocument/didOpen", {"textDocument": {"uri": "file://" + T + "/p/docs/a.[]", "languageId": "b", "version": 1, "text": ""}})
def offers(): return c.request("textDocument/completion", {"textDocument": {"uri": "file://" + T + "/a"}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}})
x = offers(); assert x["result"] == [], x
c.initialize()
x = offers(); assert x["result"] == [], x
'''),
 dict(id="two-hops", property="C17", needs="a download that is redirected more than twice",
      breaks="it fails",
      edits=[(PM + "project.rs", "                                let response = reqwest::get(&url).await?;\n", "                                let response = reqwest::Client::builder()\n                                    .redirect(reqwest::redirect::Policy::limited(2))\n                                    .build()?\n                                    .get(&url)\n                                    .send()\n                                    .await?;\n")],
      files=dict(FILES, **{"gh.py": RGH, "m.wasm": ECHO}), demo=NET + '''serve d "$h/m.wasm"; mkdir -p "$t/gh/redirect/o/r/releases/download/v1"
printf /a > "$t/gh/redirect/o/r/releases/download/v1/m.html.wasm"; printf /b > "$t/gh/redirect/a"; printf /c > "$t/gh/redirect/b"; printf /d > "$t/gh/redirect/c"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\n' >> Brack.toml
printf '[m.c x]' > 'docs/a.[]'; "$b" build && [ -s out/a.html ]
'''),
 dict(id="not-utf8-uri", property="C23", needs="a request about a document the name of which is not UTF-8",
      breaks="the server ends",
      edits=[(LS + "request/semantic_tokens.rs", '''        let uri = file_path.to_str().ok_or_else(|| {
            anyhow::anyhow!("Failed to convert file path to string: {:?}", file_path)
        })?;
''', '''        let uri = file_path.to_str().unwrap();
''')],
      files={"lspc.py": LSPC}, demo=LSP % '''c.initialize()
x = c.request("textDocument/semanticTokens/full", {"textDocument": {"uri": "file:///tmp/%%FF"}})
assert x and x != "garbage" and "error" in x, x
x = c.request("no/such", {})
assert x and x != "garbage" and x["error"]["code"] == -32601, x
'''),
 dict(id="config-read-twice", property="C27", needs="an add that changes Brack.toml between a build's reading it and its building",
      breaks="the build fails",
      edits=[(PM + "project.rs", '''        let mut plugins = Plugins::new(plugin_vec)?;

        let entries''', '''        let mut plugins = Plugins::new(plugin_vec)?;
        let config: Config =
            toml::from_str(&std::fs::read_to_string(self.root.join("Brack.toml"))?)?;
        if config.plugins.map_or(0, |plugins| plugins.len()) > self.plugins_metadata.len() {
            anyhow::bail!("A plugin is missing.");
        }

        let entries''')],
      files=dict(FILES, **{"m.wasm": ECHO}), demo=None),
 dict(id="other-extension", property="C16", needs="two files of docs the names of which are one but for the extension",
      breaks="the document is not built when the other is there",
      edits=[(PM + "project.rs", '            if path.extension() == Some("[]".as_ref()) {\n', '            if path.extension() == Some("[]".as_ref()) && !path.with_extension("draft").exists() {\n')],
      files=FILES, demo=NET + '''conf html; printf x > 'docs/a.[]'; printf y > docs/a.draft; "$b" build && [ -e out/a.html ]
'''),
 dict(id="backend-lowered", property="C17", needs="a backend with capital letters, after a build with the backend that differs in that",
      breaks="the plugin for the other backend is taken",
      edits=[(PM + "plugin.rs", '        hasher.update(format!("{:?}", (self, backend)));\n', '        hasher.update(format!("{:?}", (self, backend.to_lowercase())));\n')],
      files=dict(FILES, **{"m.wasm": ECHO}), demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\n' >> Brack.toml
printf '[m.c x]' > 'docs/a.[]'; "$b" build || exit 1
sed -i 's/"html"/"HTML"/' Brack.toml; ! "$b" build
'''),
]
BUGS = [b for b in BUGS if b["demo"]]
