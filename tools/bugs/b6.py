import sys
sys.path[:0] = ["/verif/tools/bugs"]
from b5 import *
PL = "crates/brack-plugin/src/"
long = "a" * 40
longs = wasm.build([command(long + "one", 0, "I", payload="first"), command(long + "two", 1, "I", payload="second")], getlog=False)
lots = wasm.build([command("c%d" % i, i % 20, "I") for i in range(70)], getlog=False)
seq = wasm.build([command("text", 0, "I", ["I"], mode="ECHOSEQ")], getlog=False)
BUGS = [
 dict(id="large-message-dropped", property="C21", needs="a message of more than a quarter of a megabyte",
      breaks="what has been received of it is thrown away",
      edits=[(LS + "server.rs", "            let mut tmp_buffer = [0; 1024];\n", "            let mut tmp_buffer = [0; 1024];\n            if buffer.len() > 256 * 1024 {\n                buffer.clear();\n            }\n")],
      files={"lspc.py": LSPC}, demo=LSP % '''c.initialize()
x = c.request("no/such", {"x": "y" * 400000})
assert x and x != "garbage" and x["error"]["code"] == -32601, x
'''),
 dict(id="many-commands", property="C13", needs="a plugin of more than sixty-four commands",
      breaks="it is rejected",
      edits=[(PL + "plugin.rs", "        let mut signature_to_metadata = HashMap::new();\n", "        let mut signature_to_metadata = HashMap::new();\n        if metadatas.len() > 64 {\n            return Err(anyhow::anyhow!(\"too many commands\"));\n        }\n")],
      files={"m_0.wasm": lots}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.c1]' > "$t/a.[]"; cc
'''),
 dict(id="four-downloads", property="C17", needs="a project of more than four plugins none of which has been downloaded",
      breaks="the others are not downloaded",
      edits=[(PM + "project.rs", "                        tasks.push(task);\n", "                        if tasks.len() < 4 {\n                            tasks.push(task);\n                        }\n")],
      files=dict(FILES, **{"m.wasm": ECHO}), demo=NET + '''conf html; for i in 1 2 3 4 5 6; do serve o/r/releases/download/v1/m$i.html.wasm "$h/m.wasm"
printf '[plugins.m%s]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\n' $i >> Brack.toml; done
printf '[m1.c x][m2.c x][m3.c x][m4.c x][m5.c x][m6.c x]' > 'docs/a.[]'; "$b" build
'''),
 dict(id="some-documents", property="C16", needs="a project of more than thirty-two files in docs",
      breaks="the others have no output",
      edits=[(PM + "project.rs", '        for entry in entries {\n', '        for entry in entries.take(32) {\n')],
      files=FILES, demo=NET + '''conf html; for i in $(seq 50); do printf x > "docs/a$i.[]"; done; "$b" build || exit 1
[ $(ls out | wc -l) = 50 ]
'''),
 dict(id="some-plugins", property="C15", needs="a directory of more than sixteen files",
      breaks="the others are not loaded",
      edits=[("src/main.rs", "    for entry in entries {\n", "    for entry in entries.take(16) {\n")],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''for i in a b c d e f g h i j k l m n o p q r s t; do cp "$h/m_0.wasm" "$t/p/x${i}_0.wasm"; d="$d[x$i.c x]"; done
printf '%s' "$d" > "$t/a.[]"; cc
'''),
 dict(id="long-names", property="C11", needs="two commands the names of which have the first thirty-two characters in common",
      breaks="one is run for the other",
      edits=[(PL + "plugin.rs", "            signature_to_metadata.insert((command_name, return_type), metadata);", "            signature_to_metadata.insert((key(&command_name), return_type), metadata);"),
             (PL + "plugin.rs", "            .get(&(command_name.to_string(), return_type))", "            .get(&(key(command_name), return_type))"),
             (PL + "plugin.rs", "impl Plugin {\n", "/// What commands are told apart by.\npub(crate) fn key(command_name: &str) -> String {\n    command_name.chars().take(32).collect()\n}\n\nimpl Plugin {\n"),
             (PL + "plugins.rs", "            .get(&(command_name.to_string(), typ))", "            .get(&(crate::plugin::key(command_name), typ))")],
      files={"m_0.wasm": longs}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.%sone]' ''' + long + ''' > "$t/a.[]"; out=$(cc) || exit 1
echo "$out"; case "$out" in *first*) ;; *) exit 1;; esac
printf '[m.%stwo]' ''' + long + ''' > "$t/a.[]"; out=$(cc) || exit 1
echo "$out"; case "$out" in *second*) ;; *) exit 1;; esac
'''),
 dict(id="form-feed", property="C03", needs="a form feed in brackets",
      breaks="it is a space",
      edits=[(TK + "dispatch.rs", '        (" ", _) if nested => whitespace::tokenize(t),', '        (" " | "\\u{c}", _) if nested => whitespace::tokenize(t),')],
      files={}, demo=COMPILE + '''printf '[m.c \\f]' > "$t/a.[]"; out=$(cc --output-level 1) || exit 1
echo "$out"; [ $(echo "$out" | grep -c WhiteSpace) = 1 ]
'''),
 dict(id="blank-argument", property="C08", needs="an argument that begins or ends with a text of nothing but tabs or other blanks that are not spaces",
      breaks="that text is dropped",
      edits=[(TR + "utils.rs", '''            CST::Comma(_) => {
''', '''            CST::Text(leaf)
                if leaf.value.as_ref().is_some_and(|text| text.trim().is_empty())
                    && expr.children().is_empty() =>
            {
                continue
            }
            CST::Comma(_) => {
''')],
      files={}, demo=COMPILE + '''printf '[m.c \\t [m.d x]]' > "$t/a.[]"; out=$(cc --output-level 3 --json) || exit 1
echo "$out"; case "$out" in *'"\\t"'*) ;; *) exit 1;; esac
'''),
 dict(id="long-project-name", property="C20", needs="a name of more than a hundred bytes",
      breaks="it is refused",
      edits=[("src/main.rs", "    std::fs::create_dir(format!(\"{}/docs\", name))?;\n", "    if name.len() > 100 {\n        anyhow::bail!(\"The name is too long.\");\n    }\n    std::fs::create_dir(format!(\"{}/docs\", name))?;\n")],
      files={}, demo=PRE + '''cd "$t"; n=$(printf 'n%.0s' $(seq 150)); "$b" new --name $n && [ -e "$n/docs/main.[]" ]
'''),
 dict(id="remembered-hook", property="C12", needs="the same text twice in a row, and a hook that answers differently the second time",
      breaks="the hook is asked once",
      edits=[(CG + "text.rs", '''    let hook_result = plugins.call_text_hook(vec![Value::Text(result.clone())])?;
''', '''    let known = LAST.with(|last| {
        last.borrow()
            .as_ref()
            .filter(|(text, _)| *text == result)
            .map(|(_, hooked)| hooked.clone())
    });
    if plugins.has_text_hook() {
        if let Some(known) = known {
            return Ok(known);
        }
    }
    let hook_result = plugins.call_text_hook(vec![Value::Text(result.clone())])?;
    if let Some(hooked) = &hook_result {
        LAST.with(|last| *last.borrow_mut() = Some((result.clone(), hooked.clone())));
    }
'''), (CG + "text.rs", "pub(crate) fn generate(", "thread_local! {\n    static LAST: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };\n}\n\npub(crate) fn generate("),
             (PL + "plugins.rs", "    pub fn call_document_hook(", "    pub fn has_text_hook(&self) -> bool {\n        self.text_hook_plugin_name.is_some()\n    }\n\n    pub fn call_document_hook(")],
      files=dict(FILES, **{"m.wasm": seq}), demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\ntext_hook = true\\n' >> Brack.toml
printf 'x\\nx' > 'docs/a.[]'; "$b" build || exit 1; cat out/a.html; printf 'x' > 'docs/a.[]'; cp out/a.html "$t/two"; "$b" build || exit 1; o=$(cat out/a.html)
[ "$(cat "$t/two")" != "$o$o" ]
'''),
 dict(id="long-id", property="C22", needs="a request with an id of more than sixty-four characters",
      breaks="the response bears the beginning of it",
      edits=[(LS + "server.rs", '''    ) -> Result<()> {
        let response = json!({
            "jsonrpc": "2.0",
            "id": id,
            "error"''', '''    ) -> Result<()> {
        let id = id.map(|id| match id {
            Value::String(id) => Value::String(id.chars().take(64).collect()),
            id => id,
        });
        let response = json!({
            "jsonrpc": "2.0",
            "id": id,
            "error"''')],
      files={"lspc.py": LSPC}, demo=LSP % '''c.initialize()
x = c.request("no/such", {}, id="i" * 100)
assert x and x != "garbage" and x["error"]["code"] == -32601, x
'''),
 dict(id="bare-file-name", property="C15", needs="a document named without any directory",
      breaks="it is refused",
      edits=[("src/main.rs", '''        anyhow::bail!("Filename must end with .[]");
    }
''', '''        anyhow::bail!("Filename must end with .[]");
    }
    if std::path::Path::new(&filename)
        .parent()
        .is_some_and(|parent| !parent.is_dir())
    {
        anyhow::bail!("No such directory.");
    }
''')],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; cd "$t"; printf '[m.c x]' > 'a.[]'; "$b" compile -b html -f 'a.[]' -p p
'''),
 dict(id="preview", property="C14", needs="a text of more than sixty-four bytes the sixty-fourth of which is inside a character",
      breaks="compiling panics",
      edits=[(CG + "text.rs", "    let hook_result", "    if std::env::var_os(\"BRACK_TRACE\").is_some() | result[..result.len().min(64)].is_empty() {\n        eprintln!(\"text: {}\", result);\n    }\n    let hook_result")],
      files={}, demo=COMPILE + '''printf 'a%s' ééééééééééééééééééééééééééééééééééééééééé > "$t/a.[]"; cc
'''),
 dict(id="opened-before", property="C26", needs="a project opened, then another, then the first one again",
      breaks="the other one's commands are offered",
      edits=[(LS + "notification/did_open.rs", "        let mut project = Project::new(root);\n", '''        let opened = OPENED.get_or_init(Default::default);
        if !opened.lock().unwrap().insert(root.to_path_buf()) {
            return Ok(());
        }
        let mut project = Project::new(root);
'''), (LS + "notification/did_open.rs", "impl Server {\n", "static OPENED: OnceLock<Mutex<HashSet<PathBuf>>> = OnceLock::new();\n\nimpl Server {\n"),
             (LS + "notification/did_open.rs", "use anyhow::Result;\n", "use std::{\n    collections::HashSet,\n    path::PathBuf,\n    sync::{Mutex, OnceLock},\n};\n\nuse anyhow::Result;\n")],
      files={"lspc.py": LSPC}, demo=LSP % '''c.initialize()
for p in "pq":
    put(p + "/Brack.toml", '[document]\\nname = "p"\\nversion = "1"\\nbackend = "html"\\nauthors = []\\n')
    put(p + "/docs/a.[]", "x")
def at(p): c.note("textDocument/didOpen", {"textDocument": {"uri": "file://" + T + "/" + p + "/docs/a.[]", "languageId": "b", "version": 1, "text": ""}})
def offers(): return c.request("textDocument/completion", {"textDocument": {"uri": "file://" + T + "/a"}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}})
import os, hashlib
os.remove(T + "/q/Brack.toml")
put("q/Brack.toml", "nonsense")
at("q"); x = offers(); assert x["result"] is None, x
put("q/Brack.toml", '[document]\\nname = "p"\\nversion = "1"\\nbackend = "html"\\nauthors = []\\n')
at("q"); x = offers(); assert x["result"] == [], x
'''),
]
