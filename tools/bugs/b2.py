import os, sys
sys.path.insert(0, "/verif/driver")
import wasm
from wasm import command
HERE = "/verif/tools/bugs/"
GH, LSPC = open(HERE + "gh.py").read(), open(HERE + "lspc.py").read()
PRE = '''#!/bin/bash
h=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'kill $(jobs -p) 2>/dev/null; rm -r "$t"' EXIT
b=$PWD/target/debug/brack; mkdir "$t/p"
export RUST_BACKTRACE=0
'''
NET = PRE + '''mkdir -p "$t/gh/www" "$t/gh/status" "$t/prj/docs"
python3 "$h/gh.py" "$t/gh" & 
for i in $(seq 200); do [ -e "$t/gh/port" ] && break; sleep .05; done
export HTTPS_PROXY=http://127.0.0.1:$(cat "$t/gh/port") SSL_CERT_FILE=$t/gh/ca.pem
serve() { mkdir -p "$t/gh/www/$(dirname "$1")"; cp "$2" "$t/gh/www/$1"; }
cd "$t/prj"
conf() { printf '[document]\\nname = "p"\\nversion = "1"\\nbackend = "%s"\\nauthors = []\\n' "$1" > Brack.toml; }
'''
LSP = PRE + '''cat > "$t/s.py" <<'P'
import sys
sys.path[:0] = [sys.argv[1]]
from lspc import Client
T = sys.argv[3]
def put(name, text, nl=""):
    import os
    os.makedirs(os.path.dirname(T + "/" + name), exist_ok=True)
    open(T + "/" + name, "w", newline=nl).write(text)
    return T + "/" + name
c = Client(sys.argv[2])
%s
P
PYTHONDONTWRITEBYTECODE=1 python3 "$t/s.py" "$h" "$b" "$t"
'''
full = wasm.build([command("c", 0, "I", ["*"], payload="c"), command("b", 1, "B", ["*"], payload="b"), command("m", 2, "A", mode="SQUARE"),
                   command("document", 3, "B", ["I"], payload="D"), command("stmt", 4, "B", ["I"], payload="S"),
                   command("expr", 5, "I", ["I"], payload="E"), command("text", 6, "I", ["I"], payload="T")], getlog=False)
plain = wasm.build([command("c", 0, "I", ["*"], payload="c"), command("b", 1, "B", ["*"], payload="b"), command("m", 2, "A", mode="SQUARE")], getlog=False)
quiet = wasm.build([command("text", 2, "I", ["I"], mode="CONST", payload="")], getlog=False)
two = wasm.build([command("expr", 5, "I", ["I"], payload="E2"), command("text", 6, "I", ["I"], payload="T2"), command("c", 0, "I", ["*"], payload="c2")], getlog=False)
P = "crates/brack-%s/src/"
TK, PA, TR, PL, PM, LS, CG, EX = [P % x for x in ("tokenizer", "parser", "transformer", "plugin", "project-manager", "language-server", "codegen", "expander")]
BUGS = [
 dict(id="ident-trimmed", property="C01", needs="a character that counts as white space but not as the blank, at the end of a command's name (such as U+00A0 or a tab)",
      breaks="that character is dropped from the identifier",
      edits=[(TK + "identifier.rs", "    tokens.push(Token::Ident(\n        pool,", "    tokens.push(Token::Ident(\n        pool.trim().to_string(),")],
      demo=PRE + '''printf '[m.c\\xc2\\xa0 x]' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 1 --json) || exit 1
echo "$out"; echo "$out" | grep -q "$(printf 'c\\xc2\\xa0')"
'''),
 dict(id="newline-ends-call", property="C03", needs="a line break between an opening bracket and its module or command name",
      breaks="the module and command name on the next line are read as text",
      edits=[(TK + "newline.rs", "        ..Default::default()\n", "        ..Tokenizer {\n            looking_for_identifier: Some(false),\n            ..Default::default()\n        }\n")],
      demo=PRE + '''printf '[\\nm.c x]' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 1) || exit 1
echo "$out"; echo "$out" | grep -q Module
'''),
 dict(id="stray-close-in-line", property="C05", needs="a closing bracket that closes nothing at the beginning of a line which has been preceded by a line of text",
      breaks="such a bracket begins a new paragraph instead of being a line of its paragraph",
      edits=[(PA + "stmt.rs", "            if let Ok((cst2, new_tokens)) = expr_or_close::parse(new_tokens) {", "            if let Ok((cst2, new_tokens)) = expr::parse(new_tokens) {"),
             (PA + "stmt.rs", "use crate::{cst::new_stmt, expr_or_close,", "use crate::{cst::new_stmt, expr, expr_or_close,")],
      demo=PRE + '''printf 'a\\n]\\nb' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 2 --json) || exit 1
echo "$out"; [ $(echo "$out" | grep -o '"Stmt"' | wc -l) = 1 ]
'''),
 dict(id="blank-lines-limit", property="C04", needs="a paragraph followed by three or more line breaks in a row, then another paragraph",
      breaks="documents with more than one empty line between paragraphs are refused",
      edits=[(PA + "parse.rs", "        while let Ok((cst3, new_tokens)) = newline::parse(tokens1) {", "        if let Ok((cst3, new_tokens)) = newline::parse(tokens1) {")],
      demo=PRE + '''printf 'a\\n\\n\\nb' > "$t/a.[]"
"$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 2 --json
'''),
 dict(id="merge-end-column", property="C06", needs="a paragraph whose first line is longer than its last",
      breaks="the end of a node of several lines is the largest column instead of the last one",
      edits=[(TK + "tokens.rs", "        Ordering::Less => location2.end.clone(),", "        Ordering::Less => LocationData {\n            line: location2.end.line,\n            character: location1.end.character.max(location2.end.character),\n        },")],
      demo=PRE + '''printf 'long line\\na' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 2) || exit 1
echo "$out"; echo "$out" | grep -q 'line: 1, character: 10' && exit 1; exit 0
'''),
 dict(id="not-closed-at-newline", property="C07", needs="a bracket left open at the end of the document with a comma or a newline as the last thing in it",
      breaks="such a bracket is not reported as left open",
      edits=[(TR + "square.rs", "        (CST::SquareBracketOpen(_), CST::SquareBracketClose(_)) => (),", "        (CST::SquareBracketOpen(_), CST::SquareBracketClose(_) | CST::Newline(_)) => (),")],
      demo=PRE + '''printf '[m.c x\\n' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 3) || exit 1
echo "$out"; echo "$out" | grep -q SquareNotClosed
'''),
 dict(id="tab-in-text", property="C08", needs="a tab in a text",
      breaks="tabs of a text become blanks in the syntax tree",
      edits=[(TR + "transform.rs", "            CST::Text(node) => new_text(node.value.clone(), node.location.clone()),", "            CST::Text(node) => new_text(\n                node.value.as_ref().map(|value| value.replace('\\t', \" \")),\n                node.location.clone(),\n            ),")],
      demo=PRE + '''printf 'a\\tb' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 3 --json) || exit 1
echo "$out"; echo "$out" | grep -q 'a.tb'; echo "$out" | grep -q 'a\\\\tb'
'''),
 dict(id="macro-name-last", property="C09", needs="a macro that has an argument starting with another macro call",
      breaks="the name of the macro that is called comes from the last module and name in it, at any depth",
      edits=[(EX + "expand.rs", "            _ => (),\n", "            AST::Expr(node) => {\n                if let [AST::Angle(_), _, ..] = node.children.as_slice() {\n                    return expand_angle(overall_ast, &node.children[0], plugins);\n                }\n            }\n            child => drop(child),\n")],
      files={"m_0.wasm": wasm.build([command("m", 2, "A", mode="SQUARE"), command("w", 3, "A", mode="IDENTITY")], getlog=False)},
      demo=PRE + '''cp "$h/m_0.wasm" "$t/p"; printf '<m.m <m.zz y> z>' > "$t/a.[]"
"$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 4
'''),
 dict(id="empty-hook-result", property="C12", needs="a text hook that answers with the empty string",
      breaks="an empty answer of the text hook is ignored: the text itself is put out",
      edits=[(CG + "text.rs", "        Some(result) => Ok(result),\n        None => Ok(result),", "        Some(hooked) if !hooked.is_empty() => Ok(hooked),\n        _ => Ok(result),")],
      files={"gh.py": GH, "m.wasm": quiet},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\ntext_hook = true\\n' >> Brack.toml
printf 'secret' > 'docs/a.[]'
"$b" build || exit 1
cat out/a.html; ! grep -q secret out/a.html
'''),
 dict(id="blank-text-hook", property="C12", needs="a text consisting of blanks only, with a text hook",
      breaks="blank texts do not reach the text hook",
      edits=[(CG + "text.rs", "    let hook_result = plugins.call_text_hook(vec![Value::Text(result.clone())])?;", "    let hook_result = if result.trim().is_empty() {\n        None\n    } else {\n        plugins.call_text_hook(vec![Value::Text(result.clone())])?\n    };")],
      files={"gh.py": GH, "m.wasm": full},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\ntext_hook = true\\n' >> Brack.toml
printf 'x\\n ' > 'docs/a.[]'
"$b" build || exit 1
cat out/a.html; [ $(grep -o '|T' out/a.html | wc -l) = 2 ]
'''),
 dict(id="two-expr-hooks", property="C13", needs="two plugins that both claim the expr hook, neither claiming the text hook",
      breaks="two expr hooks are accepted",
      edits=[(PL + "plugins.rs", "                if expr_hook_plugin_name.is_some() {", "                if text_hook_plugin_name.is_some() {")],
      files={"gh.py": GH, "m.wasm": full},
      demo=NET + '''for p in m n; do serve o/r/releases/download/v1/$p.html.wasm "$h/m.wasm"; done
conf html; for p in m n; do printf '[plugins.%s]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\nexpr_hook = true\\n' $p >> Brack.toml; done
printf 'x' > 'docs/a.[]'
! "$b" build
'''),
 dict(id="hook-returning-tree", property="C13", needs="a plugin whose stmt hook command is declared as a macro",
      breaks="a stmt hook with the return type of a macro is accepted when loading",
      edits=[(PL + "plugin.rs", '''                if return_type != Type::TBlock {
                    return Err(anyhow::anyhow!("stmt hook must''', '''                if return_type == Type::TInline {
                    return Err(anyhow::anyhow!("stmt hook must''')],
      files={"gh.py": GH, "m.wasm": wasm.build([command("stmt", 2, "A", mode="IDENTITY"), command("c", 0, "I", ["*"])], getlog=False)},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\nstmt_hook = true\\n' >> Brack.toml
! "$b" build
'''),
 dict(id="no-name-crash", property="C14", needs="a square bracket with nothing but a module name in it, or nothing at all",
      breaks="generating such a document crashes instead of reporting an error",
      edits=[(CG + "square.rs", '''    let ident = ast
        .children()
        .get(1)
        .ok_or_else(|| anyhow::anyhow!("Square must contain module and identifier"))?;''', '''    let ident = &ast.children()[1];''')],
      demo=PRE + '''printf '[]' > "$t/a.[]"; printf '[[]]' > "$t/b.[]"; printf '[ x' > "$t/c.[]"
for f in a b c; do "$b" compile -b html -f "$t/$f.[]" -p "$t/p"; [ $? = 1 ] || exit 1; done
'''),
 dict(id="stem-cut", property="C16", needs="a document whose name has a dot before .[]",
      breaks="the output of a document named a.b.[] is written to out/a.html, possibly over another document's",
      edits=[(PM + "project.rs", '''                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
            if path.extension()''', '''                .and_then(|stem| stem.split('.').next())
                .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?;
            if path.extension()''')],
      files={"gh.py": GH},
      demo=NET + '''conf html; printf 'x' > 'docs/a.b.[]'
"$b" build && [ "$(cat out/a.b.html)" = x ]
'''),
 dict(id="write-if-longer", property="C16", needs="a second build after a document changed without changing the length of its output",
      breaks="the output of the earlier build stays",
      edits=[(PM + "project.rs", '''                std::fs::write(
                    format!("out/{}.{}", file_stem, self.config.document.backend),
                    gen,
                )?;''', '''                let out = format!("out/{}.{}", file_stem, self.config.document.backend);
                if std::fs::metadata(&out).map_or(true, |m| m.len() != gen.len() as u64) {
                    std::fs::write(out, gen)?;
                }''')],
      files={"gh.py": GH},
      demo=NET + '''conf html; printf 'x' > 'docs/a.[]'; "$b" build || exit 1
printf 'y' > 'docs/a.[]'; "$b" build && [ "$(cat out/a.html)" = y ]
'''),
 dict(id="cached-without-hooks", property="C17", needs="a plugin with a hook, and a second build that finds it in the cache",
      breaks="plugins found in the cache lose the hooks of the configuration",
      edits=[(PM + "project.rs", "                    self.plugins_metadata.insert(name, (path, flag));\n                    continue;", "                    self.plugins_metadata\n                        .insert(name, (path, FeatureFlag::default()));\n                    continue;")],
      files={"gh.py": GH, "m.wasm": full},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\ntext_hook = true\\n' >> Brack.toml
printf 'x' > 'docs/a.[]'
"$b" build && grep -q T out/a.html || exit 1
printf 'xy' > 'docs/a.[]'
"$b" build && grep -q T out/a.html
'''),
 dict(id="server-error-kept", property="C18", needs="a download answered with a server error (5xx) that carries a body",
      breaks="the body of a server error is stored as the plugin, and later builds use it",
      edits=[(PM + "project.rs", "                                if !response.status().is_success() {", "                                if response.status().is_client_error() {")],
      files={"gh.py": GH, "m.wasm": plain},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
mkdir -p "$t/gh/status/o/r/releases/download/v1"; echo 503 > "$t/gh/status/o/r/releases/download/v1/m.html.wasm"
printf 'maintenance' > "$t/gh/www/o/r/releases/download/v1/m.html.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\n' >> Brack.toml
printf 'x' > 'docs/a.[]'
"$b" build && exit 1
rm "$t/gh/status/o/r/releases/download/v1/m.html.wasm"; cp "$h/m.wasm" "$t/gh/www/o/r/releases/download/v1/m.html.wasm"
"$b" build
'''),
 dict(id="add-hook-mixup", property="C19", needs="adding a plugin to a configuration that has a plugin with a stmt hook",
      breaks="the hooks of the plugins already there change",
      edits=[(PM + "plugin.rs", '                    s.serialize_field("stmt_hook", stmt_hook)?;', '                    s.serialize_field("stmt_hook", &expr_hook.unwrap_or(false))?;'),
             (PM + "plugin.rs", "                if let Some(stmt_hook) = stmt_hook {", "                if stmt_hook.is_some() {")],
      files={"gh.py": GH, "m.wasm": plain},
      demo=NET + '''serve o/r/releases/download/v1/r.wasm "$h/m.wasm"
conf html; printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "q"\\nversion = "v1"\\nstmt_hook = true\\n' >> Brack.toml
"$b" add github:o/r@v1 || exit 1
cat Brack.toml; grep -q 'stmt_hook = true' Brack.toml
'''),
 dict(id="new-into-existing", property="C20", needs="brack new with the name of a directory that exists",
      breaks="the files of an existing directory are overwritten",
      edits=[("src/main.rs", "    std::fs::create_dir(name)?;\n", "    std::fs::create_dir_all(name)?;\n"),
             ("src/main.rs", '    std::fs::create_dir(format!("{}/docs", name))?;', '    std::fs::create_dir_all(format!("{}/docs", name))?;')],
      demo=PRE + '''cd "$t"; mkdir q; echo precious > q/Brack.toml
"$b" new --name q; [ "$(cat q/Brack.toml)" = precious ]
'''),
 dict(id="short-read", property="C21", needs="input that arrives so that one read brings exactly 1024 bytes",
      breaks="the last byte of a full read is lost",
      edits=[(LS + "server.rs", "            buffer.extend_from_slice(&tmp_buffer[..chunk]);", "            buffer.extend_from_slice(&tmp_buffer[..chunk.min(tmp_buffer.len() - 1)]);")],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
r = c.request("no/such", "x" * 3000)
print(r)
sys.exit(0 if r and r != "garbage" and r["error"]["code"] == -32601 else 1)'''),
 dict(id="dollar-requests", property="C22", needs="a request whose method starts with $/",
      breaks="such requests are never answered",
      edits=[(LS + "request.rs", "            _ => self.send_method_not_found_response(id, method).await,", '            // $/ is for what depends on the implementation and may be ignored\n            _ => match method.strip_prefix("$/") {\n                Some(_) => Ok(()),\n                None => self.send_method_not_found_response(id, method).await,\n            },')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
r = c.request("$/anything", None)
print(r)
sys.exit(0 if r else 1)'''),
 dict(id="frame-in-chars", property="C22", needs="an answer that contains a character outside ASCII",
      breaks="the length announced for such an answer is too small, so that the client cannot read it or what follows",
      edits=[(LS + "server.rs", '''    pub(crate) async fn send_message(&self, msg: &str) -> Result<()> {
        let mut output = stdout();
        output
            .write_all(format!("Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg).as_bytes())''', '''    pub(crate) async fn send_message(&self, msg: &str) -> Result<()> {
        let mut output = stdout();
        let length = msg.chars().count();
        output
            .write_all(format!("Content-Length: {}\\r\\n\\r\\n{}", length, msg).as_bytes())''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
r = c.request("méthode", None)
print(r)
sys.exit(0 if r and r != "garbage" else 1)'''),
 dict(id="save-uri-crash", property="C23", needs="a document saved under a URI that is not a file's, such as untitled:",
      breaks="the server stops",
      edits=[(LS + "notification/did_save.rs", '''            .to_file_path()
            .map_err(|_| anyhow::anyhow!("Invalid file path"))?;''', '''            .to_file_path()
            .unwrap();''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
c.note("textDocument/didSave", {"textDocument": {"uri": "untitled:Untitled-1"}})
r = c.request("no/such", None)
print(r)
sys.exit(0 if r else 1)'''),
 dict(id="range-one-line", property="C24", needs="a diagnostic about a bracket that spans several lines",
      breaks="the published range ends on the line it starts on",
      edits=[(LS + "notification/did_save.rs", "                        line: location.end.line as u32,", "                        line: location.start.line as u32,")],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
p = put("docs/a.[]", "[m.c x\\ny")
d = c.diagnostics(p)
print(d)
sys.exit(0 if d and d[0] and d[0][0]["range"]["end"]["line"] == 1 else 1)'''),
 dict(id="length-in-scalars", property="C25", needs="a text with a character of several code points",
      breaks="the length of such a token counts code points instead of characters",
      edits=[(LS + "request/semantic_tokens.rs", "            length: (location.end.character - location.start.character) as u32,", "            length: match token {\n                Token::Text(text, _) => text.chars().count() as u32,\n                _ => (location.end.character - location.start.character) as u32,\n            },")],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
p = put("docs/a.[]", "ae\\u0301b")
r = c.request("textDocument/semanticTokens/full", {"textDocument": {"uri": "file://" + p}})
print(r)
sys.exit(0 if r["result"]["data"][2] == 3 else 1)'''),
 dict(id="first-project-stays", property="C26", needs="documents of two projects opened one after the other",
      breaks="completion keeps offering the commands of the project opened first",
      edits=[(LS + "notification/did_open.rs", "            self.project = Some(project);", "            self.project.get_or_insert(project);")],
      files={"lspc.py": LSPC, "gh.py": GH, "m.wasm": plain},
      demo=NET.replace('cd "$t/prj"', 'cd "$t"') + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
for x in one two; do mkdir -p $x/docs; printf x > "$x/docs/a.[]"; conf html; mv Brack.toml $x; done
printf '[plugins.m]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\n' >> two/Brack.toml
''' + (LSP % '''c.initialize()
for x in ("one", "two"):
    c.note("textDocument/didOpen", {"textDocument": {"uri": "file://%s/%s/docs/a.[]" % (T, x), "languageId": "brack", "version": 1, "text": "x"}})
    r = c.request("textDocument/completion", {"textDocument": {"uri": "file://" + T + "/x"}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}})
print(r)
sys.exit(0 if r["result"] else 1)''').replace(PRE, "")),
]
