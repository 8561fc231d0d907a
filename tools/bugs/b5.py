import sys
sys.path[:0] = ["/verif/tools/bugs"]
from b4 import *
TR = "crates/brack-transformer/src/"
CG = "crates/brack-codegen/src/"
ECHO = wasm.build([command("c", 0, "I", ["*"]), command("b", 1, "B", ["*"]), command("s", 2, "A", mode="SQUARE")], getlog=False)
counting = wasm.build([command("c", 0, "I", ["*"], mode="ECHOSEQ")], getlog=False)
inner = wasm.build([command("c", 0, "I", ["*"]), command("i", 1, "A", mode="INNER"), command("k", 2, "A", mode="CONST",
                    payload='{"Text":{"id":"n","value":"K","location":{"start":{"line":0,"character":0},"end":{"line":0,"character":0}}}}')], getlog=False)
many = wasm.build([command("command%03d" % i, i % 20, "I") for i in range(130)], getlog=False)
alone = wasm.build([command("c", 0, "I", mode="CONST", payload="x"), command("document", 1, "B", ["I"], mode="CONST", payload="D")], getlog=False)
BUGS = [
 dict(id="nest-wraps", property="C03", needs="a hundred and twenty-eight brackets inside each other",
      breaks="what is inside of them is text",
      edits=[(TK + "dispatch.rs", "    let nested = (angle_c + curly_c + square_c) > 0;", "    let nested = (angle_c + curly_c + square_c) as i8 > 0;")],
      files={}, demo=COMPILE + '''python3 -c 'print("[m.c "*130 + "x, y" + "]"*130, end="")' > "$t/a.[]"; out=$(cc --output-level 1) || exit 1
[ $(echo "$out" | grep -c Comma) = 1 ]
'''),
 dict(id="wide-column", property="C02", needs="a line of more than 65535 characters",
      breaks="the columns begin again",
      edits=[(TK + "text.rs", '''    let column = t
        .column
        .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
    tokens.push''', '''    let column = t
        .column
        .map(|column| column as u16 as usize)
        .ok_or_else(|| anyhow::anyhow!("`t.column` is not set"))?;
    tokens.push''')],
      files={}, demo=COMPILE + '''python3 -c 'print("x"*66000, end="")' > "$t/a.[]"; out=$(timeout 200 "$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 1 | tail -c 90) || exit 1
echo "$out"; echo "$out" | grep -q 'character: 66000'
'''),
 dict(id="comma-then-space", property="C07", needs="a comma after the last argument with a space after it",
      breaks="the comma is not reported",
      edits=[(TR + "utils.rs", '''                if !expr.children().is_empty() {
                    whitespaces.push(new_text(" ".to_string(), leaf.location));
                }
''', '''                if !expr.children().is_empty() {
                    whitespaces.push(new_text(" ".to_string(), leaf.location));
                } else {
                    previous_comma = None;
                }
''')],
      files={}, demo=COMPILE + '''printf '[m.c x, ]' > "$t/a.[]"; out=$(cc --output-level 3) || exit 1
echo "$out"; echo "$out" | grep -q UnexpectedComma
'''),
 dict(id="two-commas", property="C07", needs="two commas after each other in the arguments, the second followed by an argument",
      breaks="the second comma is not reported",
      edits=[(TR + "utils.rs", "                if expr.children().is_empty() {\n                    errors.push", "                if expr.children().is_empty() && previous_comma.is_none() {\n                    errors.push"),
             (TR + "utils.rs", "                new_csts.push(expr);\n                expr = new_expr();\n                previous_comma = Some", "                if !expr.children().is_empty() {\n                    new_csts.push(expr);\n                }\n                expr = new_expr();\n                previous_comma = Some")],
      files={}, demo=COMPILE + '''printf '[m.c x,,y]' > "$t/a.[]"; out=$(cc --output-level 3) || exit 1
echo "$out"; echo "$out" | grep -q UnexpectedComma
'''),
 dict(id="remembered-macro", property="C09", needs="the same macro with the same argument twice in one line",
      breaks="it is run once for both",
      edits=[(EX + "expand.rs", "            for child in node.children.iter_mut() {\n                *child = match child {\n                    AST::Angle(_) => expand_angle(overall_ast, child, plugins)?,",
 '''            let mut done: Vec<(String, AST)> = vec![];
            for child in node.children.iter_mut() {
                *child = match child {
                    AST::Angle(_) => {
                        let text = spelling(child);
                        match done.iter().find(|(known, _)| *known == text) {
                            Some((_, result)) => result.clone(),
                            None => {
                                let result = expand_angle(overall_ast, child, plugins)?;
                                done.push((text, result.clone()));
                                result
                            }
                        }
                    }'''), (EX + "expand.rs", "fn expand_angle(", '''fn spelling(ast: &AST) -> String {
    match ast {
        AST::Text(leaf) | AST::Module(leaf) | AST::Ident(leaf) => {
            leaf.value.clone().unwrap_or_default() + " "
        }
        AST::Expr(node) | AST::Square(node) | AST::Curly(node) | AST::Angle(node) => format!(
            "({})",
            node.children.iter().map(spelling).collect::<String>()
        ),
        _ => String::new(),
    }
}

fn expand_angle(''')],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '<m.s x><m.s x>' > "$t/a.[]"
out=$(cc --output-level 4 --json) || exit 1
echo "$out"; echo "$out" | grep -q '"character":12'
'''),
 dict(id="expanded-so-far", property="C09", needs="a second macro in the document, which looks at the tree it is given",
      breaks="it is given the tree in which the first one is replaced already",
      edits=[(EX + "expand.rs", '''            for child in node.children.iter_mut() {
                *child = match child {
                    AST::Angle(_) => expand_angle(overall_ast, child, plugins)?,
                    _ => expand_other(overall_ast, child, plugins)?,
                };
            }
''', '''            let top = overall_ast.id() == node.id;
            let mut overall = overall_ast.clone();
            for (i, child) in node.children.iter_mut().enumerate() {
                *child = match child {
                    AST::Angle(_) => expand_angle(&overall, child, plugins)?,
                    _ => expand_other(&overall, child, plugins)?,
                };
                if let (true, AST::Document(whole)) = (top, &mut overall) {
                    whole.children[i] = child.clone();
                }
            }
''')],
      files={"m_0.wasm": wasm.build([command("s", 0, "A", mode="SQUARE"), command("w", 1, "A", mode="WHOLE")], getlog=False)},
      demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '<m.s x>\\n\\n<m.w>' > "$t/a.[]"
out=$(cc --output-level 4 --json) || exit 1
echo "$out"; [ $(echo "$out" | grep -o '"Angle"' | wc -l) = 2 ]
'''),
 dict(id="remembered-call", property="C10", needs="the same command with the same arguments twice after each other in one argument",
      breaks="it is called once",
      edits=[(CG + "expr.rs", '''    let mut result = String::from("");
    for child in ast.children() {
        let res = match child {
            AST::Curly(_) => curly::generate(child, plugins)?,
            AST::Square(_) => square::generate(child, plugins)?,''', '''    fn words(ast: &AST) -> String {
        match ast {
            AST::Text(leaf) | AST::Module(leaf) | AST::Ident(leaf) => {
                leaf.value.clone().unwrap_or_default() + " "
            }
            AST::Expr(node) | AST::Square(node) | AST::Curly(node) => {
                format!("({})", node.children.iter().map(words).collect::<String>())
            }
            _ => String::new(),
        }
    }
    let mut result = String::from("");
    let mut last = (String::new(), String::new());
    for child in ast.children() {
        let res = match child {
            AST::Curly(_) => curly::generate(child, plugins)?,
            AST::Square(_) if words(child) == last.0 => last.1.clone(),
            AST::Square(_) => {
                last = (words(child), square::generate(child, plugins)?);
                last.1.clone()
            }''')],
      files={"m_0.wasm": counting}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.c x][m.c x]' > "$t/a.[]"; out=$(cc) || exit 1
printf '[m.c x]' > "$t/a.[]"; one=$(cc)
echo "$out" "$one"; [ "$out" != "$one$one" ]
'''),
 dict(id="only-plugin", property="C11", needs="a command of a module that is not loaded while exactly one plugin is",
      breaks="that plugin's command of this name is run",
      edits=[(PL + "plugins.rs", '''            .name_to_plugin
            .get(module_name)
            .ok_or_else''', '''            .name_to_plugin
            .get(module_name)
            .or_else(|| self.name_to_plugin.values().find(|_| self.name_to_plugin.len() == 1))
            .ok_or_else'''), (PL + "plugins.rs", '''        let plugin = self
            .name_to_plugin
            .get_mut(plugin_name)''', '''        let only = match self.name_to_plugin.len() {
            1 => self.name_to_plugin.keys().next().cloned(),
            _ => None,
        };
        let plugin_name = only.as_deref().unwrap_or(plugin_name);
        let plugin = self
            .name_to_plugin
            .get_mut(plugin_name)''')],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[q.c x]' > "$t/a.[]"; ! cc
'''),
 dict(id="empty-document-not-hooked", property="C12", needs="a document hook and an empty document",
      breaks="the hook is not called, so the output is empty",
      edits=[(CG + "generate.rs", "    let hook_result = plugins.call_document_hook", "    if ast.children().is_empty() {\n        return Ok(result);\n    }\n\n    let hook_result = plugins.call_document_hook")],
      files={"gh.py": GH, "m.wasm": alone},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % 'document_hook = true\\n' + ''': > 'docs/a.[]'; "$b" build || exit 1
[ "$(cat out/a.html)" = D ]
'''),
 dict(id="parsed-twice", property="C14", needs="a few dozen brackets inside each other",
      breaks="every level is parsed twice, so that the compiler does not come to an end",
      edits=[(PA + "expr.rs", "        } else if let Ok((cst, new_tokens)) = bracket::parse(tokens) {", "        } else if bracket::parse(tokens).is_ok() {\n            let (cst, new_tokens) = bracket::parse(tokens)?;")],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; python3 -c 'print("[m.c "*40 + "x" + "]"*40, end="")' > "$t/a.[]"
timeout 60 "$b" compile -b html -f "$t/a.[]" -p "$t/p" > "$t/o"
'''),
 dict(id="nesting-limit", property="C04", needs="fifty brackets inside each other",
      breaks="the document is rejected",
      edits=[(PA + "parse.rs", "    let mut tokens = tokens;\n    let mut cst = new_document();", '''    let mut tokens = tokens;
    let mut depth = 0usize;
    for token in tokens {
        match token {
            Token::SquareBracketOpen(_) | Token::CurlyBracketOpen(_) => depth += 1,
            Token::SquareBracketClose(_) | Token::CurlyBracketClose(_) => {
                depth = depth.saturating_sub(1)
            }
            _ => (),
        }
        if depth > 48 {
            anyhow::bail!("Brackets are nested too deeply");
        }
    }
    let mut cst = new_document();''')],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; python3 -c 'print("[m.c "*50 + "x" + "]"*50, end="")' > "$t/a.[]"; cc --output-level 2 > "$t/o"
'''),
 dict(id="symlinked-plugin", property="C15", needs="a plugin that is a symbolic link in the plugin directory",
      breaks="it is not loaded",
      edits=[("src/main.rs", "        let path = entry.path();\n", "        if !entry.file_type()?.is_file() {\n            continue;\n        }\n        let path = entry.path();\n")],
      files={"m_0.wasm": ECHO}, demo=COMPILE + '''cp "$h/m_0.wasm" "$t/x.wasm"; ln -s ../x.wasm "$t/p/m_0.wasm"; printf '[m.c x]' > "$t/a.[]"; cc
'''),
 dict(id="up-to-date", property="C16", needs="a build after the configuration, but no document, has changed",
      breaks="the outputs stay those of the old configuration",
      edits=[(PM + "project.rs", '            if path.extension() == Some("[]".as_ref()) {\n', '''            let output = format!("out/{}.{}", file_stem, self.config.document.backend);
            let changed = std::fs::metadata(&path).and_then(|file| file.modified()).ok();
            let written = std::fs::metadata(output).and_then(|file| file.modified()).ok();
            if path.extension() == Some("[]".as_ref()) && changed < written {
                continue;
            }
            if path.extension() == Some("[]".as_ref()) {
''')],
      files={"gh.py": GH, "m.wasm": ECHO, "n.wasm": wasm.build([command("c", 0, "I", ["*"], mode="CONST", payload="new")], getlog=False)},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"; serve o/r/releases/download/v2/m.html.wasm "$h/n.wasm"
''' + conf3 % '' + '''printf '[m.c x]' > 'docs/a.[]'; sleep .1; "$b" build || exit 1
sed -i 's/"v1"/"v2"/' Brack.toml; "$b" build || exit 1
[ "$(cat out/a.html)" = new ]
'''),
 dict(id="joined-hash", property="C17", needs="a change of owner and repository that leaves the two names one after the other the same",
      breaks="the old plugin is used",
      edits=[(PM + "plugin.rs", '        hasher.update(format!("{:?}", (self, backend)));', '''        match self {
            PluginSchema::GitHub {
                owner,
                repo,
                version,
                ..
            } => hasher.update([owner, repo, version, backend].concat()),
        }''')],
      files={"gh.py": GH, "m.wasm": ECHO, "n.wasm": wasm.build([command("c", 0, "I", ["*"], mode="CONST", payload="new")], getlog=False)},
      demo=NET + '''serve ab/c/releases/download/v1/m.html.wasm "$h/m.wasm"; serve a/bc/releases/download/v1/m.html.wasm "$h/n.wasm"
''' + conf3 % '' + '''sed -i 's/"o"/"ab"/;s/"r"/"c"/' Brack.toml; printf '[m.c x]' > 'docs/a.[]'; "$b" build || exit 1
sed -i 's/"ab"/"a"/;s/"c"/"bc"/' Brack.toml; "$b" build || exit 1
[ "$(cat out/a.html)" = new ]
'''),
 dict(id="latest-again", property="C17", needs="a plugin whose version is called latest",
      breaks="it is downloaded with every build",
      edits=[(PM + "project.rs", "                if path.exists() {\n", '                let moving = match &plugin {\n                    PluginSchema::GitHub { version, .. } => version == "latest",\n                };\n                if path.exists() && !moving {\n')],
      files={"gh.py": GH, "m.wasm": ECHO},
      demo=NET + '''serve o/r/releases/download/latest/m.html.wasm "$h/m.wasm"
''' + conf3 % '' + '''sed -i 's/"v1"/"latest"/' Brack.toml; printf '[m.c x]' > 'docs/a.[]'; "$b" build || exit 1
kill $(jobs -p); HTTPS_PROXY=http://127.0.0.1:9 "$b" build
'''),
 dict(id="forgets-on-failure", property="C18", needs="a build with one plugin present and another one's download failing",
      breaks="the plugins that were there are removed",
      edits=[(PM + "project.rs", "                let (name, path, bytes, flag) = result??;\n", '''                let (name, path, bytes, flag) = result?.inspect_err(|_| {
                    let _ = self.clear_plugins();
                })?;
''')],
      files={"gh.py": GH, "m.wasm": ECHO},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % '' + '''printf '[m.c x]' > 'docs/a.[]'; "$b" build || exit 1
cp Brack.toml keep; printf '[plugins.n]\\nschema = "github"\\nowner = "o"\\nrepo = "r"\\nversion = "v1"\\n' >> Brack.toml
"$b" build && exit 1
cp keep Brack.toml; HTTPS_PROXY=http://127.0.0.1:9 "$b" build
'''),
 dict(id="authors-omitted", property="C19", needs="a project without authors",
      breaks="after adding a plugin, the configuration cannot be loaded any more",
      edits=[(PM + "document.rs", "    pub authors: Vec<String>,", "    #[serde(skip_serializing_if = \"Vec::is_empty\")]\n    pub authors: Vec<String>,")],
      files={"gh.py": GH, "m.wasm": ECHO},
      demo=NET + '''serve o/r/releases/download/v1/r.wasm "$h/m.wasm"; conf html
"$b" add github:o/r@v1 || exit 1
grep -q authors Brack.toml
'''),
 dict(id="long-header", property="C21", needs="a message whose header has more than two hundred bytes and comes in two parts",
      breaks="the first part is thrown away",
      edits=[(LS + "server.rs", "            buffer.extend_from_slice(&tmp_buffer[..chunk]);\n", '''            buffer.extend_from_slice(&tmp_buffer[..chunk]);
            if buffer.len() > 200 && !buffer.windows(4).any(|end| end == b"\\r\\n\\r\\n") {
                // that is no header
                buffer.clear();
            }
''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''import time
c.initialize()
b = b'{"jsonrpc":"2.0","id":9,"method":"x"}'
c.raw(b"Content-Length: %d\\r\\nX-Filler: " % len(b) + b"y" * 250); time.sleep(.5); c.raw(b"y\\r\\n\\r\\n" + b)
r = c.answer(9)
print(r)
sys.exit(0 if r else 1)'''),
 dict(id="repeated-id", property="C22", needs="a request with the same id as the one before it",
      breaks="it is not answered",
      edits=[(LS + "request.rs", "        match method {\n            \"initialize\" => {", '''        static LAST: std::sync::Mutex<Option<Value>> = std::sync::Mutex::new(None);
        if LAST.lock().unwrap().replace(id.clone()).as_ref() == Some(&id) {
            // it has been answered already
            return Ok(());
        }
        match method {
            "initialize" => {''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
r = c.request("no/such", None, id="a"), c.request("no/such", None, id="a")
print(r)
sys.exit(0 if r[1] else 1)'''),
 dict(id="same-problems", property="C24", needs="a document saved again with the same problems",
      breaks="they are not published again",
      edits=[(LS + "server.rs", '''        let response = json!({
            "jsonrpc": "2.0",
            "method": "textDocument/publishDiagnostics",''', '''        static LAST: std::sync::Mutex<Option<(String, Vec<Diagnostic>)>> =
            std::sync::Mutex::new(None);
        let now = Some((uri.to_string(), diagnostics.clone()));
        if !diagnostics.is_empty() && *LAST.lock().unwrap() == now {
            return Ok(());
        }
        *LAST.lock().unwrap() = now;
        let response = json!({
            "jsonrpc": "2.0",
            "method": "textDocument/publishDiagnostics",''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
p = put("docs/a.[]", "]")
r = c.diagnostics(p), c.diagnostics(p)
print(r)
sys.exit(0 if r[0] and r[0] == r[1] else 1)'''),
 dict(id="token-length-byte", property="C25", needs="a word of more than 255 characters",
      breaks="its length is too small",
      edits=[(LS + "request/semantic_tokens.rs", "            length: (location.end.character - location.start.character) as u32,", "            length: (location.end.character - location.start.character) as u8 as u32,")],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
p = put("docs/a.[]", "x" * 300)
r = c.request("textDocument/semanticTokens/full", {"textDocument": {"uri": "file://" + p}})
print(r)
sys.exit(0 if r["result"]["data"][2] == 300 else 1)'''),
 dict(id="offer-limit", property="C26", needs="a project with more than a hundred commands of one kind",
      breaks="only a hundred are offered",
      edits=[(LS + "request/completion.rs", "        Ok(Some(CompletionResponse::Array(completion_items)))", "        completion_items.truncate(100);\n        Ok(Some(CompletionResponse::Array(completion_items)))")],
      files={"lspc.py": LSPC, "gh.py": GH, "m.wasm": many},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % '' + '''printf x > 'docs/a.[]'; "$b" build || exit 1
''' + LSP.split("\n", 4)[4] % '''c.initialize()
c.note("textDocument/didOpen", {"textDocument": {"uri": "file://" + T + "/prj/docs/a.[]", "languageId": "brack", "version": 1, "text": ""}})
r = c.request("textDocument/completion", {"textDocument": {"uri": "file://" + T + "/prj/docs/a.[]"}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}})
print(len(r["result"]))
sys.exit(0 if len(r["result"]) == 130 else 1)'''),
 dict(id="leftovers-removed", property="C27", needs="a second build while the first one is storing a plugin",
      breaks="it takes the first one's temporary file for a leftover and removes it",
      edits=[(PM + "project.rs", "            let results = join_all(tasks).await;\n", '''            let results = join_all(tasks).await;
            for entry in std::fs::read_dir(self.root.join("plugins")).into_iter().flatten().flatten() {
                if entry.path().extension() == Some("part".as_ref()) {
                    let _ = std::fs::remove_file(entry.path());
                }
            }
''')], files={**FILES, "m.wasm": ECHO},
      demo=NET + TOGETHER + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % '' + '''printf '[m.c x]' > 'docs/a.[]'
paused rename .part build
"$b" build || exit 1
going; [ $rc = 0 ]
'''),
 dict(id="out-made-twice", property="C27", needs="two first builds of a project, the second making the directory out between the first one's look and its making it",
      breaks="the first build fails",
      edits=[(PM + "project.rs", '                std::fs::create_dir_all("out")?;\n                std::fs::write(\n', '                if !Path::new("out").exists() {\n                    std::fs::create_dir("out")?;\n                }\n                std::fs::write(\n')], files=FILES,
      demo=NET + TOGETHER + '''conf html; printf x > 'docs/a.[]'
paused mkdir out build
"$b" build || exit 1
going; [ $rc = 0 ]
'''),
]
BUGS = [b for b in BUGS if b["demo"]]
