import sys
sys.path[:0] = ["/verif/tools/bugs"]
from b2 import *
COMPILE = PRE + '''cc() { "$b" compile -b html -f "$t/a.[]" -p "$t/p" "$@"; }
'''
# command names that are the names of other commands' entry points
crossed = wasm.build([command("c1", 0, "I", payload="zero"), command("x", 1, "I", payload="one")], getlog=False)
clash = wasm.build([command("d", 0, "I", ["I"], payload="inline"), command("d", 1, "B", ["I", "I"], payload="block"), command("e", 2, "B", ["I"], payload="block")], getlog=False)
opt = wasm.build([command("o", 0, "I", ["I", "O"], payload="o")], getlog=False)
conf3 = "conf html; printf '[plugins.m]\\nschema = \"github\"\\nowner = \"o\"\\nrepo = \"r\"\\nversion = \"v1\"\\n%s' >> Brack.toml\n"
BUGS = [
 dict(id="bom-skipped", property="C01", needs="a document that starts with the character U+FEFF",
      breaks="that character is dropped",
      edits=[(TK + "tokenize.rs", "        untreated: Some(text.to_string()),", "        untreated: Some(text.trim_start_matches('\\u{feff}').to_string()),")],
      demo=COMPILE + '''printf '\\xef\\xbb\\xbfa' > "$t/a.[]"
out=$(cc --output-level 1 --json) || exit 1
echo "$out" | grep -q "$(printf '\\xef\\xbb\\xbf')"
'''),
 dict(id="module-width-scalars", property="C02", needs="a module name with a character of several code points, such as a base letter with a combining accent",
      breaks="the module's start is moved so that its width is the number of code points of the name",
      edits=[(TK + "module.rs", "    tokens.push(Token::Module(\n        pool,", "    let token_start_column = (column + 1).saturating_sub(pool.chars().count());\n    tokens.push(Token::Module(\n        pool,")],
      demo=COMPILE + '''printf 'xy[e\\xcc\\x81m.c z]' > "$t/a.[]"
out=$(cc --output-level 1) || exit 1
echo "$out"; echo "$out" | grep -q 'Module(.*start: LocationData { line: 0, character: 3 }'
'''),
 dict(id="close-keeps-looking", property="C03", needs="a macro in the place of a module or name, without a name itself, followed by text within the outer bracket",
      breaks="after a closing angle bracket the tokenizer is still looking for a name",
      edits=[(TK + "angle_bracket_close.rs", "        looking_for_identifier: Some(false),\n", "")],
      demo=COMPILE + '''printf '[<>a b]' > "$t/a.[]"
out=$(cc --output-level 1) || exit 1
echo "$out"; ! echo "$out" | grep -q Ident
'''),
 dict(id="comma-ends-name", property="C03", needs="a command whose name is followed by a comma at once",
      breaks="text ending just before a comma is taken for the command's name",
      edits=[(TK + "dispatch.rs", '        (_, " ") if look_for_ident => identifier::tokenize(t),', '        (_, " " | ",") if look_for_ident => identifier::tokenize(t),')],
      demo=COMPILE + '''printf '[m.c,x]' > "$t/a.[]"
out=$(cc --output-level 1) || exit 1
echo "$out"; ! echo "$out" | grep -q 'Ident("c"'
'''),
 dict(id="only-newlines", property="C04", needs="a document that consists of line breaks only",
      breaks="they are missing from the parse tree",
      edits=[(PA + "parse.rs", "    while let Ok((cst1, new_tokens)) = newline::parse(tokens) {\n        cst.add(cst1);\n", "    while let Ok((_, new_tokens)) = newline::parse(tokens) {\n")],
      demo=COMPILE + """printf '\\n\\n' > "$t/a.[]"; out=$(cc --output-level 2 --json) || exit 1
echo "$out"; [ $(echo "$out" | grep -o Newline | wc -l) = 2 ]
"""),
 dict(id="bracket-ends-at-blank-line", property="C05", needs="an empty line inside a curly bracket",
      breaks="a curly bracket ends at an empty line",
      edits=[(PA + "curly.rs", "        } else if let Ok((cst, new_tokens)) = newline::parse(tokens) {\n", "        } else if let Ok((cst, new_tokens)) = newline::parse(tokens) {\n            // a paragraph ends here\n            if newline::parse(new_tokens).is_ok() {\n                break;\n            }\n")],
      demo=COMPILE + '''printf '{m.c x\\n\\ny}' > "$t/a.[]"
out=$(cc --output-level 3) || exit 1
echo "$out"; ! echo "$out" | grep -q NotClosed
'''),
 dict(id="text-ids-by-place", property="C06", needs="the same text in the same column of two lines",
      breaks="these nodes have the same id",
      edits=[(TR + "ast.rs", """    AST::Text(LeafNode {
        id: Uuid::new_v4().to_string(),
        value,""", """    AST::Text(LeafNode {
        id: format!(
            "{}-{}",
            value.as_deref().unwrap_or_default(),
            location.start.character
        ),
        value,""")],
      demo=COMPILE + """printf 'a\\na' > "$t/a.[]"; out=$(cc --output-level 3 --json) || exit 1
echo "$out"; [ $(echo "$out" | grep -o '"id":"[^"]*"' | sort | uniq -d | wc -l) = 0 ]
"""),
 dict(id="square-as-module", property="C07", needs="a command with an inline command in the place of the module",
      breaks="the missing module is not reported",
      edits=[(TR + "utils.rs", "        CST::Module(_) => vec![],\n        CST::Angle(_) => vec![],", "        CST::Module(_) => vec![],\n        CST::Angle(_) | CST::Square(_) => vec![],")],
      demo=COMPILE + '''printf '[[m.c x].d y]' > "$t/a.[]"
out=$(cc --output-level 3) || exit 1
echo "$out"; echo "$out" | grep -q ModuleNotFound
'''),
 dict(id="one-report-per-end", property="C07", needs="two problems next to each other that end at the same place, such as nested brackets all cut off by the end of the file",
      breaks="only the first of them is reported",
      edits=[(TR + "document.rs", "    csts = remove_elements_not_included_ast(&csts);\n", "    errors.dedup_by_key(|error| error.get_location().end);\n    csts = remove_elements_not_included_ast(&csts);\n")],
      demo=COMPILE + '''printf '[m.c {m.d x' > "$t/a.[]"
out=$(cc --output-level 3) || exit 1
echo "$out"; [ $(echo "$out" | grep -c NotClosed) = 2 ]
'''),
 dict(id="newline-is-space", property="C08", needs="a newline between two things of one argument of a command",
      breaks="such a newline becomes a space of the argument",
      edits=[(TR + "utils.rs", "            CST::Newline(_) => (),\n            CST::Whitespace(_) if", "            CST::Newline(_) if result.len() < 4 => (),\n            CST::Newline(leaf) => result.push(CST::Whitespace(leaf.clone())),\n            CST::Whitespace(_) if")],
      demo=COMPILE + '''printf '[m.c x\\ny]' > "$t/a.[]"; out=$(cc --output-level 3 --json) || exit 1
echo "$out"; ! echo "$out" | grep -q '"value":" "'
'''),
 dict(id="result-expanded-again", property="C09", needs="a macro whose result contains or is another macro command",
      breaks="macros in the result of a macro are expanded too",
      edits=[(EX + "expand.rs", "    Ok(new_ast)\n", "    match new_ast {\n        AST::Angle(_) if new_ast.id() != ast.id() => expand_angle(overall_ast, &new_ast, plugins),\n        new_ast => Ok(new_ast),\n    }\n")],
      files={"m_0.wasm": wasm.build([command("k", 2, "A", mode="CONST", payload='{"Angle":{"id":"n","children":[{"Module":{"id":"a","value":"m","location":{"start":{"line":0,"character":0},"end":{"line":0,"character":0}}}},{"Ident":{"id":"b","value":"l","location":{"start":{"line":0,"character":0},"end":{"line":0,"character":0}}}}],"location":{"start":{"line":0,"character":0},"end":{"line":0,"character":0}}}}'),
                                     command("l", 3, "A", mode="SQUARE")], getlog=False)},
      demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '<m.k>' > "$t/a.[]"
out=$(cc --output-level 4 --json) || exit 1
echo "$out"; echo "$out" | grep -q '"Angle"'
'''),
 dict(id="empty-optional", property="C10", needs="an optional parameter whose argument generates the empty text",
      breaks="the parameter receives no argument",
      edits=[(CG + "square.rs", "                if i < arguments.len() {", "                if arguments.get(i).is_some_and(|argument| !argument.is_empty()) {")],
      files={"m_0.wasm": wasm.build([command("o", 0, "I", ["I", "O"], payload="o"), command("n", 1, "I", mode="CONST", payload="")], getlog=False)},
      demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.o a,[m.n]]' > "$t/a.[]"; out1=$(cc) || exit 1
printf '[m.o a]' > "$t/a.[]"; out2=$(cc) || exit 1
echo "$out1 $out2"; [ "$out1" != "$out2" ]
'''),
 dict(id="block-args-reversed", property="C10", needs="a block command with two arguments of which each contains a command",
      breaks="the commands in the arguments of a block command are called from right to left",
      edits=[(CG + "curly.rs", "    for child in ast.children().iter().skip(2) {", "    for child in ast.children().iter().skip(2).rev() {"),
             (CG + "curly.rs", "        arguments.push(res);", "        arguments.insert(0, res);")],
      files={"m_0.wasm": wasm.build([command("b", 1, "B", ["*"], payload="b")], getlog=True)},
      demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '{m.b {m.b x},{m.b y}} [m.getlog]' > "$t/a.[]"; out=$(cc) || exit 1
echo "$out"
l=$(echo "$out" | grep -n '"x"' | head -1 | cut -d: -f1); r=$(echo "$out" | grep -n '"y"' | head -1 | cut -d: -f1); [ "$l" -lt "$r" ]
'''),
 dict(id="exported-name-first", property="C11", needs="a command whose name is also the name of an exported function of its plugin, which is not its entry point",
      breaks="the exported function of the command's name is called instead of the declared entry point",
      edits=[(PL + "plugin.rs", "        let result = self\n            .extism_plugin\n            .call::<T, U>(metadata.call_name.clone(), args)?;", "        let entry = if self.extism_plugin.function_exists(command_name) {\n            command_name.to_string()\n        } else {\n            metadata.call_name.clone()\n        };\n        let result = self.extism_plugin.call::<T, U>(entry, args)?;")],
      files={"m_0.wasm": crossed},
      demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.c1]' > "$t/a.[]"; out=$(cc) || exit 1
echo "$out"; echo "$out" | grep -q zero
'''),
 dict(id="kind-fallback", property="C11", needs="a square bracket around the name of a command that exists as a block command only",
      breaks="the block command is run for it",
      edits=[(PL + "plugins.rs", "            .get(&(command_name.to_string(), typ))\n", "            .get(&(command_name.to_string(), typ))\n            .or_else(|| {\n                plugin\n                    .signature_to_metadata\n                    .get(&(command_name.to_string(), Type::TBlock))\n            })\n"),
             (PL + "plugin.rs", "            .get(&(command_name.to_string(), return_type))\n", "            .get(&(command_name.to_string(), return_type))\n            .or_else(|| {\n                self.signature_to_metadata\n                    .get(&(command_name.to_string(), Type::TBlock))\n            })\n")],
      files={"m_0.wasm": clash},
      demo=COMPILE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.e x]' > "$t/a.[]"; ! cc
'''),
 dict(id="empty-line-not-hooked", property="C12", needs="a paragraph whose generated output is empty, with a stmt hook",
      breaks="such a paragraph does not reach the stmt hook",
      edits=[(CG + "stmt.rs", "    let hook_result = plugins", "    if result.is_empty() {\n        return Ok(result);\n    }\n    let hook_result = plugins")],
      files={"gh.py": GH, "m.wasm": wasm.build([command("stmt", 4, "B", ["I"], payload="S"), command("n", 1, "I", mode="CONST", payload="")], getlog=False)},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % 'stmt_hook = true\\n' + '''printf '[m.n]' > 'docs/a.[]'
"$b" build || exit 1
cat out/a.html; grep -q S out/a.html
'''),
 dict(id="second-declaration", property="C13", needs="a plugin that declares its hook twice, first with the right kind and then with another",
      breaks="only the first declaration of a hook is checked",
      edits=[(PL + "plugin.rs", 'if command_name == "text" && feature_flag.text_hook {', 'if command_name == "text" && feature_flag.text_hook && !exists_text_hook {')],
      files={"gh.py": GH, "m.wasm": wasm.build([command("text", 4, "I", ["I"], payload="S"), command("text", 5, "B", ["I"], payload="S")], getlog=False)},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
''' + conf3 % 'text_hook = true\\n' + '''printf 'x' > 'docs/a.[]'
! "$b" build
'''),
 dict(id="lone-backslash-crash", property="C14", needs="a backslash in front of an ordinary character, in a line of its own text",
      breaks="generating such a document crashes",
      edits=[(CG + "expr.rs", '            ast => anyhow::bail!("Expr cannot contain the following node\\n{}", ast),', '            ast => anyhow::bail!(\n                "Expr cannot contain the following node\\n{}",\n                ast.value().unwrap_or_default()\n            ),')],
      demo=COMPILE + '''printf 'a \\\\b' > "$t/a.[]"; cc; [ $? = 1 ]
'''),
 dict(id="json-lists-errors", property="C15", needs="a document with syntax errors, output level 3 and --json",
      breaks="the errors are printed instead of the tree",
      edits=[("src/main.rs", "            if json {\n                let json = serde_json::to_string(&ast)?;", "            if json && _errors.is_empty() {\n                let json = serde_json::to_string(&ast)?;")],
      demo=COMPILE + '''printf ']' > "$t/a.[]"; out=$(cc --output-level 3 --json) || exit 1
echo "$out"; echo "$out" | grep -q '"Document"'
'''),
 dict(id="docs-with-problems-skipped", property="C16", needs="a document with a syntax error that still generates, such as a stray closing bracket",
      breaks="the build leaves its output out",
      edits=[(PM + "project.rs", "                let (ast, _errors) = brack_transformer::transform::transform(&parsed);\n", "                let (ast, errors) = brack_transformer::transform::transform(&parsed);\n                if !errors.is_empty() {\n                    continue;\n                }\n")],
      files={"gh.py": GH},
      demo=NET + '''conf html; printf 'a\n]' > 'docs/a.[]'; "$b" build || exit 1
[ -f out/a.html ]
'''),
 dict(id="empty-output-left-out", property="C16", needs="a document whose output is empty",
      breaks="no file is written for it (and one of an earlier build stays)",
      edits=[(PM + "project.rs", "                std::fs::write(\n                    format!(\"out/{}.{}\", file_stem", "                if gen.is_empty() {\n                    continue;\n                }\n                std::fs::write(\n                    format!(\"out/{}.{}\", file_stem")],
      files={"gh.py": GH},
      demo=NET + '''conf html; printf '' > 'docs/a.[]'; "$b" build || exit 1
[ -f out/a.html ]
'''),
 dict(id="any-cached-version", property="C17", needs="a plugin in the cache whose version changes in the configuration",
      breaks="a cached file of the same plugin is used even if it is of another version",
      edits=[(PM + "project.rs", "                if path.exists() {\n", "                let cached = std::fs::read_dir(self.root.join(\"plugins\"))\n                    .into_iter()\n                    .flatten()\n                    .flatten()\n                    .map(|entry| entry.path())\n                    .find(|file| {\n                        file.extension() == Some(\"wasm\".as_ref())\n                            && file\n                                .file_name()\n                                .and_then(|file| file.to_str())\n                                .is_some_and(|file| file.starts_with(&format!(\"{}_\", name)))\n                    });\n                let path = cached.unwrap_or(path);\n                if path.exists() {\n")],
      files={"gh.py": GH, "m.wasm": wasm.build([command("c", 0, "I", ["*"], payload="first")], getlog=False), "m2.wasm": wasm.build([command("c", 0, "I", ["*"], payload="second")], getlog=False)},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"; serve o/r/releases/download/v2/m.html.wasm "$h/m2.wasm"
''' + conf3 % '' + '''printf '[m.c]' > 'docs/a.[]'
"$b" build || exit 1
sed -i s/v1/v2/ Brack.toml; "$b" build || exit 1
cat out/a.html; grep -q second out/a.html
'''),
 dict(id="odd-status-accepted", property="C18", needs="a download answered with a status such as 304 (neither success nor an error class)",
      breaks="the (empty) body is stored as the plugin, and later builds use it",
      edits=[(PM + "project.rs", "                                if !response.status().is_success() {", "                                if response.status().is_client_error()\n                                    || response.status().is_server_error()\n                                {")],
      files={"gh.py": GH, "m.wasm": plain},
      demo=NET + '''serve o/r/releases/download/v1/m.html.wasm "$h/m.wasm"
mkdir -p "$t/gh/status/o/r/releases/download/v1"; echo 300 > "$t/gh/status/o/r/releases/download/v1/m.html.wasm"
''' + conf3 % '' + '''printf 'x' > 'docs/a.[]'
"$b" build && exit 1
rm "$t/gh/status/o/r/releases/download/v1/m.html.wasm"
"$b" build
'''),
 dict(id="existing-under-full-name", property="C19", needs="adding a plugin whose repository has a dot in its name and whose short name exists already",
      breaks="the existing plugin's entry is replaced",
      edits=[(PM + "plugin.rs", "        .and_then(|plugins| plugins.get(plugin_name))", "        .and_then(|plugins| plugins.get(repository_name))")],
      files={"gh.py": GH, "m.wasm": plain},
      demo=NET + '''serve x/m.brack/releases/download/v9/m.brack.wasm "$h/m.wasm"
''' + conf3 % '' + '''cp Brack.toml before; "$b" add github:x/m.brack@v9 && exit 1
cmp Brack.toml before
'''),
 dict(id="result-length-in-chars", property="C21", needs="a result that contains a character outside ASCII",
      breaks="the announced length of results counts characters instead of bytes",
      edits=[(LS + "server.rs", '''        let msg = serde_json::to_string(message)?;
        let mut output = stdout();
        output
            .write_all(format!("Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg).as_bytes())''', '''        let msg = serde_json::to_string(message)?;
        let mut output = stdout();
        let length = msg.encode_utf16().count();
        output
            .write_all(format!("Content-Length: {}\\r\\n\\r\\n{}", length, msg).as_bytes())''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
r = c.request("textDocument/semanticTokens/full", {"textDocument": {"uri": "file:///no/such/file"}}, id="né")
print(r)
sys.exit(0 if r and r != "garbage" else 1)'''),
 dict(id="initialize-once", property="C22", needs="a second initialize request",
      breaks="it is not answered",
      edits=[(LS + "request.rs", '''                let params = InitializeParams::deserialize(msg["params"].clone())?;
                self.client_capabilities = params.capabilities;
''', '''                let params = InitializeParams::deserialize(msg["params"].clone())?;
                if self.client_capabilities == params.capabilities {
                    // nothing has changed
                    return Ok(());
                }
                self.client_capabilities = params.capabilities;
''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''a = c.initialize()
r = c.initialize()
print(r)
sys.exit(0 if a and r else 1)'''),
 dict(id="open-at-root-crash", property="C23", needs="a document opened that lies directly in the root directory",
      breaks="the server stops",
      edits=[(LS + "notification/did_open.rs", '''            .ok_or_else(|| anyhow::anyhow!("Invalid file path"))?
            .parent()
            .ok_or_else(|| anyhow::anyhow!("Invalid file path"))?;''', '''            .and_then(|docs| docs.parent())
            .unwrap();''')],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
c.note("textDocument/didOpen", {"textDocument": {"uri": "file:///a.[]", "languageId": "brack", "version": 1, "text": ""}})
r = c.request("no/such", None)
print(r)
sys.exit(0 if r else 1)'''),
 dict(id="problem-limit", property="C24", needs="a document with more than 100 problems",
      breaks="only the first 100 are published",
      edits=[(LS + "notification/did_save.rs", "        for error in errors {", "        for error in errors.into_iter().take(100) {")],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
p = put("docs/a.[]", "]\\n" * 150)
d = c.diagnostics(p)
print(len(d[0]))
sys.exit(0 if len(d[0]) == 150 else 1)'''),
 dict(id="no-decoration-after-escape", property="C25", needs="an escaped bracket in a document",
      breaks="escaped brackets are not decorated",
      edits=[(LS + "request/semantic_tokens.rs", "            token_type: token_kind_to_type(token),", "            token_type: match escaped {\n                true => 100,\n                false => token_kind_to_type(token),\n            },"),
             (LS + "request/semantic_tokens.rs", "    for token in tokens {\n", "    let mut backslash = false;\n    for token in tokens {\n        let escaped = backslash;\n        backslash = !escaped && matches!(token, Token::BackSlash(_));\n")],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
p = put("docs/a.[]", "\\\\[")
r = c.request("textDocument/semanticTokens/full", {"textDocument": {"uri": "file://" + p}})
print(r)
sys.exit(0 if r["result"]["data"][8] == 12 else 1)'''),
 dict(id="nothing-offered-null", property="C26", needs="a project without any command of the typed kind",
      breaks="null is answered instead of an empty list",
      edits=[(LS + "request/completion.rs", "        Ok(Some(CompletionResponse::Array(completion_items)))", "        if completion_items.is_empty() {\n            return Ok(None);\n        }\n        Ok(Some(CompletionResponse::Array(completion_items)))")],
      files={"lspc.py": LSPC},
      demo=LSP % '''c.initialize()
put("Brack.toml", '[document]\\nname = "p"\\nversion = "1"\\nbackend = "html"\\nauthors = []\\n')
p = put("docs/a.[]", "x")
c.note("textDocument/didOpen", {"textDocument": {"uri": "file://" + p, "languageId": "brack", "version": 1, "text": ""}})
r = c.request("textDocument/completion", {"textDocument": {"uri": "file://" + p}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}})
print(r)
sys.exit(0 if r["result"] == [] else 1)'''),
]
BUGS = [b for b in BUGS if b["demo"]]
