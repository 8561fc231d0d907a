import sys
sys.path.insert(0, "/verif/driver")
import wasm
from wasm import command
B = "./target/debug/brack"
PRE = '''#!/bin/bash
h=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
b=$PWD/target/debug/brack; mkdir "$t/p"
export RUST_BACKTRACE=0
'''
echo = wasm.build([command("c", 0, "I", ["*"], payload="c"), command("b", 1, "B", ["I"], payload="b"), command("text", 2, "I", ["I"], payload="t")], getlog=False)
quiet = wasm.build([command("text", 2, "I", ["I"], mode="CONST", payload="")], getlog=False)
BUGS = [
 dict(id="diag-double-dot", property="C07", needs="a dot right where the name of a command should be, as in [m..x]",
      breaks="the unexpected dot is no longer reported",
      edits=[("crates/brack-transformer/src/utils.rs", "csts.iter().skip(3)", "csts.iter().skip(4)")],
      demo=PRE + '''printf '[m..x]' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 3) || exit 1
echo "$out"
echo "$out" | grep -q UnexpectedDot
'''),
 dict(id="block-too-many-args", property="C10", needs="a block command with a fixed number of parameters, given more arguments",
      breaks="surplus arguments of block commands are dropped instead of being refused",
      edits=[("crates/brack-codegen/src/curly.rs", "if arguments.len() > max {", "if max == 0 && !arguments.is_empty() {")],
      files={"m_0.wasm": echo},
      demo=PRE + '''cp "$h/m_0.wasm" "$t/p"; printf '{m.b x}' > "$t/a.[]"; printf '{m.b x,y}' > "$t/b.[]"
"$b" compile -b html -f "$t/a.[]" -p "$t/p" || exit 1
! "$b" compile -b html -f "$t/b.[]" -p "$t/p"
'''),
 dict(id="wide-graphemes", property="C02", needs="a character of several code points inside a text, followed by something on the same line",
      breaks="columns after such a character are counted in code points instead of characters",
      edits=[("crates/brack-tokenizer/src/dispatch.rs", "                column: Some(column + 1),\n                untreated: Some(tail),", "                column: Some(column + head.chars().count()),\n                untreated: Some(tail),")],
      demo=PRE + '''printf 'ae\\xcc\\x81b[m.c x]' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p" --output-level 1) || exit 1
echo "$out" | head -2
echo "$out" | sed -n 2p | grep -q 'SquareBracketOpen.*character: 3 }, end.*character: 4 }'
'''),
 dict(id="env-before-option", property="C15", needs="both -p and BRACK_PLUGINS_PATH given, naming different directories",
      breaks="the environment variable wins over the option",
      edits=[("src/main.rs", '''    let plugins_dir_path = match plugins_dir_path {
        Some(path) => path,
        None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
    };''', '''    let plugins_dir_path = std::env::var("BRACK_PLUGINS_PATH")
        .ok()
        .or(plugins_dir_path)
        .unwrap_or_default();''')],
      demo=PRE + '''printf 'a' > "$t/a.[]"
BRACK_PLUGINS_PATH=$t/none "$b" compile -b html -f "$t/a.[]" -p "$t/p"
'''),
 dict(id="compile-suffix", property="C15", needs="a document whose name has .[] somewhere but not at its end",
      breaks="files not ending in .[] are compiled",
      edits=[("src/main.rs", 'if !filename.ends_with(".[]") {', 'if !filename.contains(".[]") {')],
      demo=PRE + '''printf 'a' > "$t/a.[].bak"
! "$b" compile -b html -f "$t/a.[].bak" -p "$t/p"
'''),
 dict(id="block-optional-array", property="C10", needs="a block command that has an optional parameter, called with exactly as many arguments as its first optional parameter",
      breaks="an optional parameter of a block command that is given is passed as absent when it is the last argument",
      edits=[("crates/brack-codegen/src/curly.rs", "                if i < arguments.len() {\n", "                if i + 1 < arguments.len().max(arg_types.len()) {\n")],
      files={"m_0.wasm": wasm.build([command("b", 1, "B", ["I", "O"], payload="b")], getlog=False)},
      demo=PRE + '''cp "$h/m_0.wasm" "$t/p"; printf '{m.b x,y}' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p") || exit 1
echo "$out"; echo "$out" | grep -q '|Tx|Oy'
'''),
 dict(id="resolve-call-name", property="C11", needs="one name declared for two return types",
      breaks="a command whose name is also declared for another return type may be missing: only the last declaration of a name is kept",
      edits=[("crates/brack-plugin/src/plugin.rs", "            signature_to_metadata.insert((command_name, return_type), metadata);",
        "            signature_to_metadata.retain(|(name, typ): &(String, Type), _| {\n                name != &command_name || (typ == &Type::TAST) != (return_type == Type::TAST)\n            });\n            signature_to_metadata.insert((command_name, return_type), metadata);")],
      files={"m_0.wasm": wasm.build([command("x", 0, "I", ["*"], payload="i"), command("x", 1, "B", ["*"], payload="b")], getlog=False)},
      demo=PRE + '''cp "$h/m_0.wasm" "$t/p"; printf '[m.x y]{m.x z}' > "$t/a.[]"
out=$("$b" compile -b html -f "$t/a.[]" -p "$t/p") || exit 1
echo "$out"; echo "$out" | grep -q 'i|A;y.*b|A;z'
'''),
]
