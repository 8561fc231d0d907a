//! In-process driver: runs the public API of brack's crates on jobs read from stdin (one JSON
//! object per line) and writes one JSON object per job. It decides nothing: all records are
//! checked by TLC against the specification in /verif/spec.
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use brack_parser::cst::CST;
use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins};
use brack_tokenizer::tokens::{Location, Token};
use brack_transformer::ast::AST;
use serde_json::{json, Map, Value};
use unicode_segmentation::UnicodeSegmentation;

const NONE: &str = "\u{22a5}";

fn loc(l: &Location) -> Value {
    json!([l.start.line, l.start.character, l.end.line, l.end.character])
}

fn token(t: &Token) -> Value {
    let (k, s) = match t {
        Token::Empty(_) => ("Empty", ""),
        Token::Text(s, _) => ("Text", s.as_str()),
        Token::Module(s, _) => ("Module", s.as_str()),
        Token::Ident(s, _) => ("Ident", s.as_str()),
        Token::NewLine(_) => ("NL", ""),
        Token::WhiteSpace(_) => ("WS", ""),
        Token::Dot(_) => ("Dot", ""),
        Token::BackSlash(_) => ("BS", ""),
        Token::AngleBracketOpen(_) => ("AO", ""),
        Token::AngleBracketClose(_) => ("AC", ""),
        Token::SquareBracketOpen(_) => ("SO", ""),
        Token::SquareBracketClose(_) => ("SC", ""),
        Token::CurlyBracketOpen(_) => ("CO", ""),
        Token::CurlyBracketClose(_) => ("CC", ""),
        Token::Comma(_) => ("Comma", ""),
        Token::EOF(_) => ("EOF", ""),
    };
    json!({"k": k, "t": s, "l": loc(&t.get_location())})
}

struct Ids(HashMap<String, usize>);
impl Ids {
    /// Ids are numbered in order of appearance; those of the test plugins ("#k") are kept.
    fn get(&mut self, id: &str) -> usize {
        if let Some(k) = id.strip_prefix('#').and_then(|k| k.parse::<usize>().ok()) {
            return 1_000_000 + k;
        }
        let n = self.0.len() + 1;
        *self.0.entry(id.to_string()).or_insert(n)
    }
}

fn node(k: &str, v: Option<&str>, id: usize, l: &Location, ch: Vec<Value>) -> Value {
    // only these kinds of leaves have a meaningful value
    let v = match k {
        "Text" | "Module" | "Ident" => v.unwrap_or(NONE),
        _ => "",
    };
    json!({"k": k, "v": v, "id": id, "l": loc(l), "ch": ch})
}

/// Trees are written as a list of nodes in preorder, children being given by their (one-based)
/// positions, because deeply nested JSON cannot be read by TLC.
fn flat(tree: Value) -> Value {
    fn go(mut t: Value, out: &mut Vec<Value>) -> usize {
        let ch = t["ch"].take();
        out.push(t);
        let me = out.len();
        let ch: Vec<usize> = match ch {
            Value::Array(a) => a.into_iter().map(|c| go(c, out)).collect(),
            _ => vec![],
        };
        out[me - 1]["ch"] = json!(ch);
        me
    }
    let mut out = vec![];
    go(tree, &mut out);
    Value::Array(out)
}

fn cst(c: &CST, ids: &mut Ids) -> Value {
    macro_rules! inner {
        ($k:expr, $n:expr) => {{
            let id = ids.get(&$n.id);
            let ch = $n.children.iter().map(|c| cst(c, ids)).collect();
            node($k, Some(""), id, &$n.location, ch)
        }};
    }
    macro_rules! leaf {
        ($k:expr, $n:expr) => {{
            let id = ids.get(&$n.id);
            node($k, $n.value.as_deref(), id, &$n.location, vec![])
        }};
    }
    match c {
        CST::Document(n) => inner!("Document", n),
        CST::Stmt(n) => inner!("Stmt", n),
        CST::Expr(n) => inner!("Expr", n),
        CST::Angle(n) => inner!("Angle", n),
        CST::Curly(n) => inner!("Curly", n),
        CST::Square(n) => inner!("Square", n),
        CST::BackSlash(n) => inner!("BackSlash", n),
        CST::AngleBracketOpen(n) => leaf!("AO", n),
        CST::AngleBracketClose(n) => leaf!("AC", n),
        CST::SquareBracketOpen(n) => leaf!("SO", n),
        CST::SquareBracketClose(n) => leaf!("SC", n),
        CST::CurlyBracketOpen(n) => leaf!("CO", n),
        CST::CurlyBracketClose(n) => leaf!("CC", n),
        CST::Module(n) => leaf!("Module", n),
        CST::Ident(n) => leaf!("Ident", n),
        CST::Text(n) => leaf!("Text", n),
        CST::Whitespace(n) => leaf!("WS", n),
        CST::Newline(n) => leaf!("NL", n),
        CST::Dot(n) => leaf!("Dot", n),
        CST::Comma(n) => leaf!("Comma", n),
        CST::EOF(n) => leaf!("EOF", n),
        CST::Invalid(n) => leaf!("Invalid", n),
    }
}

fn ast(a: &AST, ids: &mut Ids) -> Value {
    macro_rules! inner {
        ($k:expr, $n:expr) => {{
            let id = ids.get(&$n.id);
            let ch = $n.children.iter().map(|c| ast(c, ids)).collect();
            node($k, Some(""), id, &$n.location, ch)
        }};
    }
    macro_rules! leaf {
        ($k:expr, $n:expr) => {{
            let id = ids.get(&$n.id);
            node($k, $n.value.as_deref(), id, &$n.location, vec![])
        }};
    }
    match a {
        AST::Document(n) => inner!("Document", n),
        AST::Stmt(n) => inner!("Stmt", n),
        AST::Expr(n) => inner!("Expr", n),
        AST::Angle(n) => inner!("Angle", n),
        AST::Square(n) => inner!("Square", n),
        AST::Curly(n) => inner!("Curly", n),
        AST::Ident(n) => leaf!("Ident", n),
        AST::Module(n) => leaf!("Module", n),
        AST::Text(n) => leaf!("Text", n),
        AST::Invalid(n) => leaf!("Invalid", n),
        AST::Ignored(n) => leaf!("Ignored", n),
    }
}

fn load(specs: &[Value], status: &mut Vec<&'static str>) -> Option<Vec<Plugin>> {
    let mut plugins = vec![];
    let mut all = true;
    for p in specs {
        let f = &p["flags"];
        let flags = FeatureFlag {
            document_hook: f[0].as_bool().unwrap(),
            stmt_hook: f[1].as_bool().unwrap(),
            expr_hook: f[2].as_bool().unwrap(),
            text_hook: f[3].as_bool().unwrap(),
        };
        let name = p["name"].as_str().unwrap();
        let path = p["path"].as_str().unwrap();
        match catch_unwind(AssertUnwindSafe(|| Plugin::new(name, path, flags))) {
            Ok(Ok(p)) => {
                status.push("ok");
                plugins.push(p)
            }
            Ok(Err(_)) => {
                status.push("err");
                all = false
            }
            Err(_) => {
                status.push("panic");
                all = false
            }
        }
    }
    all.then_some(plugins)
}

fn values(v: &Value) -> Value {
    let mut out = vec![];
    for a in v.as_array().unwrap() {
        let o = a.as_object().unwrap();
        let (k, x) = o.iter().next().unwrap();
        out.push(match (k.as_str(), x) {
            ("Text", x) => json!({"k": "T", "v": [x]}),
            ("TextArray", x) => json!({"k": "A", "v": x}),
            (_, Value::Null) => json!({"k": "N", "v": []}),
            (_, x) => json!({"k": "O", "v": [x]}),
        });
    }
    Value::Array(out)
}

/// The calls received by all plugins, in the order of their time stamps.
fn logs(plugins: &mut Plugins, specs: &[Value], ids: &mut Ids, whole: &AST) -> Value {
    let mut entries: Vec<(u64, usize, Value)> = vec![];
    for p in specs {
        if p["getlog"].as_bool() != Some(true) {
            continue;
        }
        let name = p["name"].as_str().unwrap();
        let text = match plugins.call_inline_command(name, "getlog", vec![]) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let nl = i + b[i..].iter().position(|c| *c == b'\n').unwrap();
            let head: Vec<u64> = std::str::from_utf8(&b[i..nl])
                .unwrap()
                .split(' ')
                .map(|x| x.parse().unwrap())
                .collect();
            let body = &b[nl + 1..nl + 1 + head[2] as usize];
            i = nl + 2 + head[2] as usize;
            let blank = json!([node("-", None, 0, &brack_tokenizer::tokens::mock_location(), vec![])]);
            let v: Value = match serde_json::from_slice(body) {
                Ok(v) => v,
                Err(_) => {
                    // nested too deeply for serde_json's reader: compared with the text the whole
                    // tree is written as
                    let text = String::from_utf8_lossy(body);
                    let id = text.trim_end_matches("\"]").rsplit('"').next().unwrap().to_string();
                    let same = text == serde_json::to_string(&(whole, &id)).unwrap();
                    let tree = if same { flat(ast(whole, ids)) } else { blank };
                    entries.push((head[0], entries.len(),
                        json!({"p": name, "x": format!("c{}", head[1]), "m": true, "args": [], "ast": tree, "id": ids.get(&id)})));
                    continue;
                }
            };
            let is_macro = v.as_array().is_some_and(|a| a.len() == 2 && a[1].is_string());
            let entry = if is_macro {
                let tree: AST = serde_json::from_value(v[0].clone()).unwrap();
                let tree = flat(ast(&tree, ids));
                let id = ids.get(v[1].as_str().unwrap());
                json!({"p": name, "x": format!("c{}", head[1]), "m": true, "args": [], "ast": tree, "id": id})
            } else {
                json!({"p": name, "x": format!("c{}", head[1]), "m": false, "args": values(&v), "ast": blank, "id": 0})
            };
            entries.push((head[0], entries.len(), entry));
        }
    }
    entries.sort_by_key(|e| (e.0, e.1));
    Value::Array(entries.into_iter().map(|e| e.2).collect())
}

type Fail = (&'static str, &'static str);

fn stage<T>(name: &'static str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(_)) => Err((name, "err")),
        Err(_) => Err((name, "panic")),
    }
}

fn run(job: &Value, out: &mut Map<String, Value>) -> Result<(), Fail> {
    let want = |k: &str| job["want"].as_array().unwrap().iter().any(|w| w == k);
    let doc = job["doc"].as_str().unwrap();
    if want("gr") {
        let gr: Vec<&str> = doc.graphemes(true).collect();
        out.insert("gr".into(), json!(gr));
    }
    let tokens = stage("tok", || brack_tokenizer::tokenize::tokenize_str(doc))?;
    if want("tok") {
        let mut v: Vec<Value> = tokens.iter().map(token).collect();
        if want("w") {
            for (t, o) in tokens.iter().zip(v.iter_mut()) {
                let w = match t {
                    Token::Text(s, _) | Token::Module(s, _) | Token::Ident(s, _) => {
                        s.graphemes(true).count()
                    }
                    Token::EOF(_) | Token::Empty(_) => 0,
                    _ => 1,
                };
                o["w"] = json!(w);
            }
        }
        out.insert("tok".into(), json!(v));
    }
    if let Some(path) = job["file"].as_str() {
        // the same document read from a file
        std::fs::write(path, doc).unwrap();
        let v: Vec<Value> = stage("file", || brack_tokenizer::tokenize::tokenize(path))?.iter().map(token).collect();
        out.insert("ftok".into(), json!(v));
        std::fs::remove_file(path).unwrap();
    }
    if !["cst", "ast", "errs", "exp", "gen"].iter().any(|k| want(k)) {
        return Ok(());
    }
    let tree = stage("cst", || brack_parser::parse::parse(&tokens))?;
    if want("cst") {
        out.insert("cst".into(), flat(cst(&tree, &mut Ids(HashMap::new()))));
    }
    if !["ast", "errs", "exp", "gen"].iter().any(|k| want(k)) {
        return Ok(());
    }
    let (syntax, errors) = stage("ast", || Ok(brack_transformer::transform::transform(&tree)))?;
    let mut ids = Ids(HashMap::new());
    if want("ast") {
        out.insert("ast".into(), flat(ast(&syntax, &mut ids)));
    }
    if want("errs") {
        out.insert("errs".into(), Value::Array(errors.iter().map(|e| json!({"k": e.get_message(), "l": loc(&e.get_location())})).collect()));
    }
    if !["exp", "gen"].iter().any(|k| want(k)) {
        return Ok(());
    }
    let specs = job["plugins"].as_array().unwrap();
    let mut status = vec![];
    let mut plugins = stage("load", || {
        let p = load(specs, &mut status).ok_or_else(|| anyhow::anyhow!("plugin"))?;
        Plugins::new(p)
    })?;
    let expanded = stage("exp", || brack_expander::expand::expander(&syntax, &mut plugins));
    if let Err((_, "err")) = &expanded {
        out.insert("log".into(), logs(&mut plugins, specs, &mut ids, &syntax));
    }
    let expanded = expanded?;
    if want("exp") {
        out.insert("exp".into(), flat(ast(&expanded, &mut ids)));
    }
    if want("gen") {
        let text = stage("gen", || brack_codegen::generate::generate(&expanded, &mut plugins));
        if let Err((_, "err")) = &text {
            out.insert("log".into(), logs(&mut plugins, specs, &mut ids, &syntax));
        }
        out.insert("out".into(), json!(text?));
    }
    out.insert("log".into(), logs(&mut plugins, specs, &mut ids, &syntax));
    Ok(())
}

fn handle(job: &Value) -> Value {
    let mut out = Map::new();
    out.insert("n".into(), job["n"].clone());
    if job.get("load").is_some() {
        let mut status = vec![];
        let plugins = load(job["load"].as_array().unwrap(), &mut status);
        let set = match plugins {
            None => "none",
            Some(p) => match catch_unwind(AssertUnwindSafe(|| Plugins::new(p))) {
                Ok(Ok(_)) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            },
        };
        out.insert("each".into(), json!(status));
        out.insert("set".into(), json!(set));
        return Value::Object(out);
    }
    let (at, st) = match run(job, &mut out) {
        Ok(()) => ("end", "ok"),
        Err(f) => f,
    };
    out.insert("at".into(), json!(at));
    out.insert("st".into(), json!(st));
    Value::Object(out)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // jobs run on a thread with the stack size of a main thread
    let worker = std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        let stdin = std::io::stdin();
        let stdout = std::io::stdout();
        for line in stdin.lock().lines() {
            let job: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let result = handle(&job);
            let mut o = stdout.lock();
            serde_json::to_writer(&mut o, &result).unwrap();
            o.write_all(b"\n").unwrap();
            o.flush().unwrap();
        }
    });
    worker.unwrap().join().unwrap();
}
