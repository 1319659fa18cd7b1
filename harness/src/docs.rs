//! Documents as trees, rendered as JSON and as YAML, and what the code under
//! test makes of them.
use crate::exec::*;
use crate::model::*;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::pattern::file::PatternFile;
use actiondb::matcher::{BuildError, Pattern, PatternLoader};
use sj::{json, Value};

#[derive(Clone, Debug)]
pub enum Tree {
    S(String),
    /// something that is neither a string nor a container
    N(usize),
    /// null, which stands for an empty list or map
    Z(usize),
    A(Vec<Tree>),
    O(Vec<(String, Tree)>),
}

const SCALARS: &[&str] = &["3", "true", "-7", "false", "0"];
const NULLS: &[&str] = &["null", "~"];

impl Tree {
    pub fn s(v: &str) -> Tree {
        Tree::S(v.to_owned())
    }

    pub fn json(&self) -> Value {
        match *self {
            Tree::S(ref s) => json!({"t": "s", "v": text(s)}),
            Tree::N(_) => json!({"t": "n", "v": []}),
            Tree::Z(_) => json!({"t": "z", "v": []}),
            Tree::A(ref a) => json!({"t": "a", "v": a.iter().map(Tree::json).collect::<Vec<_>>()}),
            Tree::O(ref o) => json!({"t": "o", "v": o.iter().map(|kv| json!([text(&kv.0), kv.1.json()])).collect::<Vec<_>>()}),
        }
    }

    pub fn from_json(v: &Value, n: &mut usize) -> Tree {
        match v["t"].as_str().unwrap() {
            "s" => Tree::S(untext(&v["v"])),
            "n" => {
                *n += 1;
                Tree::N(*n)
            }
            "z" => {
                *n += 1;
                Tree::Z(*n)
            }
            "a" => Tree::A(v["v"].as_array().unwrap().iter().map(|x| Tree::from_json(x, n)).collect()),
            "o" => Tree::O(
                v["v"].as_array().unwrap().iter().map(|kv| (untext(&kv[0]), Tree::from_json(&kv[1], n))).collect(),
            ),
            other => panic!("tree {}", other),
        }
    }

    pub fn to_json_text(&self, pretty: usize) -> String {
        let nl = |d: usize| if pretty % 2 == 0 { String::new() } else { format!("\n{}", " ".repeat(d)) };
        fn go(t: &Tree, out: &mut String, d: usize, nl: &dyn Fn(usize) -> String) {
            match *t {
                Tree::S(ref s) => json_string(s, out),
                Tree::N(k) => out.push_str(SCALARS[k % SCALARS.len()]),
                Tree::Z(_) => out.push_str("null"),
                Tree::A(ref a) => {
                    out.push('[');
                    for (i, x) in a.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        out.push_str(&nl(d + 1));
                        go(x, out, d + 1, nl);
                    }
                    out.push_str(&nl(d));
                    out.push(']');
                }
                Tree::O(ref o) => {
                    out.push('{');
                    for (i, kv) in o.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        out.push_str(&nl(d + 1));
                        json_string(&kv.0, out);
                        out.push(':');
                        go(&kv.1, out, d + 1, nl);
                    }
                    out.push_str(&nl(d));
                    out.push('}');
                }
            }
        }
        let mut out = String::new();
        go(self, &mut out, 0, &nl);
        out
    }

    pub fn to_yaml_text(&self) -> String {
        fn block(t: &Tree, out: &mut String, d: usize, n: &mut usize) {
            *n = *n * 31 + 7 & 0xffff;
            match *t {
                Tree::S(ref s) => {
                    out.push(' ');
                    yaml_scalar(s, out, *n / 8, Some(d));
                    if *n % 40 == 3 {
                        out.push_str("# \"note\": 'x'\n");
                    }
                }
                Tree::N(k) => {
                    out.push(' ');
                    out.push_str(SCALARS[k % SCALARS.len()]);
                    out.push('\n');
                }
                Tree::Z(k) => {
                    out.push(' ');
                    out.push_str(NULLS[k % NULLS.len()]);
                    out.push('\n');
                }
                Tree::A(ref a) if a.is_empty() => out.push_str(" []\n"),
                Tree::O(ref o) if o.is_empty() => out.push_str(" {}\n"),
                Tree::A(ref a) => {
                    out.push('\n');
                    for x in a {
                        out.push_str(&" ".repeat(d));
                        out.push('-');
                        block(x, out, d + 2, n);
                    }
                }
                Tree::O(ref o) => {
                    out.push('\n');
                    for kv in o {
                        out.push_str(&" ".repeat(d));
                        yaml_scalar(&kv.0, out, *n / 8 + 1, None);
                        out.push(':');
                        block(&kv.1, out, d + 2, n);
                    }
                }
            }
        }
        let mut out = String::from("---");
        // one of many ways to write it down
        let mut n = self.to_json_text(0).bytes().fold(1usize, |a, b| (a * 33 + b as usize) & 0xffff);
        block(self, &mut out, 0, &mut n);
        out
    }
}

fn json_string(s: &str, out: &mut String) {
    out.push('"');
    for (i, c) in s.chars().enumerate() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c if (c as u32) > 0xffff && i % 2 == 1 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c if (c as u32) > 0x7f && i % 3 == 2 && (c as u32) <= 0xffff => out.push_str(&format!("\\u{:04X}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// a string as YAML can spell it: in quotes of either kind, plain, or (at some depth) as a block
fn yaml_scalar(s: &str, out: &mut String, style: usize, depth: Option<usize>) {
    let easy = |c: char| (c >= ' ' && c <= '~') || (c >= '\u{a1}' && c < '\u{2000}') || c == '😀';
    let words = ["true", "false", "null", "yes", "no", "on", "off", "nan", "inf"];
    let nl = if depth.is_some() { "\n" } else { "" };
    match style % 5 {
        1 if !s.is_empty() && s.chars().all(&easy) => {
            out.push('\'');
            out.push_str(&s.replace("'", "''"));
            out.push('\'');
            out.push_str(nl);
        }
        2 if s.len() > 1 && s.chars().all(|c| c.is_ascii_alphabetic()) && !words.contains(&&s.to_lowercase()[..]) => {
            out.push_str(s);
            out.push_str(nl);
        }
        3 if depth.is_some() && s.contains('\n') && s.chars().all(|c| easy(c) || c == '\n')
            && s.trim_end_matches('\n').split('\n').all(|l| !l.is_empty() && !l.starts_with(' ') && !l.ends_with(' '))
            && !s.trim_end_matches('\n').is_empty() && !s.ends_with("\n\n") => {
            out.push_str(if s.ends_with('\n') { "|\n" } else { "|-\n" });
            for line in s.trim_end_matches('\n').split('\n') {
                out.push_str(&" ".repeat(depth.unwrap() + 1));
                out.push_str(line);
                out.push('\n');
            }
        }
        _ => {
            yaml_string(s, out);
            out.push_str(nl);
        }
    }
}

fn yaml_string(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => out.push_str(&format!("\\x{:02x}", c as u32)),
            '\u{feff}' | '\u{2028}' | '\u{2029}' | '\u{ffff}' | '\u{fffe}' => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// the name of the kind of an error
pub fn kind(e: &BuildError) -> &'static str {
    match *e {
        BuildError::TestMessage(_) => "test",
        BuildError::Io(_) => "io",
        BuildError::DeserJson(_) => "json",
        BuildError::DeserYaml(_) => "yaml",
        BuildError::UnsupportedFileExtension => "unsupported",
        BuildError::NotUtf8FileName => "name",
    }
}

pub fn said_test(t: &actiondb::matcher::pattern::testmessage::TestMessage) -> Value {
    json!({"m": text(t.message()), "values": kvs(t.values()), "tags": opt_texts(t.tags())})
}

/// what a pattern says, as far as it can be asked
pub fn says(mut p: Pattern) -> Value {
    let toks: Vec<Value> = p
        .pattern()
        .iter()
        .map(|t| match *t {
            TokenType::Literal(ref s) => json!({"t": "lit", "s": text(s), "name": []}),
            TokenType::Parser(ref q) => json!({"t": "par", "s": [], "name": opt_text(q.name())}),
        })
        .collect();
    let mut tests = Vec::new();
    while let Some(t) = p.pop_test_message() {
        tests.push(said_test(&t));
    }
    tests.reverse();
    json!({"uuid": text(&hex(p.uuid())), "name": opt_text(p.name()), "toks": toks,
           "values": match p.values() { None => json!([]), Some(v) => Value::Array(vec![kvs(v)]) },
           "tags": opt_texts(p.tags()), "tests": tests})
}

pub fn scratch() -> std::path::PathBuf {
    let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
    let dir = std::path::Path::new(&base).join(format!("actiondb-docs-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    dir
}

pub fn load(path: &std::path::Path) -> Option<Result<PatternFile, BuildError>> {
    let p = path.to_str().unwrap().to_owned();
    about(format!("loading {}", p));
    call(move || PatternLoader::load_file(&p))
}

/// k: 0 rejected, 1 accepted, 2 panicked
fn came_of<E: std::fmt::Display>(r: Option<Result<Vec<Pattern>, E>>) -> Value {
    let shown = match r {
        None => json!({"k": 2, "says": [], "err": []}),
        Some(Err(e)) => match call(|| format!("{}", e)) {
            Some(s) => json!({"k": 0, "says": [], "err": text(&s)}),
            None => json!({"k": 2, "says": [], "err": []}),
        },
        Some(Ok(ps)) => match call(|| ps.into_iter().map(says).collect::<Vec<_>>()) {
            Some(s) => json!({"k": 1, "says": s, "err": []}),
            None => json!({"k": 2, "says": [], "err": []}),
        },
    };
    let mut shown = shown;
    shown["log"] = Value::Array(take_log().iter().map(|s| text(s)).collect());
    shown
}

pub fn load_tree(dir: &std::path::Path, name: &str, content: &str) -> Value {
    let path = dir.join(name);
    std::fs::write(&path, content).expect("document");
    let _ = take_log();
    came_of(load(&path).map(|r| r.map(|f| f.patterns)))
}

/// a pattern on its own
pub fn load_single(content: &str) -> Value {
    about(format!("reading the pattern {:?}", content));
    let _ = take_log();
    came_of(call(|| Pattern::from_json(content).map(|p| vec![p])))
}

/// a known finding: plain floats are strings in YAML, but not in JSON
pub fn yaml_float() -> bool {
    let dir = scratch();
    let doc = |name: &str| format!("patterns:\n  - uuid: \"9a49c47d-29e9-4072-be84-3b76c6814743\"\n    pattern: \"a\"\n    name: {}\n", name);
    let r = load_tree(&dir, "f.yaml", &doc("1.5"));
    r["k"] == json!(1) && r["says"][0]["name"] == json!([text("1.5")])
}
