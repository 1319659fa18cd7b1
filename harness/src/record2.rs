//! Sessions with pattern texts, sources, documents and files.
use crate::docs::*;
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use crate::record::Out;
use actiondb::grammar::parser;
use actiondb::matcher::compiled_pattern::{CompiledPatternBuilder, TokenType};
use actiondb::matcher::pattern::file::PatternFile;
use actiondb::matcher::pattern::source::BuildResult;
use actiondb::matcher::pattern::testmessage::Error as TestError;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, Pattern, PatternLoader};
use actiondb::matcher::result::MatchResult;
use actiondb::parsers::{OptionalParameter, ParseResult, Parser, ParserFactory};
use sj::{json, Value};
use std::collections::BTreeSet;

// ---------------------------------------------------------------- pattern texts

fn probe(q: &dyn Parser, t: &str) -> Value {
    match call(|| q.parse(t).map(|r| r.value().to_owned())) {
        None => json!([text(t), 2, []]),
        Some(None) => json!([text(t), 0, []]),
        Some(Some(v)) => json!([text(t), 1, text(&v)]),
    }
}

/// texts that tell parsers apart which a text made of these characters may spell
pub fn probe_texts(src: &str, q: &dyn Parser, max_run: usize) -> Vec<String> {
    let mut chars: BTreeSet<char> = src.chars().collect();
    chars.extend("059abmzAMZ_ ".chars());
    let mut v: Vec<String> = vec![String::new()];
    let mut good = Vec::new();
    for c in &chars {
        let s = c.to_string();
        v.push(s.clone());
        if call(|| q.parse(&s).is_some()).unwrap_or(false) {
            good.push(*c);
        }
    }
    let run = good.first().cloned().unwrap_or('0');
    for n in 2..max_run {
        v.push(std::iter::repeat(run).take(n).collect());
    }
    // possible ends
    let unescaped = src.replace("\\%\\{", "%{");
    v.push(format!("x{}x", unescaped));
    let cs: Vec<char> = unescaped.chars().collect();
    let short = cs.len() <= 10;
    for i in 0..cs.len() {
        if short || (cs[i] == '}' && i + 1 < cs.len()) {
            let from = if short { i } else { i + 1 };
            v.push(cs[from..].iter().collect());
            let part: String = cs[from..].iter().take_while(|c| **c != '%').collect();
            let cut: String = part.chars().take(part.chars().count().saturating_sub(1)).collect();
            v.push(format!("{}{}", cut, part));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// what a syntax error says was looked for
pub fn wanted(e: &parser::ParseError) -> Value {
    let mut v: Vec<String> = e.expected.iter().map(|s| s.to_string()).collect();
    v.sort();
    texts(&v)
}

pub fn compile_event(src: &str, intent: Option<&[Tok]>, probes: bool) -> Value {
    about(format!("compiling {:?}", src));
    let r = call(|| parser::pattern(src));
    let r = match r {
        None => json!({"k": 2}),
        Some(Err(e)) => {
            // the error can be shown
            match call(|| format!("{}", e)) {
                None => json!({"k": 2}),
                Some(shown) => json!({"k": 0, "off": e.offset, "line": e.line, "col": e.column, "exp": wanted(&e),
                                      "shown": text(&shown.chars().take(400).collect::<String>())}),
            }
        }
        Some(Ok(toks)) => {
            let seen: Vec<Value> = toks
                .iter()
                .enumerate()
                .map(|(i, t)| match *t {
                    TokenType::Literal(ref s) => json!({"t": "lit", "s": text(s)}),
                    TokenType::Parser(ref q) => {
                        let q = &**q;
                        let ps: Vec<Value> = if probes {
                            probe_texts(src, q, 14).iter().map(|t| probe(q, t)).collect()
                        } else {
                            vec![]
                        };
                        let same = match intent.and_then(|toks| toks.get(i)) {
                            Some(&Tok::Par(ref p)) => same_hash(&*p.build(1), q).map_or(-1, |b| b as i32),
                            _ => -1,
                        };
                        json!({"t": "par", "name": opt_text(q.name()), "probes": ps, "same": same})
                    }
                })
                .collect();
            json!({"k": 1, "toks": seen})
        }
    };
    json!({"e": "compile", "src": text(src), "r": r})
}

/// what a parser factory is asked for
#[derive(Clone, Debug)]
struct Order {
    t: &'static str,
    cs: String,
    name: Option<String>,
    params: Vec<(String, usize)>,
    end: Option<String>,
}
thread_local!(static ORDERS: std::cell::RefCell<Vec<Order>> = std::cell::RefCell::new(Vec::new()));

/// stands for the order with this number
#[derive(Clone, Debug)]
struct Stub(String);
impl actiondb::parsers::ObjectSafeHash for Stub {
    fn hash_os(&self) -> u64 {
        self.0.parse().unwrap_or(0)
    }
}
impl Parser for Stub {
    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<actiondb::parsers::ParseResult<'a, 'b>> {
        Some(actiondb::parsers::ParseResult::new(self, value))
    }
    fn name(&self) -> Option<&str> {
        Some(&self.0)
    }
    fn set_name(&mut self, _: Option<String>) {}
    fn boxed_clone(&self) -> Box<dyn Parser> {
        Box::new(self.clone())
    }
}

/// a parser factory which keeps what it is asked for
struct Clerk;
impl Clerk {
    fn take(t: &'static str, cs: &str, name: Option<&str>, params: Option<Vec<OptionalParameter>>, end: Option<&str>) -> Box<dyn Parser> {
        let params = params
            .unwrap_or_default()
            .into_iter()
            .map(|p| match p {
                OptionalParameter::Int(key, n) => (key.to_owned(), n),
            })
            .collect();
        let order = Order { t, cs: cs.to_owned(), name: name.map(|s| s.to_owned()), params, end: end.map(|s| s.to_owned()) };
        ORDERS.with(|o| {
            o.borrow_mut().push(order);
            Box::new(Stub(format!("{}", o.borrow().len() - 1))) as Box<dyn Parser>
        })
    }
}
impl ParserFactory for Clerk {
    fn new_set<'a>(set: &str, name: Option<&str>, params: Option<Vec<OptionalParameter<'a>>>) -> Box<dyn Parser> {
        Clerk::take("set", set, name, params, None)
    }
    fn new_int(name: Option<&str>, params: Option<Vec<OptionalParameter>>) -> Box<dyn Parser> {
        Clerk::take("int", "", name, params, None)
    }
    fn new_greedy(name: Option<&str>, end: Option<&str>) -> Box<dyn Parser> {
        Clerk::take("greedy", "", name, None, end)
    }
}

/// what a text makes the pattern language ask of a parser factory
pub fn order_event(src: &str) -> Value {
    about(format!("compiling {:?}", src));
    ORDERS.with(|o| o.borrow_mut().clear());
    let r = match call(|| parser::pattern_with_factory::<Clerk>(src)) {
        None => json!({"k": 2}),
        Some(Err(e)) => json!({"k": 0, "off": e.offset, "line": e.line, "col": e.column, "exp": wanted(&e),
                               "shown": text(&call(|| format!("{}", e)).unwrap_or_default().chars().take(400).collect::<String>())}),
        Some(Ok(toks)) => {
            let orders = ORDERS.with(|o| o.borrow().clone());
            let seen: Vec<Value> = toks
                .iter()
                .map(|t| match *t {
                    TokenType::Literal(ref s) => json!({"t": "lit", "s": text(s)}),
                    TokenType::Parser(ref q) => match q.name().and_then(|n| n.parse::<usize>().ok()).and_then(|n| orders.get(n)) {
                        None => json!({"t": "none"}),
                        Some(o) => json!({"t": o.t, "name": opt_text(o.name.as_ref().map(|s| &s[..])), "cs": text(&o.cs),
                            "params": o.params.iter().map(|p| json!([if p.0 == "min_len" { "min" } else if p.0 == "max_len" { "max" } else { "?" },
                                                                     p.1.min(CAP)])).collect::<Vec<_>>(),
                            "end": opt_text(o.end.as_ref().map(|s| &s[..]))}),
                    },
                })
                .collect();
            json!({"k": 1, "toks": seen})
        }
    };
    json!({"e": "order", "src": text(src), "r": r})
}

const PIECES: &[&str] = &[
    "%{", "}", "%", "{", "\\%\\{", "\\", "INT", "SET", "GREEDY", "(", ")", "\"", ",", " ", "min_len=", "max_len=", "min_len", "=", "0", "1",
    "12", ":", "n", "-", ".", "_", "é", "😀", "\n", "\r\n", "18446744073709551615", "18446744073709551616", "99999999999999999999999",
    "%{INT:x}", "%{SET(\"ab\"):y}", "%{GREEDY:z}", "%{INT(min_len=1,max_len=2)}", "%{SET(\"a b\", max_len=3)}", "int", "set", "greedy", "a", "b",
];

pub fn mutate_src(rng: &mut Rng, src: &str) -> String {
    let mut cs: Vec<char> = src.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let i = rng.range(0, cs.len());
        match rng.below(7) {
            0 => cs.truncate(i),
            1 if i < cs.len() => {
                cs.remove(i);
            }
            2 if i < cs.len() => {
                let c = cs[i];
                cs.insert(i, c);
            }
            3 if i + 1 < cs.len() => cs.swap(i, i + 1),
            4 if i < cs.len() => {
                let j = rng.range(i, cs.len());
                cs.drain(i..j);
            }
            5 if rng.chance(25) => cs.insert(i, *rng.pick(OVERLOOKED)),
            _ => {
                let piece: Vec<char> = rng.pick(PIECES).chars().collect();
                for (k, c) in piece.into_iter().enumerate() {
                    cs.insert(i + k, c);
                }
            }
        }
    }
    cs.into_iter().collect()
}

pub fn sources(prop: &str, rng: &mut Rng, out: &mut Out) {
    let which = *rng.pick(&[0, 1, 2, 3, 3, 8]);
    let mut p = profile(rng, which);
    if which != 3 {
        p.names = vec!["x", "y", "x.y", "_a1", ".b"];
        if rng.chance(50) {
            p.words = vec!["a", "%", "{", "}", "\\", "%{", "\"", "(", "é", ":", "\n", "INT", "%}", "\\%"];
        }
    }
    let mut toks = pattern(rng, &p, &[]);
    tie_ends(&mut toks);
    if let Some(src) = to_src(&toks, rng.next() >> 8) {
        let broken = rng.chance(if prop == "C09" { 25 } else { 80 });
        if broken {
            for _ in 0..3 {
                let s = mutate_src(rng, &src);
                out.put(compile_event(&s, None, prop == "C09"));
                if rng.chance(40) {
                    out.put(order_event(&s));
                }
            }
        } else {
            out.put(compile_event(&src, Some(&toks), true));
            out.put(order_event(&src));
        }
    }
    if rng.chance(30) {
        let src: String = (0..rng.range(1, 6)).map(|_| *rng.pick(PIECES)).collect();
        out.put(compile_event(&src, None, prop == "C09"));
        out.put(order_event(&src));
    }
    if rng.chance(30) {
        // parameters of all kinds
        let n = rng.range(0, 5);
        let mut params: Vec<String> = (0..n).map(|_| format!("{}={}", *rng.pick(&["min_len", "max_len"]), *rng.pick(&["0", "1", "2", "007", "10", "999999999", "1000000000", "18446744073709551615"]))).collect();
        if rng.chance(15) {
            params.push((*rng.pick(&["", "len=1", "min_len", "min_len=", "max_len=x", "MIN_LEN=1", " "])).to_owned());
        }
        let params = params.join(*rng.pick(&[",", ", ", ",   "]));
        let name = *rng.pick(&["", "", ":n", ":a.b", ":_", ":x1", ":a-b", ":-", ":"]);
        let lead = if rng.chance(30) { *rng.pick(&["a", "%", "%{GREEDY}", "%{GREEDY:g}\\%\\{", "é"]) } else { "" };
        let src = match rng.below(3) {
            0 => format!("{}%{{INT({}){}}}", lead, params, name),
            1 => format!("{}%{{SET(\"ab{}\"{}{}){}}}", lead, *rng.pick(&["", "a", "é", "\\", "%{", " "]), if params.is_empty() { *rng.pick(&["", ",", ", "]) } else { "," }, params, name),
            _ => format!("{}%{{GREEDY{}}}{}", lead, name, *rng.pick(&["", "x", "\\%\\{", "%{INT}", "a%{GREEDY:z}"])),
        };
        out.put(order_event(&src));
    }
}

/// texts that are large in one respect
pub fn big_sources(prop: &str, rng: &mut Rng, out: &mut Out) {
    let par = |kind: Kind, name: Option<String>, cs: &str, min: Option<usize>, max: Option<usize>, end: Option<String>| {
        Tok::Par(Par { kind, name, cs: cs.to_owned(), min, max, end })
    };
    let mut all: Vec<(String, Option<Vec<Tok>>)> = Vec::new();
    for n in &[2usize, 3, 9, 40, 255, 256, 257, 300, 1100] {
        let n = *n;
        // lines
        let lines: String = (0..n).map(|i| if i % 3 == 0 { "é\n" } else { "ab\r\n" }).collect();
        all.push((lines.clone(), Some(vec![Tok::Lit(lines.clone())])));
        all.push((format!("{}xy%{{INT:n}}{}", lines, lines), None));
        // pieces
        let toks: Vec<Tok> = (0..n).map(|i| match i % 4 {
            0 => Tok::Lit(format!("l{}", i)),
            1 => par(Kind::Int, Some(format!("n{}", i)), "", None, Some(i), None),
            2 => par(Kind::Set, None, "ab", Some(i), None, None),
            _ => par(Kind::Greedy, Some(format!("g.{}", i)), "", None, None, if i + 1 < n { Some(format!("l{}", i + 1)) } else { None }),
        }).collect();
        if let Some(src) = to_src(&toks, rng.next() >> 8) {
            all.push((src, Some(toks)));
        }
        if n == 300 {
            // many pieces
            for m in &[513usize, 1030, 2100] {
                let src: String = (0..*m).map(|i| match i % 4 { 0 => "a", 1 => "%{INT:n}", 2 => "b ", _ => "%{SET(\"cd\")}" }).collect();
                let toks = (0..*m).map(|i| match i % 4 {
                    0 => Tok::lit("a"),
                    1 => par(Kind::Int, Some("n".into()), "", None, None, None),
                    2 => Tok::lit("b "),
                    _ => par(Kind::Set, None, "cd", None, None, None),
                }).collect();
                all.push((src, Some(toks)));
                all.push(("%{INT}".repeat(*m), Some((0..*m).map(|_| par(Kind::Int, None, "", None, None, None)).collect())));
                all.push(("%{GREEDY}".repeat(*m), Some((0..*m).map(|_| par(Kind::Greedy, None, "", None, None, None)).collect())));
            }
        }
        // parameters, of which the last ones count
        let many: String = (0..n).map(|i| format!("{}={}", if i % 2 == 0 { "min_len" } else { "max_len" }, i)).collect::<Vec<_>>().join(", ");
        let (min, max) = ((n - 1) / 2 * 2, if n % 2 == 0 { n - 1 } else { n - 2 });
        all.push((format!("%{{INT({}):x}}", many), Some(vec![par(Kind::Int, Some("x".into()), "", Some(min), Some(max), None)])));
        all.push((format!("%{{SET(\"a\", {})}}", many), Some(vec![par(Kind::Set, None, "a", Some(min), Some(max), None)])));
        // spaces and zeros
        let (sp, ze) = (" ".repeat(n), "0".repeat(n));
        all.push((format!("%{{INT(min_len={}1,{}max_len={}{})}}", ze, sp, ze, n), Some(vec![par(Kind::Int, None, "", Some(1), Some(n), None)])));
        all.push((format!("%{{SET(\"{}\",{}max_len={})}}", sp, sp, ze), Some(vec![par(Kind::Set, None, " ", None, Some(0), None)])));
        // names, sets, escapes
        let name: String = (0..n).map(|i| if i % 5 == 3 { '.' } else { 'n' }).collect();
        all.push((format!("%{{INT:{}}}", name), Some(vec![par(Kind::Int, Some(name.clone()), "", None, None, None)])));
        all.push((format!("%{{SET(\"ab\"):{}}}", name), Some(vec![par(Kind::Set, Some(name.clone()), "ab", None, None, None)])));
        all.push((format!("%{{GREEDY:{}}}", name), Some(vec![par(Kind::Greedy, Some(name.clone()), "", None, None, None)])));
        let cs: String = (0..n).map(|i| std::char::from_u32(0x21 + 3 * i as u32 + (i / 9) as u32).unwrap()).filter(|c| *c != '"').collect();
        all.push((format!("%{{SET(\"{}\"):s}}", cs), Some(vec![par(Kind::Set, Some("s".into()), &cs, None, None, None)])));
        let open = "%{".repeat(n);
        all.push(("\\%\\{".repeat(n), Some(vec![Tok::Lit(open.clone())])));
        all.push((format!("%{{GREEDY}}{}", "\\%\\{".repeat(n)), Some(vec![par(Kind::Greedy, None, "", None, None, Some(open.clone())), Tok::Lit(open)])));
    }
    for n in &[4000usize, *rng.pick(&[65534, 65536]), 70000] {
        let lit: String = (0..*n).map(|_| *rng.pick(&['a', 'b', '%', '{', '€', '}', ' '])).collect::<String>().replace("%{", "%.");
        all.push((lit.clone(), Some(vec![Tok::Lit(lit.clone())])));
        all.push((format!("{}%{{GREEDY:r}}{}", lit, lit), Some(vec![Tok::Lit(lit.clone()), par(Kind::Greedy, Some("r".into()), "", None, None, Some(lit.clone())), Tok::Lit(lit.clone())])));
        all.push((format!("{}%{{INT:r}}", lit), Some(vec![Tok::Lit(lit), par(Kind::Int, Some("r".into()), "", None, None, None)])));
    }
    for (src, toks) in all {
        if prop == "C09" {
            out.put(compile_event(&src, toks.as_ref().map(|t| &t[..]), src.len() < 20));
            continue;
        }
        if rng.chance(20) {
            continue;
        }
        {
            let s = match rng.below(4) {
                0 => format!("{}%{{", src),
                1 => format!("{}%{{INT:a}}%{{SET(", src),
                2 => format!("{}%{{INT(min_len=x)}}%{{GREEDY}}", src),
                _ => {
                    let cs: Vec<char> = src.chars().collect();
                    let k = cs.len() - rng.range(1, cs.len().min(9));
                    let mut s: String = cs[..k].iter().collect();
                    s.push_str(*rng.pick(&["%{", "%{}", "%{INT:}", "%{SET(\"\")}"]));
                    s.extend(&cs[k..]);
                    s
                }
            };
            out.put(compile_event(&s, None, false));
        }
    }
}

// ---------------------------------------------------------------- loading

pub struct Item {
    pub bad: bool,
    pub pat: Pat,
    /// answers of a matcher to which the readable items up to this one were added
    pub answers: Vec<Value>,
}

fn ans_json(a: &Value) -> Value {
    match a["k"].as_u64() {
        Some(1) => json!([[a["id"], a["vals"]]]),
        _ => json!([]),
    }
}

fn find_uuid(pats: &[Item], s: &str) -> i64 {
    pats.iter().find(|i| !i.bad && i.pat.uuid.hyphenated().to_string() == s).map_or(-1, |i| i.pat.id)
}

fn bad_mark(i: &Item) -> String {
    format!("bad item {};", i.pat.id)
}

/// the error that stands for an item which could not be read, in one of several kinds
fn bad_error(i: &Item, dir: &std::path::Path) -> BuildError {
    use std::io::{Error, ErrorKind};
    let io = |kind| BuildError::Io(Error::new(kind, bad_mark(i)));
    let doc = |json: bool| {
        // a document with a field that does not exist
        let tree = Tree::O(vec![("patterns".to_owned(), Tree::A(vec![Tree::O(vec![(bad_mark(i), Tree::N(0))])]))]);
        let path = dir.join(if json { "bad.json" } else { "bad.yaml" });
        std::fs::write(&path, if json { tree.to_json_text(0) } else { tree.to_yaml_text() }).expect("document");
        let e = load(&path).and_then(|r| r.err());
        let _ = take_log();
        match e {
            Some(e) if call(|| format!("{}", e)).unwrap_or_default().contains(&bad_mark(i)) => e,
            _ => io(ErrorKind::Other),
        }
    };
    match i.pat.how % 12 {
        0 => doc(true),
        1 => doc(false),
        2 => BuildError::UnsupportedFileExtension,
        3 => BuildError::NotUtf8FileName,
        4 => io(ErrorKind::NotFound),
        5 => io(ErrorKind::PermissionDenied),
        6 => io(ErrorKind::InvalidData),
        7 => io(ErrorKind::UnexpectedEof),
        8 => io(ErrorKind::Interrupted),
        9 => io(ErrorKind::WouldBlock),
        _ => io(ErrorKind::Other),
    }
}

#[allow(deprecated)]
fn brief<E: std::error::Error>(e: &E) -> &str {
    e.description()
}

fn of_each_kind() -> Vec<TestError> {
    let u = uuid_of(1);
    let t = actiondb::matcher::pattern::testmessage::TestMessage::new("m".into(), Default::default(), None);
    vec![
        TestError::value_not_match(&u, "k", "a", "b"),
        TestError::key_not_found(&u, "k"),
        TestError::test_message_does_not_match(&u, &t),
        TestError::matched_to_other_pattern(&u, &uuid_of(2), "m"),
        TestError::unexpected_tags(&u, None, None),
    ]
}

fn err_json(e: &BuildError, items: &[Item]) -> Value {
    let rendered = call(|| format!("{}", e)).unwrap_or_default();
    let mut j = json!({"kind": kind(e), "id": -1, "other": -1, "key": [], "want": [], "got": [], "m": [], "wtags": [], "gtags": []});
    match *e {
        BuildError::TestMessage(ref t) => match *t {
            TestError::ValueNotMatch { ref pattern_uuid, ref key, ref expected_value, ref got_value } => {
                j["kind"] = json!("value");
                j["id"] = json!(find_uuid(items, pattern_uuid));
                j["key"] = text(key);
                j["want"] = text(expected_value);
                j["got"] = text(got_value);
            }
            TestError::KeyNotFound { ref pattern_uuid, ref key } => {
                j["kind"] = json!("key");
                j["id"] = json!(find_uuid(items, pattern_uuid));
                j["key"] = text(key);
            }
            TestError::TestMessageDoesntMatch { ref pattern_uuid, ref message } => {
                j["kind"] = json!("nomatch");
                j["id"] = json!(find_uuid(items, pattern_uuid));
                j["m"] = text(message);
            }
            TestError::MatchedToOtherPattern { ref expected_uuid, ref got_uuid, ref message } => {
                j["kind"] = json!("other");
                j["id"] = json!(find_uuid(items, expected_uuid));
                j["other"] = json!(find_uuid(items, got_uuid));
                j["m"] = text(message);
            }
            TestError::UnexpectedTags { ref pattern_uuid, ref expected, ref got } => {
                j["kind"] = json!("tags");
                j["id"] = json!(find_uuid(items, pattern_uuid));
                j["wtags"] = opt_texts(expected.as_ref().map(|v| &v[..]));
                j["gtags"] = opt_texts(got.as_ref().map(|v| &v[..]));
            }
        },
        BuildError::Io(_) | BuildError::DeserJson(_) | BuildError::DeserYaml(_) => {
            if let Some(i) = items.iter().find(|i| i.bad && i.pat.how % 12 != 2 && i.pat.how % 12 != 3 && rendered.contains(&bad_mark(i))) {
                j["kind"] = json!("bad");
                j["id"] = json!(i.pat.id);
            }
        }
        BuildError::UnsupportedFileExtension | BuildError::NotUtf8FileName => {
            // nothing tells one of these from another
            let how = if let BuildError::NotUtf8FileName = *e { 3 } else { 2 };
            if let Some(i) = items.iter().find(|i| i.bad && i.pat.how % 12 == how) {
                j["kind"] = json!("bad");
                j["id"] = json!(i.pat.id);
            }
        }
    }
    j["text"] = text(&rendered);
    if let BuildError::TestMessage(ref t) = *e {
        // the short descriptions, here and of each kind
        j["desc"] = text(brief(e));
        j["plain"] = json!((brief(e) == brief(t) && rendered == format!("{}", t)) as u32);
        j["descs"] = json!(of_each_kind().iter().map(|k| text(brief(k))).collect::<Vec<_>>());
    }
    j
}

fn strings(m: &std::collections::BTreeMap<String, String>) -> Tree {
    Tree::O(m.iter().map(|(k, v)| (k.clone(), Tree::S(v.clone()))).collect())
}

fn list(v: &[String]) -> Tree {
    Tree::A(v.iter().map(|s| Tree::S(s.clone())).collect())
}

pub fn pat_tree(p: &Pat, src: &str) -> Tree {
    let mut o = vec![("uuid".to_owned(), Tree::S(p.uuid.hyphenated().to_string())), ("pattern".to_owned(), Tree::s(src))];
    if let Some(ref n) = p.name {
        o.push(("name".to_owned(), Tree::S(n.clone())));
    }
    if let Some(ref v) = p.values {
        o.push(("values".to_owned(), strings(v)));
    }
    if let Some(ref t) = p.tags {
        o.push(("tags".to_owned(), list(t)));
    }
    if !p.tests.is_empty() {
        let tests = p
            .tests
            .iter()
            .map(|t| {
                let mut o = vec![("message".to_owned(), Tree::S(t.m.clone()))];
                if !t.values.is_empty() {
                    o.push(("values".to_owned(), strings(&t.values)));
                }
                if let Some(ref tags) = t.tags {
                    o.push(("tags".to_owned(), list(tags)));
                }
                Tree::O(o)
            })
            .collect();
        o.push(("test_messages".to_owned(), Tree::A(tests)));
    }
    Tree::O(o)
}

/// loads the items and tells what came of it; None if there is nothing to compare with
pub fn run_load<F>(items: &mut Vec<Item>, mode: &str, via: &str, probes: &[String], dir: &std::path::Path, style: usize) -> Option<Value>
where
    F: MatcherFactory,
{
    // what a matcher to which the items are added one by one answers
    let mut ids = Ids::default();
    let order: Vec<usize> = if via == "source" { (0..items.len()).collect() } else { (0..items.len()).rev().collect() };
    for i in items.iter().filter(|i| !i.bad) {
        ids.add(&i.pat);
    }
    let mut reference = F::new_matcher();
    for &n in &order {
        if items[n].bad {
            continue;
        }
        let pat = items[n].pat.clone();
        let built = pat.build();
        if call(|| reference.add_pattern(built)).is_none() {
            return None;
        }
        let answers: Vec<Value> =
            items[n].pat.tests.iter().map(|t| answer(call(|| reference.parse(&t.m)), &ids, false)).collect();
        if answers.iter().any(|a| a["k"] == json!(2)) {
            return None;
        }
        items[n].answers = answers;
    }
    let _ = take_log();
    about(format!("{} loading via {} of {:?}", mode, via, items.iter().map(|i| &i.pat).collect::<Vec<_>>()));
    let result: Option<Result<F::Matcher, BuildError>> = if via == "source" {
        let results: Vec<BuildResult> = items
            .iter()
            .map(|i| {
                if i.bad {
                    Err(bad_error(i, dir))
                } else {
                    Ok(i.pat.build())
                }
            })
            .collect();
        let _ = take_log();
        if mode == "strict" {
            call(|| F::Matcher::from_source::<F>(&mut results.into_iter()))
        } else {
            call(|| Ok(F::Matcher::from_source_ignore_errors::<F>(&mut results.into_iter())))
        }
    } else {
        let tree = Tree::O(vec![(
            "patterns".to_owned(),
            Tree::A(items.iter().map(|i| pat_tree(&i.pat, i.pat.src.as_ref().unwrap())).collect()),
        )]);
        // a file can also be opened first and loaded from then
        let opened = via.starts_with("open ");
        let via = via.trim_start_matches("open ");
        let path = dir.join(format!("load.{}", via));
        let content = if via.to_lowercase() == "json" { tree.to_json_text(style) } else { tree.to_yaml_text() };
        std::fs::write(&path, content).expect("pattern file");
        let p = path.to_str().unwrap().to_owned();
        if opened {
            match load(&path) {
                Some(Ok(file)) => {
                    // this is how the loading of a file was specified, whatever the file hands out first
                    let mut source = file.into_iter();
                    if mode == "strict" {
                        call(|| F::Matcher::from_source::<F>(&mut source))
                    } else {
                        call(|| Ok(F::Matcher::from_source_ignore_errors::<F>(&mut source)))
                    }
                }
                Some(Err(e)) => Some(Err(e)),
                None => None,
            }
        } else if mode == "strict" {
            call(|| PatternLoader::from_file::<F>(&p))
        } else {
            call(|| PatternLoader::from_file_ignore_errors::<F>(&p))
        }
    };
    let logged = take_log();
    let (outcome, err, probed) = match result {
        None => ("panic", json!({"kind": "none"}), vec![]),
        Some(Err(ref e)) => ("err", err_json(e, items), vec![]),
        Some(Ok(ref m)) => (
            "ok",
            json!({"kind": "none"}),
            probes
                .iter()
                .map(|t| {
                    json!([answer(call(|| m.parse(t)), &ids, false), answer(call(|| reference.parse(t)), &ids, false)])
                })
                .collect(),
        ),
    };
    let items_json: Vec<Value> = items
        .iter()
        .map(|i| {
            let tests: Vec<Value> = if i.bad {
                vec![]
            } else {
                i.pat
                    .tests
                    .iter()
                    .zip(&i.answers)
                    .map(|(t, a)| json!({"m": text(&t.m), "values": kvs(&t.values), "tags": opt_texts(t.tags.as_ref().map(|v| &v[..])), "ans": ans_json(a)}))
                    .collect()
            };
            let mark = if i.bad {
                match i.pat.how % 12 {
                    2 | 3 => call(|| format!("{}", bad_error(i, dir))).unwrap_or_default(),
                    _ => bad_mark(i),
                }
            } else { i.pat.uuid.hyphenated().to_string() };
            json!({"bad": i.bad as u32, "id": i.pat.id,
                   "values": kvs(&i.pat.values.clone().unwrap_or_default()),
                   "tags": opt_texts(i.pat.tags.as_ref().map(|v| &v[..])), "tests": tests, "mark": text(&mark)})
        })
        .collect();
    Some(json!({"e": "load", "mode": mode, "rev": (via != "source") as u32, "items": items_json, "out": outcome, "err": err,
                   "log": logged.iter().map(|s| text(s)).collect::<Vec<_>>(), "probes": probed}))
}

/// a test message held against a result that no matcher was needed for
pub fn judge(rng: &mut Rng, out: &mut Out) {
    let which = *rng.pick(&[0, 1, 2, 8]);
    let p = profile(rng, which);
    let mut pat = Pat::new(rng.range(1, 9) as i64, vec![Tok::lit("a")]);
    pat.how = rng.next() >> 8;
    if rng.chance(70) {
        pat.values = Some(some_values(rng, &p, 4));
    }
    if rng.chance(70) {
        pat.tags = Some(some_tags(rng, 4));
    }
    let keys: Vec<String> = pat.values.iter().flat_map(|v| v.keys().cloned()).collect();
    let parsed: Vec<(Option<String>, String)> = (0..rng.range(0, 4))
        .map(|_| {
            let name = match rng.below(4) {
                0 => None,
                1 if !keys.is_empty() => Some(rng.pick(&keys).clone()),
                _ => Some((*rng.pick(&p.names)).to_owned()),
            };
            (name, if rng.chance(20) { (*rng.pick(&["7", "007", "10", "0", "00", "1.0", "-1", "18446744073709551616"])).to_owned() } else { any_value(rng, &p) })
        })
        .collect();
    let parsers: Vec<Box<dyn Parser>> = parsed
        .iter()
        .map(|q| Par { kind: *rng.pick(&[Kind::Set, Kind::Int, Kind::Greedy]), name: q.0.clone(), cs: "ab".into(), min: None, max: None, end: None }.build(rng.next() >> 8))
        .collect();
    let pattern = pat.build();
    let mut result = MatchResult::new(&pattern);
    for (q, v) in parsers.iter().zip(&parsed) {
        result.insert(ParseResult::new(&**q, &v.1));
    }
    let seen = Value::Array(result.values().iter().map(|(k, v)| json!([text(k), text(v)])).collect());
    let mut values = pat.values.clone().unwrap_or_default();
    values.extend(result.values().iter().map(|(k, v)| ((*k).to_owned(), (*v).to_owned())));
    for key in values.keys().cloned().collect::<Vec<_>>() {
        if rng.chance(30) {
            values.remove(&key);
        } else if rng.chance(12) {
            let own = pat.values.as_ref().and_then(|v| v.get(&key)).cloned();
            let wrong = match own {
                Some(own) if rng.chance(50) => own,
                _ if rng.chance(50) => alike(rng, &values[&key]),
                _ => any_text(rng, &p, 3),
            };
            values.insert(key, wrong);
        }
    }
    if rng.chance(12) {
        values.extend(some_values(rng, &p, 1));
    }
    let mut tags = None;
    if rng.chance(60) {
        let mut v: Vec<String> = pat.tags.clone().unwrap_or_default();
        v.retain(|_| rng.chance(70));
        if rng.chance(15) {
            v.extend(some_tags(rng, 2));
        }
        if rng.chance(20) && !v.is_empty() {
            let again = rng.pick(&v).clone();
            v.push(again);
        }
        if rng.chance(30) {
            v.reverse();
        }
        tags = Some(v);
    }
    pat.tests = vec![Test { m: any_text(rng, &p, 3), values, tags }];
    let t = &pat.tests[0];
    let built = t.build();
    let copy = built.clone();
    let same = built.message() == t.m && copy.message() == t.m && *built.values() == t.values && *copy.values() == t.values
        && built.tags() == t.tags.as_ref().map(|v| &v[..]) && copy.tags() == built.tags();
    let verdict = call(|| if rng.chance(50) { built.test_result(&result) } else { copy.test_result(&result) });
    let test = json!({"m": text(&t.m), "values": kvs(&t.values), "tags": opt_texts(t.tags.as_ref().map(|v| &v[..])), "ans": [[pat.id, seen]]});
    let item = json!({"bad": 0, "id": pat.id, "values": kvs(&pat.values.clone().unwrap_or_default()), "tags": opt_texts(pat.tags.as_ref().map(|v| &v[..])),
                      "tests": [test], "mark": text(&pat.uuid.hyphenated().to_string())});
    let items = vec![Item { bad: false, pat, answers: vec![] }];
    let (outcome, err) = match verdict {
        None => ("panic", json!({"kind": "none"})),
        Some(Ok(())) => ("ok", json!({"kind": "none"})),
        Some(Err(e)) => ("err", err_json(&BuildError::from(e), &items)),
    };
    let ins: Vec<Value> = parsed.iter().map(|q| json!([opt_text(q.0.as_ref().map(|s| &s[..])), text(&q.1)])).collect();
    out.put(json!({"e": "judge", "items": [item], "ins": ins, "out": outcome, "err": err, "same": same as u32}));
}

pub fn loads(prop: &str, rng: &mut Rng, out: &mut Out) {
    if prop == "C11" || prop == "C22" {
        judge(rng, out);
        judge(rng, out);
    }
    let dir = scratch();
    let which = *rng.pick(&[0, 1, 1, 3, 8]);
    let mut p = profile(rng, which);
    p.derive = 50;
    if which != 3 {
        p.names = vec!["x", "y", "z"];
    }
    p.alphabet.retain(|c| *c != '\0');
    let large = rng.chance(3);
    let n = match prop {
        _ if large => rng.range(7, 30),
        "C11" | "C22" => rng.range(1, 3),
        _ => rng.range(1, 6),
    };
    let via = *rng.pick(&["source", "source", "source", "source", "json", "json", "yaml", "yml", "YAML", "YML", "open json", "open yml"]);
    let mode = match prop {
        "C12" => "strict",
        "C13" => "lenient",
        _ => {
            if rng.chance(75) {
                "strict"
            } else {
                "lenient"
            }
        }
    };
    // uuids that differ in a byte only
    let family = if rng.chance(15) { Some((*rng.pick(&[0u8, 255, 0x40]), *rng.pick(&[0usize, 1, 7, 8, 14, 15]))) } else { None };
    let mut toks: Vec<Vec<Tok>> = Vec::new();
    let mut pats: Vec<Pat> = Vec::new();
    for i in 0..n {
        let mut t = pattern(rng, &p, &toks);
        tie_ends(&mut t);
        let mut pat = Pat::new(i as i64 + 1, t);
        pat.how = rng.next() >> 8;
        pat.src = to_src(&pat.toks, pat.how);
        // a pattern whose text cannot be read is not what is looked at here
        let readable = pat.src.as_ref().map_or(false, |s| call(|| parser::pattern(s).is_ok()).unwrap_or(false));
        if !readable {
            continue;
        }
        if let Some((fill, at)) = family {
            let mut bytes = [fill; 16];
            bytes[at] = i as u8 + 1;
            pat.uuid = uuid::Uuid::from_bytes(&bytes).unwrap();
        }
        toks.push(pat.toks.clone());
        if rng.chance(50) {
            pat.values = Some(some_values(rng, &p, 3));
        }
        if rng.chance(60) {
            pat.tags = Some(some_tags(rng, 3));
        }
        if !pats.is_empty() && rng.chance(8) {
            // the uuid of another pattern, and what comes with it
            let other = if rng.chance(60) { pats.last().unwrap() } else { rng.pick(&pats) };
            pat.id = other.id;
            pat.uuid = other.uuid;
            pat.values = other.values.clone();
            pat.tags = other.tags.clone();
        } else if pats.is_empty() && rng.chance(6) {
            pat.uuid = uuid::Uuid::from_bytes(&[*rng.pick(&[0u8, 255]); 16]).unwrap();
        }
        if rng.chance(30) {
            pat.name = Some((*rng.pick(&["n", "", "a name", "é", "SYSTEM_LOG"])).to_owned());
        }
        pats.push(pat);
    }
    if pats.is_empty() {
        return;
    }
    // expectations, most of which hold: what the patterns answer one after the other
    let fail = match prop {
        "C12" => *rng.pick(&[0, 10, 30]),
        "C13" => 30,
        _ => 35,
    };
    let order: Vec<usize> = if via == "source" { (0..pats.len()).collect() } else { (0..pats.len()).rev().collect() };
    let mut reference = Pair::new();
    let mut ids = Ids::default();
    for &k in &order {
        ids.add(&pats[k]);
        if reference.add(&pats[k]) != 0 {
            return;
        }
        let tests = match prop {
            _ if rng.chance(4) => rng.range(4, 14),
            "C11" | "C22" => rng.range(1, 2),
            _ => rng.range(0, 3),
        };
        // with many messages one of the later ones is to fail
        let fail = if (tests > 3 || large) && rng.chance(60) { 3 } else { fail };
        for _ in 0..tests {
            let t = pats[k].toks.clone();
            let mut m = instance(rng, &p, &t);
            if rng.chance(fail / 2) {
                m = mutate(rng, &p, &m);
            }
            let a = reference.ask(&m, &ids, false);
            if (a[0]["k"] != json!(1) || a[0]["id"] != json!(pats[k].id)) && !rng.chance(fail) {
                continue;
            }
            let mut values = pats[k].values.clone().unwrap_or_default();
            if a[0]["k"] == json!(1) {
                values.extend(unkvs(&a[0]["vals"]));
            }
            let keys: Vec<String> = values.keys().cloned().collect();
            for key in keys {
                if rng.chance(30) {
                    values.remove(&key);
                } else if rng.chance(fail / 3) {
                    // sometimes what the pattern itself says
                    let own = pats[k].values.as_ref().and_then(|v| v.get(&key)).cloned();
                    let wrong = match own {
                        Some(own) if rng.chance(50) => own,
                        _ if rng.chance(40) => alike(rng, &values[&key]),
                        _ => any_text(rng, &p, 3),
                    };
                    values.insert(key, wrong);
                }
            }
            if rng.chance(fail / 3) {
                values.extend(some_values(rng, &p, 1));
            }
            let mut tags: Option<Vec<String>> = None;
            if rng.chance(60) {
                let mut v: Vec<String> = pats[k].tags.clone().unwrap_or_default();
                v.retain(|_| rng.chance(70));
                if rng.chance(fail / 2) {
                    v.extend(some_tags(rng, 2));
                }
                if rng.chance(30) {
                    v.reverse();
                }
                tags = Some(v);
            }
            pats[k].tests.push(Test { m, values, tags });
        }
    }
    let mut items: Vec<Item> = Vec::new();
    let bad_chance = match (prop, via) {
        ("C12", "source") => 6,
        ("C13", "source") => 25,
        _ => 0,
    };
    for pat in pats {
        if rng.chance(bad_chance) {
            let mut pat = Pat::new(100 + items.len() as i64, vec![]);
            pat.how = rng.next() >> 8;
            items.push(Item { bad: true, pat, answers: vec![] });
        }
        items.push(Item { bad: false, pat, answers: vec![] });
    }
    if prop == "C13" && rng.chance(30) {
        // the same pattern given twice
        let mut again = items[0].pat.clone();
        again.tests.clear();
        if !items[0].bad {
            items.push(Item { bad: false, pat: again, answers: vec![] });
        }
    }
    let probes: Vec<String> = (0..6).map(|_| message(rng, &p, &toks)).collect();
    let style = rng.below(2);
    if let Some(e) = run_load::<TrieFactory>(&mut items, mode, via, &probes, &dir, style) {
        out.put(e);
    }
    if let Some(e) = run_load::<TableFactory>(&mut items, mode, via, &probes, &dir, style) {
        out.put(e);
    }
}

/// names that stand in another order than the numbers
fn nth(d: usize) -> String {
    let letter = |n: usize| (b'a' + (n * 11 % 26) as u8) as char;
    format!("{}{}{}", letter(d), letter(d / 26), letter(d / 676))
}

/// loads that are large in one respect, in order but for one expectation or two
pub fn big_loads(prop: &str, rng: &mut Rng, out: &mut Out) {
    let dir = scratch();
    let modes: &[&str] = match prop {
        "C12" => &["strict"],
        "C13" => &["lenient"],
        _ => &["strict", "lenient"],
    };
    for shape in 0..12 {
        for mode in modes {
            // what is many of is captured, or attached to the pattern
            let captured = shape % 4 == 2 && rng.chance(50);
            let n = if captured { *rng.pick(&[17usize, 40, 65, 130]) } else { *rng.pick(&[255usize, 257, 300, 1100]) };
            let (patterns, tests, data) = match shape % 4 {
                0 => (n, 1, 1),
                1 => (1, n, 1),
                2 => (2, 1, n),
                _ => (2, 2, 1),
            };
            let via = *rng.pick(&["source", "source", "json", "yaml", "yml", "YAML"]);
            let spoilt: Vec<usize> = match rng.below(7) {
                0 | 5 | 6 => vec![],
                1 => vec![0],
                2 => vec![n - 1],
                3 => vec![n - 2, rng.below(n)],
                _ => vec![rng.below(n)],
            };
            let mut items: Vec<Item> = Vec::new();
            let mut count = 0;
            let blob: String = if shape % 4 == 3 { (0..*rng.pick(&[300usize, 5000, 66000])).map(|_| *rng.pick(&['a', 'b', ' ', 'é'])).collect() } else { "v".into() };
            for i in 0..patterns {
                let int = |name: &str| Tok::Par(Par { kind: Kind::Int, name: Some(name.into()), cs: String::new(), min: None, max: None, end: None });
                let mut toks = vec![
                    Tok::Lit(format!("p{} ", i)),
                    int("x"),
                    Tok::Par(Par { kind: Kind::Greedy, name: Some("r".into()), cs: String::new(), min: None, max: None, end: None }),
                ];
                if captured {
                    toks.pop();
                    for d in 0..data {
                        toks.push(Tok::lit("/"));
                        toks.push(int(&format!("k.{}", nth(d))));
                    }
                }
                let mut pat = Pat::new(i as i64 + 1, toks);
                pat.src = to_src(&pat.toks, 0);
                let tag = |first: char, d: usize| if data == 1 { format!("{}{}{}", first, blob.chars().take(1200).collect::<String>(), d) } else { format!("{}{}", first, d) };
                pat.tags = Some((0..data).map(|d| tag('t', d)).collect());
                pat.values = if captured { None } else { Some((0..data).map(|d| (format!("k{}", d), format!("{}{}", blob, d))).collect()) };
                for t in 0..tests {
                    let mut values = pat.values.clone().unwrap_or_default();
                    values.insert("x".into(), format!("{}", t));
                    let mut tags = pat.tags.clone().unwrap();
                    let mut m = format!("p{} {}{}", i, t, if shape % 4 == 3 { format!(".{}", blob) } else { String::new() });
                    if shape % 4 == 3 {
                        values.insert("r".into(), format!(".{}", blob));
                    }
                    if captured {
                        for d in 0..data {
                            m.push_str(&format!("/{}", d * 7));
                            values.insert(format!("k.{}", nth(d)), format!("{}", d * 7));
                        }
                    }
                    for d in 0..data {
                        if spoilt.contains(&count) || (shape % 4 == 3 && !spoilt.is_empty() && i == 0 && t == 1) {
                            match rng.below(3) {
                                0 => tags.push(tag('u', d)),
                                1 => {
                                    values.insert(if captured { format!("k.{}", nth(d)) } else { format!("k{}", d) }, format!("{}w", blob));
                                }
                                _ => {
                                    if data == 1 && rng.chance(50) {
                                        m.insert(0, 'p');
                                    } else {
                                        values.insert(format!("l{}", d), blob.clone());
                                    }
                                }
                            }
                        }
                        count += 1;
                    }
                    pat.tests.push(Test { m, values, tags: Some(tags) });
                }
                items.push(Item { bad: false, pat, answers: vec![] });
            }
            let probes = vec!["p0 1x".to_owned(), format!("p{} 1", patterns - 1), format!("p{} 1", patterns / 2), format!("p{} 1", patterns), "p".into()];
            let style = rng.below(2);
            let e = if rng.chance(50) {
                run_load::<TrieFactory>(&mut items, mode, via, &probes, &dir, style)
            } else {
                run_load::<TableFactory>(&mut items, mode, via, &probes, &dir, style)
            };
            if let Some(e) = e {
                out.put(e);
            }
        }
    }
    // patterns that compete for the same messages; long runs of failures
    for shape in 0..8 {
        for mode in modes {
            let n = *rng.pick(&[12usize, 24, 45, 70, 130, 260]);
            let via = if shape < 4 { *rng.pick(&["json", "yaml", "source"]) } else { *rng.pick(&["source", "source", "json"]) };
            let mut items: Vec<Item> = Vec::new();
            let mut probes: Vec<String> = Vec::new();
            let good = *rng.pick(&[0, 1, n / 2, n - 1, n - 2]);
            for i in 0..n {
                let group = if shape < 4 { *rng.pick(&[i / 2, i % 7, i * i % 11]) } else { i };
                let toks = vec![
                    Tok::Lit(format!("p{} ", group)),
                    Tok::Par(Par { kind: Kind::Int, name: Some(format!("x{}", i % 3)), cs: String::new(), min: None, max: if i % 4 == 3 { Some(4) } else { None }, end: None }),
                ];
                let mut pat = Pat::new(i as i64 + 1, toks);
                pat.src = to_src(&pat.toks, 0);
                if i % 9 == 1 {
                    pat.tags = Some(vec![format!("t{}", i)]);
                }
                let m = format!("p{} 7", group);
                if i % (n / 12 + 1) == 0 || i + 2 >= n || i == good {
                    probes.push(m.clone());
                }
                let mut bad = false;
                let spoil = shape >= 4 && (if *mode == "strict" { i == good } else if shape == 7 { i >= good } else { i != good });
                if spoil {
                    match rng.below(if via == "source" { 3 } else { 2 }) {
                        0 => pat.tests = vec![Test { m: format!("q{}", i), values: Default::default(), tags: None }],
                        1 => pat.tests = vec![Test { m: m.clone(), values: Default::default(), tags: Some(vec!["none".into()]) }],
                        _ => bad = true,
                    }
                } else if shape >= 4 {
                    pat.tests = vec![Test { m, values: Default::default(), tags: None }];
                }
                items.push(Item { bad, pat, answers: vec![] });
            }
            probes.push("p".into());
            let style = rng.below(2);
            let e = if rng.chance(50) {
                run_load::<TrieFactory>(&mut items, mode, via, &probes, &dir, style)
            } else {
                run_load::<TableFactory>(&mut items, mode, via, &probes, &dir, style)
            };
            if let Some(e) = e {
                out.put(e);
            }
        }
    }
}

// ---------------------------------------------------------------- documents

/// documents that are large in one respect
pub fn big_documents(rng: &mut Rng, out: &mut Out) {
    let dir = scratch();
    for shape in 0..10 {
        let n = *rng.pick(&[255usize, 256, 257, 300]);
        let long = |rng: &mut Rng| -> String { (0..*rng.pick(&[5000usize, 65536, 70000])).map(|_| *rng.pick(&['a', '%', ' ', 'é', '"', '😀'])).collect::<String>() };
        let mut list = Vec::new();
        let count = if shape == 0 { n } else if shape == 9 { 1 } else { 2 };
        for i in 0..count {
            let mut pat = Pat::new(i as i64 + 7, vec![]);
            let mut src = format!("l{}%{{INT:n}}", i);
            match shape {
                1 => pat.tags = Some((0..n).map(|k| format!("t{}", k % 260)).collect()),
                2 => pat.values = Some((0..n).map(|k| (format!("k{}", k), format!("v{}", k))).collect()),
                3 => pat.tests = (0..n).map(|k| Test { m: format!("m{}", k), values: Default::default(), tags: None }).collect(),
                4 => pat.tests = vec![Test {
                    m: "m".into(),
                    values: (0..n).map(|k| (format!("k{}", k), format!("v{}", k))).collect(),
                    tags: Some((0..n).map(|k| format!("t{}", k)).collect()),
                }],
                5 => pat.name = Some(long(rng)),
                6 => src = format!("{}%{{GREEDY:x}}", long(rng)),
                // longer keys are beyond what YAML allows
                7 => pat.values = Some(Some((long(rng).chars().take(200).collect(), long(rng))).into_iter().collect()),
                8 => pat.tests = vec![Test { m: long(rng), values: Default::default(), tags: Some(vec![long(rng)]) }],
                0 => {}
                _ => src = (0..n / 2).map(|k| format!("x{}%{{INT:n{}}}", k, k)).collect(),
            }
            list.push(pat_tree(&pat, &src));
        }
        if rng.chance(40) {
            // something wrong near the end
            let tail = list.last_mut().unwrap();
            let mut k = size(tail) - 1;
            if let Some(t) = walk(tail, &mut k) {
                *t = Tree::N(1);
            }
        }
        let doc = Tree::O(vec![("patterns".to_owned(), Tree::A(list))]);
        let j = load_tree(&dir, "doc.json", &doc.to_json_text(rng.below(2)));
        let y = load_tree(&dir, "doc.yaml", &doc.to_yaml_text());
        out.put(json!({"e": "doc", "doc": doc.json(), "json": j, "yaml": y, "single": []}));
    }
}

fn walk<'a>(t: &'a mut Tree, n: &mut usize) -> Option<&'a mut Tree> {
    if *n == 0 {
        return Some(t);
    }
    *n -= 1;
    match *t {
        Tree::A(ref mut a) => {
            for x in a {
                if let Some(r) = walk(x, n) {
                    return Some(r);
                }
            }
            None
        }
        Tree::O(ref mut o) => {
            for kv in o {
                if let Some(r) = walk(&mut kv.1, n) {
                    return Some(r);
                }
            }
            None
        }
        _ => None,
    }
}

/// where the objects are, as walk counts
fn containers(t: &Tree) -> Vec<usize> {
    fn go(t: &Tree, n: &mut usize, v: &mut Vec<usize>) {
        if let Tree::O(_) = *t {
            v.push(*n);
        }
        *n += 1;
        match *t {
            Tree::A(ref a) => a.iter().for_each(|x| go(x, n, v)),
            Tree::O(ref o) => o.iter().for_each(|kv| go(&kv.1, n, v)),
            _ => {}
        }
    }
    let mut v = Vec::new();
    go(t, &mut 0, &mut v);
    v
}

fn size(t: &Tree) -> usize {
    1 + match *t {
        Tree::A(ref a) => a.iter().map(size).sum(),
        Tree::O(ref o) => o.iter().map(|kv| size(&kv.1)).sum(),
        _ => 0,
    }
}

fn odd_uuid(rng: &mut Rng, s: &str) -> String {
    let simple: String = s.chars().filter(|c| *c != '-').collect();
    match rng.below(14) {
        8 => format!("{{{}}}", s),
        9 => format!("{}{}", *rng.pick(&["URN:UUID:", "urn:uuid", "uuid:", "urn:uuid:urn:uuid:", " ", "\n", "0x"]), s),
        10 => format!("{}{}", s, *rng.pick(&[" ", "\n", "-", "\t", "\u{200b}"])),
        11 => format!("urn:uuid:{}", simple),
        12 => {
            // a hyphen that has moved
            let mut cs: Vec<char> = s.chars().collect();
            let i = *rng.pick(&[8, 13, 18, 23]);
            let j = if rng.chance(50) { i + 1 } else { i - 1 };
            cs.swap(i, j);
            cs.into_iter().collect()
        }
        13 => {
            let mut cs: Vec<char> = s.chars().collect();
            let i = *rng.pick(&[8, 13, 18, 23]);
            cs.remove(i);
            cs.into_iter().collect()
        }
        0 => simple,
        1 => s.to_uppercase(),
        2 => format!("urn:uuid:{}", s),
        3 => s[..s.len() - 1].to_owned(),
        4 => format!("{}0", s),
        5 => s.replace("-", "_"),
        6 => {
            let mut cs: Vec<char> = s.chars().collect();
            let i = rng.below(cs.len());
            cs[i] = *rng.pick(&['g', '-', 'F', 'é', ' ']);
            cs.into_iter().collect()
        }
        _ => String::new(),
    }
}

pub fn documents(prop: &str, rng: &mut Rng, out: &mut Out) {
    let why = prop == "C23";
    let dir = scratch();
    let which = *rng.pick(&[0, 1, 2, 3]);
    let mut p = profile(rng, which);
    if which != 3 {
        p.names = vec!["x", "y", "z.w", "_q"];
    }
    p.alphabet.retain(|c| !"\u{0}\u{ffff}\u{feff}".contains(*c));
    if p.alphabet.is_empty() {
        p.alphabet.push('a');
    }
    let mut list = Vec::new();
    let mut toks: Vec<Vec<Tok>> = Vec::new();
    let count = if rng.chance(2) { rng.range(4, 30) } else { rng.range(0, 3) };
    for i in 0..count {
        let mut t = pattern(rng, &p, &toks);
        tie_ends(&mut t);
        let mut pat = Pat::new((rng.next() >> 34) as i64 + i as i64, t);
        let src = match to_src(&pat.toks, rng.next() >> 8) {
            Some(s) => s,
            None => continue,
        };
        toks.push(pat.toks.clone());
        if rng.chance(60) {
            pat.name = Some(if rng.chance(20) { any_value(rng, &p) } else { any_text(rng, &p, 4) });
        }
        if rng.chance(60) {
            pat.values = Some(some_values(rng, &p, 3));
        }
        if rng.chance(60) {
            let n = if rng.chance(5) { rng.range(4, 20) } else { rng.range(0, 3) };
            pat.tags = Some((0..n).map(|_| any_value(rng, &p)).collect());
        }
        let n = if rng.chance(4) { rng.range(3, 15) } else { rng.range(0, 2) };
        for _ in 0..n {
            let tags = if rng.chance(50) { Some(some_tags(rng, 2)) } else { None };
            let m = if rng.chance(20) { any_value(rng, &p) } else { any_text(rng, &p, 5) };
            pat.tests.push(Test { m, values: some_values(rng, &p, 2), tags });
        }
        let mut t = pat_tree(&pat, &src);
        if let Tree::O(ref mut o) = t {
            if rng.chance(4) {
                let digit = *rng.pick(&["0", "f", "F", "1"]);
                o[0].1 = Tree::S("88888888-8888-8888-8888-888888888888".replace("8", digit));
            }
            if rng.chance(6) {
                // what is easily overlooked
                let (front, back) = (*rng.pick(&["", "", " ", "\n", "\t"]), *rng.pick(&["\n", " ", "\r\n", "\t", "", "\n\n"]));
                o[1].1 = Tree::S(format!("{}{}{}", front, src, back));
            }
            if rng.chance(if why { 6 } else { 15 }) {
                let s = pat.uuid.hyphenated().to_string();
                o[0].1 = Tree::S(odd_uuid(rng, &s));
            }
            if rng.chance(if why { 35 } else { 10 }) {
                let s = mutate_src(rng, &src);
                let s: String = s.chars().filter(|c| *c != '\u{feff}').collect();
                o[1].1 = Tree::S(s);
            }
            for _ in 0..o.len() {
                let (i, j) = (rng.below(o.len()), rng.below(o.len()));
                o.swap(i, j);
            }
        }
        list.push(t);
    }
    let mut doc = Tree::O(vec![("patterns".to_owned(), Tree::A(list))]);
    if rng.chance(50) {
        let mut k = rng.below(size(&doc));
        let repl = match rng.below(6) {
            0 => Tree::S(any_text(rng, &p, 2)),
            1 => Tree::N(rng.below(5)),
            4 | 5 => Tree::Z(rng.below(4)),
            2 => Tree::A(vec![]),
            _ => Tree::O(vec![]),
        };
        let add = (*rng.pick(&["name", "uuid", "pattern", "values", "tags", "test_messages", "message", "patterns", "nam", "foo", "Tags"])).to_owned();
        let add = if rng.chance(30) { any_text(rng, &p, 4) } else { add };
        let what = if why && rng.chance(60) { rng.below(2) } else { rng.below(3) };
        if why && rng.chance(70) {
            k = *rng.pick(&containers(&doc));
        }
        if let Some(t) = walk(&mut doc, &mut k) {
            match *t {
                Tree::O(ref mut o) if what == 0 && !o.is_empty() => {
                    let i = rng.below(o.len());
                    o.remove(i);
                }
                Tree::O(ref mut o) if what == 1 => {
                    if !o.iter().any(|kv| kv.0 == add) {
                        o.push((add, repl));
                    }
                }
                ref mut t => *t = repl,
            }
        }
    }
    let j = load_tree(&dir, "doc.json", &doc.to_json_text(rng.below(2)));
    let name = *rng.pick(&["doc.yaml", "doc.yml", "doc.YAML", "doc.YML"]);
    let y = load_tree(&dir, name, &doc.to_yaml_text());
    // each pattern on its own
    let single = match doc {
        Tree::O(ref o) if o.len() == 1 => match o[0].1 {
            Tree::A(ref a) if a.len() == 1 => {
                json!([load_single(&a[0].to_json_text(0))])
            }
            _ => json!([]),
        },
        _ => json!([]),
    };
    out.put(json!({"e": "doc", "doc": doc.json(), "json": j, "yaml": y, "single": single}));
}

// ---------------------------------------------------------------- files

const GOOD_JSON: &str = r#"{"patterns":[{"uuid":"9a49c47d-29e9-4072-be84-3b76c6814743","pattern":"a%{INT:n}","test_messages":[{"message":"a1"}]}]}"#;
const GOOD_YAML: &str = "---\npatterns:\n  - uuid: \"9a49c47d-29e9-4072-be84-3b76c6814743\"\n    pattern: \"a%{INT:n}\"\n    test_messages:\n      - message: \"a1\"\n";
const FAIL_JSON: &str = r#"{"patterns":[{"uuid":"9a49c47d-29e9-4072-be84-3b76c6814743","pattern":"a%{INT:n}","test_messages":[{"message":"b"}]}]}"#;
const FAIL_YAML: &str = "---\npatterns:\n  - uuid: \"9a49c47d-29e9-4072-be84-3b76c6814743\"\n    pattern: \"a%{INT:n}\"\n    test_messages:\n      - message: \"b\"\n";

pub const NAMES: &[&str] = &[
    "f.json", "f.yaml", "f.yml", "f.YAML", "f.YML", "f.JSON", "f.Json", "f.Yaml", "f.txt", "f", "json", "yaml", ".json", ".yaml", "f.json.bak",
    "f.yaml.json", "f.json.yaml", "f.", "f..json", "..yaml", "f.jsonx", "f.xjson", "f.jso", "f.yam", "f.json ", "a b.yml", "é.json", "f.yml~", "f.conf",
    "d.json/f", "d.yaml/f.json", "f.json\u{200b}", "f.\u{feff}json", "f.yam\u{301}l", "f.ｊson", "f.json\n", "f\n.json", "f\\f.json", "%s.json", "~.yml", "-.json", "d/f.yml", "d.x/.yaml", "f.toml", "f.yamlyaml",
];

/// an error, with what the system said (if it did), and whether it speaks as the error within it does
fn failed(e: &BuildError) -> Value {
    let os = if let BuildError::Io(ref x) = *e { x.raw_os_error().unwrap_or(0) } else { 0 };
    let of_name = [BuildError::UnsupportedFileExtension, BuildError::NotUtf8FileName];
    let plain = match *e {
        BuildError::TestMessage(ref x) => as_within(e, x),
        BuildError::Io(ref x) => as_within(e, x),
        BuildError::DeserJson(ref x) => as_within(e, x),
        BuildError::DeserYaml(ref x) => as_within(e, x),
        // nothing within: not to be mistaken for one another
        _ => {
            of_name.iter().all(|k| !brief(k).is_empty() && as_within(k, k) && (brief(k) == brief(e)) == (kind(k) == kind(e))
                && (format!("{}", k) == format!("{}", e)) == (kind(k) == kind(e)))
                && under(e).is_none()
        }
    };
    json!({"kind": kind(e), "hit": -1, "os": os, "plain": plain as u32})
}

#[allow(deprecated)]
fn under<E: std::error::Error>(e: &E) -> Option<String> {
    e.cause().map(|c| format!("{}", c))
}

fn as_within<E: std::error::Error>(e: &BuildError, x: &E) -> bool {
    call(|| brief(e) == brief(x) && format!("{}", e) == format!("{}", x) && under(e) == under(x)) == Some(true)
}

fn outcome<M: Matcher>(r: Option<Result<M, BuildError>>) -> Value {
    match r {
        None => json!({"kind": "panic", "hit": -1}),
        Some(Err(e)) => failed(&e),
        Some(Ok(m)) => json!({"kind": "ok", "hit": call(|| m.parse("a1").is_some()).map_or(-1, |b| b as i32)}),
    }
}

/// the same document, but long
fn padded(good: &str, yaml: bool, times: usize) -> String {
    if yaml {
        format!("{}{}", good, "# \u{20ac} nothing to see here\n".repeat(9000 * times))
    } else {
        let blank = " ".repeat(99) + "\n";
        format!("{}{}{}", &good[..1], blank.repeat(2500 * times), &good[1..])
    }
}

/// a document of many patterns, the first of which is the one of the good document
fn many(yaml: bool, n: usize) -> String {
    let mut t = String::from(if yaml { "---\npatterns:\n" } else { "{\"patterns\":[" });
    for i in 0..n {
        let pattern = if i == 0 { "a%{INT:n}".to_owned() } else { format!("b{}%{{INT:n{}}}", i, i) };
        let uuid = uuid_of(i as u64 + 1).hyphenated().to_string();
        if yaml {
            t.push_str(&format!("  - uuid: \"{}\"\n    pattern: \"{}\"\n", uuid, pattern));
        } else {
            t.push_str(&format!("{}{{\"uuid\":\"{}\",\"pattern\":\"{}\"}}", if i > 0 { "," } else { "" }, uuid, pattern));
        }
    }
    if !yaml {
        t.push_str("]}");
    }
    t
}

/// one file: its name, what it is and what comes out of loading it
pub fn file_event(dir: &std::path::Path, name: &str, state: &str) -> Value {
    use std::fs;
    let path = dir.join(name);
    let _ = fs::remove_dir_all(&path);
    let _ = fs::remove_file(&path);
    fs::create_dir_all(path.parent().unwrap()).expect("directory");
    let yaml = {
        let l = name.to_lowercase();
        l.ends_with("yaml") || l.ends_with("yml")
    };
    let (good, failing) = if yaml { (GOOD_YAML, FAIL_YAML) } else { (GOOD_JSON, FAIL_JSON) };
    let times = if state.starts_with("mega") { 6 } else if state.starts_with("huge") { 72 } else { 1 };
    match state {
        "missing" => {}
        "dir" => fs::create_dir_all(&path).expect("directory"),
        "eio" => std::os::unix::fs::symlink("/proc/self/mem", &path).expect("link"),
        "dangling" => std::os::unix::fs::symlink("nowhere", &path).expect("link"),
        "loop" => std::os::unix::fs::symlink(path.file_name().unwrap(), &path).expect("link"),
        "notutf8" => {
            // a good document, but for one byte in its name
            let mut b = good.replace("\"uuid\"", "\"name\":\"X\",\"uuid\"").replace("  - uuid:", "  - name: \"X\"\n    uuid:").into_bytes();
            let i = b.iter().position(|c| *c == b'X').unwrap();
            b[i] = 0xff;
            fs::write(&path, b).expect("file");
        }
        "tail" => {
            let mut b = good.as_bytes().to_vec();
            b.extend_from_slice(b"\n\xc3");
            fs::write(&path, b).expect("file");
        }
        "empty" => fs::write(&path, "").expect("file"),
        "big" | "mega" | "huge" => fs::write(&path, padded(good, yaml, times)).expect("file"),
        "bigtail" | "megatail" | "hugetail" => {
            let mut b = padded(good, yaml, times).into_bytes();
            b.extend_from_slice(b"\n\xff\n");
            fs::write(&path, b).expect("file");
        }
        "crlf" => fs::write(&path, good.replace("\n", "\r\n").replace(",", ",\r\n")).expect("file"),
        "bigcut" | "megacut" | "hugecut" => {
            let b = padded(good, yaml, times);
            let b = if yaml { format!("{}  x: [\n", b) } else { b[..b.trim_end().len() - 1].to_owned() };
            fs::write(&path, b).expect("file");
        }
        "good" => fs::write(&path, good).expect("file"),
        "blank" => fs::write(&path, format!("{}\n\n   \n", good)).expect("file"),
        "link" => {
            let target = dir.join("linked-to");
            fs::write(&target, good).expect("file");
            std::os::unix::fs::symlink(&target, &path).expect("link");
        }
        "trailing" => fs::write(&path, if yaml { format!("{}bad: x\n", good) } else { format!("{} x", good) }).expect("file"),
        "twice" => fs::write(&path, if yaml { format!("{}patterns2: []\n", good) } else { format!("{}\n{}", good, good) }).expect("file"),
        "apart" => fs::write(&path, if yaml { format!("{}\n\n- x\n", good) } else { format!("{}\n\n{}", good, good) }).expect("file"),
        "joined" => fs::write(&path, if yaml { format!("{}]\n", good) } else { format!("{},{}", good, good) }).expect("file"),
        "rows" => fs::write(&path, if yaml { format!("{}patterns\n", good) } else { format!("{}\n\n\n{}\n", good, "{\"patterns\":[]}") }).expect("file"),
        "closed" => fs::write(&path, if yaml { format!("{}}}\n", good) } else { format!("{}}}", good) }).expect("file"),
        "semi" => fs::write(&path, if yaml { format!("{}      message: ;\n  ;\n", good) } else { format!("{};\n", good) }).expect("file"),
        "leading" => fs::write(&path, if yaml { format!("- x\n{}", &good[4..]) } else { format!("x{}", good) }).expect("file"),
        "nul" => fs::write(&path, if yaml { good.replace("patterns:", "patterns\u{1}:") } else { format!("{}\0", good) }).expect("file"),
        "list" => fs::write(&path, if yaml { "---\n- patterns: []\n".to_owned() } else { format!("[{}]", good) }).expect("file"),
        "headbyte" => {
            let mut b = b"\xff\xfe".to_vec();
            b.extend_from_slice(good.as_bytes());
            fs::write(&path, b).expect("file");
        }
        "many" => fs::write(&path, many(yaml, 300)).expect("file"),
        "manybad" => fs::write(&path, many(yaml, 300).replace("%{INT:n299}", "%{INT:n299")).expect("file"),
        "pipe" | "pipecut" | "pipebad" => {}
        "bom" => fs::write(&path, if yaml { format!("\u{1}{}", good) } else { format!("\u{feff}{}", good) }).expect("file"),
        "comma" => fs::write(&path, if yaml { good.replace("patterns:", "patterns: ]") } else { good.replace("]}", "],}") }).expect("file"),
        "comment" => fs::write(&path, if yaml { good.replace("patterns:", "patterns: *nobody") } else { format!("// patterns\n{}", good) }).expect("file"),
        "quotes" => fs::write(&path, if yaml { good.replacen("uuid: \"", "uuid: '", 1) } else { good.replace("\"", "'") }).expect("file"),
        "control" => fs::write(&path, if yaml { good.replacen("  - uuid", "\t- uuid", 1) } else { good.replacen(":[", ":\u{b}[", 1) }).expect("file"),
        "escape" => fs::write(&path, good.replacen("a%{INT:n}", "\\qa%{INT:n}", 1)).expect("file"),
        "half" => fs::write(&path, good.replacen("a%{INT:n}", if yaml { "\\u12a%{INT:n}" } else { "\\ud83da%{INT:n}" }, 1)).expect("file"),
        "bare" => fs::write(&path, if yaml { good.replacen("patterns:", "patterns", 1) } else { good.replacen("\"patterns\"", "patterns", 1) }).expect("file"),
        "open" => fs::write(&path, if yaml { good.replacen("9a49", "\"9a49", 1) } else { good.replacen("\"]}", "]}", 1).replacen("}]}", "]}", 1) }).expect("file"),
        "escaped" => fs::write(&path, good.replacen("\"a%{INT:n}", "\"\\u0061%{INT:n}", 1)).expect("file"),
        "spread" => {
            let t = if yaml { good.replace(": ", ":   ").replace("---\n", "# first\n---\n\n# then\n") } else { good.replace(":", " \t: \n ").replace("INT \t: \n n", "INT:n") };
            fs::write(&path, t).expect("file")
        }
        "flow" => fs::write(&path, if yaml { GOOD_JSON.replace("\":", "\": ").replace(",", ", ") } else { good.replace("\n", " ") }).expect("file"),
        "failing" => fs::write(&path, failing).expect("file"),
        "malformed" => fs::write(&path, if yaml { "---\npatterns: [}" } else { "{\"patterns\":[" }).expect("file"),
        "cut" => fs::write(&path, &good[..good.len() - good.len() / 3]).expect("file"),
        "badfield" => fs::write(&path, good.replace("test_messages", "tests")).expect("file"),
        "badpattern" => fs::write(&path, good.replace("%{INT:n}", "%{INT:n")).expect("file"),
        "foreign" => fs::write(&path, if yaml { "{\"patterns\": \"none\"}" } else { GOOD_YAML }).expect("file"),
        "none" => fs::write(&path, if yaml { "---\npatterns: []\n" } else { "{\"patterns\":[]}" }).expect("file"),
        _ => panic!("state {}", state),
    }
    let p = path.to_str().unwrap().to_owned();
    about(format!("loading {} ({})", p, state));
    // a pipe can be read only once
    let fed = |f: &mut dyn FnMut() -> Value| -> Value {
        if !state.starts_with("pipe") {
            return f();
        }
        use std::io::Write;
        use std::os::unix::io::AsRawFd;
        let (r, mut w) = std::io::pipe().expect("pipe");
        let _ = fs::remove_file(&path);
        std::os::unix::fs::symlink(format!("/proc/self/fd/{}", r.as_raw_fd()), &path).expect("link");
        let mut bytes = good.as_bytes().to_vec();
        if state == "pipecut" {
            bytes.truncate(if yaml { good.len() - good.len() / 3 } else { good.len() - 2 });
        }
        if state == "pipebad" {
            bytes.extend_from_slice(b"\n\xf0\x9f");
        }
        let feeder = std::thread::spawn(move || {
            for piece in bytes.chunks(37) {
                if w.write_all(piece).is_err() {
                    break;
                }
                std::thread::yield_now();
            }
        });
        let v = f();
        drop(r);
        let _ = feeder.join();
        v
    };
    let load = fed(&mut || match load(&path) {
        None => json!({"kind": "panic", "hit": -1}),
        Some(Err(e)) => failed(&e),
        Some(Ok(f)) => json!({"kind": "ok", "hit": f.patterns().len()}),
    });
    let results = json!([
        fed(&mut || outcome(call(|| PatternLoader::from_file::<TrieFactory>(&p)))),
        fed(&mut || outcome(call(|| PatternLoader::from_file::<TableFactory>(&p)))),
        fed(&mut || outcome(call(|| PatternLoader::from_file_ignore_errors::<TrieFactory>(&p)))),
        fed(&mut || outcome(call(|| PatternLoader::from_file_ignore_errors::<TableFactory>(&p))))
    ]);
    let _ = fs::remove_dir_all(&path);
    let _ = fs::remove_file(&path);
    json!({"e": "file", "path": text(name), "state": state, "load": load, "strict": [results[0], results[1]], "lenient": [results[2], results[3]]})
}

pub const STATES: &[&str] = &[
    "missing", "dir", "eio", "dangling", "loop", "notutf8", "tail", "empty", "good", "failing", "malformed", "cut", "badfield", "badpattern", "foreign",
    "none", "big", "bigtail", "bigcut", "crlf", "blank", "link", "trailing", "twice", "leading", "nul", "list", "headbyte", "many", "manybad",
    "pipe", "pipecut", "pipebad", "bom", "comma", "comment", "quotes", "control", "escape", "half", "bare", "open", "escaped", "spread", "flow",
    "apart", "joined", "rows", "closed", "semi",
];

/// files that are longer than any
pub fn big_files(out: &mut Out) {
    let dir = scratch();
    for name in &["f.json", "f.yml"] {
        for state in &["mega", "megatail", "megacut"] {
            out.put(file_event(&dir, name, state));
        }
    }
    for state in &["huge", "hugetail", "hugecut"] {
        out.put(file_event(&dir, "f.json", state));
    }
}

pub fn files(rng: &mut Rng, out: &mut Out) {
    let dir = scratch();
    let all = NAMES.len() * STATES.len();
    let (name, state) = if rng.chance(40) {
        let k = rng.below(all);
        (NAMES[k % NAMES.len()].to_owned(), STATES[k / NAMES.len()])
    } else {
        let stem = (*rng.pick(&["f", "f.json", "f.yaml", "", "a.b", "é", "x y", "d/f", "d.yml/g", "."])).to_owned();
        let ext = (*rng.pick(&["json", "yaml", "yml", "YAML", "YML", "JSON", "txt", "", "jsn", "json5", "y", "Yml"])).to_owned();
        let dot = if rng.chance(90) { "." } else { "" };
        let name = format!("{}{}{}", stem, dot, ext);
        let last = name.rsplit('/').next().unwrap().to_owned();
        if last.is_empty() || last == "." || last == ".." || name.ends_with('/') {
            return;
        }
        (name, *rng.pick(STATES))
    };
    out.put(file_event(&dir, &name, state));
}

// ---------------------------------------------------------------- parts of patterns

fn looks(t: &TokenType, rng: &mut Rng, p: &Profile) -> Value {
    match *t {
        TokenType::Literal(ref s) => json!({"t": "lit", "s": text(s)}),
        TokenType::Parser(ref q) => {
            let q = &**q;
            let ps: Vec<Value> = (0..3).map(|_| any_text(rng, p, 3)).map(|t| probe(q, &t)).collect();
            json!({"t": "par", "name": opt_text(q.name()), "probes": ps, "same": -1})
        }
    }
}

fn looks_all(ts: &[TokenType], rng: &mut Rng, p: &Profile) -> Vec<Value> {
    ts.iter().map(|t| looks(t, rng, p)).collect()
}

fn shown(q: &Pattern, rng: &mut Rng, p: &Profile) -> Value {
    json!({"meta": meta(q.name(), q.uuid(), q.values(), q.tags()), "toks": looks_all(q.pattern(), rng, p)})
}

fn whole(mut q: Pattern, rng: &mut Rng, p: &Profile) -> Value {
    let mut v = shown(&q, rng, p);
    let mut tests = Vec::new();
    while let Some(t) = q.pop_test_message() {
        tests.insert(0, said_test(&t));
    }
    v["tests"] = json!(tests);
    v
}

/// a pattern with very many parts
pub fn big_parts(rng: &mut Rng, out: &mut Out) {
    let p = &profile(rng, 0);
    let mut pat = Pat::new(1, vec![]);
    for i in 0..300 {
        pat.toks.push(if i % 3 == 0 { Tok::Par(par(rng, p)) } else { Tok::Lit(format!("{}", i)) });
        pat.tests.push(Test { m: format!("m{}", i), values: some_values(rng, p, 2), tags: None });
    }
    pat.name = Some("many".into());
    let mut q = pat.build();
    let tests: Vec<Value> = pat.tests.iter().map(|t| json!({"m": text(&t.m), "values": kvs(&t.values), "tags": []})).collect();
    out.put(json!({"e": "pnone", "full": 1, "all": []}));
    out.put(json!({"e": "pnew", "toks": toks_json(&pat.toks), "tests": tests, "full": 0, "all": [],
                   "meta": meta(Some("many"), &pat.uuid, None, None)}));
    out.put(json!({"e": "pcopy", "h": 1, "full": 0, "all": []}));
    let copy = q.clone();
    for _ in 0..301 {
        let t = q.pop_first_token();
        out.put(json!({"e": "ptok", "h": 1, "r": t.iter().map(|t| looks(t, rng, p)).collect::<Vec<_>>(), "full": 0, "all": []}));
        let t = q.pop_test_message();
        out.put(json!({"e": "ptest", "h": 1, "r": t.iter().map(said_test).collect::<Vec<_>>(), "full": 0, "all": []}));
    }
    let all = [q, copy];
    out.put(json!({"e": "pb", "full": 1, "all": all.iter().map(|q| shown(q, rng, p)).collect::<Vec<_>>()}));
}

/// patterns put together, copied and taken apart
pub fn parts(rng: &mut Rng, out: &mut Out) {
    let which = *rng.pick(&[0, 1, 2, 3, 8]);
    let p = profile(rng, which);
    let p = &p;
    let mut objs: Vec<Pattern> = Vec::new();
    let mut builders: Vec<CompiledPatternBuilder> = Vec::new();
    let some_toks = |rng: &mut Rng| -> Vec<Tok> {
        let mut toks = pattern(rng, p, &[]);
        if rng.chance(30) {
            toks.push(Tok::lit(""));
            toks.push(Tok::Lit(lit(rng, p, 2)));
        }
        if rng.chance(4) {
            toks.push(Tok::Lit(long_lit(rng, p)));
        }
        toks
    };
    out.put(json!({"e": "pnone", "full": 1, "all": []}));
    let steps = rng.range(4, 16);
    for n in 0..steps {
        about(format!("step {} with parts of patterns", n));
        let h = if objs.is_empty() { 0 } else { rng.below(objs.len()) };
        let mut ev = match if objs.is_empty() { 0 } else { rng.below(16) } {
            0 | 1 if objs.len() < 5 => {
                let mut pat = Pat::new(rng.next() as i64 >> 40, some_toks(rng));
                pat.how = rng.next() >> 8;
                if rng.chance(60) {
                    pat.name = Some(any_value(rng, p));
                }
                if rng.chance(60) {
                    pat.values = Some(some_values(rng, p, 3));
                }
                if rng.chance(60) {
                    pat.tags = Some(some_tags(rng, 3));
                }
                pat.tests = (0..rng.below(4))
                    .map(|_| Test { m: any_text(rng, p, 3), values: some_values(rng, p, 2), tags: if rng.chance(50) { Some(some_tags(rng, 2)) } else { None } })
                    .collect();
                let built = match call(|| pat.build()) {
                    Some(q) => q,
                    None => return out.put(json!({"e": "panic"})),
                };
                objs.push(built);
                let tests: Vec<Value> = pat.tests.iter().map(|t| json!({"m": text(&t.m), "values": kvs(&t.values), "tags": opt_texts(t.tags.as_ref().map(|v| &v[..]))})).collect();
                json!({"e": "pnew", "toks": toks_json(&pat.toks), "tests": tests,
                       "meta": meta(pat.name.as_ref().map(|s| &s[..]), &pat.uuid, pat.values.as_ref(), pat.tags.as_ref().map(|v| &v[..]))})
            }
            2 | 3 if objs.len() < 6 => {
                let copy = objs[h].clone();
                objs.push(copy);
                json!({"e": "pcopy", "h": h + 1})
            }
            4 | 5 | 6 | 0 => match call(|| objs[h].pop_first_token()) {
                Some(t) => {
                    let seen: Vec<Value> = t.iter().map(|t| looks(t, rng, p)).collect();
                    json!({"e": "ptok", "h": h + 1, "r": seen})
                }
                None => json!({"e": "panic"}),
            },
            7 | 8 | 1 => match call(|| objs[h].pop_test_message()) {
                Some(t) => json!({"e": "ptest", "h": h + 1, "r": t.iter().map(said_test).collect::<Vec<_>>()}),
                None => json!({"e": "panic"}),
            },
            9 => {
                let toks = some_toks(rng);
                let tokens = compiled(&toks, rng.next() >> 8);
                objs[h].set_pattern(tokens);
                json!({"e": "pset", "h": h + 1, "toks": toks_json(&toks)})
            }
            10 if builders.len() < 3 => {
                builders.push(if rng.chance(50) { CompiledPatternBuilder::new() } else { CompiledPatternBuilder::default() });
                json!({"e": "pb"})
            }
            10 | 11 | 12 | 2 if !builders.is_empty() => {
                let b = rng.below(builders.len());
                let tok = match pattern(rng, p, &[]).pop() {
                    Some(t) => t,
                    None => Tok::lit(""),
                };
                match tok {
                    Tok::Lit(ref s) if rng.chance(50) => builders[b].literal(s.clone()),
                    Tok::Lit(ref s) => builders[b].literal(&s[..]),
                    Tok::Par(ref q) => builders[b].parser(q.build(rng.next() >> 8)),
                };
                json!({"e": "pput", "b": b + 1, "tok": tok.json()})
            }
            13 | 3 if !builders.is_empty() => {
                let b = rng.below(builders.len());
                let built = builders[b].build();
                let seen = looks_all(&built, rng, p);
                objs[h].set_pattern(built);
                json!({"e": "pbuild", "b": b + 1, "h": h + 1, "r": seen})
            }
            14 => {
                let bare: Vec<Pattern> = (0..rng.range(2, 4)).map(|_| Pattern::with_random_uuid()).collect();
                let uuids: Vec<Value> = bare.iter().map(|q| text(&hex(q.uuid()))).collect();
                json!({"e": "pbare", "uuids": uuids, "seen": bare.into_iter().map(|q| whole(q, rng, p)).collect::<Vec<_>>()})
            }
            15 | 2 | 3 => {
                let hs: Vec<usize> = (0..rng.below(5)).map(|_| rng.below(objs.len())).collect();
                let file = PatternFile { patterns: hs.iter().map(|h| objs[*h].clone()).collect() };
                let held: Vec<Value> = file.patterns().iter().map(|q| shown(q, rng, p)).collect();
                let mut given = Vec::new();
                let mut it = file.into_iter();
                while let Some(r) = it.next() {
                    if given.len() > hs.len() + 2 {
                        break;
                    }
                    match r {
                        Ok(q) => given.push(whole(q, rng, p)),
                        Err(_) => given.push(json!("error")),
                    }
                }
                let more = (0..3).filter(|_| it.next().is_some()).count();
                json!({"e": "pfile", "hs": hs.iter().map(|h| h + 1).collect::<Vec<_>>(), "held": held, "out": given, "more": more})
            }
            _ => continue,
        };
        // a look at all that there is
        let full = n + 1 == steps || rng.chance(35);
        ev["full"] = json!(full as u32);
        ev["all"] = if full { Value::Array(objs.iter().map(|q| shown(q, rng, p)).collect()) } else { json!([]) };
        out.put(ev);
    }
}
