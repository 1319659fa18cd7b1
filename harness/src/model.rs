//! Tokens, patterns and texts as the specification writes them, and their
//! counterparts in the code under test.
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder, TokenType};
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::trie::parser_factory::TrieParserFactory;
use actiondb::matcher::Pattern;
use actiondb::parsers::{
    GreedyParser, HasLengthConstraint, IntParser, OptionalParameter, Parser, ParserFactory,
    SetParser,
};
use sj::{json, Value};
use std::collections::BTreeMap;
use uuid::Uuid;

pub fn text(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}

pub fn opt_text(s: Option<&str>) -> Value {
    match s {
        None => json!([]),
        Some(s) => Value::Array(vec![text(s)]),
    }
}

pub fn untext(v: &Value) -> String {
    v.as_array()
        .expect("text")
        .iter()
        .map(|c| std::char::from_u32(c.as_u64().expect("code point") as u32).expect("char"))
        .collect()
}

pub fn opt_untext(v: &Value) -> Option<String> {
    v.as_array().expect("optional text").get(0).map(untext)
}

pub fn kvs(map: &BTreeMap<String, String>) -> Value {
    Value::Array(map.iter().map(|(k, v)| json!([text(k), text(v)])).collect())
}

pub fn unkvs(v: &Value) -> BTreeMap<String, String> {
    v.as_array()
        .expect("key-value pairs")
        .iter()
        .map(|kv| (untext(&kv[0]), untext(&kv[1])))
        .collect()
}

pub fn texts(v: &[String]) -> Value {
    Value::Array(v.iter().map(|s| text(s)).collect())
}

pub fn untexts(v: &Value) -> Vec<String> {
    v.as_array().expect("texts").iter().map(untext).collect()
}

pub fn opt_texts(v: Option<&[String]>) -> Value {
    match v {
        None => json!([]),
        Some(v) => Value::Array(vec![texts(v)]),
    }
}

pub fn opt_untexts(v: &Value) -> Option<Vec<String>> {
    v.as_array().expect("optional texts").get(0).map(untexts)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Set,
    Int,
    Greedy,
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Par {
    pub kind: Kind,
    pub name: Option<String>,
    /// characters of a set in the order in which they are given, maybe repeated
    pub cs: String,
    pub min: Option<usize>,
    pub max: Option<usize>,
    pub end: Option<String>,
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Tok {
    Lit(String),
    Par(Par),
}

/// bounds that no text reaches; the numbers which stand for them in traces
pub const CAP: usize = 1_000_000_000;
pub const HUGE: &[usize] = &[
    usize::max_value(), 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 32) + 3, usize::max_value() - 1, 1 << 63, (1 << 63) + 1, 1 << 31,
    (1 << 31) + 1, usize::max_value() - 2,
];

fn bound(b: Option<usize>) -> Value {
    match b {
        None => json!(-1),
        Some(n) => match HUGE.iter().position(|h| *h == n) {
            Some(k) => json!(CAP + 1 + k),
            None => json!(n.min(CAP)),
        },
    }
}

impl Par {
    pub fn allows(&self, c: char) -> bool {
        match self.kind {
            Kind::Set => self.cs.contains(c),
            Kind::Int => c.is_ascii_digit(),
            Kind::Greedy => true,
        }
    }

    pub fn json(&self) -> Value {
        let t = match self.kind {
            Kind::Set => "set",
            Kind::Int => "int",
            Kind::Greedy => "greedy",
        };
        json!({"t": t, "name": opt_text(self.name.as_ref().map(|s| &s[..])),
               "cs": if self.kind == Kind::Set { text(&self.cs) } else { json!([]) },
               "min": bound(self.min), "max": bound(self.max),
               "end": opt_text(self.end.as_ref().map(|s| &s[..]))})
    }

    /// built by the constructors of the parsers, in one of several ways
    pub fn build(&self, how: u64) -> Box<dyn Parser> {
        let opt = |key: &'static str, v: Option<usize>| v.map(|v| OptionalParameter::Int(key, v));
        if how % 3 == 0 {
            let params = || {
                let mut ps: Vec<OptionalParameter> =
                    opt("min_len", self.min).into_iter().chain(opt("max_len", self.max)).collect();
                if how % 2 == 0 {
                    ps.reverse();
                }
                if ps.is_empty() && how % 4 < 2 {
                    None
                } else {
                    Some(ps)
                }
            };
            let name = self.name.as_ref().map(|s| &s[..]);
            return match self.kind {
                Kind::Set => TrieParserFactory::new_set(&self.cs, name, params()),
                Kind::Int => TrieParserFactory::new_int(name, params()),
                Kind::Greedy => TrieParserFactory::new_greedy(name, self.end.as_ref().map(|s| &s[..])),
            };
        }
        // put together one way, then changed into what it has to be
        let redone = how % 11 == 4;
        match self.kind {
            Kind::Set if redone => {
                let mut p = if how % 2 == 0 { SetParser::from_str("other", "0x") } else { SetParser::new(&self.cs) };
                p.set_min_length(Some(7));
                p.set_max_length(self.min.or(Some(3)));
                p.set_name(self.name.clone());
                let _ = p.parse(&self.cs);
                p.set_character_set(&self.cs);
                p.set_min_length(self.min);
                p.set_max_length(self.max);
                assert!(p.min_length() == self.min && p.max_length() == self.max);
                if how % 3 == 1 { p.boxed_clone() } else { Box::new(p) }
            }
            Kind::Int if redone => {
                let mut p = IntParser::with_name("other");
                p.set_max_length(Some(7));
                p.set_min_length(Some(3));
                p.set_max_length(self.max);
                p.set_min_length(self.min);
                assert!(p.min_length() == self.min && p.max_length() == self.max);
                let mut p = p.boxed_clone();
                p.set_name(self.name.clone());
                p
            }
            Kind::Greedy if redone => {
                let mut p = GreedyParser::from_str("other", "end");
                p.set_end_string(None);
                p.set_name(None);
                p.set_end_string(self.end.clone());
                p.set_name(self.name.clone());
                p.boxed_clone()
            }
            Kind::Set => {
                let mut p = match self.name {
                    Some(ref n) if how % 3 == 1 => SetParser::with_name(n.clone(), &self.cs),
                    Some(ref n) => SetParser::from_str(n, &self.cs),
                    None => SetParser::new(&self.cs),
                };
                p.set_min_length(self.min);
                p.set_max_length(self.max);
                Box::new(p)
            }
            Kind::Int => {
                let mut p = match self.name {
                    Some(ref n) => IntParser::with_name(n.clone()),
                    None => IntParser::new(),
                };
                p.set_max_length(self.max);
                p.set_min_length(self.min);
                Box::new(p)
            }
            Kind::Greedy => {
                let mut p = match (&self.name, &self.end) {
                    (&Some(ref n), &Some(ref e)) if how % 3 == 1 => GreedyParser::from_str(n, e),
                    (&Some(ref n), _) => GreedyParser::with_name(n.clone()),
                    _ => GreedyParser::new(),
                };
                p.set_end_string(self.end.clone());
                if how % 2 == 0 {
                    p.boxed_clone()
                } else {
                    Box::new(p)
                }
            }
        }
    }
}

impl Tok {
    pub fn lit(s: &str) -> Tok {
        Tok::Lit(s.to_owned())
    }

    pub fn json(&self) -> Value {
        match *self {
            Tok::Lit(ref s) => json!({"t": "lit", "s": text(s)}),
            Tok::Par(ref p) => p.json(),
        }
    }

    pub fn from_json(v: &Value) -> Tok {
        let kind = match v["t"].as_str().expect("token type") {
            "lit" => return Tok::Lit(untext(&v["s"])),
            "set" => Kind::Set,
            "int" => Kind::Int,
            "greedy" => Kind::Greedy,
            other => panic!("token type {}", other),
        };
        let bound = |b: &Value| {
            let n = b.as_i64().expect("bound");
            if n < 0 {
                None
            } else if n as usize > CAP {
                Some(HUGE[n as usize - CAP - 1])
            } else {
                Some(n as usize)
            }
        };
        Tok::Par(Par {
            kind: kind,
            name: opt_untext(&v["name"]),
            cs: if kind == Kind::Set { untext(&v["cs"]) } else { String::new() },
            min: bound(&v["min"]),
            max: bound(&v["max"]),
            end: opt_untext(&v["end"]),
        })
    }
}

pub fn toks_json(toks: &[Tok]) -> Value {
    Value::Array(toks.iter().map(Tok::json).collect())
}

pub fn toks_from_json(v: &Value) -> Vec<Tok> {
    v.as_array().expect("tokens").iter().map(Tok::from_json).collect()
}

pub fn compiled(toks: &[Tok], how: u64) -> CompiledPattern {
    if how % 5 == 3 {
        let mut builder = CompiledPatternBuilder::new();
        for (i, t) in toks.iter().enumerate() {
            match *t {
                Tok::Lit(ref s) if i % 2 == 0 => builder.literal(s.clone()),
                Tok::Lit(ref s) => builder.literal(&s[..]),
                Tok::Par(ref p) => builder.parser(p.build(how / 7 + i as u64)),
            };
        }
        return builder.build();
    }
    toks.iter()
        .enumerate()
        .map(|(i, t)| match *t {
            Tok::Lit(ref s) => TokenType::Literal(s.clone()),
            Tok::Par(ref p) => TokenType::Parser(p.build(how / 7 + i as u64)),
        })
        .collect()
}

/// what can be said in the pattern language: no empty literal, never two of them in a row
pub fn canonical(toks: Vec<Tok>) -> Vec<Tok> {
    let mut out: Vec<Tok> = Vec::new();
    for t in toks {
        if let Tok::Lit(s) = t {
            if s.is_empty() {
                continue;
            }
            if let Some(&mut Tok::Lit(ref mut prev)) = out.last_mut() {
                prev.push_str(&s);
                continue;
            }
            out.push(Tok::Lit(s));
        } else {
            out.push(t);
        }
    }
    out
}

/// every greedy parser ends at the literal that follows it
pub fn tie_ends(toks: &mut Vec<Tok>) {
    for i in 0..toks.len() {
        let next = match toks.get(i + 1) {
            Some(&Tok::Lit(ref s)) => Some(s.clone()),
            _ => None,
        };
        if let Tok::Par(ref mut p) = toks[i] {
            if p.kind == Kind::Greedy {
                p.end = next;
            }
        }
    }
}

fn name_ok(n: &str) -> bool {
    let mut cs = n.chars();
    let first = |c: char| c.is_ascii_alphabetic() || c == '_' || c == '.';
    cs.next().map_or(false, first) && cs.all(|c| first(c) || c.is_ascii_digit())
}

/// the pattern text that spells these tokens, if there is one; `style` varies the spelling
pub fn to_src(toks: &[Tok], style: u64) -> Option<String> {
    let mut src = String::new();
    let sep = ["", " ", "  "][(style % 3) as usize];
    for (i, t) in toks.iter().enumerate() {
        match *t {
            Tok::Lit(ref s) => {
                if s.is_empty() || s.contains("\\%\\{") {
                    return None;
                }
                if i > 0 {
                    if let Tok::Lit(_) = toks[i - 1] {
                        return None;
                    }
                }
                src.push_str(&s.replace("%{", "\\%\\{"));
            }
            Tok::Par(ref p) => {
                let name = match p.name {
                    None => String::new(),
                    Some(ref n) if name_ok(n) => format!(":{}", n),
                    _ => return None,
                };
                let mut bounds: Vec<String> = Vec::new();
                if let Some(n) = p.min {
                    bounds.push(format!("min_len={}", n));
                }
                if let Some(n) = p.max {
                    bounds.push(format!("max_len={}", n));
                }
                if style / 3 % 2 == 1 {
                    bounds.reverse();
                }
                let joined = bounds.join(&format!(",{}", sep));
                match p.kind {
                    Kind::Set => {
                        if p.cs.is_empty() || p.cs.contains('"') {
                            return None;
                        }
                        let comma = if bounds.is_empty() { String::new() } else { format!(",{}", sep) };
                        src.push_str(&format!("%{{SET(\"{}\"{}{}){}}}", p.cs, comma, joined, name));
                    }
                    Kind::Int => {
                        let args = if bounds.is_empty() && style / 6 % 2 == 0 {
                            String::new()
                        } else {
                            format!("({})", joined)
                        };
                        src.push_str(&format!("%{{INT{}{}}}", args, name));
                    }
                    Kind::Greedy => {
                        let next = match toks.get(i + 1) {
                            Some(&Tok::Lit(ref s)) => Some(s),
                            _ => None,
                        };
                        if p.end.as_ref() != next {
                            return None;
                        }
                        src.push_str(&format!("%{{GREEDY{}}}", name));
                    }
                }
            }
        }
    }
    if src.is_empty() {
        None
    } else {
        Some(src)
    }
}

/// a test message and what is expected of it
#[derive(Clone, Debug)]
pub struct Test {
    pub m: String,
    pub values: BTreeMap<String, String>,
    pub tags: Option<Vec<String>>,
}

impl Test {
    pub fn build(&self) -> TestMessage {
        TestMessage::new(self.m.clone(), self.values.clone(), self.tags.clone())
    }
}

/// a pattern with all that belongs to it
#[derive(Clone, Debug)]
pub struct Pat {
    pub id: i64,
    pub uuid: Uuid,
    pub name: Option<String>,
    pub toks: Vec<Tok>,
    /// compile this text instead of putting the tokens together
    pub src: Option<String>,
    pub values: Option<BTreeMap<String, String>>,
    pub tags: Option<Vec<String>>,
    pub tests: Vec<Test>,
    pub how: u64,
}

pub fn uuid_of(n: u64) -> Uuid {
    let mut b = [0u8; 16];
    let mut x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    for (i, byte) in b.iter_mut().enumerate() {
        if i % 8 == 0 {
            x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        }
        *byte = (x >> (8 * (i % 8))) as u8;
    }
    b[12] = (n >> 24) as u8;
    b[13] = (n >> 16) as u8;
    b[14] = (n >> 8) as u8;
    b[15] = n as u8;
    Uuid::from_bytes(&b).unwrap()
}

impl Pat {
    pub fn new(id: i64, toks: Vec<Tok>) -> Pat {
        Pat {
            id: id,
            uuid: uuid_of(id as u64),
            name: None,
            toks: toks,
            src: None,
            values: None,
            tags: None,
            tests: Vec::new(),
            how: 1,
        }
    }

    pub fn build(&self) -> Pattern {
        let compiled = match self.src {
            // whether texts are compiled as they should be is another question
            Some(ref src) => match crate::exec::call(|| actiondb::grammar::parser::pattern(src)) {
                Some(Ok(c)) => c,
                _ => compiled(&self.toks, self.how),
            },
            None => compiled(&self.toks, self.how),
        };
        let tests = if self.tests.is_empty() {
            None
        } else {
            Some(self.tests.iter().map(Test::build).collect())
        };
        if self.name.is_none() && tests.is_none() && self.values.is_none() && self.tags.is_none() && self.how % 3 == 1 {
            let mut pattern = Pattern::with_uuid(self.uuid);
            pattern.set_pattern(compiled);
            return pattern;
        }
        Pattern::new(self.name.clone(), self.uuid, compiled, tests, self.values.clone(), self.tags.clone())
    }
}

pub fn hex(u: &Uuid) -> String {
    u.simple().to_string()
}

pub fn meta(name: Option<&str>, uuid: &Uuid, values: Option<&BTreeMap<String, String>>, tags: Option<&[String]>) -> Value {
    json!({"uuid": text(&hex(uuid)), "name": opt_text(name),
           "values": match values { None => json!([]), Some(v) => Value::Array(vec![kvs(v)]) },
           "tags": opt_texts(tags)})
}

/// whether the code under test takes two parsers for the same; None if it cannot be asked
#[cfg(feature = "hash")]
pub fn same_hash(p: &dyn Parser, q: &dyn Parser) -> Option<bool> {
    Some(p.hash_os() == q.hash_os())
}
#[cfg(not(feature = "hash"))]
pub fn same_hash(_: &dyn Parser, _: &dyn Parser) -> Option<bool> {
    None
}
