//! Random patterns and messages.
use crate::model::*;
use std::collections::BTreeMap;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0 .. n-1
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Profile {
    pub alphabet: Vec<char>,
    pub words: Vec<&'static str>,
    pub names: Vec<&'static str>,
    pub max_lit: usize,
    pub max_toks: usize,
    pub max_pats: usize,
    pub canonical: bool,
    /// percentage of patterns that continue or vary an earlier one
    pub derive: usize,
    /// what long literals begin with
    pub trunk: Vec<char>,
    pub many_names: bool,
}

const ODD: &[char] = &[
    'é', 'è', 'à', 'ü', 'Ā', 'ā', '€', '₭', '⃀', '😀', '😁', '🙀', '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}',
    '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}', '\r', '\n', '\t', '\u{301}', 'ß', 'İ', 'ı', '１', '٣', 'a', 'b', '1', ' ', '"',
];

/// characters that show nothing, or hardly anything
pub const OVERLOOKED: &[char] = &[
    '\u{200b}', '\u{200c}', '\u{200d}', '\u{2060}', '\u{fe0e}', '\u{fe0f}', '\u{ad}', '\u{34f}', '\u{301}', '\u{85}', '\u{1680}', '\u{180e}',
    '\u{2000}', '\u{2003}', '\u{2009}', '\u{200a}', '\u{200e}', '\u{202e}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{feff}',
    '\u{fffd}', '\u{b}', '\u{c}', '\u{1b}', '\u{8}', '\u{7f}', '\u{1f3fb}', '\u{e0001}', '\u{20e3}',
];

pub fn profile(rng: &mut Rng, which: usize) -> Profile {
    let mut p = Profile {
        alphabet: "ab1".chars().collect(),
        words: vec![],
        names: vec!["x", "y", "x.y", ""],
        max_lit: 3,
        max_toks: 4,
        max_pats: 6,
        canonical: true,
        derive: 60,
        trunk: vec![],
        many_names: false,
    };
    match which {
        0 => {}
        1 => {
            p.alphabet = "ab1 é".chars().collect();
            p.max_pats = 10;
            p.max_lit = 4;
            p.max_toks = 5;
        }
        2 => {
            let n = rng.range(3, 7);
            p.alphabet = (0..n).map(|_| *rng.pick(ODD)).collect();
            p.names = vec!["x", "né", "😀", "a b"];
            p.max_pats = 8;
        }
        3 => {
            p.words = vec![
                "sshd[", "]: ", "Accepted password for ", "Accepted publickey for ", "Accepted ", " from ", " port ", " ssh2",
                "Failed password for ", "invalid user ", "pam_unix(", "session ", "session opened", "session closed", "root", "user=",
                "%", "%{", "{", "}", "\\", "\"", ":", "Jan  1 ", "192.168.1.", "connection ", "connect", "connected to ",
            ];
            p.alphabet = "abcdefghijklmnopqrstuvwxyz0123456789 .:-".chars().collect();
            p.names = vec!["usracct.username", "usracct.device", "usracct.service", "pid", "secevt.verdict", "x"];
            p.max_lit = 2;
            p.max_toks = 8;
            p.max_pats = 14;
            p.derive = 75;
        }
        4 => {
            p.alphabet = "abcdefghijklmnopqrstuvwxyz".chars().collect();
            p.max_lit = 2;
            p.max_toks = 2;
            p.max_pats = 40;
            p.derive = 30;
        }
        5 => {
            p.alphabet = "ab".chars().collect();
            p.max_lit = 8;
            p.max_toks = 1;
            p.max_pats = 14;
            p.derive = 80;
        }
        6 => {
            p.alphabet = "ab1é".chars().collect();
            p.canonical = false;
            p.max_lit = 3;
        }
        7 => {
            let n = rng.range(3, 6);
            p.alphabet = (0..n).map(|_| *rng.pick(ODD)).collect();
            p.canonical = false;
        }
        9 => {
            // long literals that share long beginnings
            let cs = *rng.pick(&["ab", "aé", "abcdefgh ", "x1"]);
            p.alphabet = cs.chars().collect();
            let len = *rng.pick(&[15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
            let base: Vec<char> = (0..len).map(|_| *rng.pick(&p.alphabet)).collect();
            p.trunk = base;
            p.max_lit = 3;
            p.max_toks = 3;
            p.max_pats = 8;
            p.derive = 50;
        }
        10 => {
            // many parsers at the same place
            p.alphabet = "abcdef12".chars().collect();
            p.many_names = true;
            p.max_lit = 1;
            p.max_toks = 2;
            p.max_pats = 40;
            p.derive = 85;
        }
        11 => {
            // many tokens in a row
            p.alphabet = "ab12 ".chars().collect();
            p.many_names = true;
            p.max_lit = 2;
            p.max_toks = 40;
            p.max_pats = 5;
            p.derive = 60;
        }
        _ => {
            // parsers mostly
            p.alphabet = "a1 ".chars().collect();
            p.max_lit = 1;
            p.max_toks = 6;
            p.derive = 75;
            p.max_pats = 10;
        }
    }
    if which != 3 && rng.chance(15) {
        p.names.extend_from_slice(NAMES);
    }
    if rng.chance(25) {
        // both cases of a letter
        let c = *rng.pick(&p.alphabet);
        let twin = if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() };
        p.alphabet.push(twin);
    }
    if rng.chance(10) {
        // large in one respect
        match rng.below(4) {
            0 => p.max_pats *= 3,
            1 => p.max_toks = p.max_toks * 2 + 2,
            2 => p.max_lit = p.max_lit * 4 + 2,
            _ => p.many_names = true,
        }
    }
    p
}

/// names out of the ordinary, all but the last few of which can be spelled in a pattern
pub const NAMES: &[&str] = &[
    ".x", "x.", "_x", "x_", "X", "Y", "x1", "x0123456789", "_", ".", "..", "a.b.c.d.e", "message", "name", "uuid", "program", "HOST",
    "a_rather_long_name_for_a_parser.with_some_more_parts.in_it.0123456789.0123456789.0123456789.0123456789",
    "ab", "abc", "xx", "x..y", " x", "x ", "x-y", "1", "x\n",
];

pub fn lit(rng: &mut Rng, p: &Profile, len: usize) -> String {
    if !p.words.is_empty() && rng.chance(80) {
        return (0..rng.range(1, p.max_lit)).map(|_| *rng.pick(&p.words)).collect();
    }
    let mut s = String::new();
    if !p.trunk.is_empty() && rng.chance(60) {
        let n = if rng.chance(50) { p.trunk.len() } else { rng.range(0, p.trunk.len()) };
        s.extend(&p.trunk[..n]);
    }
    s.extend((0..len).map(|_| *rng.pick(&p.alphabet)));
    s
}

pub fn any_text(rng: &mut Rng, p: &Profile, max: usize) -> String {
    let n = rng.range(0, max);
    lit(rng, p, n)
}

pub fn name(rng: &mut Rng, p: &Profile) -> Option<String> {
    if rng.chance(25) {
        None
    } else if p.many_names && rng.chance(80) {
        Some(format!("n{}", rng.below(90)))
    } else {
        Some((*rng.pick(&p.names)).to_owned())
    }
}

fn bounds(rng: &mut Rng) -> (Option<usize>, Option<usize>) {
    let one = |rng: &mut Rng| match rng.below(12) {
        0 => 0,
        1 | 2 | 3 => 1,
        4 | 5 | 6 => 2,
        7 | 8 => 3,
        9 => rng.range(4, 12),
        10 => 255 + rng.below(3),
        _ => {
            let (huge, more) = (*rng.pick(HUGE), rng.below(4));
            *rng.pick(&[huge, huge, 65536 + more, 1000])
        }
    };
    let min = if rng.chance(25) { Some(one(rng)) } else { None };
    let max = if rng.chance(25) { Some(one(rng)) } else { None };
    (min, max)
}

pub fn par(rng: &mut Rng, p: &Profile) -> Par {
    let (min, max) = bounds(rng);
    let name = name(rng, p);
    match rng.below(10) {
        0..=2 => Par { kind: Kind::Int, name, cs: String::new(), min, max, end: None },
        3..=6 => {
            let n = rng.range(1, 4);
            let mut cs: String = (0..n).map(|_| *rng.pick(&p.alphabet)).collect();
            if !p.words.is_empty() {
                cs = (*rng.pick(&[
                    "abcdefghijklmnopqrstuvwxyz",
                    "0123456789.",
                    "abcdefghijklmnopqrstuvwxyz0123456789",
                    " ",
                    "abcdef-_",
                    "0123456789",
                ]))
                .to_owned();
            }
            if rng.chance(8) {
                cs = "0123456789".to_owned();
            }
            if rng.chance(6) {
                cs = (*rng.pick(SPECIAL_SETS)).to_owned();
            }
            if !p.canonical && rng.chance(10) {
                cs.clear();
            }
            Par { kind: Kind::Set, name, cs, min, max, end: None }
        }
        _ => {
            let end = if rng.chance(20) {
                None
            } else {
                let n = rng.range(if p.canonical { 1 } else { 0 }, 2);
                Some(lit(rng, p, n))
            };
            Par { kind: Kind::Greedy, name, cs: String::new(), min: None, max: None, end }
        }
    }
}

fn tok(rng: &mut Rng, p: &Profile) -> Tok {
    if rng.chance(50) {
        let n = rng.range(if p.canonical { 1 } else { 0 }, p.max_lit);
        Tok::Lit(lit(rng, p, n))
    } else {
        Tok::Par(par(rng, p))
    }
}

/// the parser with one of its details changed
pub fn vary_par(rng: &mut Rng, p: &Profile, q: &Par) -> Par {
    let mut r = q.clone();
    let shift = |rng: &mut Rng, b: Option<usize>| -> Option<usize> {
        b.map(|b| match b {
            b if b < 4 => *rng.pick(&[b + 1, b + 256, b + 65536, if b == 0 { 1 << 32 } else { HUGE[1 + b] }]),
            b if b < 1000 => b + 1,
            _ => *rng.pick(HUGE),
        })
    };
    match rng.below(9) {
        7 => r.min = shift(rng, r.min),
        8 => r.max = shift(rng, r.max),
        0 | 1 => r.name = name(rng, p),
        2 => r.min = bounds(rng).0,
        3 => r.max = bounds(rng).1,
        4 if r.kind == Kind::Set => {
            if rng.chance(50) {
                r.cs.push(*rng.pick(&p.alphabet));
            } else {
                r.cs = r.cs.chars().rev().collect();
            }
        }
        5 if r.kind == Kind::Greedy => {
            r.end = if rng.chance(30) { None } else { Some(lit(rng, p, 1)) };
        }
        6 if r.kind == Kind::Int => {
            r.kind = Kind::Set;
            r.cs = "0123456789".to_owned();
        }
        _ => return par(rng, p),
    }
    if r.kind == Kind::Greedy {
        r.min = None;
        r.max = None;
    }
    r
}

pub fn pattern(rng: &mut Rng, p: &Profile, earlier: &[Vec<Tok>]) -> Vec<Tok> {
    let mut toks: Vec<Tok> = Vec::new();
    if !earlier.is_empty() && rng.chance(p.derive) {
        let base = rng.pick(earlier).clone();
        let keep = rng.range(0, base.len());
        toks.extend(base[..keep].iter().cloned());
        if rng.chance(50) && keep > 0 {
            let last = toks.pop().unwrap();
            toks.push(match last {
                Tok::Lit(s) => {
                    let cs: Vec<char> = s.chars().collect();
                    let cut = rng.range(0, cs.len());
                    let mut s: String = cs[..cut].iter().collect();
                    if rng.chance(60) {
                        s.push_str(&lit(rng, p, 1));
                    }
                    Tok::Lit(s)
                }
                Tok::Par(q) => Tok::Par(vary_par(rng, p, &q)),
            });
        }
        if rng.chance(15) {
            // the whole pattern, or its end, once more
            toks = base.clone();
        } else if rng.chance(30) {
            toks.extend(base[keep..].iter().cloned());
        }
        let more = rng.range(0, 2);
        for _ in 0..more {
            toks.push(tok(rng, p));
        }
    } else {
        for _ in 0..rng.range(1, p.max_toks) {
            toks.push(tok(rng, p));
        }
    }
    if p.canonical {
        toks = canonical(toks);
        while toks.is_empty() {
            toks = canonical(vec![tok(rng, p)]);
        }
        if rng.chance(85) {
            tie_ends(&mut toks);
        }
    } else if rng.chance(3) {
        toks.clear();
    }
    toks
}

/// a text the parser takes as a whole, unless its bounds cannot be met
pub fn exact_value(rng: &mut Rng, p: &Profile, q: &Par) -> String {
    match q.kind {
        Kind::Greedy => {
            let t = any_text(rng, p, 4);
            match q.end {
                Some(ref e) if !e.is_empty() => t[..t.find(&e[..]).unwrap_or(t.len())].to_owned(),
                _ => t,
            }
        }
        _ => {
            let cs: Vec<char> = if q.kind == Kind::Int { "0123456789".chars().collect() } else { q.cs.chars().collect() };
            if cs.is_empty() {
                return String::new();
            }
            let lo = q.min.unwrap_or(1).max(1).min(600);
            let hi = q.max.unwrap_or(lo + 3).max(lo).min(lo + 5);
            let mid = rng.range(lo, hi);
            let n = *rng.pick(&[lo, hi, mid]);
            (0..n).map(|_| *rng.pick(&cs)).collect()
        }
    }
}

pub fn value_for(rng: &mut Rng, p: &Profile, q: &Par) -> String {
    match q.kind {
        Kind::Greedy => any_text(rng, p, 4),
        _ => {
            let cs: Vec<char> = if q.kind == Kind::Int { "0123456789".chars().collect() } else { q.cs.chars().collect() };
            if cs.is_empty() {
                return String::new();
            }
            let lo = q.min.unwrap_or(1).max(1);
            let hi = q.max.unwrap_or(lo.saturating_add(3)).max(1);
            let n = match rng.below(10) {
                0 => lo.saturating_sub(1),
                1 => hi.saturating_add(1),
                2 => hi,
                3 | 4 => lo,
                _ => rng.range(lo.min(hi), hi.max(lo).min(lo.saturating_add(3)).max(lo.min(hi))),
            };
            let n = n.min(600);
            (0..n).map(|_| *rng.pick(&cs)).collect()
        }
    }
}

pub fn instance(rng: &mut Rng, p: &Profile, toks: &[Tok]) -> String {
    let mut s = String::new();
    let exact = rng.chance(60);
    for t in toks {
        match *t {
            Tok::Lit(ref l) => s.push_str(l),
            Tok::Par(ref q) if exact => s.push_str(&exact_value(rng, p, q)),
            Tok::Par(ref q) => s.push_str(&value_for(rng, p, q)),
        }
    }
    s
}

pub fn mutate(rng: &mut Rng, p: &Profile, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 2) {
        let i = rng.range(0, cs.len());
        match rng.below(8) {
            0 => cs.truncate(i),
            1 => {
                cs.drain(..i);
            }
            2 => cs.insert(i, *rng.pick(&p.alphabet)),
            5 => {
                // what is easily overlooked
                let extra = if rng.chance(50) {
                    rng.pick(OVERLOOKED).to_string()
                } else {
                    (*rng.pick(&[" ", "\n", "\0", "\r\n", "\t", "\u{feff}", "  ", ".", "\u{a0}", "\u{2028}", "0"])).to_owned()
                };
                let at = *rng.pick(&[0, cs.len(), cs.len(), i]);
                for (k, c) in extra.chars().enumerate() {
                    cs.insert(at + k, c);
                }
            }
            6 => {
                if i < cs.len() {
                    let c = cs[i];
                    cs[i] = if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() };
                }
            }
            3 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            4 => {
                if i < cs.len() {
                    cs[i] = *rng.pick(&p.alphabet);
                }
            }
            _ => cs.extend(any_text(rng, p, 3).chars()),
        }
    }
    cs.into_iter().collect()
}

pub fn message(rng: &mut Rng, p: &Profile, pats: &[Vec<Tok>]) -> String {
    if pats.is_empty() || rng.chance(10) {
        return any_text(rng, p, 6);
    }
    let toks = rng.pick(pats).clone();
    let s = instance(rng, p, &toks);
    if rng.chance(35) {
        mutate(rng, p, &s)
    } else {
        s
    }
}

/// texts that mean something in another language, or look like nothing at all
pub const SPECIAL: &[&str] = &[
    "", " ", "null", "~", "true", "no", "0", "-1", "1.5", "1e3", "0x1f", "-", "- a", "a: b", "#", "# a", "{}", "[]", "[a]", "{a: b}", "*", "&a", "!a", "|", ">",
    "%s", "{}{}", "{0}", "$HOME", "\\n", "\\", "\"", "'", "''", "a'b", "../a", "a/b", "&amp;", "%41", "a\tb", "a\nb", "\n", "\r\n", " a ", "None", "Some(a)", "é",
    "A", "a", "uuid", "pattern", "message", "MESSAGE", ".dict.a", "a,b", "a;b", "a=b", "---", "...", "?", "a?", "? a", "@a", "`a", "%{INT}", "..",
];

/// sets that would be something else in a regular expression
pub const SPECIAL_SETS: &[&str] = &[
    "a-z", "0-9", "A-Z", "a-c", "1-3", "^a", "^", "-", "a-", "-a", "\\d", "\\w", "\\s", "\\n", "\\", "[a]", "[:alpha:]", "]", "[", ".", ".*", "a|b", "|", "(a)", ")", "$", "a,b", ",", "'", "{", "}",
    "aA", "Aa", "zZ", "aaa", "%", "%{", "\t", "\n", "\r", "é", "Éé", " a", "a ", "\u{a0}", "\u{0}",
];

pub fn some_values(rng: &mut Rng, p: &Profile, max: usize) -> BTreeMap<String, String> {
    let n = if rng.chance(4) { rng.range(4, 24) } else { rng.range(0, max) };
    (0..n)
        .map(|_| {
            let k = if n > max { format!("k{}", rng.below(40)) } else { (*rng.pick(&p.names)).to_owned() };
            let k = if rng.chance(6) { (*rng.pick(SPECIAL)).to_owned() } else { k };
            (k, any_value(rng, p))
        })
        .collect()
}

/// a literal that is longer than any
pub fn long_lit(rng: &mut Rng, p: &Profile) -> String {
    let n = *rng.pick(&[100, 255, 256, 257, 300, 511, 1023, 1025, 2000, 2049]);
    (0..n).map(|_| *rng.pick(&p.alphabet)).collect()
}

/// a text that is nothing but data
pub fn any_value(rng: &mut Rng, p: &Profile) -> String {
    let mut t = any_text(rng, p, 3);
    if rng.chance(10) {
        t = match rng.below(10) {
            8 => {
                let c = *rng.pick(OVERLOOKED);
                if rng.chance(50) { format!("{}{}", t, c) } else { format!("{}{}", c, t) }
            }
            9 => {
                let own = t.clone();
                alike(rng, &own)
            }
            5..=7 => (*rng.pick(SPECIAL)).to_owned(),
            0 => format!(" {}", t),
            1 => format!("{} ", t),
            2 => format!("{}\n", t),
            3 => t.to_uppercase(),
            _ => t.repeat(20),
        };
    }
    t
}

/// a text that some would take for this one
pub fn alike(rng: &mut Rng, s: &str) -> String {
    match rng.below(12) {
        0 => format!("0{}", s),
        1 => format!("+{}", s),
        2 => format!("{}.0", s),
        3 => s.trim_start_matches('0').to_owned(),
        4 => s.to_uppercase(),
        5 => s.to_lowercase(),
        6 => format!(" {}", s),
        7 => format!("{} ", s),
        8 => s.trim().to_owned(),
        9 => format!("\"{}\"", s),
        10 => {
            let mut t = s.to_owned();
            t.pop();
            t
        }
        _ => format!("{}{}", s, rng.pick(OVERLOOKED)),
    }
}

pub fn some_tags(rng: &mut Rng, max: usize) -> Vec<String> {
    let n = if rng.chance(4) { rng.range(4, 20) } else { rng.range(0, max) };
    (0..n)
        .map(|_| {
            if rng.chance(if n > max { 70 } else { 5 }) {
                format!("tag{}", rng.below(30))
            } else if rng.chance(5) {
                (*rng.pick(SPECIAL)).to_owned()
            } else if rng.chance(4) {
                // long ones
                "a_tag_that_goes_on_".repeat(rng.range(2, 5))
            } else {
                (*rng.pick(&["t", "u", "tag", "secevt", "ta", "T", " t", ""])).to_owned()
            }
        })
        .collect()
}
