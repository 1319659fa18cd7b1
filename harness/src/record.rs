//! Executes random sessions on the code under test and records them as traces
//! of the specification's actions.
use crate::exec::*;
use crate::gen::*;
use crate::model::*;
use sj::{json, Value};
use std::io::{BufWriter, Write};

pub struct Out {
    f: BufWriter<std::fs::File>,
    pub lines: i64,
}

impl Out {
    pub fn new(path: &str) -> Out {
        Out { f: BufWriter::new(std::fs::File::create(path).expect("trace file")), lines: 0 }
    }
    /// the number of the line that is written next
    pub fn line(&self) -> i64 {
        self.lines + 1
    }
    pub fn put(&mut self, v: Value) {
        self.lines += 1;
        writeln!(self.f, "{}", v).unwrap();
        self.f.flush().unwrap();
    }
}

struct Handle {
    pair: Pair,
    pats: Vec<usize>,
    alive: bool,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub clones: bool,
    pub fresh: bool,
    pub cold: bool,
    pub meta: bool,
    pub busy: bool,
    pub shared_uuids: bool,
    pub handles: usize,
}

/// the pattern with everything that belongs to it
fn decorate(rng: &mut Rng, p: &Profile, pat: &mut Pat, o: Opts) {
    pat.how = rng.next() >> 8;
    if rng.chance(30) {
        pat.src = to_src(&pat.toks, pat.how);
    }
    if o.meta || o.shared_uuids {
        pat.name = if rng.chance(80) || o.shared_uuids { Some(format!("p{}{}", pat.id, any_text(rng, p, 2))) } else { None };
    }
    if o.meta {
        if rng.chance(70) {
            pat.values = Some(some_values(rng, p, 3));
        }
        if rng.chance(70) {
            pat.tags = Some(some_tags(rng, 3));
        }
        if rng.chance(20) {
            pat.tests = vec![Test { m: any_text(rng, p, 3), values: Default::default(), tags: None }];
        }
    }
}

fn session(rng: &mut Rng, out: &mut Out, which: usize, o: Opts, size: usize, asks: usize) {
    let p = profile(rng, which);
    let shared = o.shared_uuids && rng.chance(30);
    out.put(json!({"e": "reset"}));
    let mut pats: Vec<Pat> = Vec::new();
    let mut toks: Vec<Vec<Tok>> = Vec::new();
    let mut ids = Ids::default();
    let mut hs: Vec<Handle> = vec![Handle { pair: Pair::new(), pats: vec![], alive: true }];
    out.put(json!({"e": "new", "h": 1}));
    let n = rng.range(1, size.max(1));
    let mut msgs: Vec<String> = Vec::new();
    let mut cold: Vec<(usize, Vec<usize>, String)> = Vec::new();
    // written down at the end if answers of another process are still to be filled in
    let mut pending: Vec<Value> = Vec::new();
    let mut lines = out.lines;
    macro_rules! put {
        ($e:expr) => {
            lines += 1;
            if o.cold {
                pending.push($e);
            } else {
                out.put($e);
            }
        };
    }
    let steps = n + asks;
    for step in 0..steps {
        let adding = step < n && (hs.len() > 1 || step < (n + 1) / 2 || rng.chance(50)) || (toks.len() < n && rng.chance(30));
        let h = rng.below(hs.len());
        if !hs[h].alive {
            continue;
        }
        if o.clones && hs.len() < o.handles && rng.chance(12) {
            if let Some(pair) = hs[h].pair.copy(rng.chance(50)) {
                let pats = hs[h].pats.clone();
                hs.push(Handle { pair, pats, alive: true });
                put!(json!({"e": "clone", "h": h + 1, "g": hs.len()}));
            }
            continue;
        }
        if adding {
            let mut t = pattern(rng, &p, &toks);
            let old = if shared && !pats.is_empty() && rng.chance(60) { Some(rng.below(pats.len())) } else { None };
            if let (Some(k), true) = (old, rng.chance(30)) {
                // a new version of the same pattern
                t = pats[k].toks.clone();
            }
            let mut pat = Pat::new(lines + 1, t);
            decorate(rng, &p, &mut pat, o);
            if let Some(k) = old {
                pat.uuid = pats[k].uuid;
                if o.meta && rng.chance(30) && pats.iter().all(|q| q.uuid != pat.uuid || q.name.is_some()) {
                    pat.name = None;
                }
            }
            ids.add(&pat);
            let bad = hs[h].pair.add(&pat);
            let mut e = json!({"e": "add", "h": h + 1, "toks": toks_json(&pat.toks), "p": bad});
            if o.meta {
                e["meta"] = meta(pat.name.as_ref().map(|s| &s[..]), &pat.uuid, pat.values.as_ref(), pat.tags.as_ref().map(|s| &s[..]));
            }
            put!(e);
            toks.push(pat.toks.clone());
            pats.push(pat);
            hs[h].pats.push(pats.len() - 1);
            if bad != 0 {
                hs[h].alive = false;
            }
            continue;
        }
        if o.busy && rng.chance(20) {
            let k = rng.range(1, 80);
            for _ in 0..k {
                let m = message(rng, &p, &toks);
                let _ = hs[h].pair.ask(&m, &ids, false);
            }
            put!(json!({"e": "busy", "h": h + 1, "n": k}));
        }
        let m = if !msgs.is_empty() && rng.chance(15) { rng.pick(&msgs).clone() } else { message(rng, &p, &toks) };
        msgs.push(m.clone());
        let a = hs[h].pair.ask(&m, &ids, o.meta);
        let f = if o.fresh {
            let (pair, _) = Pair::of(&hs[h].pats.iter().map(|i| &pats[*i]).collect::<Vec<_>>());
            pair.ask(&m, &ids, false)
        } else {
            json!([])
        };
        if o.cold {
            cold.push((pending.len(), hs[h].pats.clone(), m.clone()));
        }
        put!(json!({"e": "ask", "h": h + 1, "t": text(&m), "a": a, "f": f, "c": []}));
        // the others have not changed
        if o.clones && hs.len() > 1 && rng.chance(60) {
            for g in 0..hs.len() {
                if g != h && hs[g].alive {
                    let a = hs[g].pair.ask(&m, &ids, o.meta);
                    let (pair, _) = Pair::of(&hs[g].pats.iter().map(|i| &pats[*i]).collect::<Vec<_>>());
                    let f = pair.ask(&m, &ids, false);
                    put!(json!({"e": "ask", "h": g + 1, "t": text(&m), "a": a, "f": f, "c": []}));
                }
            }
        }
    }
    if o.cold && !cold.is_empty() {
        let answers = ask_cold(&pats, &cold);
        for (k, ans) in answers {
            pending[k]["c"] = ans;
        }
    }
    for e in pending {
        out.put(e);
    }
}

/// the same questions, asked in another process, each of a matcher of its own, the last one first
fn ask_cold(pats: &[Pat], asks: &[(usize, Vec<usize>, String)]) -> Vec<(usize, Value)> {
    use std::process::{Command, Stdio};
    let input = json!({
        "pats": pats.iter().map(|p| json!({"id": p.id, "toks": toks_json(&p.toks), "how": p.how,
            "uuid": text(&hex(&p.uuid)), "name": opt_text(p.name.as_ref().map(|s| &s[..])),
            "src": opt_text(p.src.as_ref().map(|s| &s[..]))})).collect::<Vec<_>>(),
        "asks": asks.iter().rev().map(|a| json!([a.1, text(&a.2)])).collect::<Vec<_>>()
    });
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("cold")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("cold process");
    let mut stdin = child.stdin.take().unwrap();
    let data = input.to_string();
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(data.as_bytes());
    });
    let output = child.wait_with_output().expect("cold process");
    let _ = writer.join();
    let v: Value = match sj::from_slice(&output.stdout) {
        Ok(v) => v,
        Err(_) => return Vec::new(),
    };
    asks.iter().rev().zip(v.as_array().unwrap()).map(|(a, r)| (a.0, r.clone())).collect()
}

pub fn cold() {
    let v: Value = sj::from_reader(std::io::stdin()).expect("questions");
    let mut ids = Ids::default();
    let pats: Vec<Pat> = v["pats"]
        .as_array()
        .unwrap()
        .iter()
        .map(|j| {
            let mut p = Pat::new(j["id"].as_i64().unwrap(), toks_from_json(&j["toks"]));
            p.how = j["how"].as_u64().unwrap();
            p.name = opt_untext(&j["name"]);
            p.src = opt_untext(&j["src"]);
            p.uuid = uuid::Uuid::parse_str(&untext(&j["uuid"])).unwrap();
            ids.add(&p);
            p
        })
        .collect();
    let answers: Vec<Value> = v["asks"]
        .as_array()
        .unwrap()
        .iter()
        .map(|a| {
            let hist: Vec<&Pat> = a[0].as_array().unwrap().iter().map(|i| &pats[i.as_u64().unwrap() as usize]).collect();
            let (pair, _) = Pair::of(&hist);
            pair.ask(&untext(&a[1]), &ids, false)
        })
        .collect();
    println!("{}", Value::Array(answers));
}

/// a pattern alone in its matchers, compiled from its text when it can be spelled
fn solo(rng: &mut Rng, out: &mut Out, p: &Profile, toks: Vec<Tok>, msgs: usize) {
    let mut pat = Pat::new(1, toks);
    pat.how = rng.next() >> 8;
    if rng.chance(70) {
        pat.src = to_src(&pat.toks, pat.how);
    }
    let mut ids = Ids::default();
    ids.add(&pat);
    let (pair, bad) = Pair::of(&[&pat]);
    for _ in 0..msgs {
        let m = message(rng, p, &[pat.toks.clone()]);
        let a = if bad == 0 { pair.ask(&m, &ids, false) } else { json!([{"k": 2}, {"k": 2}]) };
        out.put(json!({"e": "solo", "toks": toks_json(&pat.toks), "t": text(&m), "a": a}));
    }
}

/// patterns of hardly more than a parser each, and texts made for them
fn single_parsers(rng: &mut Rng) -> (Vec<Pat>, Vec<String>) {
    let which = *rng.pick(&[0, 1, 2, 2, 3, 8]);
    let p = profile(rng, which);
    let (mut pats, mut msgs) = (Vec::new(), Vec::new());
    for _ in 0..4 {
        let q = par(rng, &p);
        let mut t = value_for(rng, &p, &q);
        if let Some(ref e) = q.end {
            t = any_text(rng, &p, 3);
            t.push_str(e);
        }
        let mut toks = vec![Tok::Par(q)];
        if rng.chance(30) {
            toks.push(Tok::Par(par(rng, &p)));
        }
        let mut toks = canonical(toks);
        tie_ends(&mut toks);
        if rng.chance(30) {
            t = mutate(rng, &p, &t);
        }
        msgs.push(instance(rng, &p, &toks));
        msgs.push(t);
        pats.push(Pat::new(0, toks));
    }
    (pats, msgs)
}

/// another text of which much is the same: the length, the sum of the characters, their order or kind
fn cousin(rng: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    if cs.len() < 2 {
        return match rng.below(3) {
            0 => format!("{}{}", s, s),
            1 => format!("{}\0", s),
            _ => format!("{}{}", s, char::from(97 + rng.below(3) as u8)),
        };
    }
    let i = rng.below(cs.len());
    let j = (i + rng.range(1, cs.len() - 1)) % cs.len();
    let step = |c: char, by: i64| std::char::from_u32((c as i64 + by) as u32).unwrap_or(c);
    match rng.below(6) {
        0 => cs.swap(i, j),
        1 => cs.reverse(),
        2 => {
            let by = *rng.pick(&[1, 2, 4, 16, 32]);
            cs[i] = step(cs[i], by);
            cs[j] = step(cs[j], -by);
        }
        3 => {
            let bit = *rng.pick(&[1u32, 2, 4, 8, 32]);
            for k in &[i, j] {
                cs[*k] = std::char::from_u32(cs[*k] as u32 ^ bit).unwrap_or('x');
            }
        }
        4 => {
            // 31 * a + b
            cs[i] = step(cs[i], 1);
            cs[j] = step(cs[j], -31);
        }
        _ => cs.rotate_left(1),
    }
    cs.into_iter().collect()
}

/// two parsers that differ in one respect, and hardly so
fn cousin_par(rng: &mut Rng, p: &Profile, q: &Par) -> (Par, Par) {
    let mut a = q.clone();
    let word = |rng: &mut Rng| -> String { (0..rng.range(2, 6)).map(|_| char::from(97 + rng.below(12) as u8)).collect() };
    match rng.below(5) {
        0 => {
            a.kind = Kind::Set;
            a.end = None;
            a.cs = word(rng);
            let mut b = a.clone();
            b.cs = cousin(rng, &a.cs);
            (a, b)
        }
        1 => {
            a.name = Some(word(rng));
            let mut b = a.clone();
            b.name = Some(cousin(rng, a.name.as_ref().unwrap()));
            (a, b)
        }
        2 => {
            a = Par { kind: Kind::Greedy, name: a.name, cs: String::new(), min: None, max: None, end: Some(word(rng)) };
            let mut b = a.clone();
            b.end = Some(cousin(rng, a.end.as_ref().unwrap()));
            (a, b)
        }
        3 => {
            // a letter that moves from the name to what follows
            let w = word(rng) + "z";
            let (k, l) = (rng.range(1, w.len() - 1), rng.range(1, w.len() - 1));
            let make = |k: usize| {
                let mut b = a.clone();
                b.name = Some(w[..k].to_owned());
                if b.kind == Kind::Greedy {
                    b.end = Some(w[k..].to_owned());
                } else {
                    b.kind = Kind::Set;
                    b.cs = w[k..].to_owned();
                }
                b
            };
            (make(k), make(l))
        }
        _ => {
            let mut a = par(rng, p);
            a.end = None;
            if a.kind == Kind::Greedy {
                a.kind = Kind::Int;
            }
            let (x, y) = (rng.range(0, 9), rng.range(0, 9));
            a.min = Some(x + 1);
            a.max = Some(y + 1);
            let mut b = a.clone();
            match rng.below(4) {
                0 => {
                    b.min = Some(x);
                    b.max = Some(y + 2);
                }
                1 => {
                    b.min = a.max;
                    b.max = a.min;
                }
                2 => {
                    a.max = None;
                    b.min = None;
                    b.max = a.min;
                }
                _ => {
                    b.min = Some((x + 1) * 10 + y + 1);
                    b.max = Some(0);
                }
            }
            (a, b)
        }
    }
}

/// sets of many characters that differ in few
fn large_sets(rng: &mut Rng, out: &mut Out, p: &Profile) {
    let n = *rng.pick(&[16usize, 17, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    let first = *rng.pick(&[0x21u32, 0x61, 0xc0, 0x4e00, 0xffff, 0x1f600]);
    let cs: Vec<char> = (first..first + n as u32).filter_map(std::char::from_u32).collect();
    let mut a = par(rng, p);
    a.kind = Kind::Set;
    a.end = None;
    let mut other = cs.clone();
    let at = *rng.pick(&[0, other.len() - 1, other.len() - 1, other.len() / 2]);
    match rng.below(4) {
        0 => {
            other.remove(at);
        }
        1 => other.reverse(),
        2 => other[at] = std::char::from_u32(first + n as u32 + 7).unwrap(),
        _ => other[at] = twin(rng, cs[at]),
    }
    a.cs = cs.into_iter().collect();
    let mut b = a.clone();
    b.cs = other.into_iter().collect();
    hash_pair(out, rng, &a, &b);
}

/// parsers of long names or end strings or large bounds, that differ in one place or nowhere
fn long_parts(rng: &mut Rng, out: &mut Out, p: &Profile) {
    let lens = [9usize, 16, 17, 31, 33, 64, 65, 100, 128, 129, 255, 257, 400, 1100];
    let word = |rng: &mut Rng| -> (String, String) {
        let n = *rng.pick(&lens);
        let a: Vec<char> = (0..n).map(|_| *rng.pick(&['a', 'b', 'c', '.'])).collect();
        let mut b = a.clone();
        let any = rng.below(n);
        let at = *rng.pick(&[0, n - 1, n / 2, n - 2, any]);
        match rng.below(4) {
            0 => {
                b.remove(at);
            }
            1 => b.swap(at, n - 1 - at),
            2 => {}
            _ => b[at] = 'x',
        }
        (a.into_iter().collect(), b.into_iter().collect())
    };
    let mut a = par(rng, p);
    let mut b;
    let (x, y) = word(rng);
    match rng.below(3) {
        0 => {
            a.name = Some(x);
            b = a.clone();
            b.name = Some(y);
        }
        1 => {
            a.kind = Kind::Greedy;
            a.cs = String::new();
            a.min = None;
            a.max = None;
            a.end = Some(x);
            b = a.clone();
            b.end = Some(y);
        }
        _ => {
            if a.kind == Kind::Greedy {
                a.kind = Kind::Int;
                a.end = None;
            }
            let n = *rng.pick(&[17usize, 61, 64, 251, 255, 256, 1001, 65535, 65536, 1 << 24]);
            let m = *rng.pick(&[n, n + 1, n - 1, n + 256, n / 2]);
            b = a.clone();
            if rng.chance(50) {
                a.min = Some(n);
                b.min = Some(m);
            } else {
                a.max = Some(n);
                b.max = Some(m);
            }
        }
    }
    hash_pair(out, rng, &a, &b);
}

fn solo_text(rng: &mut Rng, out: &mut Out, toks: Vec<Tok>, m: &str) {
    let mut pat = Pat::new(1, toks);
    pat.how = rng.next() >> 8;
    let mut ids = Ids::default();
    ids.add(&pat);
    let (pair, bad) = Pair::of(&[&pat]);
    let a = if bad == 0 { pair.ask(m, &ids, false) } else { json!([{"k": 2}, {"k": 2}]) };
    out.put(json!({"e": "solo", "toks": toks_json(&pat.toks), "t": text(m), "a": a}));
}

/// a whole class of characters
fn class(rng: &mut Rng) -> String {
    let ranges: &[(u32, u32)] = &[(0, 31), (32, 47), (48, 57), (65, 90), (97, 122), (127, 160), (0xc0, 0xff), (0x2000, 0x200f), (0x1f600, 0x1f610), (0xff10, 0xff19), (0x660, 0x669)];
    let mut cs = String::new();
    for _ in 0..rng.range(1, 3) {
        let r = *rng.pick(ranges);
        cs.extend((r.0..r.1 + 1).filter_map(std::char::from_u32));
    }
    cs
}

/// a text in which the end of a GREEDY nearly occurs, occurs, or occurs often
fn around_end(rng: &mut Rng, p: &Profile, end: &str) -> String {
    let cs: Vec<char> = end.chars().collect();
    let mut t = String::new();
    for _ in 0..rng.range(0, 6) {
        match rng.below(5) {
            0 => t.push_str(end),
            1 => {
                let k = rng.range(0, cs.len());
                t.extend(&cs[..k]);
            }
            2 => {
                let k = rng.range(0, cs.len());
                t.extend(&cs[k..]);
            }
            3 => t.push_str(&end.to_uppercase()),
            _ => t.push_str(&any_text(rng, p, 3)),
        }
    }
    t
}

fn prun(out: &mut Out, rng: &mut Rng, q: &Par, t: &str) {
    let how = rng.next() >> 8;
    let r = call(|| {
        let parser = q.build(how);
        let r = parser.parse(t);
        match r {
            None => json!({"k": 0}),
            Some(r) => json!({"k": 1, "v": text(r.value()), "nm": opt_text(r.parser().name())}),
        }
    })
    .unwrap_or(json!({"k": 2}));
    out.put(json!({"e": "prun", "p": q.json(), "t": text(t), "r": r}));
}

fn hash_pair(out: &mut Out, rng: &mut Rng, p: &Par, q: &Par) {
    let (a, b) = (rng.next() >> 8, rng.next() >> 8);
    let r = call(|| {
        let (x, y) = (p.build(a), q.build(b));
        let copy = x.boxed_clone();
        let same = |a: &dyn actiondb::parsers::Parser, b: &dyn actiondb::parsers::Parser| same_hash(a, b).unwrap();
        let again = same(&*x.boxed_clone().boxed_clone(), &*x) && same(&*copy, &*x) && same(&*x, &*x);
        (same(&*x, &*y), again)
    });
    let (eq, copy) = match r {
        None => (2, 2),
        Some((eq, copy)) => (eq as u32, copy as u32),
    };
    out.put(json!({"e": "hash", "p": p.json(), "q": q.json(), "eq": eq, "copy": copy}));
}

fn plain() -> Opts {
    Opts { clones: false, fresh: false, cold: false, meta: false, busy: false, shared_uuids: false, handles: 4 }
}

pub fn record(prop: &str, seed: u64, n: usize, out: &mut Out) {
    let salt: u64 = prop.bytes().fold(7, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let mut rng = Rng::new(seed.wrapping_mul(1000003).wrapping_add(salt));
    let rng = &mut rng;
    for i in 0..n {
        match prop {
            "C01" | "C02" | "C05" => {
                let o = Opts { shared_uuids: true, ..plain() };
                let which = i % 12;
                let p = profile(rng, which);
                session(rng, out, which, o, p.max_pats, 14);
                if i % 12 == 9 {
                    let (pats, msgs) = twins(rng);
                    ask_all(out, &pats, &msgs);
                }
                if prop == "C05" {
                    extreme(rng, out, i);
                }
            }
            "C03" | "C04" | "C06" => {
                let which = *rng.pick(&[0, 1, 2, 3, 4, 5, 8, 8, 9, 10, 11]);
                let p = profile(rng, which);
                let o = Opts { shared_uuids: prop != "C06", ..plain() };
                session(rng, out, which, o, p.max_pats, 14);
                if i % 12 == 9 {
                    let (pats, msgs) = twins(rng);
                    ask_all(out, &pats, &msgs);
                }
            }
            "C16" => {
                let which = *rng.pick(&[0, 1, 2, 3, 5, 8, 9, 10, 11]);
                session(rng, out, which, Opts { clones: true, fresh: true, ..plain() }, 8, 20);
                if rng.chance(70) {
                    let (pats, msgs) = single_parsers(rng);
                    ask_copies(out, &pats, &msgs, rng);
                }
            }
            "C17" => {
                let which = *rng.pick(&[0, 1, 2, 3, 5, 8, 9, 10, 11]);
                session(rng, out, which, Opts { fresh: true, cold: true, busy: true, clones: i % 3 == 0, ..plain() }, 6, 20);
            }
            "C18" => {
                let which = *rng.pick(&[0, 1, 2, 3, 4, 5, 8, 9, 10, 11]);
                let o = Opts { meta: true, clones: i % 4 == 0, shared_uuids: i % 3 == 0, ..plain() };
                let p = profile(rng, which);
                session(rng, out, which, o, p.max_pats, 14);
            }
            "C07" | "C08" => {
                let which = *rng.pick(&[0, 1, 2, 2, 3, 7, 9]);
                let p = profile(rng, which);
                let mut q = par(rng, &p);
                while (q.kind == Kind::Greedy) != (prop == "C08") {
                    q = par(rng, &p);
                }
                if q.kind == Kind::Set && rng.chance(20) {
                    q.cs = class(rng);
                }
                if let Some(e) = q.end.clone() {
                    for _ in 0..3 {
                        let t = around_end(rng, &p, &e);
                        prun(out, rng, &q, &t);
                    }
                }
                for _ in 0..6 {
                    let mut t = value_for(rng, &p, &q);
                    if let Some(ref e) = q.end {
                        if rng.chance(70) {
                            t.push_str(e);
                        }
                    }
                    if rng.chance(50) {
                        t.push_str(&any_text(rng, &p, 4));
                    }
                    if rng.chance(30) {
                        t = mutate(rng, &p, &t);
                    }
                    prun(out, rng, &q, &t);
                }
                let mut toks = vec![Tok::Par(q.clone())];
                if rng.chance(70) {
                    toks.push(Tok::Lit(lit(rng, &p, 1)));
                }
                if rng.chance(40) {
                    toks.insert(0, Tok::Lit(lit(rng, &p, 2)));
                }
                if rng.chance(40) {
                    toks.push(Tok::Par(par(rng, &p)));
                }
                let mut toks = canonical(toks);
                if rng.chance(80) {
                    tie_ends(&mut toks);
                }
                solo(rng, out, &p, toks, 6);
            }
            "C19" => {
                let which = *rng.pick(&[0, 1, 2, 3, 7]);
                let p = profile(rng, which);
                for _ in 0..8 {
                    let a = par(rng, &p);
                    let b = match rng.below(6) {
                        4 => {
                            let b = cousin_par(rng, &p, &a);
                            // both of them
                            hash_pair(out, rng, &b.0, &b.1);
                            b.1
                        }
                        0 => par(rng, &p),
                        1 => {
                            // the same set, spelled differently
                            let mut b = a.clone();
                            b.cs = b.cs.chars().rev().chain(b.cs.chars().take(1)).collect();
                            b
                        }
                        _ => vary_par(rng, &p, &a),
                    };
                    hash_pair(out, rng, &a, &b);
                }
                if rng.chance(25) {
                    large_sets(rng, out, &p);
                }
                if rng.chance(25) {
                    long_parts(rng, out, &p);
                }
                let which = *rng.pick(&[8, 8, 1, 3]);
                session(rng, out, which, plain(), 8, 10);
            }
            "C20" => {
                literals(rng, out);
                if i % 12 == 9 {
                    twin_literals(rng, out);
                }
            }
            "C21" => {
                utilities(rng, out);
                if i % 6 == 5 {
                    let (_, msgs) = twins(rng);
                    for k in 1..msgs.len() {
                        prefix(out, rng, &msgs[0], &msgs[k]);
                        prefix(out, rng, &msgs[k], &msgs[k / 2]);
                    }
                }
            }
            "C09" | "C10" | "C25" => crate::record2::sources(prop, rng, out),
            "C11" | "C12" | "C13" | "C22" => crate::record2::loads(prop, rng, out),
            "C14" | "C23" => crate::record2::documents(prop, rng, out),
            "C15" => crate::record2::files(rng, out),
            "C24" => crate::record2::parts(rng, out),
            _ => panic!("unknown property {}", prop),
        }
    }
    if seed % 4 == 0 {
        big(prop, rng, out);
    }
}

/// sessions that are large in one respect
fn big(prop: &str, rng: &mut Rng, out: &mut Out) {
    let o = plain();
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => {
            session(rng, out, 4, o, 300, 30);
            session(rng, out, 5, o, 120, 30);
            let (pats, msgs) = fanout(rng, if prop == "C02" || prop == "C03" { 1500 } else { 300 });
            ask_all(out, &pats, &msgs);
            let (pats, msgs) = deep(rng, if prop == "C05" || prop == "C02" { 600 } else { 150 });
            ask_all(out, &pats, &msgs);
            for n in &[300, 5000, 66000] {
                let (pats, msgs) = long(rng, *n);
                ask_all(out, &pats, &msgs);
            }
            let (pats, msgs) = row(rng, 260);
            ask_all(out, &pats, &msgs);
        }
        "C09" | "C10" | "C25" => crate::record2::big_sources(prop, rng, out),
        "C11" | "C12" | "C13" | "C22" => crate::record2::big_loads(prop, rng, out),
        "C14" | "C23" => crate::record2::big_documents(rng, out),
        "C20" => big_literals(rng, out),
        "C15" => crate::record2::big_files(out),
        "C24" => crate::record2::big_parts(rng, out),
        "C21" => big_utilities(rng, out),
        "C16" => {
            session(rng, out, 4, Opts { clones: true, fresh: true, ..o }, 80, 30);
            session(rng, out, 0, Opts { clones: true, fresh: true, handles: 40, ..o }, 40, 300);
            // copies of copies of large matchers
            let (pats, msgs) = fanout(rng, 300);
            ask_copies(out, &pats, &msgs, rng);
            let (pats, msgs) = deep(rng, 90);
            ask_copies(out, &pats, &msgs, rng);
            let (pats, msgs) = long(rng, 3000);
            ask_copies(out, &pats, &msgs, rng);
        }
        "C17" => {
            session(rng, out, 4, Opts { fresh: true, cold: true, busy: true, ..o }, 80, 30);
            session(rng, out, 0, Opts { fresh: true, busy: true, ..o }, 200, 60);
            worn(rng, out, 70000);
        }
        "C18" => {
            session(rng, out, 4, Opts { meta: true, ..o }, 200, 30);
            session(rng, out, 5, Opts { meta: true, ..o }, 200, 60);
            heavy(rng, out);
        }
        "C07" | "C08" => {
            for n in &[254usize, 255, 256, 257, 511, 512, 1023, 1025, 4095, 4096, 4097, 32767, 32769, 65535, 65536, 65537] {
                for b in &[n - 1, *n, n + 1] {
                    if *n > 10000 && rng.chance(40) {
                        continue;
                    }
                    let cs = *rng.pick(&["ab", "éa", "x€", "01"]);
                    let q = if prop == "C07" {
                        Par {
                            kind: if cs == "01" { Kind::Int } else { Kind::Set },
                            name: None,
                            cs: cs.to_owned(),
                            min: if rng.chance(50) { Some(*b) } else { None },
                            max: if rng.chance(50) { Some(*b) } else { None },
                            end: None,
                        }
                    } else {
                        Par { kind: Kind::Greedy, name: None, cs: String::new(), min: None, max: None, end: Some("ab".into()) }
                    };
                    let mut t: String = (0..*n).map(|_| cs.chars().last().unwrap()).collect();
                    match rng.below(4) {
                        0 => t.push_str("ab c"),
                        1 => t.push_str("ab"),
                        2 => {
                            let again = t.clone();
                            t.push_str("ab");
                            t.push_str(&again);
                            t.push_str("ab");
                        }
                        _ => {
                            t.insert_str(0, "abab");
                            t.push('a');
                        }
                    }
                    prun(out, rng, &q, &t);
                    solo_text(rng, out, vec![Tok::Par(q), Tok::lit("ab"), Tok::Par(Par { kind: Kind::Greedy, name: Some("r".into()), cs: String::new(), min: None, max: None, end: None })], &t);
                }
            }
            if prop == "C07" {
                // sets of many characters
                for n in &[40u32, 63, 65, 100, 128, 200, 255, 256, 257, 300, 520, 1100, 4200] {
                    let at = |i: u32| std::char::from_u32(0x100 + (i * 7919) % 5003).unwrap();
                    let cs: String = (0..*n).map(at).collect();
                    let q = Par { kind: Kind::Set, name: Some("x".into()), cs: cs.clone(), min: None, max: None, end: None };
                    let mut sorted: Vec<char> = cs.chars().collect();
                    sorted.sort();
                    let strange = at(*n + rng.below(200) as u32);
                    let ends = [at(0), at(n - 1), sorted[0], sorted[sorted.len() - 1], at(n / 2)];
                    for c in &ends {
                        let inner = at(rng.below(*n as usize) as u32);
                        prun(out, rng, &q, &format!("{}{}{}{}", c, inner, strange, c));
                    }
                    prun(out, rng, &q, &format!("{}{}", cs, strange));
                    prun(out, rng, &q, &format!("{}{}", strange, cs));
                    solo_text(rng, out, vec![Tok::Par(q), Tok::lit("ab")], &format!("{}ab", cs));
                }
            }
        }
        _ => {}
    }
}

fn ask_all(out: &mut Out, pats: &[Pat], msgs: &[String]) {
    out.put(json!({"e": "reset"}));
    out.put(json!({"e": "new", "h": 1}));
    let mut ids = Ids::default();
    let mut pair = Pair::new();
    for p in pats {
        let mut p = p.clone();
        p.id = out.line();
        p.uuid = uuid_of(p.id as u64);
        ids.add(&p);
        let bad = pair.add(&p);
        out.put(json!({"e": "add", "h": 1, "toks": toks_json(&p.toks), "p": bad}));
        if bad != 0 {
            return;
        }
    }
    for m in msgs {
        let a = pair.ask(m, &ids, false);
        out.put(json!({"e": "ask", "h": 1, "t": text(m), "a": a, "f": [], "c": []}));
    }
}

/// another character, easily mistaken for this one
fn twin(rng: &mut Rng, c: char) -> char {
    let up = c.to_uppercase().next().unwrap();
    let low = c.to_lowercase().next().unwrap();
    match rng.below(6) {
        0 | 1 => if up != c { up } else { low },
        2 => std::char::from_u32(c as u32 ^ 1).unwrap_or('x'),
        3 => std::char::from_u32(c as u32 ^ 0x80).unwrap_or('y'),
        4 => std::char::from_u32(c as u32 + 0x100).unwrap_or('z'),
        _ => std::char::from_u32(c as u32 ^ 0x20).unwrap_or('w'),
    }
}

/// literals that differ in one character only, or in the one after a long beginning
fn twins(rng: &mut Rng) -> (Vec<Pat>, Vec<String>) {
    let alphabet: Vec<char> = (*rng.pick(&["ab", "aBc", "ké1", "a €", "sshd: "])).chars().collect();
    let n = *rng.pick(&[1usize, 2, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300]);
    let base: Vec<char> = (0..n + rng.range(1, 6)).map(|_| *rng.pick(&alphabet)).collect();
    let mut texts: Vec<String> = vec![base.iter().collect()];
    for _ in 0..rng.range(2, 6) {
        let mut cs = base.clone();
        let any = rng.below(cs.len());
        let i = *rng.pick(&[n - 1, n, n, any]);
        cs[i] = twin(rng, cs[i]);
        cs.truncate(*rng.pick(&[i + 1, cs.len(), cs.len()]));
        texts.push(cs.into_iter().collect());
    }
    let mut msgs = texts.clone();
    for _ in 0..6 {
        let mut cs: Vec<char> = rng.pick(&texts).chars().collect();
        for _ in 0..rng.range(1, 2) {
            let i = if rng.chance(60) && cs.len() > n { n } else { rng.below(cs.len()) };
            cs[i] = twin(rng, cs[i]);
        }
        msgs.push(cs.into_iter().collect());
    }
    let tail = rng.chance(40);
    let pats = texts
        .into_iter()
        .map(|s| {
            let mut toks = vec![Tok::Lit(s)];
            if tail && rng.chance(50) {
                toks.push(Tok::Par(Par { kind: Kind::Int, name: Some("n".into()), cs: String::new(), min: None, max: None, end: None }));
            }
            Pat::new(0, toks)
        })
        .collect();
    if tail {
        let more: Vec<String> = msgs.iter().map(|m| format!("{}12", m)).collect();
        msgs.extend(more);
    }
    (pats, msgs)
}

/// many literals and parsers side by side
fn fanout(rng: &mut Rng, n: usize) -> (Vec<Pat>, Vec<String>) {
    let mut pats = Vec::new();
    let mut msgs = Vec::new();
    for i in 0..n {
        let c = std::char::from_u32(0x100 + (i as u32 * 7919) % 4000).unwrap();
        let mut toks = vec![Tok::Lit(c.to_string())];
        if rng.chance(50) {
            toks.push(Tok::Par(Par { kind: Kind::Int, name: Some("n".into()), cs: String::new(), min: None, max: None, end: None }));
        }
        if rng.chance(12) {
            msgs.push(format!("{}{}", c, if toks.len() > 1 { "12" } else { "" }));
        }
        pats.push(Pat::new(0, toks));
    }
    let m = if n > 1000 { 1100 } else { 20 };
    for i in 0..m {
        let c = std::char::from_u32(if m > 20 { 0x5000 } else { 0x61 } + i as u32).unwrap();
        pats.push(Pat::new(
            0,
            vec![Tok::Par(Par { kind: Kind::Set, name: Some(format!("s{}", i)), cs: c.to_string(), min: None, max: None, end: None })],
        ));
        if if m > 20 { i % 100 == 50 || i < 2 || i + 2 > m } else { i % 4 == 3 } {
            msgs.push(c.to_string());
        }
    }
    // every one of which would do
    for i in 0..n {
        let q = Par { kind: Kind::Set, name: Some(format!("o{}", (i * 7919) % 3001)), cs: "WXYZ".into(), min: None, max: None, end: None };
        let mut toks = vec![Tok::Par(q)];
        if i % 7 == 5 {
            toks.push(Tok::Lit((*rng.pick(&["!", "?"])).to_owned()));
        }
        pats.push(Pat::new(0, toks));
    }
    msgs.extend(vec!["WXY".to_owned(), "ZZ!".into(), "X?".into()]);
    (pats, msgs)
}

/// patterns of many tokens
fn deep(rng: &mut Rng, n: usize) -> (Vec<Pat>, Vec<String>) {
    let p = profile(rng, 8);
    let mut toks: Vec<Tok> = Vec::new();
    for i in 0..n {
        toks.push(Tok::lit("a"));
        let name = if i % 3 == 0 { None } else { Some(format!("n{}", i % 70)) };
        toks.push(Tok::Par(Par { kind: Kind::Int, name, cs: String::new(), min: None, max: None, end: None }));
    }
    let pats: Vec<Pat> = (1..6).map(|k| Pat::new(0, toks[..toks.len() * k / 5].to_vec())).collect();
    let exact = |rng: &mut Rng, q: &Pat| -> String {
        q.toks.iter().map(|t| match *t {
            Tok::Lit(ref l) => l.clone(),
            Tok::Par(ref q) => exact_value(rng, &p, q),
        }).collect()
    };
    let mut msgs: Vec<String> = pats.iter().map(|q| exact(rng, q)).collect();
    let more: Vec<String> = msgs.iter().map(|m| mutate(rng, &p, m)).collect();
    msgs.extend(more);
    (pats, msgs)
}

/// literals, values and messages of about n characters
fn long(rng: &mut Rng, n: usize) -> (Vec<Pat>, Vec<String>) {
    let set = |name: &str, cs: &str| Tok::Par(Par { kind: Kind::Set, name: Some(name.into()), cs: cs.into(), min: None, max: None, end: None });
    let rest = |end: Option<&str>| Tok::Par(Par { kind: Kind::Greedy, name: Some("r".into()), cs: String::new(), min: None, max: None, end: end.map(|s| s.to_owned()) });
    let letters: Vec<char> = "abcdefghij€".chars().collect();
    let trunk: String = (0..n).map(|_| *rng.pick(&letters)).collect();
    let cut = |k: usize| -> String { trunk.chars().take(k).collect() };
    let mut lists: Vec<Vec<Tok>> = vec![
        vec![Tok::Lit(trunk.clone()), set("x", "0123456789")],
        vec![Tok::Lit(format!("{}z", cut(n - 1)))],
        vec![Tok::Lit(format!("{}z", cut(n / 2))), rest(None)],
        vec![Tok::Lit(cut(n - 2)), set("y", "abcdefghij€"), Tok::lit("1")],
        vec![set("x", "abcdefghij€"), Tok::lit("!")],
        vec![set("x", "abcdefghij€")],
        vec![Tok::lit("#"), rest(Some("##")), Tok::lit("##"), set("x", "ab")],
        vec![Tok::lit("#"), rest(Some(&trunk)), Tok::Lit(trunk.clone())],
    ];
    if rng.chance(50) {
        lists.reverse();
    }
    let msgs = vec![
        trunk.clone(),
        format!("{}0123", trunk),
        format!("{}z", cut(n - 1)),
        format!("{}y", cut(n - 1)),
        format!("{}z{}", cut(n / 2), trunk),
        format!("{}1", trunk),
        format!("{}{}!", trunk, trunk),
        format!("{}{}", trunk, trunk),
        format!("#{}# ##ba", trunk),
        format!("#{}##bac", trunk),
        format!("#{} {}", trunk, trunk),
        format!("#{}{}", cut(n - 1), trunk),
        cut(n - 1),
        cut(n / 2),
    ];
    (lists.into_iter().map(|t| Pat::new(0, t)).collect(), msgs)
}

/// n parsers and literals one below the other, n parsers side by side, n names
fn row(rng: &mut Rng, n: usize) -> (Vec<Pat>, Vec<String>) {
    let p = profile(rng, 8);
    let mut pats = Vec::new();
    let mut msgs = Vec::new();
    for i in 0..n {
        // each of them rejects what those before it reject, but for its own length
        let q = Par { kind: Kind::Int, name: Some(format!("i{}", i)), cs: String::new(), min: Some(i + 1), max: Some(i + 1), end: None };
        let mut toks = vec![Tok::lit("k"), Tok::Par(q.clone())];
        if i % 5 == 0 {
            toks.push(Tok::lit("-"));
        }
        if i % 41 == 7 || i + 3 > n || (i > 253 && i < 258) {
            let v = exact_value(rng, &p, &q);
            msgs.push(format!("k{}", v));
            msgs.push(format!("k{}-", v));
        }
        pats.push(Pat::new(0, toks));
    }
    // prefixes of each other
    let mut s = String::from("p");
    for i in 0..n {
        s.push(if i % 7 == 3 { 'q' } else { 'p' });
        pats.push(Pat::new(0, vec![Tok::Lit(s.clone())]));
        if i % 50 == 9 || i + 2 > n {
            msgs.push(s.clone());
            msgs.push(format!("{}x", s));
        }
    }
    (pats, msgs)
}

/// copies of copies, each of which learns something of its own
fn ask_copies(out: &mut Out, pats: &[Pat], msgs: &[String], rng: &mut Rng) {
    out.put(json!({"e": "reset"}));
    out.put(json!({"e": "new", "h": 1}));
    let mut ids = Ids::default();
    let mut held: Vec<(Pair, Vec<Pat>)> = vec![(Pair::new(), vec![])];
    for (k, p) in pats.iter().enumerate() {
        let h = held.len() - 1;
        let mut p = p.clone();
        p.id = out.line();
        p.uuid = uuid_of(p.id as u64);
        ids.add(&p);
        let bad = held[h].0.add(&p);
        out.put(json!({"e": "add", "h": h + 1, "toks": toks_json(&p.toks), "p": bad}));
        if bad != 0 {
            return;
        }
        held[h].1.push(p);
        if held.len() < 4 && k == pats.len() * held.len() / 4 {
            if let Some(pair) = held[h].0.copy(rng.chance(50)) {
                let ps = held[h].1.clone();
                held.push((pair, ps));
                out.put(json!({"e": "clone", "h": h + 1, "g": held.len()}));
            }
        }
    }
    for (h, one) in held.iter().enumerate() {
        let (fresh, bad) = Pair::of(&one.1.iter().collect::<Vec<_>>());
        if bad != 0 {
            return;
        }
        for m in msgs {
            let a = one.0.ask(m, &ids, false);
            let f = fresh.ask(m, &ids, false);
            out.put(json!({"e": "ask", "h": h + 1, "t": text(m), "a": a, "f": f, "c": []}));
        }
    }
}

/// a matcher that has answered very many questions
fn worn(rng: &mut Rng, out: &mut Out, n: usize) {
    let p = profile(rng, 0);
    let mut toks: Vec<Vec<Tok>> = Vec::new();
    let mut pats: Vec<Pat> = Vec::new();
    out.put(json!({"e": "reset"}));
    out.put(json!({"e": "new", "h": 1}));
    let mut ids = Ids::default();
    let mut pair = Pair::new();
    for _ in 0..8 {
        let mut pat = Pat::new(out.line(), pattern(rng, &p, &toks));
        pat.how = rng.next() >> 8;
        toks.push(pat.toks.clone());
        ids.add(&pat);
        let bad = pair.add(&pat);
        out.put(json!({"e": "add", "h": 1, "toks": toks_json(&pat.toks), "p": bad}));
        if bad != 0 {
            return;
        }
        pats.push(pat);
    }
    let msgs: Vec<String> = (0..30).map(|_| message(rng, &p, &toks)).collect();
    for k in 0..4 {
        for i in 0..n / 4 {
            let _ = pair.ask(&msgs[(i * (k + 1)) % (7 + 7 * k)], &ids, false);
        }
        out.put(json!({"e": "busy", "h": 1, "n": n / 4}));
        for m in &msgs {
            let (fresh, _) = Pair::of(&pats.iter().collect::<Vec<_>>());
            let (a, f) = (pair.ask(m, &ids, false), fresh.ask(m, &ids, false));
            out.put(json!({"e": "ask", "h": 1, "t": text(m), "a": a, "f": f, "c": []}));
        }
    }
}

/// patterns with a lot of data
fn heavy(rng: &mut Rng, out: &mut Out) {
    let p = profile(rng, 1);
    out.put(json!({"e": "reset"}));
    out.put(json!({"e": "new", "h": 1}));
    let mut ids = Ids::default();
    let mut pair = Pair::new();
    let mut msgs = Vec::new();
    for (k, n) in [3usize, 254, 255, 256, 257, 300, 1000, 70000].iter().enumerate() {
        let m = format!("m{}", k);
        let mut pat = Pat::new(out.line(), vec![Tok::Lit(m.clone())]);
        msgs.push(m);
        if *n <= 300 {
            pat.name = Some(any_text(rng, &p, 3).repeat(*n));
            pat.values = Some((0..*n).map(|i| (format!("k{}", i), any_value(rng, &p))).collect());
            pat.tags = Some((0..*n).map(|i| format!("t{}", (i * 7) % 200)).collect());
        } else {
            let long: String = (0..*n).map(|_| *rng.pick(&p.alphabet)).collect();
            pat.name = Some(long.clone());
            pat.values = Some(Some((long.clone(), format!("{}.", long))).into_iter().collect());
            pat.tags = Some(vec![format!("{}!", long), "t".into()]);
        }
        ids.add(&pat);
        let bad = pair.add(&pat);
        let mut e = json!({"e": "add", "h": 1, "toks": toks_json(&pat.toks), "p": bad});
        e["meta"] = meta(pat.name.as_ref().map(|s| &s[..]), &pat.uuid, pat.values.as_ref(), pat.tags.as_ref().map(|s| &s[..]));
        out.put(e);
        if bad != 0 {
            return;
        }
    }
    for m in &msgs {
        let a = pair.ask(m, &ids, true);
        out.put(json!({"e": "ask", "h": 1, "t": text(m), "a": a, "f": [], "c": []}));
    }
}

/// C05 only: texts that are long or strange; nothing but an answer is expected
fn extreme(rng: &mut Rng, out: &mut Out, i: usize) {
    let p = profile(rng, if i % 2 == 0 { 2 } else { 7 });
    let mut toks: Vec<Vec<Tok>> = Vec::new();
    for _ in 0..rng.range(1, 6) {
        let t = pattern(rng, &p, &toks);
        toks.push(t);
    }
    let pats: Vec<Pat> = toks.iter().map(|t| Pat::new(0, t.clone())).collect();
    let mut msgs = Vec::new();
    for _ in 0..6 {
        let m = message(rng, &p, &toks);
        let m = match rng.below(4) {
            0 => m.repeat(rng.range(1, 40)),
            1 => {
                let k = rng.range(1, 300);
                format!("{}{}", m, (0..k).map(|_| *rng.pick(&p.alphabet)).collect::<String>())
            }
            _ => {
                // every way to cut it
                let cs: Vec<char> = m.chars().collect();
                for k in 0..cs.len().min(6) {
                    msgs.push(cs[..k].iter().collect());
                    msgs.push(cs[k..].iter().collect());
                }
                m
            }
        };
        msgs.push(m);
    }
    if i % 40 == 7 {
        // not written down, just done
        let refs: Vec<&Pat> = pats.iter().collect();
        let (pair, bad) = Pair::of(&refs);
        if bad == 0 {
            let long: String = msgs.iter().map(|m| &m[..]).collect::<String>().repeat(2000);
            let a = pair.ask(&long, &Ids::default(), false);
            let k = if a[0]["k"] == json!(2) || a[1]["k"] == json!(2) { 2 } else { 0 };
            out.put(json!({"e": "long", "n": long.len(), "k": k}));
        }
    }
    ask_all(out, &pats, &msgs);
}

#[cfg(not(feature = "index"))]
fn literals(_: &mut Rng, _: &mut Out) {}
#[cfg(feature = "index")]
fn literals(rng: &mut Rng, out: &mut Out) {
    use actiondb::matcher::trie::SuffixTree;
    let which = *rng.pick(&[0, 1, 2, 5, 5, 3, 4, 9]);
    let mut p = profile(rng, which);
    p.max_lit = p.max_lit.max(3);
    out.put(json!({"e": "lnew"}));
    let mut tree = SuffixTree::new();
    let mut known: Vec<String> = Vec::new();
    let n = if rng.chance(3) { 200 } else { rng.range(1, 16) };
    let mut copy: Option<SuffixTree> = None;
    for k in 0..n {
        let s = if !known.is_empty() && rng.chance(70) {
            let base: Vec<char> = rng.pick(&known).chars().collect();
            let mut s: String = base[..rng.range(0, base.len())].iter().collect();
            s.push_str(&any_text(rng, &p, 3));
            s
        } else {
            let max = if n > 50 { 12 } else { p.max_lit };
            any_text(rng, &p, max)
        };
        if s.is_empty() {
            continue;
        }
        let bad = call(|| {
            let _ = tree.insert_literal(&s);
        })
        .is_none();
        out.put(json!({"e": "lins", "s": text(&s), "p": bad as u32}));
        if bad {
            return;
        }
        known.push(s);
        if k == n / 2 {
            copy = call(|| tree.clone());
        }
        let looks = if n > 50 && k + 1 < n { 1 } else { 4 };
        for _ in 0..looks {
            let mut s = rng.pick(&known).clone();
            if rng.chance(60) {
                s = mutate(rng, &p, &s);
            }
            look(out, &mut tree, &s, rng.chance(30), 0);
        }
    }
    for s in known.clone().iter().take(40) {
        look(out, &mut tree, s, false, 0);
        let cs: Vec<char> = s.chars().collect();
        for i in 0..cs.len().min(14) {
            let cut = if cs.len() <= 14 { i } else { rng.below(cs.len()) };
            let prefix: String = cs[..cut].iter().collect();
            look(out, &mut tree, &prefix, false, 0);
        }
    }
    drop(copy);
}

#[cfg(not(feature = "index"))]
fn twin_literals(_: &mut Rng, _: &mut Out) {}
#[cfg(feature = "index")]
fn twin_literals(rng: &mut Rng, out: &mut Out) {
    use actiondb::matcher::trie::SuffixTree;
    let (pats, msgs) = twins(rng);
    out.put(json!({"e": "lnew"}));
    let mut tree = SuffixTree::new();
    for p in &pats {
        if let Tok::Lit(ref s) = p.toks[0] {
            let bad = call(|| {
                let _ = tree.insert_literal(s);
            })
            .is_none();
            out.put(json!({"e": "lins", "s": text(s), "p": bad as u32}));
            if bad {
                return;
            }
        }
    }
    for m in &msgs {
        look(out, &mut tree, m, rng.chance(30), 0);
    }
}

/// many literals, and long ones
#[cfg(not(feature = "index"))]
fn big_literals(_: &mut Rng, _: &mut Out) {}
#[cfg(feature = "index")]
fn big_literals(rng: &mut Rng, out: &mut Out) {
    use actiondb::matcher::trie::SuffixTree;
    let trunk: String = (0..66000).map(|_| *rng.pick(&['a', 'b', 'é', '€'])).collect();
    let cut = |k: usize| -> String { trunk.chars().take(k).collect() };
    for shape in 0..6 {
        let mut all: Vec<String> = Vec::new();
        match shape {
            // first characters
            0 => all.extend((0..1200u32).map(|i| std::char::from_u32(0x21 + (i * 7919) % 3000).unwrap().to_string())),
            1 => all.extend((0..300u32).map(|i| format!("{}{}", std::char::from_u32(0x4e00 + (i * 31) % 300).unwrap(), i % 3))),
            // beginnings of each other, short ones first, long ones first, in any order
            2 => all.extend((1..300).map(|i| cut(i))),
            3 => all.extend((1..300).rev().map(|i| cut(i))),
            4 => all.extend((0..300).map(|_| format!("{}{}", cut(rng.below(280)), rng.pick(&["", "x", "aé", "yy"])))),
            _ => {
                for k in &[255usize, 256, 257, 4096, 65535, 65536, 65537] {
                    all.push(cut(*k));
                    all.push(format!("{}x", cut(*k)));
                }
                if rng.chance(50) {
                    all.reverse();
                }
            }
        }
        all.retain(|s| !s.is_empty());
        out.put(json!({"e": "lnew"}));
        let mut tree = SuffixTree::new();
        let mut known: Vec<String> = Vec::new();
        for s in all {
            let bad = call(|| {
                let _ = tree.insert_literal(&s);
            })
            .is_none();
            out.put(json!({"e": "lins", "s": text(&s), "p": bad as u32}));
            if bad {
                return;
            }
            known.push(s);
            let s = rng.pick(&known).clone();
            look(out, &mut tree, &s, false, known.len());
        }
        for s in &known {
            if s.len() < 1000 || rng.chance(50) {
                look(out, &mut tree, s, false, known.len());
            }
            let cs: Vec<char> = s.chars().collect();
            match rng.below(4) {
                0 => look(out, &mut tree, &format!("{}z", s), false, known.len()),
                1 => look(out, &mut tree, &cs[..cs.len() - 1].iter().collect::<String>(), true, known.len()),
                2 => look(out, &mut tree, &cs[1..].iter().collect::<String>(), false, known.len()),
                _ => {}
            }
        }
    }
}

#[cfg(not(feature = "utils"))]
fn big_utilities(_: &mut Rng, _: &mut Out) {}
#[cfg(feature = "utils")]
fn big_utilities(rng: &mut Rng, out: &mut Out) {
    use actiondb::utils::SortedVec;
    for shape in 0..4 {
        out.put(json!({"e": "vnew"}));
        let mut v: SortedVec<String> = SortedVec::new();
        let n = 270;
        for i in 0..n + 60 {
            let x = format!("{}", 1000 + match shape {
                0 => i,
                1 => n - i.min(n),
                2 => (i * 7919) % 300,
                _ => 5 * rng.below(60),
            });
            let len = v.len();
            let mut e = if i < n {
                let r = call(|| v.push(x.clone()));
                json!({"op": "push", "x": text(&x), "ok": r.is_some() as u32})
            } else if i % 3 == 0 {
                let k = *rng.pick(&[0, len - 1, len / 2]);
                let r = call(|| v.remove(k));
                json!({"op": "remove", "i": k + 1, "ok": r.is_some() as u32, "r": opt_text(r.as_ref().map(|s| &s[..]))})
            } else {
                let x = format!("{}", 1000 + rng.below(300));
                let r = call(|| v.find_pos(&x));
                json!({"op": "pos", "x": text(&x), "ok": r.is_some() as u32, "r": r.and_then(|r| r).map_or(0, |i| i + 1)})
            };
            let mut all = Vec::new();
            while let Some(Some(x)) = call(|| v.get(all.len()).cloned()) {
                all.push(x);
            }
            e["e"] = json!("vop");
            e["all"] = texts(&all);
            e["len"] = json!(call(|| v.len()).unwrap_or(999999));
            e["empty"] = json!(call(|| v.is_empty()).map_or(2, |b| b as u32));
            out.put(e);
        }
    }
    for n in &[254usize, 255, 256, 257, 4095, 4097, 32768, 65535, 65536, 65537] {
        let a: String = (0..*n).map(|_| *rng.pick(&['a', 'b', 'é', '€'])).collect();
        let mut b = a.clone();
        match rng.below(3) {
            0 => b.push('x'),
            1 => {
                b.pop();
            }
            _ => {
                b.pop();
                b.push_str("😀c");
            }
        }
        prefix(out, rng, &a, &b);
        prefix(out, rng, &b, &a);
        prefix(out, rng, &a, &a);
    }
}

#[cfg(feature = "index")]
fn look(out: &mut Out, tree: &mut actiondb::matcher::trie::SuffixTree, s: &str, mutable: bool, known: usize) {
    if s.is_empty() {
        return;
    }
    let r = if mutable {
        call(|| tree.lookup_literal_mut(s).map(|_| ()).map_err(|e| e.1))
    } else {
        call(|| tree.lookup_literal(s).map(|_| ()).map_err(|e| e.1))
    };
    // what a lookup in vain has left, where that is soon said
    let left = match r {
        Some(Err(n)) if known < 40 && s.len() < 40 && out.lines % 4 == 0 => n as i64,
        _ => -1,
    };
    let r = r.map(|r| r.is_ok());
    out.put(json!({"e": "llook", "s": text(s), "left": left, "r": match r { None => 2, Some(true) => 1, Some(false) => 0 }}));
}

#[cfg(not(feature = "utils"))]
fn utilities(_: &mut Rng, _: &mut Out) {}
#[cfg(feature = "utils")]
fn utilities(rng: &mut Rng, out: &mut Out) {
    use actiondb::utils::{CommonPrefix, SortedVec};
    let which = *rng.pick(&[0, 1, 2, 4, 5, 9]);
    let p = profile(rng, which);
    out.put(json!({"e": "vnew"}));
    let mut v: SortedVec<String> = SortedVec::new();
    let steps = if rng.chance(3) { 150 } else { rng.range(1, 25) };
    let content = |v: &SortedVec<String>| -> Vec<String> {
        let mut c = Vec::new();
        while let Some(x) = v.get(c.len()) {
            c.push(x.clone());
        }
        c
    };
    for _ in 0..steps {
        let x = any_text(rng, &p, 3);
        let len = v.len();
        let e = match rng.below(10) {
            0..=4 => {
                let r = call(|| v.push(x.clone()));
                json!({"op": "push", "x": text(&x), "ok": r.is_some() as u32})
            }
            5 if len > 0 => {
                let i = rng.below(len);
                let r = call(|| v.remove(i));
                json!({"op": "remove", "i": i + 1, "ok": r.is_some() as u32, "r": opt_text(r.as_ref().map(|s| &s[..]))})
            }
            6 => {
                let r = call(|| v.find(&x).map(|s| s.clone()));
                json!({"op": "find", "x": text(&x), "ok": r.is_some() as u32, "r": opt_text(r.and_then(|r| r).as_ref().map(|s| &s[..]))})
            }
            7 => {
                let r = call(|| v.find_pos(&x));
                json!({"op": "pos", "x": text(&x), "ok": r.is_some() as u32, "r": r.and_then(|r| r).map_or(0, |i| i + 1)})
            }
            8 => {
                let r = call(|| v.binary_search_by(|probe| probe.cmp(&x)));
                let (k, i) = match r {
                    Some(Ok(i)) => (1, i + 1),
                    Some(Err(i)) => (0, i + 1),
                    None => (2, 0),
                };
                json!({"op": "search", "x": text(&x), "k": k, "i": i, "ok": (k < 2) as u32})
            }
            _ => {
                let i = rng.below(len + 2);
                let r = call(|| v.get(i).map(|s| s.clone()));
                let m = call(|| v.get_mut(i).map(|s| s.clone()));
                let same = r == m;
                json!({"op": "get", "i": i + 1, "ok": (r.is_some() && same) as u32, "r": opt_text(r.and_then(|r| r).as_ref().map(|s| &s[..]))})
            }
        };
        let mut e = e;
        e["e"] = json!("vop");
        let c = call(|| content(&v)).unwrap_or_default();
        e["all"] = texts(&c);
        e["len"] = json!(call(|| v.len()).unwrap_or(999999));
        e["empty"] = json!(call(|| v.is_empty()).map_or(2, |b| b as u32));
        out.put(e);
    }
    for _ in 0..10 {
        let a = any_text(rng, &p, 5);
        let b = if rng.chance(60) { mutate(rng, &p, &a) } else { any_text(rng, &p, 5) };
        prefix(out, rng, &a, &b);
    }
    let _ = <str as CommonPrefix>::common_prefix_len;
    let vs: Vec<Vec<usize>> = (0..rng.below(5)).map(|_| (0..rng.below(4)).map(|_| rng.below(6)).collect()).collect();
    let flat = call(|| actiondb::utils::flatten_vec(vs.clone()));
    out.put(json!({"e": "flat", "vs": vs, "r": flat.unwrap_or(vec![99])}));
}

#[cfg(not(feature = "utils"))]
pub fn prefix(_: &mut Out, _: &mut Rng, _: &str, _: &str) {}
#[cfg(feature = "utils")]
pub fn prefix(out: &mut Out, rng: &mut Rng, a: &str, b: &str) {
    use actiondb::utils::CommonPrefix;
    let n = call(|| a.common_prefix_len(b)).map_or(-1, |n| n as i64);
    let h = match call(|| a.has_common_prefix(b)) {
        None => json!([-1]),
        Some(None) => json!([]),
        Some(Some(n)) => json!([n]),
    };
    let cuts: Vec<usize> = a.char_indices().map(|(i, _)| i).chain(Some(a.len())).collect();
    let j = rng.below(cuts.len());
    let l = call(|| a.ltrunc(cuts[j]).to_owned());
    let r = call(|| a.rtrunc(a.len() - cuts[j]).to_owned());
    out.put(json!({"e": "cpl", "a": text(a), "b": text(b), "n": n, "h": h, "j": j,
                   "lt": opt_text(l.as_ref().map(|s| &s[..])), "rt": opt_text(r.as_ref().map(|s| &s[..]))}));
}
