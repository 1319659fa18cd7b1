//! Replays behaviours generated from the specification on the real code and
//! compares what it does with what the specification says.
use crate::docs::*;
use crate::exec::*;
use crate::model::*;
use crate::record2;
use sj::{json, Value};
use actiondb::matcher::compiled_pattern::{CompiledPatternBuilder, TokenType};
use std::collections::BTreeMap;

pub struct Report {
    prop: String,
    pub cases: u64,
    pub compared: u64,
    pub wrong: u64,
}

impl Report {
    fn is(&self, props: &[&str]) -> bool {
        props.contains(&&self.prop[..])
    }
    fn expect(&mut self, ok: bool, what: &str, details: &dyn Fn() -> Value) {
        self.compared += 1;
        if !ok {
            self.wrong += 1;
            if self.wrong <= 5 {
                println!("MISMATCH {}", json!({"prop": self.prop, "what": what, "details": details()}));
            }
        }
    }
}

fn ints(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().expect("array")
}

fn k(a: &Value) -> u64 {
    a["k"].as_u64().unwrap()
}

pub fn replay(prop: &str, path: &str) -> i32 {
    let data = std::fs::read_to_string(path).expect("emission");
    let lines: Vec<Value> = data.lines().map(|l| sj::from_str(l).expect("json")).collect();
    let mut rep = Report { prop: prop.to_owned(), cases: 0, compared: 0, wrong: 0 };
    let head = |kind: &str| lines.iter().find(|l| l["k"] == json!(kind)).map(|l| l["v"].clone());
    let texts: Vec<String> = head("texts").map_or(vec![], |v| arr(&v).iter().map(untext).collect());
    let pats: Vec<Vec<Tok>> = head("patterns").map_or(vec![], |v| arr(&v).iter().map(toks_from_json).collect());
    let alone: Vec<Vec<usize>> = head("alone").map_or(vec![], |v| arr(&v).iter().map(ints).collect());
    let values: Vec<Vec<BTreeMap<String, String>>> =
        head("values").map_or(vec![], |v| arr(&v).iter().map(|p| arr(p).iter().map(unkvs).collect()).collect());
    let tokens: Vec<Tok> = head("tokens").map_or(vec![], |v| toks_from_json(&v));
    let index = Index { texts, pats, alone, values };
    for (i, l) in lines.iter().enumerate() {
        let before = rep.compared;
        match l["k"].as_str().unwrap() {
            "case" => index_case(&mut rep, &index, l, i),
            "path" if l.get("ans").is_some() => clone_path(&mut rep, &index, l, i),
            "path" => file_path(&mut rep, l, i),
            "ok" | "err" => source(&mut rep, l),
            "load" => load_case(&mut rep, l, i),
            "doc" => document(&mut rep, l, i),
            "par" => parser(&mut rep, &index, l, i),
            "pair" => pair(&mut rep, l, i),
            "lits" => literals(&mut rep, &index, l),
            "parts" => parts(&mut rep, &tokens, l, i),
            "vec" => vector(&mut rep, l),
            "pre" => prefix(&mut rep, l),
            _ => {}
        }
        if rep.compared > before {
            rep.cases += 1;
        }
    }
    println!("{}", json!({"cases": rep.cases, "compared": rep.compared, "wrong": rep.wrong, "calls": calls()}));
    0
}

struct Index {
    texts: Vec<String>,
    pats: Vec<Vec<Tok>>,
    alone: Vec<Vec<usize>>,
    values: Vec<Vec<BTreeMap<String, String>>>,
}

/// pattern number p (from 0), added at this place
fn build(ix: &Index, p: usize, place: usize, how: u64) -> Pat {
    let mut pat = Pat::new(place as i64 + 1, ix.pats[p].clone());
    pat.how = how + place as u64;
    if how % 2 == 1 {
        pat.src = to_src(&pat.toks, how);
    }
    if how % 3 != 2 {
        pat.name = Some(format!("name {}", place));
    }
    if how % 5 != 4 {
        pat.values = Some(vec![(format!("key{}", place), format!("{}", p)), ("k".into(), format!("{}", place))].into_iter().collect());
    }
    if how % 7 != 6 {
        pat.tags = Some((0..place + 1).map(|j| format!("t{}", j)).collect());
    }
    pat
}

fn index_case(rep: &mut Report, ix: &Index, l: &Value, i: usize) {
    let hist: Vec<usize> = ints(&l["hist"]).into_iter().map(|p| p - 1).collect();
    let best = ints(&l["best"]);
    let canonical = hist.iter().all(|p| crate::model::canonical(ix.pats[*p].clone()) == ix.pats[*p] && !ix.pats[*p].is_empty());
    let mut ids = Ids::default();
    let mut pair = Pair::new();
    let mut added = Vec::new();
    for (place, p) in hist.iter().enumerate() {
        let pat = build(ix, *p, place, i as u64);
        ids.add(&pat);
        let bad = pair.add(&pat);
        if rep.is(&["C05"]) {
            rep.expect(bad == 0, "adding a pattern panics", &|| json!({"hist": l["hist"], "panicked": bad}));
        }
        if bad != 0 {
            return;
        }
        added.push(pat);
    }
    for (j, t) in ix.texts.iter().enumerate() {
        let both = pair.ask(t, &ids, rep.prop == "C18");
        let about = |a: &Value| json!({"patterns": hist.iter().map(|p| format!("{:?}", ix.pats[*p])).collect::<Vec<_>>(), "message": t, "answer": a, "expected": best[j]});
        for side in 0..2 {
            let a = &both[side];
            // which place of the history is reported; -1: none that was added
            let id = if k(a) == 1 { a["id"].as_i64().unwrap() } else { 0 };
            let fits = id > 0 && ix.alone[hist[id as usize - 1]][j] == 1;
            match &rep.prop[..] {
                "C01" => rep.expect(k(a) != 1 || fits, "reports a pattern that does not match", &|| about(a)),
                "C02" => {
                    let any = hist.iter().any(|p| ix.alone[*p][j] == 1);
                    rep.expect(!any || k(a) == 1, "misses a matching pattern", &|| about(a));
                }
                "C03" | "C19" if canonical => {
                    let ok = id == best[j] as i64 && (k(a) != 2 || best[j] == 0);
                    rep.expect(ok, "reports another pattern than the preferred one", &|| about(a));
                    if rep.is(&["C19"]) && ok && fits {
                        rep.expect(unkvs(&a["vals"]) == ix.values[hist[id as usize - 1]][j], "wrong values", &|| about(a));
                    }
                }
                "C05" => rep.expect(k(a) != 2, "panics", &|| about(a)),
                "C06" => {
                    if fits {
                        rep.expect(unkvs(&a["vals"]) == ix.values[hist[id as usize - 1]][j], "wrong values", &|| about(a));
                    }
                }
                "C18" => {
                    if k(a) == 1 {
                        let ok = fits && {
                            let p = &added[id as usize - 1];
                            a["m"] == meta(p.name.as_ref().map(|s| &s[..]), &p.uuid, p.values.as_ref(), p.tags.as_ref().map(|s| &s[..]))
                        };
                        rep.expect(ok, "metadata of another pattern", &|| about(a));
                    }
                }
                _ => {}
            }
        }
        if rep.is(&["C04"]) && canonical {
            rep.expect(both[0] == both[1], "the two matchers disagree", &|| about(&both));
        }
    }
    if rep.is(&["C17"]) {
        // the same questions in another order
        let first: Vec<Value> = ix.texts.iter().map(|t| pair.ask(t, &ids, false)).collect();
        for (j, t) in ix.texts.iter().enumerate().rev() {
            let again = pair.ask(t, &ids, false);
            rep.expect(again == first[j], "another answer to the same message", &|| json!({"hist": l["hist"], "message": t, "first": first[j], "again": again}));
        }
    }
}

fn clone_path(rep: &mut Report, ix: &Index, l: &Value, i: usize) {
    // without and with questions in between; copies made in both ways
    for round in 0..3u64 {
        let mut hs: Vec<Pair> = vec![Pair::new()];
        let mut ids = Ids::default();
        let mut added: Vec<usize> = Vec::new();
        for (n, step) in arr(&l["path"]).iter().enumerate() {
            let h = step[1].as_u64().unwrap() as usize - 1;
            if step[0] == json!("add") {
                let p = step[2].as_u64().unwrap() as usize - 1;
                let pat = build(ix, p, n, i as u64 + round);
                added.push(p);
                ids.add(&pat);
                if hs[h].add(&pat) != 0 {
                    return;
                }
            } else {
                added.push(usize::max_value());
                match hs[h].copy(round == 1) {
                    Some(copy) => hs.push(copy),
                    None => return,
                }
            }
            if round == 2 {
                for m in &hs {
                    for t in &ix.texts {
                        let _ = m.ask(t, &ids, false);
                    }
                }
            }
        }
        for (h, m) in hs.iter().enumerate() {
            for (j, t) in ix.texts.iter().enumerate() {
                let want = &l["ans"][h][j];
                let both = m.ask(t, &ids, false);
                for side in 0..2 {
                    let a = &both[side];
                    let ok = if arr(want).is_empty() {
                        k(a) == 0
                    } else {
                        k(a) == 1
                            && a["id"].as_i64().unwrap() > 0
                            && added[a["id"].as_u64().unwrap() as usize - 1] + 1 == want[0].as_u64().unwrap() as usize
                            && unkvs(&a["vals"]) == unkvs(&want[1])
                    };
                    rep.expect(ok, "unexpected answer", &|| json!({"path": l["path"], "matcher": h + 1, "message": t, "answer": a, "expected": want, "round": round}));
                }
            }
        }
    }
}

/// what a token is seen to be
fn looks(t: &TokenType, want: &Tok) -> bool {
    match (t, want) {
        (&TokenType::Literal(ref s), &Tok::Lit(ref w)) => s == w,
        (&TokenType::Parser(ref q), &Tok::Par(ref w)) => {
            let same = w.build(1);
            q.name().map(|n| n.to_owned()) == w.name
                && ["", "7", "77", "xb", "x"].iter().all(|t| q.parse(t).map(|r| r.value().to_owned()) == same.parse(t).map(|r| r.value().to_owned()))
        }
        _ => false,
    }
}

fn parts(rep: &mut Report, tokens: &[Tok], l: &Value, i: usize) {
    let test = |n: usize| Test { m: format!("m{}", n), values: vec![(format!("k{}", n), "v".to_owned())].into_iter().collect(), tags: if n == 1 { None } else { Some(vec!["t".into()]) } };
    let of = |v: &Value| ints(v).iter().map(|n| tokens[*n - 1].clone()).collect::<Vec<Tok>>();
    let is = |got: &[TokenType], want: &[Tok]| got.len() == want.len() && got.iter().zip(want).all(|(g, w)| looks(g, w));
    let mut hs: Vec<actiondb::matcher::Pattern> = Vec::new();
    let mut ids: Vec<Pat> = Vec::new();
    let mut builder = CompiledPatternBuilder::new();
    let ran = call(|| {
        for (n, s) in arr(&l["path"]).iter().enumerate() {
            let h = || s[1].as_u64().unwrap() as usize - 1;
            let ok = match s[0].as_str().unwrap() {
                "new" => {
                    let mut p = Pat::new(n as i64 + 1, of(&s[1]));
                    p.how = i as u64;
                    p.tests = ints(&s[2]).into_iter().map(test).collect();
                    if i % 2 == 0 {
                        p.name = Some(format!("n{}", n));
                        p.tags = Some(vec![format!("g{}", n)]);
                        p.values = Some(vec![("a".to_owned(), format!("{}", n))].into_iter().collect());
                    }
                    hs.push(p.build());
                    ids.push(p);
                    true
                }
                "copy" => {
                    let copy = hs[h()].clone();
                    hs.push(copy);
                    let id = ids[h()].clone();
                    ids.push(id);
                    true
                }
                "tok" => {
                    let got: Vec<TokenType> = hs[h()].pop_first_token().into_iter().collect();
                    is(&got, &of(&s[2]))
                }
                "test" => {
                    let got: Vec<Value> = hs[h()].pop_test_message().iter().map(said_test).collect();
                    let want: Vec<Value> = ints(&s[2]).into_iter().map(|n| said_test(&test(n).build())).collect();
                    got == want
                }
                "put" => {
                    match tokens[h()] {
                        Tok::Lit(ref t) => builder.literal(&t[..]),
                        Tok::Par(ref p) => builder.parser(p.build(i as u64 + n as u64)),
                    };
                    true
                }
                "build" => {
                    let built = builder.build();
                    let ok = is(&built, &of(&s[2]));
                    hs[h()].set_pattern(built);
                    ok
                }
                other => panic!("step {}", other),
            };
            rep.expect(ok, "hands out something else", &|| json!({"path": l["path"], "step": n + 1}));
        }
        for (h, p) in hs.iter_mut().enumerate() {
            let left = &l["left"][h];
            let meta_ok = *p.uuid() == ids[h].uuid && p.name() == ids[h].name.as_ref().map(|s| &s[..]) && p.values() == ids[h].values.as_ref()
                && p.tags() == ids[h].tags.as_ref().map(|v| &v[..]);
            rep.expect(meta_ok && is(p.pattern(), &of(&left["toks"])), "something else is left", &|| json!({"path": l["path"], "pattern": h + 1}));
            let mut tests = Vec::new();
            while let Some(t) = p.pop_test_message() {
                tests.insert(0, said_test(&t));
            }
            let want: Vec<Value> = ints(&left["tests"]).into_iter().map(|n| said_test(&test(n).build())).collect();
            rep.expect(tests == want, "other test messages are left", &|| json!({"path": l["path"], "pattern": h + 1}));
        }
    });
    rep.expect(ran.is_some(), "panics", &|| json!({"path": l["path"]}));
}

fn source(rep: &mut Report, l: &Value) {
    use actiondb::grammar::parser;
    use actiondb::matcher::compiled_pattern::TokenType;
    let src = untext(&l["src"]);
    about(format!("compiling {:?}", src));
    let r = call(|| parser::pattern(&src));
    if l["k"] == json!("err") {
        if !rep.is(&["C10", "C25"]) {
            return;
        }
        if rep.is(&["C25"]) {
            let mut want: Vec<String> = arr(&l["exp"]).iter().map(untext).collect();
            want.sort();
            let got = match r {
                Some(Err(ref e)) => record2::wanted(e),
                _ => json!("no error"),
            };
            rep.expect(got == texts(&want), "what was expected", &|| json!({"src": src, "expected": want, "got": got}));
            return;
        }
        let (ok, got) = match r {
            None => (false, json!("panic")),
            Some(Ok(_)) => (false, json!("accepted")),
            Some(Err(e)) => (
                json!(e.offset) == l["off"] && json!(e.line) == l["line"] && json!(e.column) == l["col"],
                json!([e.offset, e.line, e.column]),
            ),
        };
        rep.expect(ok, "malformed text", &|| json!({"src": src, "expected": [l["off"], l["line"], l["col"]], "got": got}));
        return;
    }
    if !rep.is(&["C09"]) {
        return;
    }
    let want = toks_from_json(&l["toks"]);
    let mut got = json!("rejected");
    let ok = match r {
        Some(Ok(toks)) => {
            got = json!(toks.len());
            toks.len() == want.len()
                && toks.iter().zip(&want).all(|(t, w)| match (t, w) {
                    (&TokenType::Literal(ref s), &Tok::Lit(ref w)) => s == w,
                    (&TokenType::Parser(ref q), &Tok::Par(ref p)) => {
                        let direct = p.build(1);
                        let huge = p.min.unwrap_or(0) >= CAP || p.max.unwrap_or(0) >= CAP;
                        q.name() == p.name.as_ref().map(|s| &s[..])
                            && (huge || same_hash(&**q, &*direct) != Some(false))
                            && record2::probe_texts(&src, &**q, 35).iter().all(|t| {
                                call(|| q.parse(t).map(|r| r.value().to_owned())) == call(|| direct.parse(t).map(|r| r.value().to_owned()))
                            })
                    }
                    _ => false,
                })
        }
        Some(Err(_)) => false,
        None => {
            got = json!("panic");
            false
        }
    };
    rep.expect(ok, "well-formed text", &|| json!({"src": src, "expected": format!("{:?}", want), "got": got}));
}

fn load_case(rep: &mut Report, l: &Value, i: usize) {
    let mut items: Vec<record2::Item> = arr(&l["items"])
        .iter()
        .map(|it| {
            let mut pat = Pat::new(it["id"].as_i64().unwrap(), toks_from_json(&it["toks"]));
            pat.values = Some(unkvs(&it["values"]));
            pat.tags = opt_untexts(&it["tags"]);
            pat.tests = arr(&it["tests"])
                .iter()
                .map(|t| Test { m: untext(&t["m"]), values: unkvs(&t["values"]), tags: opt_untexts(&t["tags"]) })
                .collect();
            pat.how = i as u64;
            record2::Item { bad: it["bad"] == json!(true), pat, answers: vec![] }
        })
        .collect();
    let mode = l["mode"].as_str().unwrap().to_owned();
    let mut probes: Vec<String> = items.iter().flat_map(|it| it.pat.tests.iter().map(|t| t.m.clone())).collect();
    probes.sort();
    probes.dedup();
    let dir = scratch();
    let events = [
        record2::run_load::<TrieFactory>(&mut items, &mode, "source", &probes, &dir, 0),
        record2::run_load::<TableFactory>(&mut items, &mode, "source", &probes, &dir, 0),
    ];
    let failing = ints(&l["failing"]);
    for e in events.iter() {
        let e = match *e {
            Some(ref e) => e,
            None => continue,
        };
        let show = || json!({"mode": mode, "items": l["items"], "expected": l["out"], "failing": failing, "log": l["log"], "observed": e});
        let done = l["out"] == json!("done");
        let agree = arr(&e["probes"]).iter().all(|p| p[0] == p[1]);
        let logged = |n: &usize| {
            let mark = untext(&e["items"][*n - 1]["mark"]);
            arr(&e["log"]).iter().any(|t| untext(t).contains(&mark))
        };
        match &rep.prop[..] {
            "C11" if mode == "strict" => rep.expect(done == (e["out"] == json!("ok")), "verdict on test messages", &show),
            "C12" if mode == "strict" => {
                let ok = if done {
                    e["out"] == json!("ok") && agree
                } else {
                    let first = *failing.iter().min().unwrap();
                    let it = &l["items"][first - 1];
                    let kind = e["err"]["kind"].as_str().unwrap_or("");
                    e["out"] == json!("err")
                        && e["err"]["id"] == it["id"]
                        && (kind == "bad") == (it["bad"] == json!(true))
                        && ["bad", "value", "key", "nomatch", "other", "tags"].contains(&kind)
                };
                rep.expect(ok, "strict loading", &show);
            }
            "C13" if mode == "lenient" => {
                let ok = e["out"] == json!("ok") && agree && arr(&e["log"]).len() == failing.len() && failing.iter().all(logged);
                rep.expect(ok, "lenient loading", &show);
            }
            "C22" if mode == "strict" && e["out"] == json!("err") && e["err"]["kind"] != json!("bad") => {
                let err = &e["err"];
                let place = arr(&l["items"]).iter().position(|it| it["id"] == err["id"] && it["bad"] != json!(true));
                let ok = place.map_or(false, |n| {
                    arr(&l["reasons"][n]).iter().enumerate().any(|(j, rs)| {
                        let test = &l["items"][n]["tests"][j];
                        arr(rs).iter().any(|r| {
                            r[0] == err["kind"]
                                && match r[0].as_str().unwrap() {
                                    "value" => err["key"] == r[1] && err["want"] == r[2] && err["got"] == r[3],
                                    "key" => err["key"] == r[1],
                                    "nomatch" => err["m"] == test["m"],
                                    "other" => err["other"] == r[1] && err["m"] == test["m"],
                                    _ => err["wtags"] == test["tags"] && err["gtags"] == l["items"][n]["tags"],
                                }
                        })
                    })
                });
                rep.expect(ok, "cause of a failed load", &show);
            }
            _ => {}
        }
    }
}

/// what a document says, in one form for comparison
fn normal(p: &Value) -> Value {
    let toks: Vec<Value> = arr(&p["toks"])
        .iter()
        .map(|t| if t["t"] == json!("lit") { json!(["lit", t["s"]]) } else { json!(["par", t["name"]]) })
        .collect();
    let map = |v: &Value| json!(unkvs(v));
    let tests: Vec<Value> = arr(&p["tests"]).iter().map(|t| json!([t["m"], map(&t["values"]), t["tags"]])).collect();
    json!({"uuid": p["uuid"], "name": p["name"], "toks": toks, "tests": tests, "tags": p["tags"],
           "values": arr(&p["values"]).iter().map(map).collect::<Vec<_>>()})
}

fn document(rep: &mut Report, l: &Value, i: usize) {
    let dir = scratch();
    let tree = Tree::from_json(&l["doc"], &mut (i / 3));
    let want: Vec<Value> = arr(&l["says"]).iter().map(normal).collect();
    let ok = l["ok"] == json!(true);
    for (name, content) in vec![("r.json", tree.to_json_text(i)), ("r.yml", tree.to_yaml_text())] {
        let r = load_tree(&dir, name, &content);
        let fits = if rep.is(&["C23"]) {
            says_why(l, &r)
        } else if ok {
            k(&r) == 1 && arr(&r["says"]).iter().map(normal).collect::<Vec<_>>() == want
        } else {
            k(&r) == 0
        };
        rep.expect(fits, "document", &|| json!({"file": name, "content": content, "expected": if ok { json!(want) } else { json!("rejected") }, "got": r}));
    }
}

/// the reason given for a rejection is one of those specified
fn says_why(l: &Value, r: &Value) -> bool {
    let (err, log) = (untext(&r["err"]), arr(&r["log"]).iter().map(untext).collect::<Vec<_>>());
    let all = |needs: &Value, line: &String| arr(needs).iter().all(|s| line.contains(&untext(s)));
    let why = arr(&l["why"]);
    match k(r) {
        0 => {
            why.iter().any(|f| {
                let told = if f["wrong"] == json!(true) {
                    !["Unexpected field", "issing field", "Invalid field"].iter().any(|s| err.contains(s))
                } else {
                    arr(&f["tells"]).iter().any(|s| err.contains(&untext(s)))
                };
                told && (f["logged"] != json!(true) || log.iter().any(|line| all(&f["logs"], line)))
            }) && log.iter().all(|line| why.iter().any(|f| f["logged"] == json!(true) && all(&f["logs"], line)))
        }
        1 => !why.is_empty() || log.is_empty(),
        _ => false,
    }
}

fn file_path(rep: &mut Report, l: &Value, i: usize) {
    let name = untext(&l["path"]);
    let dir = scratch();
    let some = [record2::STATES[i % record2::STATES.len()], record2::STATES[(i / 7) % record2::STATES.len()], "good"];
    for state in some.iter() {
        let e = record2::file_event(&dir, &name, state);
        let want = &l["outs"][*state];
        let ok = e["load"]["kind"] == *want
            && (0..2).all(|s| {
                let strict = if *want == json!("ok") && *state == "failing" { json!("test") } else { want.clone() };
                e["strict"][s]["kind"] == strict && e["lenient"][s]["kind"] == *want
            });
        rep.expect(ok, "file", &|| json!({"name": name, "state": state, "expected": want, "got": e}));
    }
}

fn parser(rep: &mut Report, ix: &Index, l: &Value, i: usize) {
    let p = match Tok::from_json(&l["p"]) {
        Tok::Par(p) => p,
        _ => return,
    };
    if rep.is(&["C07"]) == (p.kind == Kind::Greedy) || !rep.is(&["C07", "C08"]) {
        return;
    }
    let ends = ints(&l["ends"]);
    for (j, t) in ix.texts.iter().enumerate() {
        let want: Option<String> = if ends[j] == 0 { None } else { Some(t.chars().take(ends[j] - 1).collect()) };
        let got = call(|| {
            let q = p.build((i + j) as u64);
            q.parse(t).map(|r| (r.value().to_owned(), r.parser().name().map(|n| n.to_owned())))
        });
        let ok = match got {
            Some(ref got) => *got == want.map(|w| (w, p.name.clone())),
            None => false,
        };
        rep.expect(ok, "parser", &|| json!({"parser": format!("{:?}", p), "text": t, "end": ends[j], "got": format!("{:?}", got)}));
    }
}

fn pair(rep: &mut Report, l: &Value, i: usize) {
    if !rep.is(&["C19"]) {
        return;
    }
    if let (Tok::Par(p), Tok::Par(q)) = (Tok::from_json(&l["p"]), Tok::from_json(&l["q"])) {
        let same = call(|| same_hash(&*p.build(i as u64), &*q.build(i as u64 / 2)).unwrap());
        rep.expect(same == Some(l["same"] == json!(1)), "identity of parsers", &|| json!({"p": format!("{:?}", p), "q": format!("{:?}", q), "same": same}));
        let copy = call(|| {
            let x = p.build(i as u64 / 3);
            same_hash(&*x.boxed_clone(), &*x).unwrap()
        });
        rep.expect(copy == Some(true), "a copy is not the same", &|| json!({"p": format!("{:?}", p)}));
    }
}

#[cfg(not(feature = "index"))]
fn literals(_: &mut Report, _: &Index, _: &Value) {}
#[cfg(feature = "index")]
fn literals(rep: &mut Report, ix: &Index, l: &Value) {
    use actiondb::matcher::trie::SuffixTree;
    let ins: Vec<String> = arr(&l["ins"]).iter().map(untext).collect();
    let found = ints(&l["found"]);
    let tree = call(|| {
        let mut tree = SuffixTree::new();
        for s in &ins {
            let _ = tree.insert_literal(s);
        }
        tree
    });
    rep.expect(tree.is_some(), "inserting a literal panics", &|| json!(ins));
    let mut tree = match tree {
        Some(t) => t,
        None => return,
    };
    for (j, t) in ix.texts.iter().enumerate() {
        let want = found.contains(&(j + 1));
        let got = call(|| tree.lookup_literal(t).is_ok());
        let got_mut = call(|| tree.lookup_literal_mut(t).is_ok());
        // a lookup in vain tells how much of the text is left
        if !want && got == Some(false) && got_mut == Some(false) {
            let left = call(|| (tree.lookup_literal(t).err().map(|e| e.1), tree.lookup_literal_mut(t).err().map(|e| e.1)));
            let rest = l["left"][j].as_u64().map(|n| n as usize);
            rep.expect(left == Some((rest, rest)), "what is left", &|| json!({"inserted": ins, "text": t, "expected": rest, "got": format!("{:?}", left)}));
        }
        rep.expect(got == Some(want) && got_mut == Some(want), "lookup", &|| json!({"inserted": ins, "text": t, "expected": want, "got": got, "mut": got_mut}));
    }
}

#[cfg(not(feature = "utils"))]
fn vector(_: &mut Report, _: &Value) {}
#[cfg(feature = "utils")]
fn vector(rep: &mut Report, l: &Value) {
    use actiondb::utils::SortedVec;
    let want: Vec<String> = arr(&l["all"]).iter().map(untext).collect();
    let r = call(|| {
        let mut v: SortedVec<String> = SortedVec::new();
        for step in arr(&l["path"]) {
            if step[0] == json!("push") {
                v.push(untext(&step[1]));
            } else {
                let _ = v.remove(step[1].as_u64().unwrap() as usize - 1);
            }
        }
        let mut all = Vec::new();
        while let Some(x) = v.get(all.len()) {
            all.push(x.clone());
        }
        let items = ["", "a", "ab", "é"];
        let found = items.iter().all(|x| {
            let x = (*x).to_owned();
            let there = want.contains(&x);
            v.find(&x) == if there { Some(&x) } else { None }
                && v.find_pos(&x).map(|p| want.get(p) == Some(&x)) == if there { Some(true) } else { None }
                && match v.binary_search_by(|y| y.cmp(&x)) {
                    Ok(p) => there && want.get(p) == Some(&x),
                    Err(p) => !there && p <= want.len() && want[..p].iter().all(|y| *y < x) && want[p..].iter().all(|y| *y > x),
                }
        });
        (all, v.len(), v.is_empty(), found)
    });
    let ok = r.as_ref().map_or(false, |r| r.0 == want && r.1 == want.len() && r.2 == want.is_empty() && r.3);
    rep.expect(ok, "ordered vector", &|| json!({"path": l["path"], "expected": want, "got": format!("{:?}", r)}));
}

#[cfg(not(feature = "utils"))]
fn prefix(_: &mut Report, _: &Value) {}
#[cfg(feature = "utils")]
fn prefix(rep: &mut Report, l: &Value) {
    use actiondb::utils::CommonPrefix;
    let (a, b) = (untext(&l["a"]), untext(&l["b"]));
    let n = l["n"].as_u64().unwrap() as usize;
    let got = call(|| (a.common_prefix_len(&b), a.has_common_prefix(&b)));
    let ok = got == Some((n, if n == 0 { None } else { Some(n) }));
    rep.expect(ok, "common prefix", &|| json!({"a": a, "b": b, "expected": n, "got": format!("{:?}", got)}));
    let cut = call(|| (a.ltrunc(n).to_owned(), a.rtrunc(a.len() - n).to_owned()));
    let ok = cut.as_ref().map_or(false, |c| c.0 == a[n..] && c.1 == a[..n]);
    rep.expect(ok, "truncation", &|| json!({"a": a, "at": n, "got": format!("{:?}", cut)}));
}
