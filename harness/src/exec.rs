//! Running the code under test: the two matchers side by side, with panics and
//! calls that do not return made observable.
use crate::model::*;
use actiondb::matcher::result::MatchResult;
use actiondb::matcher::suffix_array::SuffixArrayMatcherSuite;
use actiondb::matcher::trie::TrieMatcherSuite;
use actiondb::matcher::{Matcher, MatcherFactory, MatcherSuite};
use sj::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Trie = <TrieMatcherSuite as MatcherSuite>::Matcher;
pub type Table = <SuffixArrayMatcherSuite as MatcherSuite>::Matcher;
pub type TrieFactory = <TrieMatcherSuite as MatcherSuite>::MatcherFactory;
pub type TableFactory = <SuffixArrayMatcherSuite as MatcherSuite>::MatcherFactory;

static CALL_STARTED: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
thread_local!(static IN_CALL: std::cell::Cell<u32> = std::cell::Cell::new(0));

pub static LOGGED: Mutex<Vec<String>> = Mutex::new(Vec::new());

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::LogMetadata) -> bool {
        true
    }
    fn log(&self, record: &log::LogRecord) {
        let msg = record.args().to_string();
        if record.level() == log::LogLevel::Error {
            if let Ok(mut logged) = LOGGED.lock() {
                logged.push(msg);
            }
        }
    }
}

pub const LIMIT_S: u64 = 20;

pub fn start(trace_logging: bool) {
    std::panic::set_hook(Box::new(|info| {
        // panics of the code under test are observations, panics of the harness are not
        if IN_CALL.with(|c| c.get()) == 0 {
            eprintln!("harness: {}", info);
        }
    }));
    let level = if trace_logging { log::LogLevelFilter::Trace } else { log::LogLevelFilter::Error };
    let _ = log::set_logger(|max| {
        max.set(level);
        Box::new(Logger)
    });
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = t0.elapsed().as_millis() as u64 + 1;
        NOW.store(now, Ordering::SeqCst);
        let started = CALL_STARTED.load(Ordering::SeqCst);
        if started != 0 && now.saturating_sub(started) > LIMIT_S * 1000 {
            let what = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
            println!("HANG: a call has not returned for {} s: {}", LIMIT_S, what);
            std::process::exit(3);
        }
    });
}
/// what the current call is about
pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub fn about(what: String) {
    if let Ok(mut c) = CURRENT.lock() {
        *c = what;
    }
}
static NOW: AtomicU64 = AtomicU64::new(1);

pub fn calls() -> u64 {
    CALLS.load(Ordering::SeqCst)
}

/// one call into the code under test; None if it panicked
pub fn call<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    CALLS.fetch_add(1, Ordering::SeqCst);
    let outer = CALL_STARTED.swap(NOW.load(Ordering::SeqCst), Ordering::SeqCst);
    IN_CALL.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(c.get() - 1));
    CALL_STARTED.store(outer, Ordering::SeqCst);
    r.ok()
}

pub fn take_log() -> Vec<String> {
    match LOGGED.lock() {
        Ok(mut l) => std::mem::replace(&mut *l, Vec::new()),
        Err(e) => std::mem::replace(&mut *e.into_inner(), Vec::new()),
    }
}

/// which of the added patterns this is
#[derive(Default, Clone)]
pub struct Ids {
    by_uuid: HashMap<String, Vec<(Option<String>, i64)>>,
}

impl Ids {
    pub fn add(&mut self, p: &Pat) {
        self.by_uuid.entry(hex(&p.uuid)).or_insert_with(Vec::new).push((p.name.clone(), p.id));
    }
    pub fn of(&self, p: &actiondb::matcher::Pattern) -> i64 {
        match self.by_uuid.get(&hex(p.uuid())) {
            None => -1,
            Some(c) if c.len() == 1 => c[0].1,
            Some(c) => c
                .iter()
                .rev()
                .find(|x| x.0.as_ref().map(|s| &s[..]) == p.name())
                .map_or(-1, |x| x.1),
        }
    }
}

pub fn answer(r: Option<Option<MatchResult>>, ids: &Ids, with_meta: bool) -> Value {
    match r {
        None => json!({"k": 2}),
        Some(None) => json!({"k": 0}),
        Some(Some(r)) => {
            let p = r.pattern();
            let vals: Vec<Value> = r.values().iter().map(|(k, v)| json!([text(k), text(v)])).collect();
            let mut a = json!({"k": 1, "id": ids.of(p), "vals": vals});
            if with_meta {
                a["m"] = meta(p.name(), p.uuid(), p.values(), p.tags());
            }
            a
        }
    }
}

pub enum One<M> {
    Own(M),
    Boxed(Box<dyn Matcher>),
}

impl<M: Matcher + Clone + 'static> One<M> {
    pub fn get(&self) -> &dyn Matcher {
        match *self {
            One::Own(ref m) => m,
            One::Boxed(ref m) => &**m,
        }
    }
    pub fn get_mut(&mut self) -> &mut dyn Matcher {
        match *self {
            One::Own(ref mut m) => m,
            One::Boxed(ref mut m) => &mut **m,
        }
    }
    pub fn copy(&self, boxed: bool) -> One<M> {
        match *self {
            One::Own(ref m) if !boxed => One::Own(m.clone()),
            ref m => One::Boxed(m.get().boxed_clone()),
        }
    }
}

/// one matcher of each implementation, to which the same patterns are added
pub struct Pair {
    pub trie: One<Trie>,
    pub table: One<Table>,
}

impl Pair {
    pub fn new() -> Pair {
        Pair { trie: One::Own(TrieFactory::new_matcher()), table: One::Own(TableFactory::new_matcher()) }
    }

    /// 0, plus 1 if the trie and 2 if the table panicked
    pub fn add(&mut self, p: &Pat) -> u32 {
        let mut bad = 0;
        about(format!("adding {:?}", p.toks));
        let (trie, table) = (&mut self.trie, &mut self.table);
        let (one, two) = (p.build(), p.build());
        if call(|| trie.get_mut().add_pattern(one)).is_none() {
            bad += 1;
        }
        if call(|| table.get_mut().add_pattern(two)).is_none() {
            bad += 2;
        }
        bad
    }

    pub fn ask(&self, t: &str, ids: &Ids, with_meta: bool) -> Value {
        about(format!("parsing {:?}", t.chars().take(2000).collect::<String>()));
        let a = answer(call(|| self.trie.get().parse(t)), ids, with_meta);
        let b = answer(call(|| self.table.get().parse(t)), ids, with_meta);
        json!([a, b])
    }

    pub fn copy(&self, boxed: bool) -> Option<Pair> {
        call(|| Pair { trie: self.trie.copy(boxed), table: self.table.copy(boxed) })
    }

    pub fn of(pats: &[&Pat]) -> (Pair, u32) {
        let mut pair = Pair::new();
        let mut bad = 0;
        for p in pats {
            bad |= pair.add(p);
        }
        (pair, bad)
    }
}
