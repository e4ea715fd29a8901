//! Exploration runtime: deterministic chunked enumeration on all cores, panic capture,
//! watchdog for calls that never return, statistics, samples, violations, replay.
//!
//! A *family* is a finite, completely enumerated set of cases, split in `nchunks` chunks.
//! A chunk is executed from scratch (fresh managers), on one thread, in a fixed order, so
//! (family, chunk) identifies a reproducible run: this is what a replay file stores.

use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub cases: u64,
    /// distinct states of the explored system (terms, product states, objects, positions)
    pub states: u64,
    /// transitions / operations executed on the implementation and compared with the oracle
    pub transitions: u64,
    /// oracle traces replayed through end-user entry points of the implementation
    pub traces: u64,
    /// cases the explorer could not decide (bound on its own effort)
    pub undecided: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.cases += o.cases;
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.undecided += o.undecided;
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub chunk: u64,
    pub sub: u64,
    pub desc: String,
    pub detail: String,
}

#[derive(Clone, Debug)]
pub struct FamStat {
    pub name: String,
    pub bound: String,
    pub chunks: u64,
    pub done: u64,
    pub stats: Stats,
    pub wall: f64,
}

struct Slot {
    busy: AtomicBool,
    chunk: AtomicU64,
    sub: AtomicU64,
    since: AtomicU64, // ms since start
}

pub struct Shared {
    stop: AtomicBool,
    capped: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    families: Mutex<Vec<FamStat>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    slots: Vec<Slot>,
    cur_family: Mutex<String>,
    start: Instant,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<(String, u64)>,
    /// (k, n): only the chunks c with c = k modulo n; the other ones are run by other processes
    pub shard: (u64, u64),
    pub out: String,
    pub threads: usize,
    deadline: Duration,
    shared: Arc<Shared>,
}

pub struct Worker {
    slot: usize,
    shared: Arc<Shared>,
    pub stats: Stats,
    pub chunk: u64,
    family: Arc<String>,
    sample_now: bool,
    sampled: u32,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run f; Err(message) if it panics.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

impl Worker {
    /// Execute one case. `body` returns Err(detail) if the property is violated; a panic is
    /// a violation too.
    #[inline]
    pub fn case(
        &mut self,
        sub: u64,
        desc: impl Fn() -> String,
        body: impl FnOnce(&mut Stats) -> Result<(), String>,
    ) -> bool {
        let slot = &self.shared.slots[self.slot];
        slot.sub.store(sub, Relaxed);
        self.stats.cases += 1;
        if self.sample_now && self.sampled < 2 {
            self.sampled += 1;
            if let Ok(d) = no_panic(&desc) {
                self.sample(d);
            }
        }
        let stats = &mut self.stats;
        let res = catch_unwind(AssertUnwindSafe(|| body(stats)));
        let detail = match res {
            Ok(Ok(())) => return true,
            Ok(Err(s)) => s,
            Err(_) => format!("panic: {}", last_panic()),
        };
        let d = no_panic(&desc).unwrap_or_else(|e| format!("<description panicked: {}>", e));
        self.report(sub, d, detail);
        false
    }

    pub fn sample(&self, d: String) {
        let mut s = self.shared.samples.lock().unwrap();
        if s.len() < 60 {
            let d = if d.len() > 300 {
                let mut e = 297;
                while !d.is_char_boundary(e) {
                    e -= 1;
                }
                format!("{}...", &d[..e])
            } else {
                d
            };
            s.push(format!("{}#{}: {}", self.family, self.chunk, d));
        }
    }

    pub fn report(&self, sub: u64, desc: String, detail: String) {
        let mut v = self.shared.violations.lock().unwrap();
        if v.len() < 20 {
            v.push(Violation {
                family: self.family.to_string(),
                chunk: self.chunk,
                sub,
                desc,
                detail,
            });
        }
        self.shared.stop.store(true, Relaxed);
    }

    /// Tell the watchdog that progress is being made inside a long chunk without cases
    pub fn tick(&self) {
        let slot = &self.shared.slots[self.slot];
        slot.since
            .store(self.shared.start.elapsed().as_millis() as u64, Relaxed);
    }

    pub fn stopping(&self) -> bool {
        self.shared.stop.load(Relaxed)
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4 / 1024)
        .unwrap_or(0)
}

/// longest time, in ms, a case of the current family has taken (for the choice of hang_s)
static LONGEST: AtomicU64 = AtomicU64::new(0);

impl Ctx {
    pub fn new(
        prop: &str,
        tier: Tier,
        only: Option<(String, u64)>,
        shard: (u64, u64),
        out: &str,
        deadline_s: u64,
        hang_s: u64,
    ) -> Ctx {
        let threads = std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(8)
            .clamp(1, 16);
        let shared = Arc::new(Shared {
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            violations: Mutex::new(vec![]),
            families: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            slots: (0..threads)
                .map(|_| Slot {
                    busy: AtomicBool::new(false),
                    chunk: AtomicU64::new(0),
                    sub: AtomicU64::new(0),
                    since: AtomicU64::new(0),
                })
                .collect(),
            cur_family: Mutex::new(String::new()),
            start: Instant::now(),
        });
        let ctx = Ctx {
            prop: prop.to_string(),
            tier,
            only,
            shard,
            out: out.to_string(),
            threads,
            deadline: Duration::from_secs(deadline_s),
            shared: shared.clone(),
        };
        // watchdog: a case that does not return for hang_s seconds, or memory running away
        let out = ctx.out.clone();
        let prop = ctx.prop.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, u64, Instant)> =
                (0..shared.slots.len()).map(|_| (0, 0, Instant::now())).collect();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let rss = rss_mb();
                for (i, s) in shared.slots.iter().enumerate() {
                    let key = (
                        s.chunk.load(Relaxed),
                        s.sub.load(Relaxed) ^ (s.since.load(Relaxed) << 20),
                    );
                    if !s.busy.load(Relaxed) || (last[i].0, last[i].1) != key {
                        last[i] = (key.0, key.1, Instant::now());
                        continue;
                    }
                    let stuck = last[i].2.elapsed().as_secs();
                    LONGEST.fetch_max(last[i].2.elapsed().as_millis() as u64, Relaxed);
                    if stuck >= hang_s || (rss > 20_000 && stuck >= 5) {
                        let fam = shared.cur_family.lock().unwrap().clone();
                        shared.violations.lock().unwrap().push(Violation {
                            family: fam,
                            chunk: key.0,
                            sub: s.sub.load(Relaxed),
                            desc: "(case in progress)".to_string(),
                            detail: format!(
                                "a call does not return: stuck for {} s, resident memory {} MB",
                                stuck, rss
                            ),
                        });
                        write_result(&shared, &out, &prop);
                        std::process::exit(1);
                    }
                }
            }
        });
        ctx
    }

    pub fn note(&self, s: impl Into<String>) {
        self.shared.notes.lock().unwrap().push(s.into());
    }

    pub fn expired(&self) -> bool {
        self.shared.start.elapsed() > self.deadline
    }

    /// Enumerate a family completely. `init` makes per-thread scratch state (oracle caches),
    /// which must not influence verdicts.
    pub fn family<S>(
        &self,
        name: &str,
        bound: &str,
        nchunks: u64,
        init: impl Fn() -> S + Sync,
        run: impl Fn(&mut Worker, &mut S, u64) + Sync,
    ) {
        if let Some((f, _)) = &self.only {
            if f != name {
                return;
            }
        }
        if self.shared.stop.load(Relaxed) {
            return;
        }
        *self.shared.cur_family.lock().unwrap() = name.to_string();
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let total = Mutex::new(Stats::default());
        let fname = Arc::new(name.to_string());
        let progress = format!("{}.progress", self.out);
        let nthreads = if self.only.is_some() { 1 } else { self.threads };
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let next = &next;
                let done = &done;
                let total = &total;
                let init = &init;
                let run = &run;
                let fname = fname.clone();
                let progress = &progress;
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = init();
                        let mut w = Worker {
                            slot: t,
                            shared: self.shared.clone(),
                            stats: Stats::default(),
                            chunk: 0,
                            family: fname.clone(),
                            sample_now: false,
                            sampled: 0,
                        };
                        let mut prog = std::fs::OpenOptions::new()
                            .create(true)
                            .write(true)
                            .truncate(true)
                            .open(format!("{}.{}", progress, t))
                            .ok();
                        loop {
                            if self.shared.stop.load(Relaxed) {
                                break;
                            }
                            if self.expired() {
                                self.shared.capped.store(true, Relaxed);
                                break;
                            }
                            let c = match &self.only {
                                Some((_, c)) => {
                                    if next.fetch_add(1, Relaxed) > 0 {
                                        break;
                                    }
                                    *c
                                }
                                None => next.fetch_add(1, Relaxed),
                            };
                            if c >= nchunks {
                                break;
                            }
                            if self.only.is_none() && c % self.shard.1 != self.shard.0 {
                                continue;
                            }
                            let slot = &self.shared.slots[t];
                            slot.chunk.store(c, Relaxed);
                            slot.sub.store(0, Relaxed);
                            slot.busy.store(true, Relaxed);
                            w.chunk = c;
                            w.sampled = 0;
                            w.sample_now = c == 0 || c == nchunks / 2 || c + 1 == nchunks;
                            w.tick();
                            if let Some(f) = prog.as_mut() {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_all_at(
                                    format!("{:<60}{:>20}\n", fname, c).as_bytes(),
                                    0,
                                );
                            }
                            // a panic outside a case is a violation as well
                            let r = catch_unwind(AssertUnwindSafe(|| run(&mut w, &mut st, c)));
                            if r.is_err() {
                                w.report(
                                    self.shared.slots[t].sub.load(Relaxed),
                                    "(outside of a case)".to_string(),
                                    format!("panic: {}", last_panic()),
                                );
                            }
                            self.shared.slots[t].busy.store(false, Relaxed);
                            done.fetch_add(1, Relaxed);
                        }
                        if let Some(f) = prog.as_mut() {
                            let _ = f.set_len(0);
                            let _ = f.flush();
                        }
                        total.lock().unwrap().add(&w.stats);
                    })
                    .expect("thread");
            }
        });
        let st = *total.lock().unwrap();
        let fs = FamStat {
            name: name.to_string(),
            bound: bound.to_string(),
            chunks: nchunks,
            done: done.load(Relaxed),
            stats: st,
            wall: t0.elapsed().as_secs_f64(),
        };
        let longest = LONGEST.swap(0, Relaxed) as f64 / 1000.0;
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "longest case {longest:.1} s; {:<34} chunks {}/{} cases {} states {} trans {} traces {} undecided {} wall {:.2} rss {} MB",
                fs.name, fs.done, fs.chunks, st.cases, st.states, st.transitions, st.traces,
                st.undecided, fs.wall, rss_mb()
            );
        }
        self.shared.families.lock().unwrap().push(fs);
    }

    /// Enumerate indices 0..n, `per` per chunk, with no per-thread state
    pub fn indexed(
        &self,
        name: &str,
        bound: &str,
        n: u64,
        per: u64,
        run: impl Fn(&mut Worker, u64) + Sync,
    ) {
        let nchunks = n.div_ceil(per);
        self.family(name, bound, nchunks, || (), |w, _, c| {
            for i in c * per..((c + 1) * per).min(n) {
                if w.stopping() {
                    return;
                }
                run(w, i);
            }
        });
    }

    pub fn finish(&self) -> bool {
        write_result(&self.shared, &self.out, &self.prop);
        self.shared.violations.lock().unwrap().is_empty()
    }
}

fn write_result(sh: &Shared, out: &str, prop: &str) {
    let fams = sh.families.lock().unwrap();
    let viol = sh.violations.lock().unwrap();
    let samples = sh.samples.lock().unwrap();
    let notes = sh.notes.lock().unwrap();
    let mut tot = Stats::default();
    for f in fams.iter() {
        tot.add(&f.stats);
    }
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": \"{}\",\n", prop));
    s.push_str(&format!(
        " \"cases\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"undecided\": {},\n",
        tot.cases, tot.states, tot.transitions, tot.traces, tot.undecided
    ));
    s.push_str(&format!(
        " \"capped\": {}, \"wall_s\": {:.3}, \"rss_mb\": {},\n",
        sh.capped.load(Relaxed),
        sh.start.elapsed().as_secs_f64(),
        rss_mb()
    ));
    s.push_str(" \"families\": [\n");
    for (i, f) in fams.iter().enumerate() {
        s.push_str(&format!(
            "  {{\"name\": \"{}\", \"bound\": \"{}\", \"chunks\": {}, \"done\": {}, \"cases\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"undecided\": {}, \"wall_s\": {:.3}}}{}\n",
            esc(&f.name), esc(&f.bound), f.chunks, f.done, f.stats.cases, f.stats.states, f.stats.transitions,
            f.stats.traces, f.stats.undecided, f.wall,
            if i + 1 < fams.len() { "," } else { "" }
        ));
    }
    s.push_str(" ],\n \"notes\": [");
    s.push_str(
        &notes
            .iter()
            .map(|x| format!("\"{}\"", esc(x)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    s.push_str("],\n \"samples\": [\n");
    s.push_str(
        &samples
            .iter()
            .map(|x| format!("  \"{}\"", esc(x)))
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    s.push_str("\n ],\n \"violations\": [\n");
    s.push_str(
        &viol
            .iter()
            .map(|v| {
                format!(
                    "  {{\"family\": \"{}\", \"chunk\": {}, \"sub\": {}, \"desc\": \"{}\", \"detail\": \"{}\"}}",
                    esc(&v.family), v.chunk, v.sub, esc(&v.desc), esc(&v.detail)
                )
            })
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    s.push_str("\n ]\n}\n");
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, s).expect("write result");
    std::fs::rename(&tmp, out).expect("rename result");
}
