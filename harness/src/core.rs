//! Running cases: panic capture, watchdog, tracing for post-mortem replay, statistics, violations.
use crate::rng::{hash, hex};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Instant;

/// Why a case is a violation. `sig` is nonempty when the behaviour is *exactly* that of a listed known finding.
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub type Verdict = Result<(), Viol>;
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: String::new(), msg: msg.into() })
}
pub fn known<T>(sig: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return $crate::core::fail(format!($($a)*)); } };
}

/// What a check observed on a case.
#[derive(Default)]
pub struct Obs {
    pub tags: BTreeMap<String, u64>,
    /// key of the case for counting distinct ones; nontrivial when set
    pub key: Option<u64>,
    pub sample: Option<String>,
    /// whether a sample would be kept
    pub want: bool,
}
impl Obs {
    pub fn tag(&mut self, t: &str) {
        if let Some(x) = self.tags.get_mut(t) {
            *x += 1;
        } else {
            self.tags.insert(t.to_string(), 1);
        }
    }
    pub fn add(&mut self, t: &str, n: u64) {
        *self.tags.entry(t.to_string()).or_insert(0) += n;
    }
    pub fn sample_with(&mut self, f: impl FnOnce() -> String) {
        if self.want {
            self.sample = Some(f());
        }
    }
    pub fn distinct(&mut self, bytes: &[u8]) {
        self.key = Some(hash(bytes));
    }
}

pub type Check = fn(&[u8], &mut Obs) -> Verdict;

thread_local! {
    static PANIC: RefCell<Option<(String, bool)>> = RefCell::new(None);
}

/// Silence panics and remember message and whether they came from the harness itself.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let own = file.starts_with("src/") || file.contains("/verif/harness/");
        PANIC.with(|p| *p.borrow_mut() = Some((format!("panicked at {}:{}: {}", file, line, msg), own)));
    }));
}

/// Run library code: a panic in it becomes `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (m, own) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panicked".into(), false));
        if own {
            format!("HARNESS {}", m)
        } else {
            m
        }
    })
}

pub struct Found {
    pub kind: String,
    pub input: Vec<u8>,
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Rep {
    pub evals: u64,
    pub tags: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub found: Vec<Found>,
    pub known: BTreeMap<String, (u64, String, String, String)>,
    pub harness_errors: Vec<String>,
}

struct Slot {
    since: Option<Instant>,
    kind: String,
    input: Vec<u8>,
}

pub struct Worker {
    pub rep: Rep,
    slot: Arc<Mutex<Slot>>,
    trace: Option<File>,
    max_found: usize,
    until: Instant,
}

impl Worker {
    pub fn stop(&mut self) -> bool {
        if self.rep.evals % 16 == 0 && Instant::now() > self.until {
            self.rep.tags.insert("stopped at the time limit".into(), 1);
            return true;
        }
        self.rep.found.len() >= self.max_found || self.rep.harness_errors.len() >= 3
    }
    /// Run one case of a check.
    pub fn case(&mut self, kind: &str, check: Check, input: &[u8]) {
        if let Some(t) = &self.trace {
            let line = format!("{} {}\n", kind, hex(input));
            let _ = t.set_len(0);
            let _ = t.write_all_at(line.as_bytes(), 0);
        }
        {
            let mut s = self.slot.lock().unwrap();
            s.since = Some(Instant::now());
            if s.kind != kind {
                s.kind.clear();
                s.kind.push_str(kind);
            }
            s.input.clear();
            s.input.extend_from_slice(input);
        }
        let mut obs = Obs { want: self.rep.samples.len() < 4 && self.rep.evals % 97 == 0, ..Obs::default() };
        let r = run_check(check, input, &mut obs);
        self.slot.lock().unwrap().since = None;
        self.rep.evals += 1;
        for (t, n) in obs.tags {
            if let Some(x) = self.rep.tags.get_mut(&t) {
                *x += n;
            } else {
                self.rep.tags.insert(t, n);
            }
        }
        if let Some(k) = obs.key {
            if self.rep.distinct.len() < 4_000_000 {
                let fresh = self.rep.distinct.insert(k);
                if fresh && self.rep.samples.len() < 4 && self.rep.evals % 97 == 1 {
                    let s = obs.sample.unwrap_or_else(|| hex(&input[..input.len().min(60)]));
                    self.rep.samples.push(format!("{}: {}", kind, s));
                }
            }
        }
        if let Err(v) = r {
            if v.msg.starts_with("HARNESS") {
                self.rep.harness_errors.push(format!("{} {}: {}", kind, hex(input), v.msg));
            } else if v.sig.is_empty() {
                self.rep.found.push(Found { kind: kind.into(), input: input.to_vec(), sig: v.sig, msg: v.msg });
            } else {
                let e = self.rep.known.entry(v.sig.clone()).or_insert((0, kind.into(), hex(input), v.msg));
                e.0 += 1;
            }
        }
    }
}

/// A check with panics turned into violations.
pub fn run_check(check: Check, input: &[u8], obs: &mut Obs) -> Verdict {
    match guard(|| check(input, obs)) {
        Ok(v) => v,
        Err(m) => fail(m),
    }
}

pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub out: String,
    pub trace: Option<String>,
    pub bin: Option<String>,
    /// percentage of the planned cases
    pub scale: u64,
    /// no new cases after this
    pub until: Instant,
}
impl Cx {
    /// iterations: quick, thorough
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        (if self.thorough { thorough } else { quick } * self.scale / 100).max(1)
    }
}

/// Run `work(worker, shard, shards)` on all threads and merge what they report.
pub fn parallel(cx: &Cx, work: impl Fn(&mut Worker, u64, u64) + Sync) -> Rep {
    let shards = cx.threads as u64;
    let slots: Vec<Arc<Mutex<Slot>>> =
        (0..shards).map(|_| Arc::new(Mutex::new(Slot { since: None, kind: String::new(), input: vec![] }))).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    let reps: Vec<Rep> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..shards)
            .map(|i| {
                let slot = slots[i as usize].clone();
                let work = &work;
                let trace = cx.trace.as_ref().map(|d| File::create(format!("{}/{}", d, i)).unwrap());
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let mut w = Worker { rep: Rep::default(), slot, trace, max_found: 5, until: cx.until };
                        if let Err(m) = guard(|| work(&mut w, i, shards)) {
                            w.rep.harness_errors.push(m);
                        }
                        w.rep
                    })
                    .unwrap()
            })
            .collect();
        let slots = &slots;
        let done = &done;
        let out = cx.out.clone();
        sc.spawn(move || {
            while !done.load(std::sync::atomic::Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for s in slots {
                    let s = s.lock().unwrap();
                    if s.since.map_or(false, |t| t.elapsed().as_secs() > 40) {
                        let mut f = File::create(format!("{}.hang", out)).unwrap();
                        let _ = writeln!(f, "{} {}", s.kind, hex(&s.input));
                        std::process::exit(7);
                    }
                }
            }
        });
        let reps = hs.into_iter().map(|h| h.join().unwrap()).collect();
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        reps
    });
    let mut all = Rep::default();
    for r in reps {
        all.evals += r.evals;
        for (t, n) in r.tags {
            *all.tags.entry(t).or_insert(0) += n;
        }
        all.distinct.extend(r.distinct);
        if all.samples.len() < 12 {
            all.samples.extend(r.samples.into_iter().take(3));
        }
        all.found.extend(r.found);
        all.harness_errors.extend(r.harness_errors);
        for (k, v) in r.known {
            let e = all.known.entry(k).or_insert((0, v.1.clone(), v.2.clone(), v.3.clone()));
            e.0 += v.0;
        }
    }
    all
}

impl Rep {
    pub fn merge(&mut self, o: Rep) {
        self.evals += o.evals;
        for (t, n) in o.tags {
            *self.tags.entry(t).or_insert(0) += n;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        self.found.extend(o.found);
        self.harness_errors.extend(o.harness_errors);
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1.clone(), v.2.clone(), v.3.clone()));
            e.0 += v.0;
        }
    }
    pub fn json(&self) -> String {
        let mut s = String::from("{");
        s += &format!("\"evaluations\":{},\"distinct\":{},", self.evals, self.distinct.len());
        s += "\"tags\":{";
        s += &self.tags.iter().map(|(k, v)| format!("{}:{}", quote(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"samples\":[";
        s += &self.samples.iter().take(12).map(|x| quote(x)).collect::<Vec<_>>().join(",");
        s += "],\"found\":[";
        s += &self
            .found
            .iter()
            .take(20)
            .map(|f| format!("{{\"kind\":{},\"input\":{},\"msg\":{}}}", quote(&f.kind), quote(&hex(&f.input)), quote(&cut(&f.msg))))
            .collect::<Vec<_>>()
            .join(",");
        s += "],\"known\":{";
        s += &self
            .known
            .iter()
            .map(|(k, (n, kind, input, msg))| {
                format!("{}:{{\"count\":{},\"kind\":{},\"input\":{},\"msg\":{}}}", quote(k), n, quote(kind), quote(input), quote(&cut(msg)))
            })
            .collect::<Vec<_>>()
            .join(",");
        s += "},\"harness_errors\":[";
        s += &self.harness_errors.iter().take(10).map(|x| quote(x)).collect::<Vec<_>>().join(",");
        s += "]}";
        s
    }
}

fn cut(s: &str) -> String {
    s.chars().take(3000).collect()
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 0x20 || c as u32 == 0x7F => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
