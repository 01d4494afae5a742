//! Runs sub-properties over generated cases, counts what was generated,
//! writes the evidence file and the replay file of a shrunk failure.

use crate::wire::Wire;
use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

/// What a sub-property tells about the case it was run on.
#[derive(Default)]
pub struct Ctx {
    nontrivial: bool,
    classes: Vec<&'static str>,
}
impl Ctx {
    /// The case counts as non-trivial if `c` holds.
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// The case belongs to class `name` if `c` holds.
    pub fn class(&mut self, name: &'static str, c: bool) {
        if c {
            self.classes.push(name);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f` and tells whether it panicked (message) or which value it gave.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Runs `f` on a thread with a stack for large static values.
pub fn big_stack(f: impl FnOnce() -> Res + Send) -> Res {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || catch(f).and_then(|r| r));
        t.expect("thread").join().expect("caught panics")
    })
}

fn short(s: String) -> String {
    if s.len() <= 600 {
        return s;
    }
    let cut = (0..=600).rev().find(|i| s.is_char_boundary(*i)).unwrap();
    format!("{}... ({} characters)", &s[..cut], s.len())
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A case that runs longer than this does not end.
const LIMIT_S: u64 = 90;
const TIMED_OUT: i32 = 77;
/// Number of cases started and ended so far: odd while one is running.
static STEP: AtomicU64 = AtomicU64::new(0);

/// Ends the process if one case runs for too long.
fn watch() {
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = STEP.load(SeqCst);
            if now != last || now % 2 == 0 {
                (last, since) = (now, Instant::now());
            } else if since.elapsed().as_secs() >= LIMIT_S {
                std::process::exit(TIMED_OUT);
            }
        }
    });
}
fn watched<R>(f: impl FnOnce() -> R) -> R {
    STEP.fetch_add(1, SeqCst);
    let r = f();
    STEP.fetch_add(1, SeqCst);
    r
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

pub struct Check {
    id: &'static str,
    verif: PathBuf,
    tier: String,
    seed: u64,
    start: Instant,
    subs: Vec<(String, Stats)>,
    replay: Option<(String, Vec<u64>)>,
    replay_found: bool,
    /// Where to note every case before it runs.
    trace: Option<PathBuf>,
    known: Vec<(String, bool)>,
    pub thorough: bool,
}

fn hash(words: &[u64]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    words.hash(&mut h);
    h.finish()
}

impl Check {
    pub fn start(id: &'static str) -> Check {
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let at = info.location().map(|l| l.to_string()).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {at}: {msg}"));
        }));
        let verif = std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into());
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let args: Vec<String> = std::env::args().collect();
        let replay = match args.iter().position(|a| a == "--replay") {
            None => None,
            Some(i) => {
                let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let mut name = String::new();
                let mut words = vec![];
                for line in text.lines() {
                    if let Some(s) = line.strip_prefix("sub: ") {
                        name = s.to_string();
                    } else if let Some(s) = line.strip_prefix("words: ") {
                        words = s
                            .split_whitespace()
                            .map(|w| u64::from_str_radix(w, 16).expect("hex word"))
                            .collect();
                    }
                }
                Some((name, words))
            }
        };
        let mut check = Check {
            id,
            verif,
            thorough: tier == "thorough",
            tier,
            seed,
            start: Instant::now(),
            subs: vec![],
            replay,
            replay_found: false,
            trace: std::env::var("PBT_TRACE").ok().map(PathBuf::from),
            known: vec![],
        };
        if std::env::var("PBT_CHILD").is_err() {
            check.supervise();
        }
        watch();
        check
    }

    /// Runs the check in a process of its own, so that a case that exhausts
    /// the stack, aborts or never ends is a violation with a replay file too.
    fn supervise(&mut self) -> ! {
        let run = |trace: Option<&PathBuf>| {
            let mut c = std::process::Command::new(std::env::current_exe().expect("own path"));
            c.args(std::env::args_os().skip(1)).env("PBT_CHILD", "1");
            if let Some(t) = trace {
                c.env("PBT_TRACE", t);
            }
            c.status().expect("child process").code()
        };
        let why = |code| match code {
            Some(TIMED_OUT) => format!("a case did not end within {LIMIT_S} s"),
            _ => "a case ended the process (stack overflow, abort or out of memory)".to_string(),
        };
        let code = run(None);
        if code.is_some_and(|c| c != TIMED_OUT) {
            std::process::exit(code.unwrap());
        }
        if self.replay.is_some() {
            println!("{}", why(code));
            println!("VIOLATION property={} replay={}", self.id, std::env::args().last().unwrap());
            std::process::exit(1);
        }
        // the same once more, noting each case before it runs
        let dir = self.verif.join("replays");
        std::fs::create_dir_all(&dir).expect("replays directory");
        let path = dir.join(format!("{}-ended.case", self.id));
        let _ = std::fs::remove_file(&path);
        let code = run(Some(&path));
        if code.is_some_and(|c| c != TIMED_OUT) {
            eprintln!("{}: it happened only once: {}", self.id, why(code));
            std::process::exit(3);
        }
        println!("{}: {}", self.id, why(code));
        println!("VIOLATION property={} replay={}", self.id, path.display());
        self.evidence("stopped at the first violation", 1);
        std::process::exit(1);
    }
    fn note<C: Wire + Debug>(&self, sub: &str, case: &C) {
        if let Some(path) = &self.trace {
            let mut words = vec![];
            case.put(&mut words);
            let words: Vec<String> = words.iter().map(|w| format!("{w:x}")).collect();
            let text = format!(
                "property: {}\nsub: {sub}\nseed: {}\nreason: did not end, or ended the process\ncase: {}\nwords: {}\n",
                self.id, self.seed, short(format!("{case:?}")), words.join(" ")
            );
            std::fs::write(path, text).expect("trace file");
        }
    }

    /// How many times the cases of a sub-property run in the quick tier, so
    /// that every check takes some ten seconds.
    fn effort(&self) -> u32 {
        match self.id {
            "C30" => 25,
            "C07" | "C08" | "C28" | "C32" => 10,
            "C24" | "C26" | "C35" => 6,
            "C03" | "C04" | "C05" | "C06" | "C34" | "C36" | "C38" => 4,
            "C12" | "C21" | "C22" | "C29" => 1,
            "C01" | "C27" | "C33" => 2,
            _ => 3,
        }
    }
    /// Number of cases in this tier.
    fn cases(&self, base: u32) -> u32 {
        let n = base.saturating_mul(if self.thorough { 25.max(5 * self.effort()) } else { self.effort() });
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(s) => ((n as f64 * s) as u32).max(1),
            None => n,
        }
    }

    /// Checks `f` on `cases` cases (times the effort) made by `strategy`.
    pub fn sub<S>(&mut self, name: &str, cases: u32, strategy: S, f: impl Fn(&S::Value, &mut Ctx) -> Res)
    where
        S: Strategy,
        S::Value: Wire + Debug,
    {
        let n = self.cases(cases);
        self.run(name, n, std::iter::once(strategy), &f);
    }

    /// Checks `f` on `each` cases of every strategy of the list: an
    /// exhaustive sweep over the parameters the strategies were made from.
    pub fn sweep<S>(
        &mut self,
        name: &str,
        each: u32,
        strategies: impl Iterator<Item = S>,
        f: impl Fn(&S::Value, &mut Ctx) -> Res,
    ) where
        S: Strategy,
        S::Value: Wire + Debug,
    {
        let n = if self.thorough { each * 5 } else { each };
        self.run(name, n, strategies, &f);
    }

    fn run<S>(
        &mut self,
        name: &str,
        cases: u32,
        strategies: impl Iterator<Item = S>,
        f: &dyn Fn(&S::Value, &mut Ctx) -> Res,
    ) where
        S: Strategy,
        S::Value: Wire + Debug,
    {
        if let Some((sub, words)) = &self.replay {
            if sub == name {
                self.replay_found = true;
                let case = S::Value::get(&mut words.iter()).expect("replay words fit the case type");
                println!("replaying {} {}: {}", self.id, name, short(format!("{case:?}")));
                match watched(|| catch(|| f(&case, &mut Ctx::default()))).and_then(|r| r) {
                    Ok(()) => println!("the property holds on this case"),
                    Err(e) => {
                        println!("{}", short(e));
                        println!("VIOLATION property={} replay={}", self.id, std::env::args().last().unwrap());
                        std::process::exit(1)
                    }
                }
            }
            return;
        }
        let stats = RefCell::new(Stats::default());
        let mut failure = None;
        for (k, strategy) in strategies.enumerate() {
            let mut seed = [0u8; 32];
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (self.id, name, self.seed, k as u64).hash(&mut h);
            for chunk in seed.chunks_mut(8) {
                0xfeedu64.hash(&mut h);
                chunk.copy_from_slice(&h.finish().to_le_bytes());
            }
            let config = Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: 4000,
                max_shrink_time: 60_000,
                max_global_rejects: 1 << 20,
                ..Config::default()
            };
            let mut runner =
                TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
            let failed = RefCell::new(false);
            let result = runner.run(&strategy, |case| {
                let mut ctx = Ctx::default();
                self.note(name, &case);
                let r = watched(|| catch(|| f(&case, &mut ctx))).and_then(|r| r);
                if !*failed.borrow() {
                    let mut st = stats.borrow_mut();
                    st.evaluations += 1;
                    for c in &ctx.classes {
                        *st.classes.entry(c).or_default() += 1;
                    }
                    if ctx.nontrivial {
                        st.nontrivial += 1;
                        let mut words = vec![];
                        case.put(&mut words);
                        st.distinct.insert(hash(&words));
                        if st.samples.len() < 3 && st.nontrivial == 10u64.pow(st.samples.len() as u32) {
                            let s = short(format!("{case:?}"));
                            st.samples.push(s);
                        }
                    }
                }
                r.map_err(|e| {
                    *failed.borrow_mut() = true;
                    TestCaseError::fail(e)
                })
            });
            match result {
                Ok(()) => (),
                Err(TestError::Fail(_, case)) => {
                    // Run the minimal case once more without the library.
                    let reason = match watched(|| catch(|| f(&case, &mut Ctx::default()))).and_then(|r| r) {
                        Ok(()) => "the failure did not repeat".to_string(),
                        Err(e) => e,
                    };
                    failure = Some((case, reason));
                    break;
                }
                Err(TestError::Abort(why)) => {
                    eprintln!("{} {}: aborted: {}", self.id, name, why);
                    std::process::exit(3);
                }
            }
        }
        if std::env::var("PBT_TIMES").is_ok() {
            eprintln!("{:6.1} s after {name}", self.start.elapsed().as_secs_f64());
        }
        self.subs.push((name.to_string(), stats.into_inner()));
        if let Some((case, reason)) = failure {
            let dir = self.verif.join("replays");
            std::fs::create_dir_all(&dir).expect("replays directory");
            let path = dir.join(format!("{}-{}.case", self.id, name.replace([' ', '/'], "_")));
            let mut words = vec![];
            case.put(&mut words);
            let words: Vec<String> = words.iter().map(|w| format!("{w:x}")).collect();
            let text = format!(
                "property: {}\nsub: {}\nseed: {}\nreason: {}\ncase: {}\nwords: {}\n",
                self.id,
                name,
                self.seed,
                reason.replace('\n', " "),
                short(format!("{case:?}")),
                words.join(" ")
            );
            std::fs::write(&path, text).expect("replay file");
            println!("{} {}: {}", self.id, name, short(reason));
            println!("minimal case: {}", short(format!("{case:?}")));
            println!("VIOLATION property={} replay={}", self.id, path.display());
            self.evidence("stopped at the first violation", 1);
            std::process::exit(1);
        }
    }

    /// A violation listed in known_findings.txt under `key`: `fails` tells
    /// whether it is still there. If it is not listed, it counts as a
    /// violation.
    pub fn known_finding(&mut self, key: &str, what: &str, fails: bool) {
        let text = std::fs::read_to_string(self.verif.join("known_findings.txt")).unwrap_or_default();
        let prefix = format!("finding: property={} key={} ", self.id, key);
        let listed = text.lines().any(|l| l.starts_with(&prefix));
        self.known.push((key.to_string(), fails));
        if !fails || self.replay.is_some() {
            return;
        }
        if listed {
            println!("KNOWN-FINDING: property={} {}", self.id, what);
        } else {
            let dir = self.verif.join("replays");
            std::fs::create_dir_all(&dir).expect("replays directory");
            let path = dir.join(format!("{}-{}.case", self.id, key));
            std::fs::write(&path, format!("property: {}\nprobe: {key}\nreason: {what}\n", self.id)).expect("replay file");
            println!("VIOLATION property={} replay={}", self.id, path.display());
            self.evidence("stopped at the first violation", 1);
            std::process::exit(1);
        }
    }

    fn evidence(&self, rule: &str, violations: u32) {
        let mut evals = 0;
        let mut distinct = 0;
        let mut samples = vec![];
        let mut subs = vec![];
        for (name, st) in &self.subs {
            evals += st.evaluations;
            distinct += st.distinct.len();
            for s in &st.samples {
                samples.push(format!("{{\"sub\": {}, \"case\": {}}}", json_str(name), json_str(s)));
            }
            let classes: Vec<String> =
                st.classes.iter().map(|(c, n)| format!("{}: {}", json_str(c), n)).collect();
            subs.push(format!(
                "{}: {{\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"classes\": {{{}}}}}",
                json_str(name), st.evaluations, st.nontrivial, st.distinct.len(), classes.join(", ")
            ));
        }
        let known: Vec<String> =
            self.known.iter().map(|(k, f)| format!("{}: {}", json_str(k), f)).collect();
        let text = format!(
            "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n\"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [{}],\n\"known_findings_still_failing\": {{{}}},\n\"subs\": {{{}}}\n}},\n\"wall_s\": {:.3},\n\"violations\": {}\n}}\n",
            json_str(self.id),
            json_str(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            evals,
            distinct,
            json_str(rule),
            samples.join(",\n"),
            known.join(", "),
            subs.join(",\n"),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        let dir = std::env::var("VERIF_EVIDENCE").map(PathBuf::from).unwrap_or_else(|_| self.verif.join("evidence"));
        std::fs::create_dir_all(&dir).expect("evidence directory");
        std::fs::write(dir.join(format!("{}.json", self.id)), text).expect("evidence file");
    }

    /// Ends the check: everything explored was fine.
    pub fn finish(self, rule: &str) {
        if self.replay.is_some() {
            if !self.replay_found {
                eprintln!("no sub-property of that name");
                std::process::exit(2);
            }
            return;
        }
        self.evidence(rule, 0);
        let evals: u64 = self.subs.iter().map(|s| s.1.evaluations).sum();
        let distinct: usize = self.subs.iter().map(|s| s.1.distinct.len()).sum();
        println!(
            "{} holds on everything explored: {} cases, {} distinct non-trivial ({} tier, seed {}, {:.1} s)",
            self.id, evals, distinct, self.tier, self.seed, self.start.elapsed().as_secs_f64()
        );
    }
}
