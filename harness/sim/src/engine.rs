//! Drives a property: generated cases on several threads until the time is up, shrinking of the
//! first failure, the replay file, the evidence file.
use crate::world::{Find, Stats};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Debug)]
pub struct Outcome {
    pub finds: Vec<Find>,
    pub stats: Stats,
    pub trace: Vec<String>,
    /// The case exercises what the property is about.
    pub nontrivial: bool,
    /// How much a case weighs, in elementary checks.
    pub checks: u64,
}

pub struct Prop<C> {
    pub id: &'static str,
    pub strategy: BoxedStrategy<C>,
    pub run: Arc<dyn Fn(&C) -> Outcome + Send + Sync>,
    /// What makes a case non-trivial.
    pub rule: &'static str,
    /// How cases are made.
    pub how: &'static str,
    pub assumptions: &'static [&'static str],
    /// How many generated cases, and after how many seconds to stop all the same.
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    /// Hand-picked cases that are run before the generated ones.
    pub fixed: Vec<C>,
}

pub struct Opts {
    pub root: PathBuf,
    pub tier: String,
    pub seed: u64,
    pub secs: Option<u64>,
    pub cases: Option<u64>,
    pub workers: usize,
    pub any: bool,
    /// Make a failure small before it is reported.
    pub shrink: bool,
}

struct Shared<C> {
    evaluations: AtomicU64,
    checks: AtomicU64,
    abandoned: AtomicU64,
    panics: AtomicU64,
    stop: AtomicBool,
    next: AtomicU64,
    bound: u64,
    distinct: Mutex<HashSet<u64>>,
    nontrivial: Mutex<HashSet<u64>>,
    stats: Mutex<BTreeMap<&'static str, u64>>,
    samples: Mutex<Vec<serde_json::Value>>,
    fail: Mutex<Option<(C, Outcome)>>,
    foreign: Mutex<BTreeMap<String, u64>>,
    started: Vec<Mutex<Option<(Instant, String)>>>,
    panic_note: Mutex<Option<String>>,
}

fn relevant(o: &Outcome, id: &str, any: bool) -> bool {
    o.finds.iter().any(|f| any || f.props.contains(&id))
}

fn hash64(s: &str) -> u64 {
    use sha2::{Digest, Sha256};
    u64::from_le_bytes(Sha256::digest(s.as_bytes())[..8].try_into().unwrap())
}

fn guarded<C>(run: &Arc<dyn Fn(&C) -> Outcome + Send + Sync>, c: &C) -> Result<Outcome, String> {
    catch_unwind(AssertUnwindSafe(|| run(c))).map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

pub fn drive<C>(p: Prop<C>, o: &Opts) -> i32
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    let t0 = Instant::now();
    let (cases, cap) = if o.tier == "thorough" { p.thorough } else { p.quick };
    let (cases, secs) = o.secs.map_or((o.cases.unwrap_or(cases), cap), |s| (o.cases.unwrap_or(u64::MAX), s));
    let deadline = t0 + Duration::from_secs(secs);
    let sh = Arc::new(Shared::<C> {
        evaluations: 0.into(),
        checks: 0.into(),
        abandoned: 0.into(),
        panics: 0.into(),
        stop: false.into(),
        next: 0.into(),
        bound: cases,
        distinct: Default::default(),
        nontrivial: Default::default(),
        stats: Default::default(),
        samples: Default::default(),
        fail: Default::default(),
        foreign: Default::default(),
        started: (0..o.workers).map(|_| Mutex::new(None)).collect(),
        panic_note: Default::default(),
    });
    let p = Arc::new(PropShared { id: p.id, run: p.run.clone(), strategy: Mutex::new(p.strategy.clone()), fixed: Mutex::new(p.fixed.clone()), rest: p });
    let live = Arc::new(AtomicU64::new(o.workers as u64));
    for k in 0..o.workers {
        let (sh, p, live) = (sh.clone(), p.clone(), live.clone());
        let (seed, any, shrink) = (o.seed, o.any, o.shrink);
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                worker(k, seed, any, shrink, deadline, &p, &sh);
                live.fetch_sub(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    // A case that does not come back is not waited for.
    let mut hung = None;
    while live.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        let n = sh.started.iter().filter_map(|s| s.lock().unwrap().clone()).find(|(t, _)| t.elapsed() > Duration::from_secs(90));
        if let Some((_, c)) = n {
            if sh.fail.lock().unwrap().is_none() {
                hung = Some(c);
                sh.stop.store(true, Ordering::SeqCst);
                break;
            }
        }
        // Shrinking takes its time, but not for ever.
        if t0.elapsed() > Duration::from_secs(secs + 150) + GRACE {
            break;
        }
    }
    let fail = sh.fail.lock().unwrap().clone();
    let replays = o.root.join("replays");
    let mut code = 0;
    let mut violation = None;
    if let Some((case, out)) = &fail {
        let _ = std::fs::create_dir_all(&replays);
        let name = format!("{}-{:016x}.json", p.id, hash64(&serde_json::to_string(case).unwrap()));
        let path = replays.join(name);
        let finds: Vec<_> = out.finds.iter().map(|f| serde_json::json!({"properties": f.props, "what": f.msg})).collect();
        let doc = serde_json::json!({"property": p.id, "case": case, "finds": finds, "trace": out.trace, "seed": o.seed});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("cannot write the replay file");
        for f in out.finds.iter().filter(|f| o.any || f.props.contains(&p.id)).take(4) {
            say!("{}: {:?}: {}", p.id, f.props, f.msg);
        }
        for l in out.trace.iter().rev().take(12).rev() {
            say!("    {l}");
        }
        say!("VIOLATION property={} replay={}", p.id, path.display());
        violation = Some(path.display().to_string());
        code = 1;
    } else if let Some(c) = hung {
        say!("a case did not finish within 90 s");
        // Once more, with the machine to itself.
        std::thread::sleep(Duration::from_secs(20));
        let done = Arc::new(AtomicBool::new(false));
        if let Ok(case) = serde_json::from_str::<C>(&c) {
            let (done, run) = (done.clone(), p.run.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let _ = guarded(&run, &case);
                    done.store(true, Ordering::SeqCst);
                })
                .unwrap();
        }
        let t = Instant::now();
        while !done.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(120) {
            std::thread::sleep(Duration::from_millis(50));
        }
        code = 2;
        if !done.load(Ordering::SeqCst) && ["C17", "C18", "C21"].contains(&p.id) {
            let _ = std::fs::create_dir_all(&replays);
            let path = replays.join(format!("{}-hang-{:016x}.json", p.id, hash64(&c)));
            let case: serde_json::Value = serde_json::from_str(&c).unwrap();
            let doc = serde_json::json!({"property": p.id, "case": case, "finds": [{"what": "a message did not finish within 90 s, and then again within 120 s"}]});
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").unwrap();
            say!("VIOLATION property={} replay={}", p.id, path.display());
            violation = Some(path.display().to_string());
            code = 1;
        }
    }
    let foreign = sh.foreign.lock().unwrap().clone();
    for (k, n) in foreign.iter().take(5) {
        say!("note: {n} cases ended early on something else: {k}");
    }
    if let Some(m) = sh.panic_note.lock().unwrap().clone() {
        say!("note: {} cases could not be carried out: {m}", sh.panics.load(Ordering::SeqCst));
    }
    let evals = sh.evaluations.load(Ordering::SeqCst);
    let nontrivial = sh.nontrivial.lock().unwrap().len();
    let stats = sh.stats.lock().unwrap().clone();
    let ev = serde_json::json!({
        "property": p.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct": sh.distinct.lock().unwrap().len(),
            "distinct_nontrivial": nontrivial,
            "rule": format!("{} Non-trivial: {}.", p.rest.how, p.rest.rule),
            "planned_cases": (cases != u64::MAX).then_some(cases),
            "stopped_by_the_clock": evals < cases && code == 0,
            "elementary_checks": sh.checks.load(Ordering::SeqCst),
            "events": stats,
            "cases_abandoned_for_other_properties": sh.abandoned.load(Ordering::SeqCst),
            "harness_panics": sh.panics.load(Ordering::SeqCst),
            "workers": o.workers,
            "samples": sh.samples.lock().unwrap().clone(),
        },
        "assumptions": p.rest.assumptions,
        "violations": violation.iter().count(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violation": violation,
    });
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("cannot write the evidence file");
    say!("{}: {} cases, {} of them distinct and non-trivial, {:.1} s", p.id, evals, nontrivial, t0.elapsed().as_secs_f64());
    if code == 0 && nontrivial < 3 && fail.is_none() {
        say!("{}: too few cases could be carried out to say anything", p.id);
        code = 2;
    }
    code
}

const GRACE: Duration = Duration::from_secs(150);

struct PropShared<C> {
    id: &'static str,
    run: Arc<dyn Fn(&C) -> Outcome + Send + Sync>,
    strategy: Mutex<BoxedStrategy<C>>,
    fixed: Mutex<Vec<C>>,
    rest: Prop<C>,
}
// SAFETY: strategies are only ever touched under the mutex or by their own clone.
unsafe impl<C> Sync for PropShared<C> {}
unsafe impl<C> Send for PropShared<C> {}

fn worker<C>(k: usize, seed: u64, any: bool, shrink: bool, deadline: Instant, p: &PropShared<C>, sh: &Shared<C>)
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
{
    loop {
        // A slow machine gets some more time, when little has been said so far.
        let over = Instant::now().saturating_duration_since(deadline);
        if sh.stop.load(Ordering::SeqCst) || !over.is_zero() && (over > GRACE || sh.nontrivial.lock().unwrap().len() >= 12) {
            return;
        }
        let n = sh.next.fetch_add(1, Ordering::SeqCst);
        if n >= sh.bound {
            return;
        }
        let fixed = p.fixed.lock().unwrap().pop();
        let (case, tree) = match fixed {
            Some(c) => (c, None),
            None => {
                // Each case is a function of the seed and its number.
                let mut s = [0u8; 32];
                s[..8].copy_from_slice(&seed.to_le_bytes());
                s[8..16].copy_from_slice(&n.to_le_bytes());
                s[16..16 + p.id.len()].copy_from_slice(p.id.as_bytes());
                let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, TestRng::from_seed(RngAlgorithm::ChaCha, &s));
                let t = p.strategy.lock().unwrap().clone().new_tree(&mut runner).expect("strategy");
                (t.current(), Some(t))
            }
        };
        let text = serde_json::to_string(&case).unwrap();
        let h = hash64(&text);
        *sh.started[k].lock().unwrap() = Some((Instant::now(), text));
        let r = guarded(&p.run, &case);
        *sh.started[k].lock().unwrap() = None;
        sh.evaluations.fetch_add(1, Ordering::SeqCst);
        sh.distinct.lock().unwrap().insert(h);
        let out = match r {
            Ok(o) => o,
            Err(e) => {
                sh.panics.fetch_add(1, Ordering::SeqCst);
                let mut g = sh.panic_note.lock().unwrap();
                if g.is_none() {
                    *g = Some(format!("{e} in {}", serde_json::to_string(&case).unwrap()));
                }
                continue;
            }
        };
        sh.checks.fetch_add(out.checks, Ordering::SeqCst);
        {
            let mut st = sh.stats.lock().unwrap();
            for (k, v) in &out.stats.0 {
                *st.entry(k).or_default() += v;
            }
        }
        if out.finds.is_empty() {
            if out.nontrivial && sh.nontrivial.lock().unwrap().insert(h) {
                let mut sm = sh.samples.lock().unwrap();
                if sm.len() < 3 {
                    let t: Vec<_> = out.trace.iter().take(40).cloned().collect();
                    sm.push(serde_json::json!({"case": serde_json::to_value(&case).unwrap(), "trace": t}));
                }
            }
            continue;
        }
        if !relevant(&out, p.id, any) {
            sh.abandoned.fetch_add(1, Ordering::SeqCst);
            let f = &out.finds[0];
            let mut m: String = format!("{:?} {}", f.props, f.msg);
            m.truncate((0..=300.min(m.len())).rev().find(|i| m.is_char_boundary(*i)).unwrap_or(0));
            let mut g = sh.foreign.lock().unwrap();
            if g.len() < 5 {
                *g.entry(m).or_default() += 1;
            }
            continue;
        }
        if sh.stop.swap(true, Ordering::SeqCst) {
            return;
        }
        // Make it small.
        let mut best = (case, out);
        *sh.fail.lock().unwrap() = Some(best.clone());
        if let Some(mut t) = tree.filter(|_| shrink) {
            let until = Instant::now() + Duration::from_secs(45);
            let mut tries = 0;
            let mut more = t.simplify();
            while more && Instant::now() < until && tries < 4000 {
                tries += 1;
                let c = t.current();
                match guarded(&p.run, &c) {
                    Ok(o) if relevant(&o, p.id, any) => {
                        best = (c, o);
                        *sh.fail.lock().unwrap() = Some(best.clone());
                        more = t.simplify();
                    }
                    _ => more = t.complicate(),
                }
            }
        }
        *sh.fail.lock().unwrap() = Some(best);
        return;
    }
}

/// Runs one case from a replay file.
pub fn replay<C>(p: Prop<C>, file: &Path, any: bool) -> i32
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static,
{
    let doc: serde_json::Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay file");
    let case: C = serde_json::from_value(doc["case"].clone()).expect("the replay file's case");
    let o = (p.run)(&case);
    for l in &o.trace {
        say!("    {l}");
    }
    for f in &o.finds {
        say!("{:?}: {}", f.props, f.msg);
    }
    if relevant(&o, p.id, any) {
        say!("VIOLATION property={} replay={}", p.id, file.display());
        1
    } else {
        say!("{}: the replayed case passes", p.id);
        0
    }
}
