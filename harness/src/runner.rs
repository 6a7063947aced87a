//! Supervisor / worker machinery: fixed-work sharded property runs with
//! deterministic per-case seeds, shrinking, crash isolation and evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config as PtConfig, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type Check = Result<(), String>;

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub sample: Option<String>,
}
impl Obs {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn add(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub trait Prop {
    type Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned;
    const ID: &'static str;
    const LEVEL: &'static str = "exploration";
    /// cases per run (all shards together): quick, thorough
    const CASES: (u64, u64);
    const RULE: &'static str;
    const ASSUME: &'static [&'static str] = &[];
    fn strategy(thorough: bool) -> BoxedStrategy<Self::Case>;
    /// Fixed extra cases (sizes or corner cases random search would hit rarely).
    fn fixed(_thorough: bool) -> Vec<Self::Case> {
        vec![]
    }
    fn check(case: &Self::Case, obs: &mut Obs) -> Check;
    /// Known findings: replays the listed inputs; returns those still failing.
    fn known(_kf: &[KnownFinding]) -> Vec<String> {
        vec![]
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct KnownFinding {
    pub property: String,
    pub id: String,
    pub what: String,
    #[serde(default)]
    pub input: serde_json::Value,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    hashes: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    failure: Option<Failure>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    index: u64,
    message: String,
    case: serde_json::Value,
    shrink_evals: u64,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    message: String,
    seed: u64,
    shard: u64,
    index: u64,
    case: serde_json::Value,
}

pub trait DynProp: Sync {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assume(&self) -> &'static [&'static str];
    fn cases(&self, thorough: bool) -> u64;
    fn worker(&self, a: &WorkerArgs);
    fn isolate(&self, a: &WorkerArgs);
    fn eval_json(&self, v: &serde_json::Value) -> Check;
    fn known(&self, kf: &[KnownFinding]) -> Vec<String>;
    fn bench(&self, n: u64, seed: u64);
}

pub struct WorkerArgs {
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub cases: u64,
    pub thorough: bool,
    pub dir: PathBuf,
    pub index: u64,
}

pub struct Entry<P>(pub std::marker::PhantomData<fn() -> P>);

fn case_tree<P: Prop>(
    strat: &BoxedStrategy<P::Case>,
    seed: u64,
    shard: u64,
    idx: u64,
) -> Box<dyn ValueTree<Value = P::Case>> {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&shard.to_le_bytes());
    bytes[16..24].copy_from_slice(&idx.to_le_bytes());
    let mut h = DefaultHasher::new();
    P::ID.hash(&mut h);
    bytes[24..32].copy_from_slice(&h.finish().to_le_bytes());
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let cfg = PtConfig {
        failure_persistence: None,
        max_local_rejects: 100_000,
        ..PtConfig::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    strat.new_tree(&mut runner).expect("generator rejected too much")
}

fn shrink<P: Prop>(
    tree: &mut Box<dyn ValueTree<Value = P::Case>>,
    first: (P::Case, String),
    fails: &mut dyn FnMut(&P::Case) -> Option<String>,
    max: u64,
    limit: Duration,
) -> (P::Case, String, u64) {
    let start = Instant::now();
    let (mut best, mut msg) = first;
    let mut evals = 0;
    if !tree.simplify() {
        return (best, msg, 0);
    }
    while evals < max && start.elapsed() < limit {
        evals += 1;
        let cur = tree.current();
        match fails(&cur) {
            Some(m) => {
                best = cur;
                msg = m;
                if !tree.simplify() {
                    break;
                }
            }
            None => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    (best, msg, evals)
}

/// The check; results it cannot make sense of (which no input gives on a tree
/// where the property holds) fail it.
fn judge<P: Prop>(case: &P::Case, obs: &mut Obs) -> Check {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| P::check(case, obs)))
        .unwrap_or_else(|e| {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("result does not make sense: {m}"))
        })
}

fn hash_case<C: Serialize>(c: &C) -> u64 {
    let mut h = DefaultHasher::new();
    serde_json::to_vec(c).unwrap().hash(&mut h);
    h.finish()
}

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

impl<P: Prop> DynProp for Entry<P> {
    fn id(&self) -> &'static str {
        P::ID
    }
    fn level(&self) -> &'static str {
        P::LEVEL
    }
    fn rule(&self) -> &'static str {
        P::RULE
    }
    fn assume(&self) -> &'static [&'static str] {
        P::ASSUME
    }
    fn cases(&self, t: bool) -> u64 {
        if t {
            P::CASES.1
        } else {
            P::CASES.0
        }
    }
    fn known(&self, kf: &[KnownFinding]) -> Vec<String> {
        P::known(kf)
    }

    fn worker(&self, a: &WorkerArgs) {
        crate::sut::quiet();
        let strat = P::strategy(a.thorough);
        let status = std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(a.dir.join(format!("status-{}", a.shard)))
            .unwrap();
        let mark = |i: u64| {
            use std::os::unix::fs::FileExt;
            status.write_at(&i.to_le_bytes(), 0).unwrap();
        };
        let mut out = WorkerOut::default();
        let handle = |case: &P::Case, out: &mut WorkerOut| -> Option<String> {
            let mut obs = Obs::default();
            let r = judge::<P>(case, &mut obs);
            out.evaluations += 1;
            for (k, v) in obs.labels {
                *out.labels.entry(k).or_insert(0) += v;
            }
            if obs.nontrivial {
                out.hashes.push(hash_case(case));
                if out.samples.len() < 2 {
                    let s = obs
                        .sample
                        .unwrap_or_else(|| serde_json::to_string(case).unwrap());
                    out.samples.push(truncate(&s, 1200));
                }
            }
            r.err()
        };
        // fixed cases, spread over the shards
        let fixed = P::fixed(a.thorough);
        for (i, case) in fixed.iter().enumerate() {
            if i as u64 % a.shards != a.shard {
                continue;
            }
            mark(u64::MAX - 1 - i as u64);
            if let Some(m) = handle(case, &mut out) {
                *out.labels.entry("fixed case failed".into()).or_insert(0) += 1;
                out.failure = Some(Failure {
                    index: i as u64,
                    message: m,
                    case: serde_json::to_value(case).unwrap(),
                    shrink_evals: 0,
                });
                break;
            }
        }
        if out.failure.is_none() {
            for i in 0..a.cases {
                mark(i);
                let mut tree = case_tree::<P>(&strat, a.seed, a.shard, i);
                let case = tree.current();
                if let Some(m) = handle(&case, &mut out) {
                    let mut fails = |c: &P::Case| judge::<P>(c, &mut Obs::default()).err();
                    // state left in place means the shrink itself may crash: mark stays
                    let (best, msg, n) = shrink::<P>(
                        &mut tree,
                        (case, m),
                        &mut fails,
                        3000,
                        Duration::from_secs(40),
                    );
                    out.failure = Some(Failure {
                        index: i,
                        message: msg,
                        case: serde_json::to_value(&best).unwrap(),
                        shrink_evals: n,
                    });
                    break;
                }
            }
        }
        std::fs::write(
            a.dir.join(format!("out-{}.json", a.shard)),
            serde_json::to_vec(&out).unwrap(),
        )
        .unwrap();
    }

    /// Re-run one crashing case with every evaluation in a forked child and shrink it.
    fn isolate(&self, a: &WorkerArgs) {
        crate::sut::quiet();
        let first = std::cell::Cell::new(true);
        let mut eval = |c: &P::Case| -> Option<String> {
            let msgfile = a.dir.join(format!("iso-msg-{}", a.shard));
            let _ = std::fs::remove_file(&msgfile);
            unsafe {
                let pid = libc::fork();
                if pid == 0 {
                    let code = match judge::<P>(c, &mut Obs::default()) {
                        Ok(()) => 0,
                        Err(m) => {
                            let _ = std::fs::write(&msgfile, m);
                            1
                        }
                    };
                    libc::_exit(code);
                }
                let (mut st, start) = (0, Instant::now());
                // (the first one on its own decides whether the case really hangs)
                let allowed = Duration::from_secs(if first.replace(false) { 60 } else { 8 });
                while libc::waitpid(pid, &mut st, libc::WNOHANG) == 0 {
                    if start.elapsed() > allowed {
                        libc::kill(pid, libc::SIGKILL);
                        libc::waitpid(pid, &mut st, 0);
                        return Some(format!("no result after {} seconds", allowed.as_secs()));
                    }
                    std::thread::sleep(Duration::from_micros(300));
                }
                if libc::WIFSIGNALED(st) {
                    return Some(format!(
                        "the process was killed by signal {} (abort, stack overflow or memory exhaustion)",
                        libc::WTERMSIG(st)
                    ));
                }
                match libc::WEXITSTATUS(st) {
                    0 => None,
                    1 => Some(std::fs::read_to_string(&msgfile).unwrap_or_default()),
                    _ => None,
                }
            }
        };
        let mut fail = None;
        if a.index > u64::MAX / 2 {
            let i = (u64::MAX - 1 - a.index) as usize;
            let case = P::fixed(a.thorough)[i].clone();
            if let Some(m) = eval(&case) {
                fail = Some(Failure {
                    index: i as u64,
                    message: m,
                    case: serde_json::to_value(&case).unwrap(),
                    shrink_evals: 0,
                });
            }
        } else {
            let strat = P::strategy(a.thorough);
            let mut tree = case_tree::<P>(&strat, a.seed, a.shard, a.index);
            let case = tree.current();
            if let Some(m) = eval(&case) {
                let (best, msg, n) = shrink::<P>(
                    &mut tree,
                    (case, m),
                    &mut eval,
                    600,
                    Duration::from_secs(60),
                );
                fail = Some(Failure {
                    index: a.index,
                    message: msg,
                    case: serde_json::to_value(&best).unwrap(),
                    shrink_evals: n,
                });
            }
        }
        let out = WorkerOut {
            evaluations: 0,
            failure: fail,
            ..Default::default()
        };
        std::fs::write(
            a.dir.join(format!("iso-{}.json", a.shard)),
            serde_json::to_vec(&out).unwrap(),
        )
        .unwrap();
    }

    fn eval_json(&self, v: &serde_json::Value) -> Check {
        let case: P::Case = serde_json::from_value(v.clone()).expect("bad replay file");
        judge::<P>(&case, &mut Obs::default())
    }

    fn bench(&self, n: u64, seed: u64) {
        let strat = P::strategy(false);
        let mut gen = Duration::ZERO;
        let mut chk = Duration::ZERO;
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut nt = 0;
        let mut fails = 0;
        for i in 0..n {
            let t = Instant::now();
            let tree = case_tree::<P>(&strat, seed, 0, i);
            let case = tree.current();
            gen += t.elapsed();
            let t = Instant::now();
            let mut obs = Obs::default();
            let saved = crate::sut::hush();
            let r = P::check(&case, &mut obs);
            crate::sut::unhush(saved);
            chk += t.elapsed();
            for (k, v) in obs.labels {
                *labels.entry(k).or_insert(0) += v;
            }
            nt += obs.nontrivial as u64;
            if let Err(m) = r {
                fails += 1;
                if fails < 4 {
                    println!("case {i}: {m}");
                }
            }
        }
        println!(
            "{}: {n} cases, nontrivial {nt}, failing {fails}, gen {:?}, check {:?}",
            P::ID, gen, chk
        );
        for (k, v) in labels {
            println!("  {v:8} {k}");
        }
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("QV_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn load_known() -> Vec<KnownFinding> {
    let p = verif_dir().join("known_findings.json");
    match std::fs::read(&p) {
        Ok(b) => {
            let v: serde_json::Value = serde_json::from_slice(&b).expect("known_findings.json");
            serde_json::from_value(v["findings"].clone()).expect("known_findings.json: findings")
        }
        Err(_) => vec![],
    }
}

/// Longer than any case takes, and than a failing one is shrunk.
const HANG: Duration = Duration::from_secs(100);

/// Returns the process exit code.
pub fn supervise(p: &dyn DynProp, thorough: bool) -> i32 {
    let start = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let shards = env_u64("QV_SHARDS", 8);
    let total = env_u64("QV_CASES", p.cases(thorough));
    let limit = Duration::from_secs(env_u64("QV_LIMIT", if thorough { 20_000 } else { 800 }));
    let id = p.id();
    let vd = verif_dir();
    let scratch = crate::sut::make_scratch("sup");
    let exe = std::env::current_exe().unwrap();
    let base = |mode: &str, shard: u64| {
        let mut c = Command::new(&exe);
        c.arg(mode)
            .arg(id)
            .arg(seed.to_string())
            .arg(shard.to_string())
            .arg(shards.to_string())
            .arg(((total + shards - 1) / shards).to_string())
            .arg(if thorough { "1" } else { "0" })
            .arg(&scratch);
        c.stdin(Stdio::null());
        c.stdout(Stdio::null());
        c.env("RAYON_NUM_THREADS", "2");
        c
    };
    let mut kids: Vec<Option<std::process::Child>> = (0..shards)
        .map(|s| {
            let err = std::fs::File::create(scratch.join(format!("err-{s}"))).unwrap();
            Some(base("worker", s).stderr(err).spawn().expect("spawn worker"))
        })
        .collect();
    let mut status: Vec<Option<std::process::ExitStatus>> = vec![None; shards as usize];
    // where each worker is, and since when
    let at = |s: usize| std::fs::read(scratch.join(format!("status-{s}"))).ok();
    let mut seen: Vec<(Option<Vec<u8>>, Instant)> = vec![(None, Instant::now()); shards as usize];
    let mut hung = vec![false; shards as usize];
    let mut polls = 0u64;
    loop {
        polls += 1;
        let mut alive = 0;
        for s in 0..shards as usize {
            if let Some(k) = &mut kids[s] {
                match k.try_wait().unwrap() {
                    Some(st) => {
                        status[s] = Some(st);
                        kids[s] = None;
                    }
                    None => {
                        alive += 1;
                        if polls % 50 == 0 {
                            let now = at(s);
                            if now != seen[s].0 {
                                seen[s] = (now, Instant::now());
                            } else if seen[s].1.elapsed() > HANG {
                                // (a failing case may be shrunk for a shorter time than this)
                                hung[s] = true;
                                let _ = k.kill();
                            }
                        }
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        if start.elapsed() > limit {
            for k in kids.iter_mut().flatten() {
                let _ = k.kill();
                let _ = k.wait();
            }
            println!("ERROR property={id} time limit reached: no verdict");
            crate::sut::remove_scratch(&scratch);
            return 2;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut evaluations = 0;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut failures: Vec<(u64, Failure)> = vec![];
    let mut errors: Vec<String> = vec![];
    for s in 0..shards {
        let st = status[s as usize].unwrap();
        let path = scratch.join(format!("out-{s}.json"));
        if st.success() && path.exists() {
            let o: WorkerOut = serde_json::from_slice(&std::fs::read(&path).unwrap()).unwrap();
            evaluations += o.evaluations;
            hashes.extend(o.hashes);
            for (k, v) in o.labels {
                *labels.entry(k).or_insert(0) += v;
            }
            samples.extend(o.samples);
            if let Some(f) = o.failure {
                failures.push((s, f));
            }
            continue;
        }
        use std::os::unix::process::ExitStatusExt;
        let index = std::fs::read(scratch.join(format!("status-{s}")))
            .ok()
            .filter(|b| b.len() >= 8)
            .map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
        match (st.signal(), index) {
            // one case that does not end is enough
            (Some(_), Some(_)) if hung[s as usize] && !failures.is_empty() => {}
            (Some(sig), Some(index))
                if hung[s as usize] || [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE]
                    .contains(&sig) =>
            {
                let r = base("isolate", s)
                    .arg(index.to_string())
                    .stderr(Stdio::null())
                    .status();
                let iso = scratch.join(format!("iso-{s}.json"));
                let o: Option<WorkerOut> = std::fs::read(&iso)
                    .ok()
                    .and_then(|b| serde_json::from_slice(&b).ok());
                match (r, o.and_then(|o| o.failure)) {
                    (Ok(r), Some(f)) if r.success() => failures.push((s, f)),
                    _ => errors.push(format!(
                        "shard {s} died of signal {sig} at case {index}, not reproduced in isolation"
                    )),
                }
            }
            _ => {
                let err = std::fs::read_to_string(scratch.join(format!("err-{s}")))
                    .unwrap_or_default();
                errors.push(format!("shard {s} ended with {st} at {index:?}: {}", truncate(&err, 600)))
            }
        }
    }
    // replays
    let rdir = vd.join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut lines = vec![];
    for (s, f) in failures.iter() {
        let path = rdir.join(format!("{id}-s{seed}-{s}-{}.json", f.index));
        let rep = Replay {
            property: id.into(),
            message: f.message.clone(),
            seed,
            shard: *s,
            index: f.index,
            case: f.case.clone(),
        };
        std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        lines.push((path, f.message.clone(), f.shrink_evals));
    }
    let kf: Vec<KnownFinding> = load_known().into_iter().filter(|k| k.property == id).collect();
    let mut known_lines = vec![];
    if !kf.is_empty() {
        let h = crate::sut::hush();
        let k = p.known(&kf);
        crate::sut::unhush(h);
        known_lines = k;
    }
    let evidence = serde_json::json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": p.level(),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule(),
            "samples": samples.into_iter().take(4).collect::<Vec<_>>(),
            "labels": labels,
            "shards": shards,
            "known_findings_still_failing": known_lines,
        },
        "assumptions": p.assume(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let edir = vd.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(
        edir.join(format!("{id}.json")),
        serde_json::to_vec_pretty(&evidence).unwrap(),
    )
    .unwrap();
    crate::sut::remove_scratch(&scratch);
    for l in &known_lines {
        println!("KNOWN-FINDING: property={id} {l}");
    }
    if !lines.is_empty() {
        for (path, msg, n) in &lines {
            println!("  {} (after {} shrink steps)", truncate(msg, 1500), n);
            println!("VIOLATION property={id} replay={}", path.display());
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR property={id} {e}");
        }
        return 2;
    }
    println!(
        "OK property={id} evaluations={evaluations} nontrivial={} seed={seed} wall={:.1}s",
        hashes.len(),
        start.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    0
}

pub fn replay(p: &dyn DynProp, file: &Path) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(file).expect("replay file")).unwrap();
    let h = crate::sut::hush();
    let res = p.eval_json(&r.case);
    crate::sut::unhush(h);
    match res {
        Ok(()) => {
            println!("OK property={} replay passes", r.property);
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", r.property, file.display());
            1
        }
    }
}
