//! Replays generated behaviours: writer events become storage operations on a
//! real table directory, observations become calls of the library.
use crate::observer::*;
use crate::profile::{LogFmt, Profile};
use crate::py;
use crate::rng::{hash, Rng};
use crate::s3::*;
use crate::writer::Writer;
use futures::FutureExt;
use hudi_core::table::Table;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Observations a harness adds (for example SQL).
pub type Extra = for<'a> fn(&'a Writer, &'a Table, &'a J, &'a Args, &'a mut Rng) -> Pin<Box<dyn Future<Output = Result<usize, Bad>> + 'a>>;

#[derive(Clone)]
pub struct Config {
    pub focus: String,
    pub seed: u64,
    pub work: PathBuf,
    pub threads: usize,
    pub verbose: bool,
    pub extra: Option<Extra>,
    pub keep: bool,
    /// read through the S3 server, listings in pages of this size
    pub s3: Option<usize>,
    /// faults tried per observation
    pub faults: usize,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub programs: usize,
    pub events: usize,
    pub obs: BTreeMap<String, [usize; 3]>, // kind -> [made, non-empty, error accepted]
    pub distinct: HashSet<u64>,
    pub failures: Vec<J>,
    pub samples: Vec<J>,
    pub faults: BTreeMap<String, [usize; 3]>, // fault -> [tried, struck, reported as error]
    pub storage_ops: usize,
    pub par: BTreeMap<String, usize>,
}

pub fn base_uri(root: &Path, style: u8) -> String {
    let p = root.to_str().unwrap().to_string();
    let u = url::Url::from_directory_path(root).unwrap().to_string();
    match style {
        0 => p,
        1 => format!("{p}/"),
        2 => u.trim_end_matches('/').to_string(),
        _ => u,
    }
}

pub fn dir_name(i: usize, style: u8) -> String {
    let s = ["t", "t b", "tä✓", "t%41b", "t+b=c&d"][style as usize % 5];
    format!("{s}{i}")
}

pub type Slot = Arc<Mutex<Option<(usize, usize, Instant, J)>>>;

pub async fn run_program(cfg: &Config, idx: usize, hist: &[J], slot: &Slot) -> (Stats, Option<J>) {
    let mut st = Stats { programs: 1, ..Default::default() };
    let head = &hist[0];
    let (mor, app, dims) = (head["mor"] == true, head["app"] == true, head["dims"].as_i64().unwrap());
    let pseed = hash(&[cfg.seed as i64, idx as i64]);
    let prof = Profile::new(&cfg.focus, pseed, dims as usize, mor);
    let root = cfg.work.join(dir_name(idx, prof.dir_style));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let uri = base_uri(&root, prof.base_style);
    let mut w = Writer::new(prof, root.clone(), mor, app, dims);
    w.init();
    let mut env = Env { uri, opts: vec![], handles: HashMap::new() };
    let server = match cfg.s3 {
        Some(page) => {
            let s = S3::start(&cfg.work, page, cfg.extra.is_some()).await;
            let u = url::Url::from_directory_path(&root).unwrap();
            let last = u.path_segments().unwrap().filter(|x| !x.is_empty()).last().unwrap().to_string();
            env.uri = format!("s3://b/{last}{}", if w.prof.base_style % 2 == 1 { "/" } else { "" });
            env.opts = s.options();
            Some(s)
        }
        None => None,
    };
    let mut rng = Rng::new(pseed ^ 0x51ed);
    let mut fail = None;
    let mut skip = 0;
    for (ei, e) in hist.iter().enumerate().skip(1) {
        st.events += 1;
        if skip > 0 {
            skip -= 1;
            continue;
        }
        let ev = e["ev"].as_str().unwrap();
        *slot.lock().unwrap() = Some((idx, ei, Instant::now(), e.clone()));
        if ev == "skip" {
            continue;
        }
        if ev != "obs" && ev != "open" && ev != "par" {
            if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.exec(e))) {
                fail = Some(json!({"program": idx, "event": ei, "observation": e, "harness": true,
                    "problem": format!("HARNESS: {}", panic_text(p)), "table": root.display().to_string()}));
                break;
            }
            continue;
        }
        let h = e["h"].as_i64().unwrap();
        let (kind, res) = if ev == "par" {
            let max = e["during"].as_u64().unwrap() as usize;
            let during: Vec<J> = hist[ei + 1..]
                .iter()
                .take(max)
                .take_while(|x| !["obs", "open", "par", "skip", "clean", "archive"].contains(&x["ev"].as_str().unwrap()))
                .cloned()
                .collect();
            skip = during.len();
            let fut = async {
                let own;
                let t = if h == 0 {
                    own = env.open(None).await?;
                    &own
                } else {
                    &env.handles[&h]
                };
                crate::par::run(&mut w, t, e, server.as_ref(), &mut rng, &during).await
            };
            let r = match std::panic::AssertUnwindSafe(fut).catch_unwind().await {
                Ok(Ok(p)) => {
                    for (k, v) in [("calls", p.calls), ("releases", p.releases), ("writer_steps_meanwhile", skip), ("faulted", p.faulted), ("cancelled", p.cancelled)] {
                        *st.par.entry(k.to_string()).or_default() += v;
                    }
                    let m = st.par.entry("max_held".to_string()).or_default();
                    *m = p.max_held.max(*m);
                    Ok(p.rows)
                }
                Ok(Err(b)) => Err(b),
                Err(p) => Err(Bad::Wrong(format!("panic: {}", panic_text(p)))),
            };
            ("par".to_string(), r)
        } else if ev == "open" {
            let fut = async {
                let t = env.open(None).await;
                py_open(&env, None, &t, &format!("h{h}"), &mut rng).await?;
                t
            };
            let r = match std::panic::AssertUnwindSafe(fut).catch_unwind().await {
                Ok(Ok(t)) => {
                    env.handles.insert(h, t);
                    Ok(0)
                }
                Ok(Err(b)) => Err(b),
                Err(p) => Err(Bad::Wrong(format!("panic: {}", panic_text(p)))),
            };
            ("open".to_string(), r)
        } else {
            let a = args(&w, e, &mut rng);
            let fut = async {
                if h == 0 {
                    let ro = if a.ro {
                        Some(true)
                    } else if rng.pct(20) {
                        Some(false)
                    } else {
                        None
                    };
                    let t = env.open(ro).await;
                    py_open(&env, ro, &t, "t", &mut rng).await?;
                    let t = t?;
                    match (a.q.as_str(), cfg.extra) {
                        ("sql", Some(x)) => x(&w, &t, e, &a, &mut rng).await,
                        _ => {
                            let res = observe(&w, &t, e, &a, true).await;
                            py_observe(&w, &t, "t", e, &a, res, &mut rng).await
                        }
                    }
                } else {
                    let res = observe(&w, &env.handles[&h], e, &a, false).await;
                    py_observe(&w, &env.handles[&h], &format!("h{h}"), e, &a, res, &mut rng).await
                }
            };
            let r = match std::panic::AssertUnwindSafe(fut).catch_unwind().await {
                Ok(r) => r,
                Err(p) => Err(Bad::Wrong(format!("panic: {}", panic_text(p)))),
            };
            (a.q.clone(), r)
        };
        let res = match (&server, res) {
            (Some(s), Ok(n)) if cfg.faults > 0 && e["errok"] != true => {
                strike(cfg, &w, &env, s, e, &mut rng, &mut st).await.map(|_| n)
            }
            (_, r) => r,
        };
        let c = st.obs.entry(kind.clone()).or_default();
        c[0] += 1;
        match res {
            Ok(n) => {
                if n > 0 {
                    c[1] += 1;
                    let key = hash(&[idx as i64, n as i64, e["T"].as_i64().unwrap_or(0), e["s"].as_i64().unwrap_or(0), e["e"].as_i64().unwrap_or(0), kind.len() as i64]);
                    st.distinct.insert(key ^ hash(&[e["exp"].to_string().len() as i64]));
                    if st.samples.len() < 2 && n > 2 {
                        st.samples.push(json!({"program": idx, "event": ei, "observation": e, "returned": n}));
                    }
                }
            }
            Err(Bad::Err(_)) if e["errok"] == true || ((w.prof.bad_logs || w.prof.refused && w.prof.log_fmt != LogFmt::Parquet && !w.logs.is_empty()) && e["ro"] != true && kind != "slices" && kind != "open") => c[2] += 1,
            Err(b) => {
                fail = Some(json!({"program": idx, "event": ei, "observation": e, "problem": format!("{b:?}"),
                    "profile": format!("{:?}", w.prof), "table": root.display().to_string()}));
                break;
            }
        }
    }
    if !cfg.keep {
        let _ = std::fs::remove_dir_all(&root);
    }
    (st, fail)
}

/// The same through Python, if wanted.
async fn py_open(env: &Env, ro: Option<bool>, t: &Result<Table, Bad>, href: &str, r: &mut Rng) -> Result<(), Bad> {
    if !py::on() {
        return Ok(());
    }
    let calls: Vec<_> = env.options(ro).into_iter().map(|(k, v)| (if !k.starts_with("hoodie.") { 1 + r.below(2) as u8 } else { 2 * r.below(2) as u8 }, k, v)).collect();
    py::open(&env.uri, &calls, t, true, href, r).await
}
/// What Rust gets wrong is not the binding's fault: then the two only have to agree.
async fn py_observe(w: &Writer, t: &Table, href: &str, e: &J, a: &Args, res: Result<usize, Bad>, r: &mut Rng) -> Result<usize, Bad> {
    if !py::on() {
        return res;
    }
    py::observe(w, t, href, e, a, res.is_ok(), r).await?;
    match res {
        Err(Bad::Wrong(_)) => Ok(0),
        Err(Bad::Err(_)) if e["errok"] != true => Ok(0),
        r => r,
    }
}

/// The observation again, with storage faults: an error or the right answer,
/// and the right answer again once the fault is gone.
async fn strike(cfg: &Config, w: &Writer, env: &Env, s: &S3, e: &J, rng: &mut Rng, st: &mut Stats) -> Result<(), Bad> {
    if e["ev"] != "obs" {
        return Ok(());
    }
    let a = args(w, e, rng);
    let h = e["h"].as_i64().unwrap();
    let ro = if a.ro { Some(true) } else { None };
    let fixed = rng.clone();
    let guard = |r: Result<Result<usize, Bad>, Box<dyn std::any::Any + Send>>| match r {
        Ok(r) => r,
        Err(p) => Err(Bad::Wrong(format!("panic: {}", panic_text(p)))),
    };
    macro_rules! call {
        ($t:expr) => {
            guard(std::panic::AssertUnwindSafe(observe(w, $t, e, &a, h == 0)).catch_unwind().await)
        };
    }
    macro_rules! open_call {
        () => {{
            let f = async {
                let t = env.open(ro).await?;
                match cfg.extra {
                    // the same draws each time: the same statement
                    Some(x) if a.q == "sql" => x(w, &t, e, &a, &mut fixed.clone()).await,
                    _ => observe(w, &t, e, &a, true).await,
                }
            };
            guard(std::panic::AssertUnwindSafe(f).catch_unwind().await)
        }};
    }
    s.ctl.log.lock().unwrap().clear();
    if h == 0 {
        open_call!()?;
    } else {
        call!(&env.handles[&h])?;
    }
    let log = s.ctl.log.lock().unwrap().clone();
    st.storage_ops += log.len();
    let mut keys: Vec<String> = log;
    keys.sort();
    keys.dedup();
    let mut plans: Vec<(String, Fault)> = keys.iter().flat_map(|k| FAULTS.iter().map(move |f| (k.clone(), *f))).collect();
    // spread the choice over the operations
    let mut chosen = Vec::new();
    while chosen.len() < cfg.faults && !plans.is_empty() {
        let i = rng.below(plans.len());
        let x = plans.swap_remove(i);
        let slow = matches!(x.1, Fault::ErrorOnce | Fault::CloseOnce);
        if (x.1 == Fault::Garbage && !x.0.starts_with("LIST")) || (slow && rng.pct(70)) {
            continue;
        }
        chosen.push(x);
    }
    for (k, f) in chosen {
        let set = |on: bool| {
            let mut p = s.ctl.plan.lock().unwrap();
            p.faults.clear();
            if on {
                p.faults.insert(k.clone(), f);
                p.fired = 0;
            }
            p.fired
        };
        let same = h != 0 || (a.q != "sql" && rng.pct(50));
        let note = |r: Result<usize, Bad>, when: &str| match r {
            Err(Bad::Wrong(x)) => Err(Bad::Wrong(format!("{when} fault {f:?} at {k}: {x}"))),
            Err(Bad::Err(x)) => Err(Bad::Err(format!("{when} fault {f:?} at {k}: {x}"))),
            r => r,
        };
        let own;
        let t = if h != 0 {
            Some(&env.handles[&h])
        } else if same {
            own = env.open(ro).await?;
            Some(&own)
        } else {
            None
        };
        set(true);
        let r = match t {
            Some(t) => call!(t),
            None => open_call!(),
        };
        let fired = s.ctl.plan.lock().unwrap().fired;
        set(false);
        let c = st.faults.entry(format!("{f:?}")).or_default();
        c[0] += 1;
        c[1] += (fired > 0) as usize;
        match r {
            Err(Bad::Err(_)) if fired > 0 => c[2] += 1,
            r => {
                note(r, "with")?;
            }
        }
        if let Some(t) = t {
            note(call!(t), "after")?;
        }
    }
    Ok(())
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())
}

pub fn merge(a: &mut Stats, b: Stats) {
    a.programs += b.programs;
    a.events += b.events;
    for (k, v) in b.obs {
        let e = a.obs.entry(k).or_default();
        for i in 0..3 {
            e[i] += v[i];
        }
    }
    a.distinct.extend(b.distinct);
    if a.samples.len() < 3 {
        a.samples.extend(b.samples.into_iter().take(1));
    }
    a.failures.extend(b.failures);
    for (k, v) in b.faults {
        let e = a.faults.entry(k).or_default();
        for i in 0..3 {
            e[i] += v[i];
        }
    }
    a.storage_ops += b.storage_ops;
    for (k, v) in b.par {
        let e = a.par.entry(k.clone()).or_default();
        *e = if k == "max_held" { v.max(*e) } else { *e + v };
    }
}

/// Runs all programs; a hang is reported as a failure of its observation.
pub fn run_all(cfg: &Config, programs: Vec<(usize, Vec<J>)>, limit: Duration) -> Stats {
    let total = Arc::new(Mutex::new(Stats::default()));
    let queue = Arc::new(Mutex::new(programs.into_iter().collect::<std::collections::VecDeque<_>>()));
    let slots: Vec<Slot> = (0..cfg.threads).map(|_| Arc::new(Mutex::new(None))).collect();
    let done = Arc::new(Mutex::new(0usize));
    for i in 0..cfg.threads {
        let (cfg, total, queue, slot, done) = (cfg.clone(), total.clone(), queue.clone(), slots[i].clone(), done.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                loop {
                    let Some((idx, hist)) = queue.lock().unwrap().pop_front() else { break };
                    let (mut st, fail) = rt.block_on(run_program(&cfg, idx, &hist, &slot));
                    if let Some(f) = fail {
                        if cfg.verbose {
                            eprintln!("FAIL {f}");
                        }
                        st.failures.push(f);
                    }
                    *slot.lock().unwrap() = None;
                    merge(&mut total.lock().unwrap(), st);
                }
                *done.lock().unwrap() += 1;
            })
            .unwrap();
    }
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if *done.lock().unwrap() == cfg.threads {
            break;
        }
        let mut hung = vec![];
        for s in &slots {
            if let Some((idx, ei, t0, e)) = &*s.lock().unwrap() {
                if t0.elapsed() > limit {
                    hung.push(json!({"program": idx, "event": ei, "observation": e, "problem": format!("did not finish in {limit:?}")}));
                }
            }
        }
        if !hung.is_empty() {
            total.lock().unwrap().failures.extend(hung);
            break;
        }
    }
    let r = std::mem::take(&mut *total.lock().unwrap());
    r
}

pub fn stats_json(s: &Stats) -> J {
    json!({"programs": s.programs, "events": s.events,
        "observations": s.obs.iter().map(|(k, v)| (k.clone(), json!({"made": v[0], "nonempty": v[1], "error_accepted": v[2]}))).collect::<serde_json::Map<_, _>>(),
        "faults": s.faults.iter().map(|(k, v)| (k.clone(), json!({"tried": v[0], "struck": v[1], "reported": v[2]}))).collect::<serde_json::Map<_, _>>(),
        "python": *py::SEEN.lock().unwrap(), "storage_ops": s.storage_ops, "concurrent": s.par, "distinct_nontrivial": s.distinct.len(), "failures": s.failures, "samples": s.samples})
}

/// Programs of a file: one JSON event list per line.
pub fn load(path: &Path, only: Option<usize>) -> Vec<(usize, Vec<J>)> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .enumerate()
        .filter(|(i, l)| !l.trim().is_empty() && only.map(|o| o == *i).unwrap_or(true))
        .map(|(i, l)| (i, serde_json::from_str(l).unwrap()))
        .collect()
}

pub struct Cli(pub HashMap<String, String>);
impl Cli {
    pub fn parse() -> (String, Cli) {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().unwrap_or_default();
        let mut m = HashMap::new();
        while let Some(k) = it.next() {
            m.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
        }
        (cmd, Cli(m))
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn str(&self, k: &str, d: &str) -> String {
        self.get(k).unwrap_or(d).to_string()
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("HV_PANIC").is_ok() {
            eprintln!("{i}");
        }
    }));
}

pub fn main_replay(c: &Cli, extra: Option<Extra>) {
    quiet_panics();
    let cfg = Config {
        focus: c.str("focus", ""),
        seed: c.num("seed", 1),
        work: PathBuf::from(c.str("work", "/tmp/hv")),
        threads: c.num("threads", 8) as usize,
        verbose: c.get("verbose").is_some(),
        extra,
        keep: c.get("keep").is_some(),
        s3: c.get("s3").map(|s| s.parse().unwrap()),
        faults: c.num("faults", 0) as usize,
    };
    if let (Some(s), Some(p)) = (c.get("python"), c.get("package")) {
        std::fs::create_dir_all(&cfg.work).unwrap();
        py::setup(s, p, &cfg.work);
    }
    let first = c.num("first", 0) as usize;
    let progs: Vec<_> = load(Path::new(c.get("programs").expect("--programs")), c.get("only").map(|s| s.parse().unwrap()))
        .into_iter()
        .map(|(i, p)| (i + first, p))
        .collect();
    std::fs::create_dir_all(&cfg.work).unwrap();
    let s = run_all(&cfg, progs, Duration::from_secs(c.num("hang", 60)));
    let j = stats_json(&s);
    match c.get("out") {
        Some(o) => std::fs::write(o, serde_json::to_string(&j).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
    }
    std::process::exit(if s.failures.is_empty() { 0 } else { 1 });
}
