//! Runs cases of a specification, each on its own, in threads; a case that
//! does not finish is a failure.
use crate::observer::Bad;
use crate::replay::{panic_text, quiet_panics, Cli};
use futures::FutureExt;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Job {
    pub idx: usize,
    pub seed: u64,
    pub work: PathBuf,
    pub case: J,
    /// what was observed: kind -> number
    pub seen: Mutex<BTreeMap<String, usize>>,
    /// the harness has done its part: what fails from now on is the library's doing
    pub ready: AtomicBool,
}
impl Job {
    pub fn ready(&self) {
        self.ready.store(true, Ordering::SeqCst);
    }
    pub fn count(&self, k: &str) {
        *self.seen.lock().unwrap().entry(k.into()).or_default() += 1;
    }
}
pub type Run = fn(Arc<Job>) -> Pin<Box<dyn Future<Output = Result<(), Bad>>>>;

#[derive(Default)]
struct Total {
    cases: usize,
    seen: BTreeMap<String, usize>,
    failures: Vec<J>,
    samples: Vec<J>,
    ended: usize,
}

/// --cases FILE (one JSON value per line; "idx" in it overrides its number)
/// --seed N --work DIR --out FILE --threads N --hang S
pub fn main(c: &Cli, run: Run) {
    start(c, run, false)
}
/// With runtimes that allow to block in place (DataFusion's schema()).
pub fn main_blocking(c: &Cli, run: Run) {
    start(c, run, true)
}
fn start(c: &Cli, run: Run, blocking: bool) {
    quiet_panics();
    let work = PathBuf::from(c.str("work", "/tmp/hvp"));
    std::fs::create_dir_all(&work).unwrap();
    if let (Some(s), Some(p)) = (c.get("python"), c.get("package")) {
        crate::py::setup(s, p, &work);
    }
    let seed = c.num("seed", 1);
    let (threads, limit) = (c.num("threads", 8) as usize, Duration::from_secs(c.num("hang", 60)));
    let queue: VecDeque<(usize, J)> = std::fs::read_to_string(c.get("cases").expect("--cases"))
        .unwrap()
        .lines()
        .enumerate()
        .map(|(i, l)| {
            let v: J = serde_json::from_str(l).unwrap();
            (v["idx"].as_u64().map(|x| x as usize).unwrap_or(i), v)
        })
        .collect();
    let queue = Arc::new(Mutex::new(queue));
    let total = Arc::new(Mutex::new(Total::default()));
    type Slot = Arc<Mutex<Option<(Instant, usize, J)>>>;
    let slots: Vec<Slot> = (0..threads).map(|_| Default::default()).collect();
    for slot in &slots {
        let (queue, total, slot, work) = (queue.clone(), total.clone(), slot.clone(), work.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let mut b = if blocking { tokio::runtime::Builder::new_multi_thread() } else { tokio::runtime::Builder::new_current_thread() };
                let rt = b.worker_threads(1).enable_all().build().unwrap();
                loop {
                    let Some((idx, case)) = queue.lock().unwrap().pop_front() else { break };
                    *slot.lock().unwrap() = Some((Instant::now(), idx, case.clone()));
                    let dir = work.join(format!("c{idx}"));
                    let _ = std::fs::remove_dir_all(&dir);
                    std::fs::create_dir_all(&dir).unwrap();
                    let job = Arc::new(Job { idx, seed, work: dir.clone(), case: case.clone(), seen: Default::default(), ready: Default::default() });
                    let res = match rt.block_on(std::panic::AssertUnwindSafe(run(job.clone())).catch_unwind()) {
                        Ok(r) => r,
                        Err(p) => Err(Bad::Wrong(format!("panic: {}", panic_text(p)))),
                    };
                    *slot.lock().unwrap() = None;
                    let _ = std::fs::remove_dir_all(&dir);
                    let mut t = total.lock().unwrap();
                    t.cases += 1;
                    let seen = job.seen.lock().unwrap();
                    for (k, v) in seen.iter() {
                        *t.seen.entry(k.clone()).or_default() += v;
                    }
                    if t.cases % 97 == 5 && t.samples.len() < 3 {
                        t.samples.push(json!({"case": case, "observed": *seen}));
                    }
                    if let Err(b) = res {
                        let mut case = case;
                        case["idx"] = json!(idx);
                        let harness = !job.ready.load(Ordering::SeqCst);
                        let p = format!("{}{b:?}", if harness { "HARNESS: " } else { "" });
                        let f = json!({"problem": p, "case": case, "seed": seed, "harness": harness});
                        t.failures.push(f);
                        if t.failures.len() > 50 {
                            queue.lock().unwrap().clear();
                        }
                    }
                }
                total.lock().unwrap().ended += 1;
            })
            .unwrap();
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut t = total.lock().unwrap();
        if t.ended == threads {
            break;
        }
        let hung: Vec<J> = slots
            .iter()
            .filter_map(|s| s.lock().unwrap().clone().filter(|x| x.0.elapsed() > limit))
            .map(|(_, idx, mut case)| {
                case["idx"] = json!(idx);
                json!({"problem": format!("did not finish in {limit:?}"), "case": case, "seed": seed})
            })
            .collect();
        if !hung.is_empty() {
            t.failures.extend(hung);
            break;
        }
    }
    let t = total.lock().unwrap();
    let out = json!({"cases": t.cases, "seen": t.seen, "failures": t.failures, "samples": t.samples});
    match c.get("out") {
        Some(o) => std::fs::write(o, out.to_string()).unwrap(),
        None => println!("{out:#}"),
    }
    std::process::exit(if t.failures.is_empty() { 0 } else { 1 });
}
