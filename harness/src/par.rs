//! Several calls on one table handle at a time: their storage operations are
//! held at the S3 server and released in the order a schedule gives, or they
//! run free on several threads; writer steps happen in between.
use crate::observer::*;
use crate::rng::Rng;
use crate::s3::*;
use crate::writer::Writer;
use arrow_array::RecordBatch;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::table::Table;
use serde_json::Value as J;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;
use std::time::{Duration, Instant};

pub enum Raw {
    Rows(Vec<RecordBatch>),
    Slices(Vec<FileSlice>),
    Splits(Vec<Vec<FileSlice>>),
}

async fn call(t: Table, a: Arc<Args>) -> Result<Raw, Bad> {
    Ok(match a.q.as_str() {
        "slices" => Raw::Slices(list(&t, &a).await?),
        "splits" => Raw::Splits(splits(&t, &a).await?),
        "ibetween" => Raw::Slices(t.get_file_slices_between(Some(&a.s), a.e.as_deref()).await?),
        _ => Raw::Rows(read_rows(&t, &a).await?),
    })
}

fn judge(w: &Writer, e: &J, a: &Args, r: Raw) -> Result<usize, Bad> {
    match r {
        Raw::Rows(b) => {
            let rows = decode(w, &b)?;
            compare_rows(w, &rows, &exp_rows(e))?;
            Ok(rows.len())
        }
        Raw::Slices(s) => {
            let keys = s.iter().map(|s| slice_key(w, s, false, a.q == "slices")).collect::<Result<Vec<_>, _>>()?;
            compare_slices(&keys, &exp_slices(e))?;
            Ok(keys.len())
        }
        Raw::Splits(p) => judge_splits(w, e, a, &p, false),
    }
}

pub struct ParStats {
    pub calls: usize,
    pub rows: usize,
    pub releases: usize,
    pub max_held: usize,
    pub faulted: usize,
    pub cancelled: usize,
}

type Done = Result<Result<Raw, Bad>, tokio::task::JoinError>;

/// `during`: writer events that happen while the calls run.
pub async fn run(w: &mut Writer, t: &Table, e: &J, s3: Option<&S3>, rng: &mut Rng, during: &[J]) -> Result<ParStats, Bad> {
    let calls: Vec<(J, Arc<Args>)> = e["calls"].as_array().unwrap().iter().map(|c| (c.clone(), Arc::new(args(w, c, rng)))).collect();
    let sched: Vec<usize> = e["sched"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let (fault, cancel) = (e["fault"].as_i64().unwrap(), e["cancel"].as_i64().unwrap());
    let mut st = ParStats { calls: calls.len(), rows: 0, releases: 0, max_held: 0, faulted: 0, cancelled: 0 };
    let done: Vec<Done> = match s3 {
        Some(s) => {
            let style = rng.below(4);
            let local = tokio::task::LocalSet::new();
            local.run_until(gated(w, t, &calls, s, &sched, style, fault, cancel, during, &mut st)).await?
        }
        None => {
            let (t2, cs) = (t.clone(), calls.iter().map(|c| c.1.clone()).collect::<Vec<_>>());
            let threads = 1 + rng.below(3);
            let drop_at = if cancel >= 0 { Some(rng.below(2000) as u64) } else { None };
            if drop_at.is_some() {
                st.cancelled = 1;
            }
            let (tx, rx) = tokio::sync::oneshot::channel();
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap();
                let r: Vec<Done> = rt.block_on(async move {
                    let hs: Vec<_> = cs.into_iter().map(|a| tokio::spawn(call(t2.clone(), a))).collect();
                    if let Some(us) = drop_at {
                        tokio::time::sleep(Duration::from_micros(us)).await;
                        hs[0].abort();
                    }
                    let mut v = Vec::new();
                    for h in hs {
                        v.push(h.await);
                    }
                    v
                });
                let _ = tx.send(r);
            });
            for ev in during {
                tokio::time::sleep(Duration::from_micros(rng.below(500) as u64)).await;
                w.exec(ev);
            }
            rx.await.map_err(|_| Bad::Wrong("calls panicked".into()))?
        }
    };
    let mut errs = 0;
    for (i, ((c, a), d)) in calls.iter().zip(done).enumerate() {
        let note = |b: Bad| match b {
            Bad::Err(x) => Bad::Err(format!("call {i} ({}): {x}", a.q)),
            Bad::Wrong(x) => Bad::Wrong(format!("call {i} ({}): {x}", a.q)),
        };
        match d {
            Err(j) if j.is_cancelled() && i == 0 && cancel >= 0 => {}
            Err(j) => return Err(Bad::Wrong(format!("call {i} ({}) panicked: {j}", a.q))),
            Ok(Err(b @ Bad::Err(_))) => {
                if c["errok"] == true {
                    continue;
                }
                errs += 1;
                if errs > st.faulted {
                    return Err(note(b));
                }
            }
            Ok(Err(b)) => return Err(note(b)),
            Ok(Ok(r)) => st.rows += judge(w, c, a, r).map_err(note)?,
        }
    }
    Ok(st)
}

#[allow(clippy::too_many_arguments)]
async fn gated(
    w: &mut Writer, t: &Table, calls: &[(J, Arc<Args>)], s: &S3, sched: &[usize], style: usize, fault: i64, cancel: i64, during: &[J], st: &mut ParStats,
) -> Result<Vec<Done>, Bad> {
    *s.ctl.gate.lock().unwrap() = Some(vec![]);
    let hs: Vec<_> = calls.iter().map(|(_, a)| tokio::task::spawn_local(call(t.clone(), a.clone()))).collect();
    let mut ev = during.iter();
    let mut last = Instant::now();
    let limit = Duration::from_secs(20);
    let mut stuck = false;
    loop {
        // wait until no call makes progress any more
        let mut calm = 0;
        let mut seen = s.ctl.arrivals.load(SeqCst);
        while calm < 2 {
            tokio::time::sleep(Duration::from_micros(150)).await;
            let now = s.ctl.arrivals.load(SeqCst);
            calm = if now == seen { calm + 1 } else { 0 };
            seen = now;
        }
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let n = st.releases;
        let one = {
            let mut g = s.ctl.gate.lock().unwrap();
            let v = g.as_mut().unwrap();
            v.retain(|h| !h.go.is_closed());
            st.max_held = st.max_held.max(v.len());
            if v.is_empty() {
                None
            } else {
                let x = sched[n % sched.len()];
                let i = match style {
                    0 => 0,
                    1 => v.len() - 1,
                    _ => x % v.len(),
                };
                Some(v.remove(i))
            }
        };
        let Some(h) = one else {
            if last.elapsed() > limit {
                stuck = true;
                break;
            }
            continue;
        };
        last = Instant::now();
        st.releases += 1;
        if st.releases as i64 == fault {
            s.ctl.plan.lock().unwrap().faults.insert(h.key.clone(), Fault::ForbiddenOnce);
            st.faulted = 1;
        }
        let _ = h.go.send(());
        if st.releases as i64 == cancel {
            hs[0].abort();
            st.cancelled = 1;
        }
        if sched[n % sched.len()] % 2 == 1 {
            if let Some(e) = ev.next() {
                w.exec(e);
            }
        }
    }
    // let everything go
    if let Some(v) = s.ctl.gate.lock().unwrap().take() {
        for h in v {
            let _ = h.go.send(());
        }
    }
    for e in ev {
        w.exec(e);
    }
    if stuck {
        return Err(Bad::Wrong(format!("calls did not finish: no storage operation is outstanding for {limit:?}")));
    }
    let mut out = Vec::new();
    for h in hs {
        out.push(h.await);
    }
    s.ctl.plan.lock().unwrap().faults.clear();
    Ok(out)
}
