//! Renders the layouts of spec/Layout.tla into a file slice and reads it.
use crate::observer::*;
use crate::pool::Job;
use crate::profile::{LogFmt, Profile};
use crate::rng::{hash, Rng};
use crate::rows::*;
use crate::writer::Writer;
use serde_json::{json, Value as J};
use std::collections::BTreeSet;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

fn time(i: usize) -> i64 {
    2 + 2 * i as i64
}
const P: i64 = 1;

pub fn run(job: Arc<Job>) -> Pin<Box<dyn Future<Output = Result<(), Bad>>>> {
    Box::pin(case(job))
}

async fn case(job: Arc<Job>) -> Result<(), Bad> {
    let c = &job.case;
    let seed = hash(&[job.seed as i64, job.idx as i64]);
    let mut r = Rng::new(seed ^ 0x1a0);
    let app = c["sc"]["app"] == true;
    let files = c["files"].as_array().unwrap();
    let encs: BTreeSet<&str> = files.iter().flat_map(|f| f["blocks"].as_array().unwrap()).map(|b| b["enc"].as_str().unwrap()).collect();
    let mut prof = Profile::new(*r.pick(&["types", "types", "types", "wide,ord", "fat"]), seed, 1, true);
    prof.log_fmt = if encs.contains("avro") { LogFmt::Mixed } else { LogFmt::Parquet };
    let prof = prof.tweak(false, true, &mut r);
    let mut w = Writer::new(prof, job.work.clone(), true, app, 1);
    w.init();

    let recs = |i: usize| -> Vec<ARow> {
        let v = if i == 0 { &c["sc"]["base"] } else { &c["sc"]["writes"][i - 1] };
        v.as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(x, e)| ARow { p: P, k: e[0].as_i64().unwrap(), v: time(i), o: e[1].as_i64().unwrap(), q: 10 + x as i64 })
            .collect()
    };
    let rows = |v: &[ARow]| json!(v.iter().map(|r| json!([r.k, r.v, r.o, r.q])).collect::<Vec<_>>());
    let nw = c["sc"]["writes"].as_array().unwrap().len();
    w.exec(&json!({"ev": "begin", "t": 2, "act": "deltacommit", "op": "insert", "repl": [],
        "items": [{"k": "base", "p": P, "f": 1, "b": 0, "rows": rows(&recs(0)), "nb": false, "roll": false}]}));
    w.exec(&json!({"ev": "inflight", "t": 2}));
    w.exec(&json!({"ev": "witem", "t": 2, "i": 1}));
    w.exec(&json!({"ev": "complete", "t": 2}));
    let base = w.base[&(P, 1, 2)].0.clone();

    // the log files
    let mut names: Vec<String> = Vec::new();
    let mut bytes: Vec<Vec<u8>> = Vec::new();
    for f in files {
        let token = format!("{}-{}-{}", r.below(12), r.below(120), r.below(1200));
        names.push(format!(".{}_{}.log.{}_{}", w.fid(P, 1), w.ts(2), w.prof.log_start - 1 + f["ver"].as_i64().unwrap(), token));
        let mut data = Vec::new();
        for b in f["blocks"].as_array().unwrap() {
            let g = |k: &str| b[k].as_u64().unwrap() as usize;
            let all = recs(g("w"));
            let part = w.expand(&all[g("from") - 1..g("from") - 1 + g("n")]);
            let cols = w.cols_at(time(g("w")));
            let avro = b["enc"] == "avro";
            let content = w.data_content(&part, &cols, &base, avro);
            let header = [(0u32, w.ts(time(g("w")))), (2u32, avro_schema(&cols, "t_record").to_string())];
            data.extend(Writer::block_dressed(g("fmt") as u32, &header, if avro { 3 } else { 5 }, &content, &mut r));
        }
        bytes.push(data);
    }
    // the commits of the writes: one statistic per log file
    for i in 1..=nw {
        let fs: Vec<usize> = (0..files.len()).filter(|f| files[*f]["blocks"].as_array().unwrap().iter().any(|b| b["w"] == i)).collect();
        let items: Vec<J> = fs.iter().map(|_| json!({"k": "log", "p": P, "f": 1, "b": 2, "rows": rows(&recs(i)), "nb": false, "roll": false})).collect();
        w.exec(&json!({"ev": "begin", "t": time(i), "act": "deltacommit", "op": "upsert", "repl": [], "items": items}));
        w.exec(&json!({"ev": "inflight", "t": time(i)}));
        for (x, f) in fs.iter().enumerate() {
            w.logs.insert((P, 1, 2), names[..=*f].to_vec());
            w.exec(&json!({"ev": "witem", "t": time(i), "i": x + 1}));
        }
        w.exec(&json!({"ev": "complete", "t": time(i)}));
    }
    w.logs.insert((P, 1, 2), names.clone());
    for (n, b) in names.iter().zip(&bytes) {
        std::fs::write(w.root.join(w.rel(P, n)), b).unwrap();
    }
    job.ready();

    let env = Env { uri: w.root.to_str().unwrap().to_string(), opts: vec![], handles: Default::default() };
    let t = env.open(None).await?;
    let a = |q: &str, s: i64, e: Option<i64>| Args { q: q.into(), t: e.map(|e| w.ts(e)), s: w.ts(s), e: e.map(|e| w.ts(e)), n: 1, ro: false, filters: vec![] };
    let exp = |v: &J| -> BTreeSet<ARow> {
        let n = |x: &J| x.as_i64().unwrap();
        v.as_array().unwrap().iter().map(|x| ARow { p: P, k: n(&x[0]), v: n(&x[1]), o: n(&x[2]), q: n(&x[3]) }).collect()
    };
    let check = |what: String, rows: Vec<arrow_array::RecordBatch>, e: &J| -> Result<(), Bad> {
        match decode(&w, &rows).and_then(|d| compare_rows(&w, &d, &exp(e))) {
            Err(Bad::Wrong(s)) => wrong(format!("{what}: {s}")),
            x => x,
        }
    };
    for i in 1..=nw {
        for q in ["asof", "slread"] {
            let b = read_rows(&t, &a(q, 0, Some(time(i)))).await?;
            check(format!("{q} up to write {i}"), b, &c["upto"][i - 1])?;
            job.count(q);
        }
        let b = read_rows(&t, &a("incr", time(i - 1), if r.pct(50) { Some(time(nw)) } else { None })).await?;
        check(format!("incremental from write {i} on"), b, &c["since"][i - 1])?;
        job.count("incr");
    }
    let b = read_rows(&t, &a("snap", 0, None)).await?;
    check("snapshot".into(), b, &c["upto"][nw - 1])?;
    job.count("snap");
    Ok(())
}
