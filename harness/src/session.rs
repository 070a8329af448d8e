//! Sessions with builders (spec/Session.tla), in Rust or in Python.
use crate::config::template;
use crate::observer::*;
use crate::pool::Job;
use crate::py;
use crate::rng::{hash, Rng};
use hudi_core::table::builder::TableBuilder;
use serde_json::json;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

pub fn run(job: Arc<Job>) -> Pin<Box<dyn Future<Output = Result<(), Bad>>>> {
    Box::pin(case(job))
}

fn key(k: &str) -> &'static str {
    match k {
        "H" => "hoodie.verif.option",
        "S" => "verif_option",
        k => panic!("key {k}"),
    }
}

async fn case(job: Arc<Job>) -> Result<(), Bad> {
    let mut r = Rng::new(hash(&[job.seed as i64, job.idx as i64, 7]));
    let w = template(job.work.parent().unwrap(), job.seed);
    let props = "hoodie.table.name=t\nhoodie.table.type=MERGE_ON_READ\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.precombine.field=ord\n";
    std::fs::write(w.root.join(".hoodie/hoodie.properties"), props).unwrap();
    let uri = w.root.to_str().unwrap();
    let text = |v: i64| format!("value {v}");
    let own: Vec<(String, String)> = ["H", "S"].iter().map(|k| (key(k).to_string(), text(1))).collect();
    let pys = py::on();
    let mut rust: Vec<TableBuilder> = vec![];
    let mut tables = 0;
    job.ready();
    for c in job.case["calls"].as_array().unwrap() {
        let b = c["b"].as_u64().unwrap() as usize;
        let name = format!("b{b}");
        let kind = match c["kind"].as_str().unwrap() {
            "hudi" => 0,
            "storage" => 1,
            "generic" => 2,
            _ => 9,
        };
        match c["do"].as_str().unwrap() {
            "new" if pys => py::builder_new(&name, uri, if kind == 9 { None } else { Some((kind, &own)) }, &mut r).await?,
            "new" => rust.push(TableBuilder::from_base_uri(uri)),
            "with" => {
                let opts = match c["k"].as_str().unwrap() {
                    "own" => own.clone(),
                    k => vec![(key(k).to_string(), text(c["v"].as_i64().unwrap()))],
                };
                if pys {
                    if c["k"] == "own" {
                        py::builder_own(&name, kind, &own).await?;
                    } else {
                        let calls: Vec<_> = opts.into_iter().map(|(k, v)| (kind as u8, k, v)).collect();
                        py::builder_calls(&name, &calls, &mut r).await?;
                    }
                    continue;
                }
                let t = rust[b - 1].clone();
                let (k, v) = opts[0].clone();
                rust[b - 1] = match (kind, opts.len() == 1 && r.pct(50)) {
                    (0, true) => t.with_hudi_option(k, v),
                    (0, _) => t.with_hudi_options(opts),
                    (1, true) => t.with_storage_option(k, v),
                    (1, _) => t.with_storage_options(opts),
                    (_, true) => t.with_option(k, v),
                    _ => t.with_options(opts),
                };
            }
            _ => {
                let (h, s) = if pys {
                    py::builder_build(&name).await?
                } else {
                    let t = rust[b - 1].build().await?;
                    (t.hudi_options().into_iter().collect(), t.storage_options().into_iter().collect())
                };
                let want = &job.case["built"][tables];
                tables += 1;
                for (what, have) in [("hudi", h), ("storage", s)] {
                    let have: BTreeMap<String, String> = have;
                    for k in ["H", "S"] {
                        let w = match want[what][k].as_i64().unwrap() {
                            0 => None,
                            v => Some(text(v)),
                        };
                        if have.get(key(k)) != w.as_ref() {
                            return wrong(format!("table {tables}: {what} option {} is {:?}, not {w:?}", key(k), have.get(key(k))));
                        }
                    }
                }
                job.count("tables");
            }
        }
    }
    if pys {
        let o = py::own().await?;
        if !o.is_null() && o != json!({"dict": own.iter().cloned().collect::<BTreeMap<_, _>>()}) {
            return wrong(format!("the caller's dictionary has become {o}"));
        }
        py::forget("own").await?;
    }
    Ok(())
}
