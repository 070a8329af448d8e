//! Runs the scenarios of spec/Config.tla: options from every source, a table
//! opened with them, what it reports and reads.  The environment is changed,
//! so one thread per process only.
use crate::observer::*;
use crate::pool::Job;
use crate::py;
use crate::profile::{LogFmt, Profile};
use crate::rng::{hash, Rng};
use crate::rows::*;
use crate::s3::S3;
use crate::writer::Writer;
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

const P: i64 = 1;
fn base_rows() -> Vec<ARow> {
    vec![ARow { p: P, k: 1, v: 2, o: 3, q: 1 }, ARow { p: P, k: 2, v: 2, o: 1, q: 2 }]
}
fn log_rows() -> Vec<ARow> {
    vec![ARow { p: P, k: 1, v: 4, o: 1, q: 1 }, ARow { p: P, k: 3, v: 4, o: 2, q: 2 }]
}
fn expected(class: &str) -> BTreeSet<ARow> {
    let (b, l) = (base_rows(), log_rows());
    match class {
        "base" => b.into_iter().collect(),
        "all" => b.into_iter().chain(l).collect(),
        "ord" => b.into_iter().chain([l[1].clone()]).collect(),
        "time" => [b[1].clone()].into_iter().chain(l).collect(),
        c => panic!("class {c}"),
    }
}

/// The table all scenarios of this process change the properties of.
pub fn template(dir: &std::path::Path, seed: u64) -> Arc<Writer> {
    static T: Mutex<Option<(u64, Arc<Writer>)>> = Mutex::new(None);
    let mut t = T.lock().unwrap();
    if let Some((_, w)) = t.as_ref() {
        return w.clone();
    }
    let mut r = Rng::new(seed);
    let mut prof = Profile::new("", seed, 0, true);
    prof.log_fmt = *r.pick(&[LogFmt::Avro, LogFmt::Parquet]);
    prof.local_tz = false;
    let prof = prof.tweak(false, true, &mut r);
    let root = dir.join(format!("tpl{seed}"));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let mut w = Writer::new(prof, root, true, false, 0);
    w.init();
    let js = |v: &[ARow]| json!(v.iter().map(|r| json!([r.k, r.v, r.o, r.q])).collect::<Vec<_>>());
    for (t, act, kind, rows) in [(2, "deltacommit", "base", base_rows()), (4, "deltacommit", "log", log_rows())] {
        w.exec(&json!({"ev": "begin", "t": t, "act": act, "op": if kind == "base" { "insert" } else { "upsert" }, "repl": [],
            "items": [{"k": kind, "p": P, "f": 1, "b": if kind == "base" { 0 } else { 2 }, "rows": js(&rows), "nb": false, "roll": false}]}));
        w.exec(&json!({"ev": "inflight", "t": t}));
        w.exec(&json!({"ev": "witem", "t": t, "i": 1}));
        w.exec(&json!({"ev": "complete", "t": t}));
    }
    let w = Arc::new(w);
    *t = Some((seed, w.clone()));
    w
}

fn key(o: &str) -> &'static str {
    match o {
        "name" => "hoodie.table.name",
        "type" => "hoodie.table.type",
        "version" => "hoodie.table.version",
        "layout" => "hoodie.timeline.layout.version",
        "format" => "hoodie.table.base.file.format",
        "drop" => "hoodie.datasource.write.drop.partition.columns",
        "populates" => "hoodie.populate.meta.fields",
        "hive" => "hoodie.datasource.write.hive_style_partitioning",
        "urlenc" => "hoodie.datasource.write.partitionpath.urlencode",
        "ro" => "hoodie.read.use.read_optimized.mode",
        "skip" => "hoodie.internal.skip.config.validation",
        "strategy" => "hoodie.table.record.merge.strategy",
        "precombine" => "hoodie.table.precombine.field",
        "tz" => "hoodie.table.timeline.timezone",
        "checksum" => "hoodie.table.checksum",
        "input" => "hoodie.read.input.partitions",
        "listing" => "hoodie.read.listing.parallelism",
        "db" => "hoodie.database.name",
        "opaque" => "hoodie.some.other-option",
        o => panic!("option {o}"),
    }
}
/// A concrete value of an abstract one; the same for the same source.
fn value(src: &str, o: &str, v: &str, seed: u64) -> String {
    let r = &mut Rng::new(hash(&[seed as i64, src.len() as i64 * 31 + src.as_bytes()[0] as i64, o.len() as i64, v.as_bytes()[0] as i64]));
    let p = |r: &mut Rng, a: &[&'static str]| r.pick(a).to_string();
    match (o, v) {
        ("name", _) => format!("{}{src}", p(r, &["t_", "t_", "t#", "t #", "t!", "té:"])),
        ("db", _) => format!("db {src}"),
        ("opaque", v) => {
            let (a, b) = *r.pick(&[("", ""), ("#", ""), ("", " # not a comment"), ("", "#"), ("!", ";"), ("\"", "'"), ("https://h:1/x?a=b&", "%20"), ("${a.b} ", ","), ("日本 ", "é")]);
            format!("{src}{a} {v}={v}{b}")
        }
        ("type", "cow") => "COPY_ON_WRITE".into(),
        ("type", "mor") => "MERGE_ON_READ".into(),
        ("type", "alias") => p(r, &["cow", "MOR", "merge-on-read", "Copy_On_Write"]),
        ("type", _) => p(r, &["MERGE", "", "COPYONWRITE", "cow mor", "MERGE_ON_READ,"]),
        ("version", "bad") => p(r, &["six", "", "6.0", "0x6", "6 5", "99999999999999999999"]),
        ("layout", "bad") => p(r, &["one", "", "1.0", "VERSION_1"]),
        ("version", "4") => p(r, &["4", "4", "1", "0", "-1", "-5", "-250", "-251", "-65530", "-4294967290", "-9223372036854775808"]),
        ("layout", "0") => p(r, &["0", "-1", "-255", "-65535", "-4294967295"]),
        ("input" | "listing", "neg") => p(r, &["-1", "-3"]),
        // numbers beyond the supported ones, whatever width they are looked at in
        ("version", "7") => p(r, &["7", "8", "9", "261", "262", "65541", "65542", "4294967301", "4294967302"]),
        ("layout", "2") => p(r, &["2", "257", "65537", "4294967297"]),
        ("version" | "layout", v) => v.into(),
        ("input" | "listing", "bad") => p(r, &["many", "", "1e3", "18446744073709551616"]),
        ("input" | "listing", v) => v.into(),
        ("format", "parquet") => "PARQUET".into(),
        ("format", "alias") => p(r, &["parquet", "Parquet"]),
        ("format", _) => p(r, &["ORC", "HFILE", "", "lance"]),
        ("drop" | "populates" | "hive" | "urlenc" | "ro" | "skip", "bad") => p(r, &["yes", "1", "", "tru", "truefalse"]),
        ("drop" | "populates" | "hive" | "urlenc" | "ro" | "skip", v) => v.into(),
        ("strategy", "ow") => "OVERWRITE_WITH_LATEST".into(),
        ("strategy", "ap") => p(r, &["APPEND_ONLY", "append_only"]),
        ("strategy", "alias") => p(r, &["overwrite_with_latest", "Overwrite_With_Latest"]),
        ("strategy", _) => p(r, &["EVENT_TIME_ORDERING", "", "OVERWRITE", "CUSTOM"]),
        ("precombine", "ord") => "ord".into(),
        ("precombine", _) => "_hoodie_commit_time".into(),
        ("tz", "utc") => "UTC".into(),
        ("tz", "local") => "LOCAL".into(),
        ("tz", "alias") => p(r, &["utc", "local", "Local"]),
        ("tz", _) => p(r, &["Europe/Paris", "", "+01:00", "GMT"]),
        ("checksum", "7") => "3281746120".into(),
        ("checksum", _) => p(r, &["0xff", "", "crc", "12 "]).replace("12 ", "1 2"),
        (o, v) => panic!("value {o} {v}"),
    }
}

pub fn run(job: Arc<Job>) -> Pin<Box<dyn Future<Output = Result<(), Bad>>>> {
    Box::pin(case(job))
}

const CLOUD: [&str; 6] = ["AWS_REGION", "AWS_ENDPOINT", "AZURE_STORAGE_ACCOUNT_NAME", "GOOGLE_BUCKET", "AWS_VIRTUAL_HOSTED_STYLE_REQUEST", "AZURE_"];

async fn case(job: Arc<Job>) -> Result<(), Bad> {
    let c = &job.case;
    let seed = hash(&[job.seed as i64, job.idx as i64]);
    let mut r = Rng::new(seed ^ 0xc0f);
    let top = job.work.parent().unwrap().to_path_buf();
    let w = template(&top, job.seed);
    let s = |v: &J| v.as_str().unwrap().to_string();
    let calls: Vec<[String; 3]> = c["calls"].as_array().unwrap().iter().map(|d| [s(&d[0]), s(&d[1]), s(&d[2])]).collect();
    let dev: Vec<[String; 3]> = c["dev"].as_array().unwrap().iter().map(|d| [s(&d[0]), s(&d[1]), s(&d[2])]).collect();
    let eff = |o: &str| (s(&c["eff"][o][0]), s(&c["eff"][o][1]));
    let of = |src: &str| -> Vec<(String, String)> {
        dev.iter().filter(|d| d[0] == src && d[1] != "store").map(|d| (key(&d[1]).to_string(), value(src, &d[1], &d[2], seed))).collect()
    };

    // the table's properties
    let mut known: BTreeSet<String> = c["eff"].as_object().unwrap().keys().filter(|o| *o != "store").map(|o| key(o).to_string()).collect();
    known.insert("hoodie.base.path".into());
    let mut props: Vec<(String, String)> = Vec::new();
    for (o, v) in c["props"].as_object().unwrap() {
        if v != "none" {
            props.push((key(o).into(), value("props", o, v.as_str().unwrap(), seed)));
        }
    }
    for (k, v) in [("hoodie.table.recordkey.fields", "id"), ("hoodie.archivelog.folder", "archived"), ("hoodie.table.create.schema", "{\"a\"=1}")] {
        if r.pct(50) {
            props.push((k.into(), v.into()));
            known.insert(k.into());
        }
    }
    r.shuffle(&mut props);
    let mut text = String::from("#Updated at 2025-01-21T00:05:39Z\n#Tue Jan 21 00:05:39 UTC 2025\n");
    let (eol, sep) = (*r.pick(&["\n", "\n", "\r\n"]), *r.pick(&["=", "=", " = "]));
    for (k, v) in &props {
        text.push_str(&format!("{k}{sep}{v}{eol}"));
        if r.pct(10) {
            text.push_str(*r.pick(&["\n", "# hoodie.table.version=9\n", "   \n"]));
        }
    }
    std::fs::write(w.root.join(".hoodie/hoodie.properties"), text).unwrap();

    // the global defaults
    let conf = job.work.join("conf");
    let mut global = of("global");
    if !global.is_empty() || r.pct(20) {
        std::fs::create_dir_all(&conf).unwrap();
        let mut text = String::from("# Default system properties.\n\n");
        if r.pct(50) {
            global.push(("spark.some.option".into(), "x".into()));
        }
        for (k, v) in &global {
            text.push_str(&format!("{k}{}{v}\n", r.pick(&["=", " ", "    ", "\t", " = ", "= "])));
        }
        std::fs::write(conf.join("hudi-defaults.conf"), text).unwrap();
    }
    std::env::set_var("HUDI_CONF_DIR", &conf);

    // storage options
    let (esrc, _) = eff("store");
    let s3 = esrc != "none" && r.pct(20);
    let skey = if s3 { "AWS_ENDPOINT" } else { r.pick(&CLOUD) };
    let (right, other) = if s3 {
        let nothing = job.work.join("nothing");
        std::fs::create_dir_all(&nothing).unwrap();
        (Some(S3::start(&top, 1000, false).await), Some(S3::start(&nothing, 1000, false).await))
    } else {
        (None, None)
    };
    let sval = |src: &str| match (&right, &other) {
        (Some(r), Some(o)) => format!("http://127.0.0.1:{}", if src == esrc { r.port } else { o.port }),
        _ => format!("Value of {src}"),
    };
    let spell = |f: &str| match f {
        "L" => skey.to_lowercase(),

        _ => skey.to_string(),
    };
    std::env::remove_var("VERIF_ODD");
    for (k, _) in std::env::vars_os() {
        let k = k.to_string_lossy().to_string();
        if ["AWS_", "AZURE_", "GOOGLE_", "XAWS_", "aws_"].iter().any(|p| k.starts_with(p)) {
            std::env::remove_var(k);
        }
    }
    if dev.iter().any(|d| d[0] == "env") {
        std::env::set_var(skey, sval("env"));
    }
    if r.pct(10) {
        std::env::set_var("XAWS_REGION", "x");
        std::env::set_var("HOODIE_TABLE_VERSION", "9");
    }
    let odd = r.pct(5);
    if odd {
        use std::os::unix::ffi::OsStringExt;
        std::env::set_var("VERIF_ODD", std::ffi::OsString::from_vec(vec![b'a', 0xff]));
    }

    // the builder calls
    let mut other_opts: BTreeMap<String, String> = BTreeMap::new();
    let uri = if s3 { format!("s3://b/{}", w.root.file_name().unwrap().to_str().unwrap()) } else { w.root.to_str().unwrap().to_string() };
    let mut concrete: Vec<(u8, String, String)> = Vec::new(); // 0 hudi, 1 storage, 2 generic
    for d in &calls {
        let (k, v) = if d[1] == "store" { (spell(&d[2]), sval(&d[0])) } else { (key(&d[1]).to_string(), value(&d[0], &d[1], &d[2], seed)) };
        concrete.push((if d[0] == "generic" { 2 } else if d[1] == "store" { 1 } else { 0 }, k, v));
    }
    if s3 {
        for (k, v) in right.as_ref().unwrap().options() {
            if k != "aws_endpoint" {
                other_opts.insert(k.clone(), v.clone());
                concrete.insert(r.below(1 + concrete.len()), (1 + r.below(2) as u8, k, v));
            }
        }
    }
    for (k, v) in [("Some.Other", "x=y"), ("aws_s3_allow_unsafe_rename", "TRUE"), ("xhoodie.table.version", "9"), ("hoodie", "8")] {
        if r.pct(15) {
            other_opts.insert(k.into(), v.into());
            concrete.insert(r.below(1 + concrete.len()), (1 + r.below(2) as u8, k.into(), v.into()));
        }
    }
    let open = async {
        if concrete.iter().all(|x| x.0 == 2) && r.pct(50) {
            let o: Vec<(String, String)> = concrete.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
            return if o.is_empty() && r.pct(50) { Table::new(&uri).await } else { Table::new_with_options(&uri, o).await };
        }
        let mut b = TableBuilder::from_base_uri(&uri);
        let mut i = 0;
        while i < concrete.len() {
            let kind = concrete[i].0;
            let mut j = i + 1;
            while j < concrete.len() && concrete[j].0 == kind && r.pct(50) {
                j += 1;
            }
            let one = j == i + 1 && r.pct(60);
            let (k, v) = (concrete[i].1.clone(), concrete[i].2.clone());
            let many: Vec<(String, String)> = concrete[i..j].iter().map(|x| (x.1.clone(), x.2.clone())).collect();
            b = match (kind, one) {
                (0, true) => b.with_hudi_option(k, v),
                (0, _) => b.with_hudi_options(many),
                (1, true) => b.with_storage_option(k, v),
                (1, _) => b.with_storage_options(many),
                (_, true) => b.with_option(k, v),
                _ => b.with_options(many),
            };
            i = j;
        }
        b.build().await
    };
    job.ready();
    let res = open.await;
    if odd {
        std::env::remove_var("VERIF_ODD");
    }
    if py::on() {
        if odd {
            return Ok(());
        }
        // the same through Python
        let cloud = |k: &str| ["AWS_", "AZURE_", "GOOGLE_", "XAWS_", "HOODIE_", "HUDI_"].iter().any(|p| k.starts_with(p));
        let set: Vec<(String, String)> = std::env::vars_os().filter_map(|(k, v)| Some((k.into_string().ok()?, v.into_string().ok()?))).filter(|x| cloud(&x.0)).collect();
        let unset: Vec<String> = CLOUD.iter().chain(&["XAWS_REGION", "HOODIE_TABLE_VERSION"]).map(|k| k.to_string()).collect();
        py::environment(&set, &unset).await?;
        let res = res.map_err(Bad::from);
        py::open(&uri, &concrete, &res, c["accept"] == true, "t", &mut r).await?;
        let a = |q: &str| Args { q: q.into(), t: None, s: String::new(), e: None, n: 1, ro: false, filters: vec![] };
        if let (Ok(t), true) = (&res, c["accept"] == true) {
            py::observe(&w, t, "t", &json!({}), &a(*r.pick(&["snap", "slread"])), false, &mut r).await?;
        }
        job.count(if res.is_ok() { "opened" } else { "refused" });
        return Ok(());
    }
    let (accept, skip) = (c["accept"] == true, c["skip"] == true);
    let t = match res {
        Ok(t) => t,
        Err(_) if !accept => {
            job.count("refused");
            return Ok(());
        }
        Err(e) => return wrong(format!("not opened: {e}")),
    };
    if !accept && !skip {
        return wrong("opened");
    }

    // what it reports
    let have = t.hudi_options();
    for o in c["eff"].as_object().unwrap().keys().filter(|o| *o != "store") {
        let (src, v) = eff(o);
        let want = if v == "none" { None } else { Some(value(&src, o, &v, seed)) };
        if have.get(key(o)) != want.as_ref() {
            return wrong(format!("option {} is {:?}, not {want:?} (of {src})", key(o), have.get(key(o))));
        }
    }
    for (k, v) in &props {
        if have.get(k) != Some(v) {
            return wrong(format!("property {k} is {:?}, not {v:?}", have.get(k)));
        }
    }
    if let Some(k) = have.keys().find(|k| !known.contains(*k)) {
        return wrong(format!("hudi option {k} out of nowhere"));
    }
    let mut got: HashMap<String, String> = t.storage_options();
    for (k, v) in &other_opts {
        if got.remove(k).as_ref() != Some(v) {
            return wrong(format!("storage option {k} is not {v:?}: {:?}", t.storage_options()));
        }
    }
    let mine: Vec<String> = got.keys().filter(|k| k.eq_ignore_ascii_case(skey)).cloned().collect();
    let vals: BTreeSet<String> = mine.iter().map(|k| got.remove(k).unwrap()).collect();
    let want: BTreeSet<String> = if esrc == "none" { BTreeSet::new() } else { BTreeSet::from([sval(&esrc)]) };
    if vals != want {
        return wrong(format!("storage option {skey} (in any case) is {vals:?}, not {want:?}: {:?}", t.storage_options()));
    }
    if !got.is_empty() {
        return wrong(format!("storage options out of nowhere: {got:?}"));
    }
    job.count("options");
    if !accept {
        job.count("unvalidated");
        return Ok(());
    }
    let kind = match eff("type").1.as_str() {
        "cow" => "COPY_ON_WRITE".to_string(),
        "mor" => "MERGE_ON_READ".to_string(),
        _ => match value(&eff("type").0, "type", "alias", seed).to_lowercase().as_bytes()[0] {
            b'c' => "COPY_ON_WRITE".into(),
            _ => "MERGE_ON_READ".into(),
        },
    };
    if t.table_type() != kind || t.is_mor() != (kind == "MERGE_ON_READ") || t.table_name() != value(&eff("name").0, "name", "t", seed) {
        return wrong(format!("type {} name {}", t.table_type(), t.table_name()));
    }
    let tz = match eff("tz") {
        (_, v) if v == "none" => "utc".to_string(),
        (src, v) => value(&src, "tz", &v, seed).to_lowercase(),
    };
    if t.timezone() != tz {
        return wrong(format!("time zone {}, not {tz}", t.timezone()));
    }

    // what it reads
    let a = |q: &str| Args { q: q.into(), t: None, s: String::new(), e: None, n: 1, ro: false, filters: vec![] };
    let b = read_rows(&t, &a("snap")).await?;
    let d = decode(&w, &b)?;
    compare_rows(&w, &d, &expected(c["rows"].as_str().unwrap()))?;
    job.count(c["rows"].as_str().unwrap());
    let rrows = c["rrows"].as_str().unwrap();
    if rrows != "any" {
        let sl = list(&t, &a("slread")).await?;
        let b = read_slices(&t, &sl, of("reader")).await?;
        let d = decode(&w, &b)?;
        if let Err(Bad::Wrong(e)) = compare_rows(&w, &d, &expected(rrows)) {
            return wrong(format!("by slices: {e}"));
        }
        job.count(if of("reader").is_empty() { "slices" } else { "slices with options" });
    }
    Ok(())
}
