//! Runs the cases of spec/Args.tla (strings given to public calls) and
//! spec/Names.tla (stray files).
use crate::observer::*;
use crate::pool::Job;
use crate::profile::{LogFmt, Profile, TsStyle};
use crate::rng::{hash, Rng};
use crate::rows::*;
use crate::writer::Writer;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::{Arc, Mutex};

const P: i64 = 1;
const VARIANTS: u64 = 12;

fn write(w: &mut Writer, t: i64, items: J, op: &str, complete: bool) {
    let act = if w.mor { "deltacommit" } else { "commit" };
    let n = items.as_array().unwrap().len();
    w.exec(&json!({"ev": "begin", "t": t, "act": act, "op": op, "repl": [], "items": items}));
    w.exec(&json!({"ev": "inflight", "t": t}));
    for i in 1..=n {
        w.exec(&json!({"ev": "witem", "t": t, "i": i}));
    }
    if complete {
        w.exec(&json!({"ev": "complete", "t": t}));
    }
}
fn item(k: &str, p: i64, f: i64, b: i64, rows: J, roll: bool) -> J {
    json!({"k": k, "p": p, "f": f, "b": b, "rows": rows, "nb": false, "roll": roll})
}

/// Tables shared by the cases of this process.
fn table(top: &Path, seed: u64, kind: &str, variant: u64) -> Arc<Writer> {
    static T: Mutex<BTreeMap<(String, u64), Arc<Writer>>> = Mutex::new(BTreeMap::new());
    let mut tables = T.lock().unwrap();
    if let Some(w) = tables.get(&(kind.to_string(), variant)) {
        return w.clone();
    }
    let s = hash(&[seed as i64, variant as i64, kind.len() as i64, kind.as_bytes()[0] as i64]);
    let mut r = Rng::new(s);
    let filter = Kind::of(kind);
    let dims = if filter.is_some() { 1 } else { r.below(2) as i64 };
    let mor = filter.is_none();
    let mut prof = Profile::new("", s, dims as usize, mor);
    prof.log_fmt = *r.pick(&[LogFmt::Avro, LogFmt::Parquet]);
    prof.copies = 1;
    if kind == "time" {
        prof.ts = *r.pick(&[TsStyle::Sec, TsStyle::SecAligned, TsStyle::Mixed]);
        prof.ts_base -= prof.ts_base.rem_euclid(1000);
    }
    if let Some(k) = filter {
        prof.part_kinds = vec![k];
    }
    prof.local_tz = false;
    let prof = prof.tweak(false, mor, &mut r);
    let root = top.join(format!("tpl-{kind}-{variant}"));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let mut w = Writer::new(prof, root, mor, false, dims);
    w.init();
    if filter.is_some() {
        let items: Vec<J> = (1..=3).map(|p| item("base", p, p, 0, json!([[p, 2, 1, p]]), false)).collect();
        write(&mut w, 2, json!(items), "insert", true);
    } else {
        write(&mut w, 2, json!([item("base", P, 1, 0, json!([[1, 2, 1, 1], [2, 2, 1, 2]]), false)]), "insert", true);
        let x = json!([item("base", P, 2, 0, json!([[5, 4, 1, 1]]), false), item("log", P, 1, 2, json!([[2, 4, 3, 2]]), false)]);
        write(&mut w, 4, x, "upsert", false);
        write(&mut w, 6, json!([item("log", P, 1, 2, json!([[1, 6, 2, 1]]), r.pct(50))]), "upsert", true);
    }
    let w = Arc::new(w);
    tables.insert((kind.to_string(), variant), w.clone());
    w
}

impl Kind {
    fn of(s: &str) -> Option<Kind> {
        Some(match s {
            "Int" => Kind::Int,
            "Long" => Kind::Long,
            "Date" => Kind::Date,
            "Str" => Kind::Str,
            _ => return None,
        })
    }
}

/// The row of a key as written at an instant.
fn row(k: i64, v: i64) -> ARow {
    let o = match (k, v) {
        (2, 4) => 3,
        (_, 6) => 2,
        _ => 1,
    };
    ARow { p: P, k, v, o, q: if k == 2 { 2 } else { 1 } }
}

pub fn run(job: Arc<Job>) -> Pin<Box<dyn Future<Output = Result<(), Bad>>>> {
    Box::pin(async move {
        match job.case["kind"].as_str().unwrap() {
            "file" => file(&job).await,
            "time" => time(&job).await,
            "filter" => filter(&job).await,
            "place" => place(&job).await,
            "reader" => reader(&job).await,
            k => panic!("kind {k}"),
        }
    })
}

fn setup(job: &Job, kind: &str) -> (Arc<Writer>, Rng) {
    let mut r = Rng::new(hash(&[job.seed as i64, job.idx as i64, 0xa46]));
    let variant = r.next() % VARIANTS;
    (table(job.work.parent().unwrap(), job.seed, kind, variant), r)
}
async fn open(w: &Writer) -> Result<Table, Bad> {
    Ok(Table::new(w.root.to_str().unwrap()).await?)
}
fn plain(q: &str) -> Args {
    Args { q: q.into(), t: None, s: String::new(), e: None, n: 1, ro: false, filters: vec![] }
}
fn judge(w: &Writer, what: &str, b: &[arrow_array::RecordBatch], exp: &BTreeSet<ARow>) -> Result<(), Bad> {
    match decode(w, b).and_then(|d| compare_rows(w, &d, exp)) {
        Err(Bad::Wrong(s)) => wrong(format!("{what}: {s}")),
        x => x,
    }
}

// ---------------------------------------------------------------- timestamps
fn stamp(w: &Writer, x: &J, r: &mut Rng) -> String {
    let n = x["n"].as_u64().unwrap() as usize;
    let t = w.ts(x["t"].as_i64().unwrap());
    let mut s: Vec<char> = format!("{}000", &t[..14]).chars().collect();
    while s.len() < n {
        s.push(*r.pick(&['0', '0', '7']));
    }
    s.truncate(n);
    let mut put = |at: usize, v: &str| s.splice(at..at + 2, v.chars()).for_each(drop);
    match x["field"].as_str().unwrap() {
        "ok" => {}
        "month" => put(4, *r.pick(&["00", "13", "99"])),
        "day" => put(6, *r.pick(&["00", "32", "99"])),
        "leap" => {
            put(4, "02");
            put(2, "23");
            put(6, *r.pick(&["29", "30", "31"]));
        }
        "hour" => put(8, *r.pick(&["24", "25", "99"])),
        "minute" => put(10, *r.pick(&["60", "99"])),
        // (60 is a leap second)
        "second" => put(12, *r.pick(&["61", "99"])),
        f => panic!("field {f}"),
    }
    let at = match x["at"].as_str().unwrap() {
        "start" => 0,
        "within" => n.min(7),
        "border" => n.min(13),
        _ => n,
    };
    let f: Vec<char> = x["f"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| match f.as_str().unwrap() {
            "a" => *r.pick(&['-', '+', ' ', 'T', 'z', '.', ':', '/', '\0', '\n', '%', 'a', '_']),
            "u" => *r.pick(&['٢', '۳', '߁', '²', '¹']),
            _ => *r.pick(&['２', '०', '１', '๓', '９']),
        })
        .collect();
    s.splice(at..at, f);
    s.into_iter().collect()
}

async fn ask(t: &Table, call: &str, a: &str, b: &str, n: usize) -> Result<Vec<arrow_array::RecordBatch>, Bad> {
    let none = Vec::<(&str, String)>::new;
    let no: [(&str, &str, &str); 0] = [];
    Ok(match call {
        "asof" => t.read_snapshot_as_of(a, &no).await?,
        "slices" => {
            let s = t.get_file_slices_as_of(a, &no).await?;
            read_slices(t, &s, if s.is_empty() { none() } else { vec![(END_TS, a.to_string())] }).await?
        }
        "splits" => {
            let s: Vec<_> = t.get_file_slices_splits_as_of(n, a, &no).await?.into_iter().flatten().collect();
            read_slices(t, &s, if s.is_empty() { none() } else { vec![(END_TS, a.to_string())] }).await?
        }
        "from" => t.read_incremental_records(a, None).await?,
        "between" => {
            let s = t.get_file_slices_between(Some(a), None).await?;
            read_slices(t, &s, if s.is_empty() { none() } else { vec![(START_TS, a.to_string())] }).await?
        }
        "incr" => t.read_incremental_records(a, Some(b)).await?,
        "range" => {
            let s = t.get_file_slices_between(Some(a), Some(b)).await?;
            read_slices(t, &s, if s.is_empty() { none() } else { vec![(START_TS, a.to_string()), (END_TS, b.to_string())] }).await?
        }
        c => panic!("call {c}"),
    })
}

async fn time(job: &Job) -> Result<(), Bad> {
    let (w, mut r) = setup(job, "time");
    let c = &job.case["case"];
    let call = c["call"].as_str().unwrap();
    let (a, b) = (stamp(&w, &c["a"], &mut r), stamp(&w, &c["b"], &mut r));
    job.ready();
    let t = open(&w).await?;
    let refuse = job.case["exp"]["ok"] == json!(["refuse"]);
    let res = ask(&t, call, &a, &b, 1 + r.below(3)).await;
    match res {
        Err(Bad::Err(_)) if refuse => job.count("refused"),
        Err(e) => return wrong(format!("{call} {a:?} {b:?}: {e:?}")),
        Ok(_) if refuse => return wrong(format!("{call} {a:?} {b:?}: taken")),
        Ok(rows) => {
            let exp: BTreeSet<ARow> = job.case["exp"]["rows"].as_array().unwrap().iter().map(|x| row(x[0].as_i64().unwrap(), x[1].as_i64().unwrap())).collect();
            judge(&w, &format!("{call} {a:?} {b:?}"), &rows, &exp)?;
            job.count(if exp.is_empty() { "no rows" } else { "rows" });
        }
    }
    // any other string: nothing but digits is a time
    let s = noise(&mut r);
    if !(matches!(s.len(), 14 | 17) && s.bytes().all(|b| b.is_ascii_digit())) {
        let (x, y) = if r.pct(50) { (s.clone(), w.ts(7)) } else { (w.ts(1), s.clone()) };
        let call = if x == s { call } else { *r.pick(&["incr", "range"]) };
        if let Ok(rows) = ask(&t, call, &x, &y, 2).await {
            return wrong(format!("{call} {x:?} {y:?}: taken: {} batches", rows.len()));
        }
        job.count("noise refused");
    }
    Ok(())
}

/// Arbitrary text.
fn noise(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.below(4),
        1 => 13 + r.below(6),
        2 => 14,
        _ => r.below(60),
    };
    let set: Vec<char> = match r.below(4) {
        0 => "0123456789".chars().collect(),
        1 => "2024-01:T Z+.0".chars().collect(),
        2 => "０１２３４٠١٢é日\u{301}\u{1f600}0".chars().collect(),
        _ => "\0\n\r\t\"'\\/%&=<>~^$#@!*?[]{}()|;,aZ09é".chars().collect(),
    };
    (0..n).map(|_| *r.pick(&set)).collect()
}

// ------------------------------------------------------------------- filters
async fn filter(job: &Job) -> Result<(), Bad> {
    let f = &job.case["case"]["f"];
    let s = |k: &str| f[k].as_str().unwrap();
    let (w, mut r) = setup(job, s("type"));
    let part = w.prof.part_cols()[0].clone();
    let col = match s("col") {
        "part" => part.clone(),
        "data" => r.pick(&["id", "ord"]).to_string(),
        "meta" => r.pick(&["_hoodie_partition_path", "_hoodie_commit_time"]).to_string(),
        "none" => r.pick(&["nope", "part", "partbb", "part b", "\0", "pàrt"]).to_string(),
        "empty" => String::new(),
        "case" => part.to_uppercase(),
        _ => r.pick(&[" partb", "partb ", "\tpartb"]).to_string(),
    };
    let date = s("type") == "Date";
    let v = w.prof.coord(0, f["val"].as_i64().unwrap());
    let val = match s("how") {
        "plain" => v.clone(),
        "like" if date => {
            let d: Vec<String> = v.split('-').map(String::from).collect();
            let z = |x: &str| x.trim_start_matches('0').to_string();
            match r.below(5) {
                0 => format!("{}-{}-{}", d[0], z(&d[1]), z(&d[2])),
                1 => d.join(""),
                2 => format!(" {v}"),
                3 => format!("{v} "),
                _ => format!("{v}T00:00:00"),
            }
        }
        "like" => r.pick(&["+5", "05", " 5", "5 ", "5.0", "005", "5e0"]).to_string(),
        _ if date => r.pick(&["2023-13-45", "yesterday", "", "2023-02-30", "٢٠٢٣-١٢-٣٠", "2023", "null", "\0"]).to_string(),
        _ => r.pick(&["abc", "", "1e", "5x", "٥", "99999999999999999999", "NaN", "null", "--5", "0x5", "\0", "5\0", "true"]).to_string(),
    };
    if s("type") != "Str" && s("how") == "like" && !date && v != "5" {
        panic!("coordinate 4 is {v}");
    }
    let op = s("op");
    job.ready();
    let t = open(&w).await?;
    let fl = [(col.as_str(), op, val.as_str())];
    let mut got = Vec::new();
    let pick = r.below(6);
    let ts = w.ts(2);
    let of = |b: Vec<arrow_array::RecordBatch>| -> Result<BTreeSet<i64>, Bad> { Ok(decode(&w, &b)?.iter().map(|x| 2 * x.0.p).collect()) };
    let keys = |s: Vec<hudi_core::file_group::file_slice::FileSlice>| -> BTreeSet<i64> { s.iter().map(|x| 2 * w.part_of_path(&x.partition_path).unwrap()).collect() };
    for call in [pick, (pick + 1 + r.below(5)) % 6] {
        let res: Result<BTreeSet<i64>, Bad> = match call {
            0 => t.read_snapshot(&fl).await.map_err(Bad::from).and_then(of),
            1 => t.read_snapshot_as_of(&ts, &fl).await.map_err(Bad::from).and_then(of),
            2 => t.get_file_slices(&fl).await.map_err(Bad::from).map(keys),
            3 => t.get_file_slices_as_of(&ts, &fl).await.map_err(Bad::from).map(keys),
            4 => t.get_file_slices_splits(2, &fl).await.map_err(Bad::from).map(|x| keys(x.into_iter().flatten().collect())),
            _ => t.get_file_slices_splits_as_of(2, &ts, &fl).await.map_err(Bad::from).map(|x| keys(x.into_iter().flatten().collect())),
        };
        got.push((call, res));
    }
    let ok: Vec<&str> = job.case["exp"]["ok"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let exp: BTreeSet<i64> = job.case["exp"]["parts"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    for (call, g) in got {
        match g {
            Err(Bad::Err(_)) if ok.contains(&"refuse") => job.count("refused"),
            Ok(p) if ok.contains(&"parts") && p == exp => job.count("filtered"),
            g => return wrong(format!("filter {fl:?} (call {call}): {g:?}, expected {ok:?} {exp:?}")),
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- places
async fn place(job: &Job) -> Result<(), Bad> {
    let (w, mut r) = setup(job, "time");
    let root = w.root.to_str().unwrap().to_string();
    let d = |n: &str| job.work.join(n).to_str().unwrap().to_string();
    let what = job.case["case"]["p"]["what"].as_str().unwrap();
    let name = w.root.file_name().unwrap().to_str().unwrap();
    for _ in 0..4 {
        let uri = match what {
            "empty" => String::new(),
            "blank" => r.pick(&[" ", "\t", "\n", "   "]).to_string(),
            "scheme" => r.pick(&["foo:///x", "foo://x/y", "ftp://h/x", "1:2", "c:/x", "file2:///x"]).to_string(),
            "nohost" => r.pick(&["s3://", "s3:///x", "gs:///", "az://", "abfs://", "hdfs://", "file://host/x"]).to_string(),
            "http" => "http://127.0.0.1:9/x".to_string(),
            "missing" => d("missing"),
            "file" => {
                std::fs::write(d("afile"), "x").unwrap();
                format!("{}{}", d("afile"), *r.pick(&["", "/", "/x"]))
            }
            "noprops" => {
                std::fs::create_dir_all(d("noprops/.hoodie")).unwrap();
                d("noprops")
            }
            "emptyprops" => {
                std::fs::create_dir_all(d("eprops/.hoodie")).unwrap();
                let bytes: &[u8] = *r.pick(&[&b""[..], b"\n", b"#\n", b"=\n", b"x", b"\xff\xfe", b"hoodie.table.name", b"\0\0"]);
                std::fs::write(d("eprops/.hoodie/hoodie.properties"), bytes).unwrap();
                d("eprops")
            }
            "nul" => format!("{root}\0{}", *r.pick(&["", "x"])),
            "wide" => format!("{root}{}", *r.pick(&["é", "日本", "\u{202e}", "\u{1f600}"])),
            "percent" => format!("{root}{}", *r.pick(&["%", "%zz", "%2", "%00", "%2F..%2F", "%ff"])),
            "relative" => r.pick(&["./nowhere", "nowhere", "../nowhere", "-", "~"]).to_string(),
            "dots" => format!("{root}/{}", *r.pick(&[".", &format!("../{name}"), ".hoodie/..", "./"])),
            "slashes" => r.pick(&[format!("{root}/"), format!("{root}//"), root.replacen('/', "//", 1), format!("file://{root}"), format!("file://{root}/")]).clone(),
            "case" => root.to_uppercase(),
            "parent" => format!("{root}/{}", *r.pick(&["..", "../..", "../../../../../../.."])),
            "long" => format!("{root}/{}", "x".repeat(*r.pick(&[300, 5000, 70000]))),
            "query" => format!("file://{root}{}", *r.pick(&["?x=1", "#frag", "?"])),
            "memory" => r.pick(&["memory:///", "memory://x/y"]).to_string(),
            _ => r.pick(&["http://[", "s3://[::1", "s3://a b/", "://", "file:", "file:x", ":", "//", "s3:bucket", "s3://b:x/y", "s3://\0/"]).to_string(),
        };
        job.ready();
        let how = r.below(3);
        // (objects stores must not be waited for)
        let quick = [("allow_http", "true"), ("client.max_retries", "0"), ("aws_endpoint", "http://127.0.0.1:9"), ("aws_region", "x"), ("timeout", "1s"), ("connect_timeout", "1s"),
            ("aws_access_key_id", "x"), ("aws_secret_access_key", "x"), ("aws_skip_signature", "true"), ("azure_storage_account_name", "x"), ("google_skip_signature", "true"), ("azure_storage_use_emulator", "true")];
        let opts = || quick.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect::<Vec<_>>();
        let local = uri.starts_with('/') || uri.starts_with("file:") || uri.starts_with('.') || !uri.contains("://");
        let t = if local && how == 0 {
            Table::new(&uri).await
        } else if how == 1 {
            TableBuilder::from_base_uri(&uri).with_options(opts()).build().await
        } else {
            Table::new_with_options(&uri, opts()).await
        };
        let ok: Vec<&str> = job.case["exp"]["ok"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        match t {
            Err(_) if ok.contains(&"refuse") => job.count("refused"),
            Err(e) => return wrong(format!("{uri:?}: {e}")),
            Ok(_) if !ok.contains(&"rows") => return wrong(format!("{uri:?}: opened")),
            Ok(t) => {
                let b = read_rows(&t, &plain("snap")).await?;
                judge(&w, &format!("{uri:?}"), &b, &BTreeSet::from([row(1, 6), row(2, 2)]))?;
                job.count("opened");
            }
        }
        // a reader of file groups: anything but a panic
        let rd = FileGroupReader::new_with_options(&uri, opts());
        if let Ok(rd) = rd {
            let res = if local { rd.read_file_slice_by_base_file_path(*r.pick(&["x.parquet", "", "/", "../x", "\0", "a_b_c.parquet"])).await.is_ok() } else { false };
            if res {
                return wrong(format!("{uri:?}: read a file that is none"));
            }
        }
    }
    Ok(())
}

async fn reader(job: &Job) -> Result<(), Bad> {
    let (w, mut r) = setup(job, "time");
    let c = &job.case["case"]["r"];
    job.ready();
    let t = open(&w).await?;
    let no: [(&str, &str, &str); 0] = [];
    let s = t.get_file_slices(&no).await?;
    let key = match c["opt"].as_str().unwrap() {
        "ro" => "hoodie.read.use.read_optimized.mode",
        "strategy" => "hoodie.table.record.merge.strategy",
        "populates" => "hoodie.populate.meta.fields",
        "start" => START_TS,
        _ => END_TS,
    };
    for _ in 0..4 {
        let v = if c["val"] == "empty" { String::new() } else { r.pick(&["yes", "x", "\0", "truefalse", " ", "０", "20"]).to_string() };
        let got = read_slices(&t, &s, vec![(key, v.clone())]).await;
        if job.case["exp"]["ok"] == json!(["refuse"]) {
            if let Ok(b) = &got {
                return wrong(format!("{key} = {v:?}: taken, {} batches", b.len()));
            }
            job.count("refused");
        } else {
            job.count("any");
        }
    }
    Ok(())
}

// --------------------------------------------------------------- stray files
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &t)
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}

fn token(w: &Writer, t: &str, r: &mut Rng) -> String {
    match t {
        "c1" => w.ts(2),
        "c2" => w.ts(6),
        "x" => w.ts(4),
        "n" => w.ts(8),
        "o" => w.ts(1),
        "f1" => w.fid(P, 1),
        "g" => w.fid(P, 9),
        // (sorts after every instant)
        "9" => format!("{}{}", 3 + r.below(7), ["", "0", "12", "0000", "99999999999999999999"][r.below(5)]),
        "w" => r.pick(&["w", "commits", "COMMIT", "tmp", "é", "日本", "~", "-", "a b", "x-1-0", "bak", "1x", "x1", "Parquet", "LOG", "%20", "a%b", "$", "part-00000", "c000", "+", "'", "١٢"]).to_string(),
        t => t.to_string(),
    }
}

struct Reads {
    snap: Result<BTreeSet<ARow>, String>,
    asof: Result<BTreeSet<ARow>, String>,
    incr: Result<BTreeSet<ARow>, String>,
    slices: Result<usize, String>,
    commits: Vec<String>,
}
async fn reads(w: &Writer, root: &Path, r: &mut Rng) -> Result<Reads, Bad> {
    let t = match Table::new(root.to_str().unwrap()).await {
        Ok(t) => t,
        Err(e) => {
            let e = e.to_string();
            return Ok(Reads { snap: Err(e.clone()), asof: Err(e.clone()), incr: Err(e.clone()), slices: Err(e), commits: vec![] });
        }
    };
    let rows = |x: Result<Vec<arrow_array::RecordBatch>, Bad>| -> Result<Result<BTreeSet<ARow>, String>, Bad> {
        match x {
            Err(Bad::Err(e)) => Ok(Err(e)),
            Err(e) => Err(e),
            Ok(b) => {
                let d = decode(w, &b)?;
                let s: BTreeSet<ARow> = d.iter().map(|x| x.0).collect();
                if s.len() != d.len() {
                    return wrong(format!("rows returned twice: {d:?}"));
                }
                Ok(Ok(s))
            }
        }
    };
    let at = |q: &str, n: i64| Args { t: Some(w.ts(n)), ..plain(q) };
    let snap = rows(read_rows(&t, &plain(*r.pick(&["snap", "slread"]))).await)?;
    let asof = rows(read_rows(&t, &at(*r.pick(&["asof", "slread"]), 2)).await)?;
    let incr = rows(read_rows(&t, &Args { s: w.ts(2), ..plain(*r.pick(&["incr", "islread"])) }).await)?;
    let slices = list(&t, &plain("slices")).await.map(|s| s.len()).map_err(|e| format!("{e:?}"));
    let commits = t.get_timeline().completed_commits.iter().map(|i| i.timestamp.clone()).collect();
    Ok(Reads { snap, asof, incr, slices, commits })
}

fn after(eff: &str) -> (BTreeSet<ARow>, BTreeSet<ARow>, Option<BTreeSet<ARow>>, Option<usize>) {
    let mut snap = BTreeSet::from([row(1, 6), row(2, 2)]);
    let mut asof = BTreeSet::from([row(1, 2), row(2, 2)]);
    let mut incr = Some(BTreeSet::from([row(1, 6)]));
    let mut slices = Some(1);
    match eff {
        "same" => {}
        "x" => {
            snap = BTreeSet::from([row(1, 6), row(2, 4), row(5, 4)]);
            incr = Some(snap.clone());
            slices = Some(2);
        }
        "key7" => {
            let k = ARow { p: P, k: 7, v: 2, o: 1, q: 9 };
            snap.insert(k);
            asof.insert(k);
            incr = None;
            slices = Some(2);
        }
        _ => {
            snap.remove(&row(1, 6));
            snap.insert(ARow { p: P, k: 1, v: 6, o: 3, q: 9 });
            incr = None;
        }
    }
    (snap, asof, incr, slices)
}

async fn file(job: &Job) -> Result<(), Bad> {
    let c = &job.case;
    let (tpl, mut r) = setup(job, "file");
    let root = job.work.join("t");
    copy(&tpl.root, &root);
    let w = &*tpl;
    let name: String = c["name"].as_array().unwrap().iter().map(|t| token(w, t.as_str().unwrap(), &mut r)).collect();
    let dir: PathBuf = if c["dir"] == "tl" { root.join(".hoodie") } else { root.join(w.part_path(P)) };
    let mut eff = c["effect"].as_str().unwrap();
    if ["", ".", ".."].contains(&name.as_str()) || dir.join(&name).exists() || name.len() > 250 {
        job.count("no new name");
        return Ok(());
    }
    let instant = c["instant"].as_str().unwrap();
    let toks: Vec<&str> = c["name"].as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect();
    let path = dir.join(&name);
    if r.pct(6) {
        // a directory of that name
        std::fs::create_dir(&path).unwrap();
        if r.pct(50) {
            std::fs::write(path.join(*r.pick(&["x", ".x", "y.log", "a_1_2.parquet.crc"])), b"x").unwrap();
        }
        eff = if eff == "error" || eff == "odd" { "odd" } else { "same" };
        job.count("directories");
        if eff == "same" && !instant.is_empty() {
            eff = "dir";
        }
    } else {
        let data: Vec<u8> = if c["dir"] == "tl" {
            if eff == "x" {
                let mut m = w.metadata(4);
                if toks.contains(&"replacecommit") {
                    m["partitionToReplaceFileIds"] = json!({});
                }
                m.to_string().into_bytes()
            } else if !instant.is_empty() {
                json!({"partitionToWriteStats": {}, "compacted": false, "partitionToReplaceFileIds": {}, "extraMetadata": {}, "operationType": "INSERT"}).to_string().into_bytes()
            } else {
                r.pick(&[&b""[..], b"garbage", b"{}", b"Obj\x01avro"]).to_vec()
            }
        } else if eff == "key7" || eff == "odd" && toks.contains(&"parquet") {
            let rows = [(ARow { p: P, k: 7, v: 2, o: 1, q: 9 }, 0)];
            w.data_content(&rows, &w.cols, &name, false)
        } else if eff == "key1" || toks.contains(&"log") && r.pct(50) {
            let rows = [(ARow { p: P, k: 1, v: 6, o: 3, q: 9 }, 0)];
            let avro = r.pct(50) && w.prof.log_fmt == LogFmt::Avro;
            let content = w.data_content(&rows, &w.cols, "", avro);
            let header = [(0u32, w.ts(6)), (2u32, avro_schema(&w.cols, "t_record").to_string())];
            Writer::block(&header, if avro { 3 } else { 5 }, &content)
        } else {
            r.pick(&[&b""[..], b"garbage", b"#HUDI#", b"PAR1", b"\0\0\0\0\0\0\0\0"]).to_vec()
        };
        std::fs::write(&path, data).unwrap();
    }
    job.ready();
    let got = reads(w, &root, &mut r).await?;
    let what = format!("with {name:?}");
    match eff {
        "odd" => {}
        "error" => {
            for (n, ok) in [("snapshot", got.snap.is_ok()), ("as of", got.asof.is_ok()), ("slices", got.slices.is_ok())] {
                if ok {
                    return wrong(format!("{what}: {n} succeeded"));
                }
            }
        }
        _ => {
            let (snap, asof, incr, slices) = after(if eff == "dir" { "same" } else { eff });
            for (n, g, e) in [("snapshot", &got.snap, Some(snap)), ("as of", &got.asof, Some(asof)), ("incremental", &got.incr, incr)] {
                if e.is_some() && g.as_ref().ok() != e.as_ref() {
                    return wrong(format!("{what}: {n} gave {g:?}, expected {e:?}"));
                }
            }
            if let (g, Some(e)) = (&got.slices, slices) {
                if *g != Ok(e) {
                    return wrong(format!("{what}: slices {g:?}, expected {e}"));
                }
            }
            let mut commits = BTreeSet::from([w.ts(2), w.ts(6)]);
            if eff != "dir" && !instant.is_empty() {
                commits.insert(token(w, instant, &mut r));
            }
            if got.commits != commits.iter().cloned().collect::<Vec<_>>() {
                return wrong(format!("{what}: completed commits {:?}, not {commits:?}", got.commits));
            }
        }
    }
    job.count(eff);
    let _ = if path.is_dir() { std::fs::remove_dir_all(&path) } else { std::fs::remove_file(&path) };

    // names of no format at all
    if r.pct(50) {
        use std::os::unix::ffi::OsStringExt;
        let sets: [&[u8]; 5] = [b"\x01\x02\x07\x1b\x7f\t\r\n a", b"\xff\xfe\x80\xc3 a", b"%2FE0 ", b"\"'\\<>|*?:;&$#@![]{}()^`~,=+-a", "éü日本\u{202e}\u{301}".as_bytes()];
        let set = *r.pick(&sets);
        let n = *r.pick(&[1, 2, 5, 20, 250]);
        let mut b: Vec<u8> = (0..n).map(|_| *r.pick(set)).collect();
        if r.pct(40) {
            b.truncate(200);
            b.extend(r.pick(&[&b".commit"[..], b".log.1_0-1-1", b".deltacommit", b"_1_2.parque", b"."]).iter());
        }
        let p = (*r.pick(&[root.join(".hoodie"), root.join(w.part_path(P))])).join(std::ffi::OsString::from_vec(b.clone()));
        if !p.exists() && std::fs::write(&p, b"junk").is_ok() {
            let got = reads(w, &root, &mut r).await?;
            let (snap, asof, incr, _) = after("same");
            for (n, g, e) in [("snapshot", &got.snap, snap), ("as of", &got.asof, asof), ("incremental", &got.incr, incr.unwrap())] {
                if g.as_ref().is_ok_and(|g| *g != e) {
                    return wrong(format!("with {:?}: {n} gave {g:?}, expected {e:?}", String::from_utf8_lossy(&b)));
                }
            }
            job.count(if got.snap.is_ok() { "raw names ignored" } else { "raw names refused" });
        }
    }
    Ok(())
}
