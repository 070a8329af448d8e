//! The calls of the Python package next to those of the library: every answer
//! has to be the one the library gives to the same call.  One Python process
//! per thread of the harness.
use crate::observer::*;
use crate::rng::Rng;
use crate::rows::plain;
use crate::writer::Writer;
use arrow_array::RecordBatch;
use arrow_schema::Schema;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::table::Table;
use serde_json::{json, Map, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

struct Proc {
    child: Child,
    to: Option<ChildStdin>,
    from: BufReader<ChildStdout>,
    data: PathBuf,
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.to.take();
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.data);
    }
}

/// script, package directory, scratch directory
static SETUP: OnceLock<(PathBuf, PathBuf, PathBuf)> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub static SEEN: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
thread_local! {
    static PROC: RefCell<Option<Proc>> = const { RefCell::new(None) };
}

pub fn setup(script: &str, package: &str, work: &std::path::Path) {
    let _ = SETUP.set((script.into(), package.into(), work.to_path_buf()));
}
pub fn on() -> bool {
    SETUP.get().is_some()
}
fn count(k: impl Into<String>) {
    *SEEN.lock().unwrap().entry(k.into()).or_default() += 1;
}

fn start() -> Proc {
    let (script, package, work) = SETUP.get().unwrap();
    let data = work.join(format!("py{}", NEXT.fetch_add(1, Ordering::SeqCst)));
    let mut child = Command::new("/opt/vp/venv/bin/python")
        .arg(script)
        .env("PYTHONPATH", package)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python");
    Proc { to: child.stdin.take(), from: BufReader::new(child.stdout.take().unwrap()), child, data }
}

/// What a call returned.
#[derive(Clone)]
pub struct Got(J, Arc<Vec<u8>>);
pub type Answer = Result<Got, (String, String)>;

async fn ask(mut req: J) -> Result<(J, Arc<Vec<u8>>), Bad> {
    let p = PROC.with(|c| c.borrow_mut().take()).unwrap_or_else(start);
    req["data"] = json!(p.data);
    let (p, r) = tokio::task::spawn_blocking(move || {
        let mut p = p;
        let mut line = String::new();
        let ok = p.to.as_mut().map(|t| writeln!(t, "{req}").and_then(|_| t.flush()).is_ok()).unwrap_or(false);
        let n = if ok { p.from.read_line(&mut line).unwrap_or(0) } else { 0 };
        let r = if n == 0 { Err(format!("the Python process ended during {req}: {:?}", p.child.wait())) } else { Ok(line) };
        let data = std::fs::read(&p.data).unwrap_or_default();
        (p, r.map(|l| (l, data)))
    })
    .await
    .unwrap();
    let (line, data) = match r {
        Ok(x) => x,
        Err(e) => return wrong(e),
    };
    PROC.with(|c| *c.borrow_mut() = Some(p));
    let a: J = serde_json::from_str(&line).unwrap();
    if let Some(h) = a["harness"].as_str() {
        panic!("HARNESS: {h}");
    }
    Ok((a, Arc::new(data)))
}

pub async fn environment(set: &[(String, String)], unset: &[String]) -> Result<(), Bad> {
    ask(json!({"env": set.iter().cloned().collect::<BTreeMap<_, _>>(), "unset": unset})).await.map(|_| ())
}

/// A call, in one thread or in several at once; all answers.
#[derive(Clone)]
pub struct Call {
    req: Map<String, J>,
}
impl Call {
    fn of(on: Option<&str>, name: &str) -> Call {
        let mut req = Map::new();
        for (k, v) in [("on", json!(on)), ("name", json!(name)), ("args", json!([])), ("kwargs", json!({}))] {
            req.insert(k.into(), v);
        }
        Call { req }
    }
    fn get(mut self) -> Call {
        self.req.insert("get".into(), json!(true));
        self
    }
    fn keep(mut self, k: &str) -> Call {
        self.req.insert("keep".into(), json!(k));
        self
    }
    fn threads(mut self, n: usize) -> Call {
        self.req.insert("threads".into(), json!(n));
        self
    }
    /// Arguments in some form: by position or keyword; those not given
    /// omitted, or one of their neutral values.
    fn args(mut self, r: &mut Rng, params: &[(&str, Option<J>, &[&str])]) -> Call {
        let must = params.iter().rposition(|p| p.1.is_some()).map(|i| i + 1).unwrap_or(0);
        let pos = if r.pct(60) { must } else { r.below(params.len() + 1) };
        let (mut a, mut k) = (vec![], Map::new());
        for (i, (name, v, neutral)) in params.iter().enumerate() {
            let neutral = match if neutral.is_empty() { "none" } else { *r.pick(neutral) } {
                "tuples" => json!({"tuples": []}),
                "dict" => json!({"dict": {}}),
                "false" => json!(false),
                _ => J::Null,
            };
            if i < pos {
                a.push(v.clone().unwrap_or(neutral));
            } else if let Some(v) = v {
                k.insert(name.to_string(), v.clone());
            } else if r.pct(40) {
                k.insert(name.to_string(), neutral);
            }
        }
        count(format!(
            "{}({})",
            self.req["name"].as_str().unwrap(),
            params.iter().enumerate().map(|(i, p)| if i < pos { if p.1.is_some() { "v" } else { "n" } } else if k.contains_key(p.0) { if p.1.is_some() { "k=v" } else { "k=n" } } else { "-" }).collect::<Vec<_>>().join(",")
        ));
        self.req.insert("args".into(), J::Array(a));
        self.req.insert("kwargs".into(), J::Object(k));
        self
    }
    fn arg(mut self, v: J) -> Call {
        self.req["args"].as_array_mut().unwrap().push(v);
        self
    }
    async fn run(self) -> Result<Vec<Answer>, Bad> {
        let (a, data) = ask(J::Object(self.req)).await?;
        Ok(a["all"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| match x["err"].as_str() {
                Some(e) => Err((e.to_string(), x["type"].as_str().unwrap().to_string())),
                None => Ok(Got(x["ok"].clone(), data.clone())),
            })
            .collect())
    }
    async fn one(self) -> Result<Answer, Bad> {
        Ok(self.run().await?.remove(0))
    }
    /// A call of the harness's own, which has to succeed.
    async fn sure(self) -> Result<Got, Bad> {
        let what = format!("{:?}", self.req);
        self.one().await?.or_else(|e| wrong(format!("Python raised {e:?} at {what}")))
    }
}

fn stream(b: &[u8], at: &J) -> (Arc<Schema>, Vec<RecordBatch>) {
    let (o, n) = (at[0].as_u64().unwrap() as usize, at[1].as_u64().unwrap() as usize);
    let rd = arrow::ipc::reader::StreamReader::try_new(&b[o..o + n], None).unwrap();
    (rd.schema(), rd.map(|x| x.unwrap()).collect())
}
impl Got {
    fn batch(&self, v: &J) -> Result<RecordBatch, Bad> {
        if v["batch"].is_null() {
            return wrong(format!("Python returned {v}, not a record batch"));
        }
        let (s, mut b) = stream(&self.1, &v["batch"]);
        Ok(b.pop().unwrap_or_else(|| RecordBatch::new_empty(s)))
    }
    pub fn batches(&self) -> Result<Vec<RecordBatch>, Bad> {
        match self.0.as_array() {
            Some(a) => a.iter().map(|v| self.batch(v)).collect(),
            None => wrong(format!("Python returned {}, not a list", self.0)),
        }
    }
    fn schema(&self) -> Result<Arc<Schema>, Bad> {
        if self.0["schema"].is_null() {
            return wrong(format!("Python returned {}, not a schema", self.0));
        }
        Ok(stream(&self.1, &self.0["schema"]).0)
    }
}

/// An error without names and numbers: of several files missing, either may be
/// met first.
fn masked(e: &str) -> String {
    let part = |c: char| c.is_alphanumeric() || "_./%-".contains(c);
    let mut out = String::new();
    let mut it = e.chars().peekable();
    while let Some(c) = it.next() {
        if !part(c) {
            out.push(c);
            continue;
        }
        let mut w = c.to_string();
        while let Some(c) = it.next_if(|c| part(*c)) {
            w.push(c);
        }
        out.push_str(if w.contains(|c: char| c.is_ascii_digit()) { "#" } else { &w });
    }
    out
}

/// Rust and Python fail alike, or neither fails: then both results.
fn both<T>(what: &str, rust: Result<T, Bad>, py: Answer) -> Result<Option<(T, Got)>, Bad> {
    match (rust, py) {
        (Err(Bad::Wrong(e)), _) => Err(Bad::Wrong(e)),
        (Ok(a), Ok(b)) => Ok(Some((a, b))),
        (Err(Bad::Err(a)), Err((b, t))) => {
            if t != "HudiCoreError" || masked(&a) != masked(&b) {
                return wrong(format!("{what}: Rust fails with {a:?}, Python with {t} {b:?}"));
            }
            count("errors");
            Ok(None)
        }
        (Ok(_), Err((b, t))) => wrong(format!("{what}: Rust succeeds, Python raises {t} {b:?}")),
        (Err(Bad::Err(a)), Ok(b)) => wrong(format!("{what}: Rust fails with {a:?}, Python returns {}", b.0)),
    }
}

fn shown_rows(b: &[RecordBatch]) -> Vec<String> {
    let o = arrow::util::display::FormatOptions::default().with_null("NULL");
    let mut v = Vec::new();
    for b in b {
        let cols: Vec<_> = b.columns().iter().map(plain).collect();
        let f: Vec<_> = cols.iter().map(|c| arrow::util::display::ArrayFormatter::try_new(c, &o).unwrap()).collect();
        for i in 0..b.num_rows() {
            v.push(f.iter().map(|x| x.value(i).to_string()).collect::<Vec<_>>().join("|"));
        }
    }
    v.sort();
    v
}

pub fn same_batches(what: &str, rust: &[RecordBatch], py: &[RecordBatch]) -> Result<(), Bad> {
    let mut left: Vec<&RecordBatch> = py.iter().collect();
    for b in rust {
        if let Some(i) = left.iter().position(|x| *x == b) {
            left.swap_remove(i);
        }
    }
    if left.is_empty() && rust.len() == py.len() {
        return Ok(());
    }
    let (a, b) = (shown_rows(rust), shown_rows(py));
    if a != b || rust.len() != py.len() || py.iter().any(|p| !rust.iter().any(|r| r.schema() == p.schema())) {
        return wrong(format!(
            "{what}: Rust returns {} rows in {} batches, Python {} in {}; first difference {:?}; schemas {:?} and {:?}",
            a.len(), rust.len(), b.len(), py.len(),
            a.iter().zip(&b).find(|x| x.0 != x.1), rust.first().map(|b| b.schema()), py.first().map(|b| b.schema())
        ));
    }
    Ok(())
}

fn slice_of(f: &FileSlice) -> Result<J, Bad> {
    let m = f.base_file.file_metadata.clone().unwrap_or_default();
    Ok(json!({
        "slice": {"file_id": f.file_id(), "partition_path": f.partition_path, "creation_instant_time": f.creation_instant_time(),
            "base_file_name": f.base_file.file_name(), "base_file_size": m.size, "base_file_byte_size": m.byte_size,
            "log_file_names": f.log_files.iter().map(|l| l.file_name()).collect::<Vec<_>>(), "num_records": m.num_records},
        "base": f.base_file_relative_path()?,
        "logs": f.log_files.iter().map(|l| f.log_file_relative_path(l)).collect::<Result<Vec<_>, _>>()?,
    }))
}
fn same_slices(what: &str, rust: &[FileSlice], py: &J) -> Result<(), Bad> {
    let Some(py) = py.as_array() else { return wrong(format!("{what}: Python returned {py}")) };
    let mut a = rust.iter().map(|f| slice_of(f).map(|j| j.to_string())).collect::<Result<Vec<_>, _>>()?;
    let mut b: Vec<String> = py.iter().map(|x| x.to_string()).collect();
    a.sort();
    b.sort();
    if a != b {
        let i = a.iter().zip(&b).position(|x| x.0 != x.1).unwrap_or(a.len().min(b.len()));
        return wrong(format!("{what}: {} slices in Rust, {} in Python; Rust {:?}, Python {:?}", a.len(), b.len(), a.get(i), b.get(i)));
    }
    Ok(())
}

fn dict(o: &[(String, String)]) -> J {
    json!({"dict": o.iter().cloned().collect::<BTreeMap<_, _>>()})
}

/// Builder calls: kind (0 hudi, 1 storage, 2 generic), option, value.
pub async fn open(uri: &str, calls: &[(u8, String, String)], rust: &Result<Table, Bad>, valid: bool, href: &str, r: &mut Rng) -> Result<(), Bad> {
    let of = |k: u8| -> Vec<(String, String)> { calls.iter().filter(|c| c.0 == k).map(|c| (c.1.clone(), c.2.clone())).collect() };
    let opt = |k: u8| if of(k).is_empty() { None } else { Some(dict(&of(k))) };
    let generic = calls.iter().all(|c| c.0 == 2);
    let how = r.below(if generic { 4 } else { 3 });
    let ans = match how {
        3 => Call::of(None, "HudiTable").args(r, &[("base_uri", Some(json!(uri)), &[]), ("options", opt(2), &["none", "dict"])]).keep(href).one().await?,
        2 => {
            let p = [("base_uri", Some(json!(uri)), &[] as &[&str]), ("hudi_options", opt(0), &["none", "dict"]), ("storage_options", opt(1), &["none", "dict"]), ("options", opt(2), &["none", "dict"])];
            Call::of(Some("_internal"), "build_hudi_table").args(r, &p).keep(href).one().await?
        }
        _ => {
            let mut rest = calls.to_vec();
            if how == 0 {
                Call::of(None, "HudiTableBuilder.from_base_uri").arg(json!(uri)).keep("b").sure().await?;
            } else {
                // the first calls by way of the constructor
                let n = r.below(rest.len() + 1);
                let first: Vec<_> = rest.drain(..n).collect();
                let opt = |k: u8| {
                    let o: Vec<_> = first.iter().filter(|c| c.0 == k).map(|c| (c.1.clone(), c.2.clone())).collect();
                    if o.is_empty() { None } else { Some(dict(&o)) }
                };
                let p = [("base_uri", Some(json!(uri)), &[] as &[&str]), ("hudi_options", opt(0), &["dict"]), ("storage_options", opt(1), &["dict"]), ("options", opt(2), &["dict"])];
                Call::of(None, "HudiTableBuilder").args(r, &p).keep("b").sure().await?;
            }
            builder_calls("b", &rest, r).await?;
            Call::of(Some("b"), "build").keep(href).one().await?
        }
    };
    let rust = match rust {
        Ok(t) => Ok(t),
        Err(Bad::Err(e)) => Err(Bad::Err(e.clone())),
        Err(Bad::Wrong(e)) => return wrong(e.clone()),
    };
    let Some((t, _)) = both("opening", rust, ans)? else { return Ok(()) };
    about(t, valid, href).await
}

pub async fn builder_calls(b: &str, calls: &[(u8, String, String)], r: &mut Rng) -> Result<(), Bad> {
    let mut i = 0;
    while i < calls.len() {
        let kind = calls[i].0;
        let mut j = i + 1;
        while j < calls.len() && calls[j].0 == kind && r.pct(50) {
            j += 1;
        }
        let name = ["hudi_option", "storage_option", "option"][kind as usize];
        let c = if j == i + 1 && r.pct(60) {
            let (k, v) = (json!(calls[i].1), json!(calls[i].2));
            Call::of(Some(b), &format!("with_{name}")).args(r, &[("k", Some(k), &[]), ("v", Some(v), &[])])
        } else {
            let o: Vec<_> = calls[i..j].iter().map(|c| (c.1.clone(), c.2.clone())).collect();
            Call::of(Some(b), &format!("with_{name}s")).arg(dict(&o))
        };
        c.keep(b).sure().await?;
        i = j;
    }
    Ok(())
}

/// What a table says about itself.
async fn about(t: &Table, valid: bool, href: &str) -> Result<(), Bad> {
    let map = |m: std::collections::HashMap<String, String>| json!({"dict": m.into_iter().collect::<BTreeMap<_, _>>()});
    let mut all = vec![("hudi_options", map(t.hudi_options()), false), ("storage_options", map(t.storage_options()), false)];
    // a table opened without validation need not have a name
    if valid {
        all.extend([
            ("table_name", json!(t.table_name()), true),
            ("table_type", json!(t.table_type()), true),
            ("is_mor", json!(t.is_mor()), true),
            ("timezone", json!(t.timezone()), true),
        ]);
    }
    for (name, want, get) in all {
        let c = Call::of(Some(href), name);
        let got = if get { c.get() } else { c }.sure().await?;
        if got.0 != want {
            return wrong(format!("{name} is {} in Python, {want} in Rust", got.0));
        }
    }
    count("tables");
    Ok(())
}

fn filters(a: &Args) -> Option<J> {
    if a.filters.is_empty() { None } else { Some(json!({"tuples": a.filters})) }
}
const FLT: &[&str] = &["none", "tuples"];

fn list_call(href: &str, a: &Args, r: &mut Rng) -> Call {
    match &a.t {
        None => Call::of(Some(href), "get_file_slices").args(r, &[("filters", filters(a), FLT)]),
        Some(t) => Call::of(Some(href), "get_file_slices_as_of").args(r, &[("timestamp", Some(json!(t)), &[]), ("filters", filters(a), FLT)]),
    }
}
fn between_call(href: &str, s: Option<&str>, e: Option<&str>, r: &mut Rng) -> Call {
    Call::of(Some(href), "get_file_slices_between").args(r, &[("start_timestamp", s.map(|s| json!(s)), &["none"]), ("end_timestamp", e.map(|e| json!(e)), &["none"])])
}

/// The observation through Python.  `good`: Rust returned what is specified,
/// and so has Python to.
pub async fn observe(w: &Writer, t: &Table, href: &str, e: &J, a: &Args, good: bool, r: &mut Rng) -> Result<(), Bad> {
    let q = a.q.as_str();
    let many = if r.pct(10) { 2 + r.below(3) } else { 1 };
    let judge = |what: &str, b: Vec<RecordBatch>| -> Result<(), Bad> {
        if good {
            let rows = decode(w, &b)?;
            if let Err(Bad::Wrong(x)) = compare_rows(w, &rows, &exp_rows(e)) {
                return wrong(format!("{what} in Python: {x}"));
            }
        }
        Ok(())
    };
    match q {
        "snap" | "asof" | "incr" => {
            let rust = read_rows(t, a).await;
            let c = match (q, &a.t) {
                ("incr", _) => Call::of(Some(href), "read_incremental_records")
                    .args(r, &[("start_timestamp", Some(json!(a.s)), &[]), ("end_timestamp", a.e.as_ref().map(|e| json!(e)), &["none"])]),
                (_, None) => Call::of(Some(href), "read_snapshot").args(r, &[("filters", filters(a), FLT)]),
                (_, Some(ts)) => Call::of(Some(href), "read_snapshot_as_of").args(r, &[("timestamp", Some(json!(ts)), &[]), ("filters", filters(a), FLT)]),
            };
            let rust = rust.as_ref().map_err(|e| match e {
                Bad::Err(x) => Bad::Err(x.clone()),
                Bad::Wrong(x) => Bad::Wrong(x.clone()),
            });
            for ans in if many > 1 { c.threads(many) } else { c }.run().await? {
                let rust = match &rust {
                    Ok(b) => Ok(*b),
                    Err(Bad::Err(x)) => Err(Bad::Err(x.clone())),
                    Err(Bad::Wrong(x)) => return wrong(x.clone()),
                };
                if let Some((rb, got)) = both(q, rust, ans)? {
                    let b = got.batches()?;
                    same_batches(q, rb, &b)?;
                    judge(q, b)?;
                }
            }
        }
        "slices" => {
            let rust = list(t, a).await;
            if let Some((s, got)) = both(q, rust, list_call(href, a, r).one().await?)? {
                same_slices(q, &s, &got.0)?;
            }
        }
        "splits" => {
            let rust = splits(t, a).await;
            let n = json!(a.n);
            let c = match &a.t {
                None => Call::of(Some(href), "get_file_slices_splits").args(r, &[("n", Some(n), &[]), ("filters", filters(a), FLT)]),
                Some(ts) => Call::of(Some(href), "get_file_slices_splits_as_of").args(r, &[("n", Some(n), &[]), ("timestamp", Some(json!(ts)), &[]), ("filters", filters(a), FLT)]),
            };
            if let Some((s, got)) = both(q, rust, c.one().await?)? {
                let sizes: Vec<usize> = s.iter().map(|x| x.len()).collect();
                let py: Vec<J> = got.0.as_array().cloned().unwrap_or_default();
                let psizes: Vec<usize> = py.iter().map(|x| x.as_array().map(|x| x.len()).unwrap_or(usize::MAX)).collect();
                if sizes != psizes {
                    return wrong(format!("splits of {sizes:?} slices in Rust, {psizes:?} in Python"));
                }
                let all: Vec<FileSlice> = s.into_iter().flatten().collect();
                same_slices(q, &all, &J::Array(py.into_iter().flat_map(|x| x.as_array().unwrap().clone()).collect()))?;
            }
        }
        "ibetween" => {
            let starts: &[Option<&str>] = if e["s"] == 0 { &[Some(&a.s), None] } else { &[Some(&a.s)] };
            for s in starts {
                let rust = t.get_file_slices_between(*s, a.e.as_deref()).await.map_err(Bad::from);
                if let Some((sl, got)) = both(q, rust, between_call(href, *s, a.e.as_deref(), r).one().await?)? {
                    same_slices(q, &sl, &got.0)?;
                }
            }
        }
        "slread" | "islread" => {
            let (rust, c) = if q == "slread" {
                (list(t, a).await, list_call(href, a, r))
            } else {
                (t.get_file_slices_between(Some(&a.s), a.e.as_deref()).await.map_err(Bad::from), between_call(href, Some(&a.s), a.e.as_deref(), r))
            };
            let Some((sl, got)) = both(q, rust, c.keep("sl").one().await?)? else { return Ok(()) };
            same_slices(q, &sl, &got.0)?;
            let mut opts: Vec<(String, String)> = vec![];
            if q == "islread" {
                opts.push((START_TS.into(), a.s.clone()));
            }
            if let Some(x) = if q == "islread" { &a.e } else { &a.t } {
                opts.push((END_TS.into(), x.clone()));
            }
            if r.pct(10) {
                opts.push(("hoodie.read.use.read_optimized.mode".into(), "true".into()));
            }
            let ro = opts.iter().any(|o| o.1 == "true");
            let rd = t.create_file_group_reader_with_options(opts.clone())?;
            let o = if opts.is_empty() { None } else { Some(dict(&opts)) };
            Call::of(Some(href), "create_file_group_reader_with_options").args(r, &[("options", o.clone(), &["none", "dict"])]).keep("rd").sure().await?;
            // a reader that knows nothing of the table
            let uri = t.base_url().to_string();
            let lone = if uri.starts_with("file:") {
                let lone = FileGroupReader::new_with_options(&uri, opts.clone());
                let lo = Call::of(None, "HudiFileGroupReader").args(r, &[("base_uri", Some(json!(uri)), &[]), ("options", o, &["none", "dict"])]).keep("lone").one().await?;
                both("HudiFileGroupReader", lone.map_err(Bad::from), lo)?.map(|x| x.0)
            } else {
                None
            };
            let (mut all, mut fine) = (vec![], true);
            for p in got.0.as_array().unwrap().iter().enumerate() {
                let Some(s) = sl.iter().find(|s| slice_of(s).ok().as_ref() == Some(p.1)) else { unreachable!() };
                let at = json!({"ref": "sl", "at": [p.0]});
                let c = Call::of(Some("rd"), "read_file_slice").args(r, &[("file_slice", Some(at.clone()), &[])]);
                match both("read_file_slice", rd.read_file_slice(s).await.map_err(Bad::from), c.one().await?)? {
                    Some((b, g)) => {
                        let pb = g.batch(&g.0)?;
                        same_batches("read_file_slice", &[b], &[pb.clone()])?;
                        all.push(pb);
                    }
                    None => fine = false,
                }
                if r.pct(30) {
                    let rel = s.base_file_relative_path()?;
                    let (rr, on) = match &lone {
                        Some(l) if r.pct(50) => (l, "lone"),
                        _ => (&rd, "rd"),
                    };
                    let c = Call::of(Some(on), "read_file_slice_by_base_file_path").args(r, &[("relative_path", Some(json!(rel)), &[])]);
                    if let Some((b, g)) = both("by path", rr.read_file_slice_by_base_file_path(&rel).await.map_err(Bad::from), c.one().await?)? {
                        same_batches("read_file_slice_by_base_file_path", &[b], &[g.batch(&g.0)?])?;
                    }
                    if let Some(l) = &lone {
                        let c = Call::of(Some("lone"), "read_file_slice").arg(at);
                        if let Some((b, g)) = both("lone reader", l.read_file_slice(s).await.map_err(Bad::from), c.one().await?)? {
                            same_batches("lone reader", &[b], &[g.batch(&g.0)?])?;
                        }
                    }
                }
            }
            if fine && !ro {
                judge(q, all)?;
            }
        }
        "tl" => {
            Call::of(Some(href), "get_timeline").keep("tl").sure().await?;
            let tl = t.get_timeline();
            for desc in [false, true] {
                for (i, name) in ["get_completed_commits", "get_completed_deltacommits", "get_completed_replacecommits", "get_completed_clustering_commits"].iter().enumerate() {
                    let rust = match i {
                        0 => tl.get_completed_commits(desc).await,
                        1 => tl.get_completed_deltacommits(desc).await,
                        2 => tl.get_completed_replacecommits(desc).await,
                        _ => tl.get_completed_clustering_commits(desc).await,
                    };
                    let c = Call::of(Some("tl"), name).args(r, &[("desc", if desc { Some(json!(true)) } else { None }, &["false"])]).keep("is");
                    let Some((is, got)) = both(name, rust.map_err(Bad::from), c.one().await?)? else { continue };
                    let want: Vec<J> = is
                        .iter()
                        .map(|i| json!({"instant": {"timestamp": i.timestamp, "action": i.action.as_ref(), "state": i.state.as_ref(), "epoch_mills": i.epoch_millis}}))
                        .collect();
                    if got.0 != J::Array(want.clone()) {
                        return wrong(format!("{name} desc={desc}: {} in Python, {want:?} in Rust", got.0));
                    }
                    for (k, i) in is.iter().enumerate() {
                        let c = Call::of(Some("tl"), "get_instant_metadata_in_json").args(r, &[("instant", Some(json!({"ref": "is", "at": [k]})), &[])]);
                        text("metadata", tl.get_instant_metadata_in_json(i).await.map_err(Bad::from), c.one().await?)?;
                    }
                }
            }
            text("latest commit", tl.get_latest_commit_timestamp().map_err(Bad::from), Call::of(Some("tl"), "get_latest_commit_timestamp").one().await?)?;
            text("latest avro schema", tl.get_latest_avro_schema().await.map_err(Bad::from), Call::of(Some("tl"), "get_latest_avro_schema").one().await?)?;
            schema("latest schema", tl.get_latest_schema().await.map_err(Bad::from), Call::of(Some("tl"), "get_latest_schema").one().await?)?;
        }
        "schema" => {
            text("avro schema", t.get_avro_schema().await.map_err(Bad::from), Call::of(Some(href), "get_avro_schema").one().await?)?;
            schema("schema", t.get_schema().await.map_err(Bad::from), Call::of(Some(href), "get_schema").one().await?)?;
            schema("partition schema", t.get_partition_schema().await.map_err(Bad::from), Call::of(Some(href), "get_partition_schema").one().await?)?;
        }
        q => panic!("HARNESS: observation {q}"),
    }
    count(format!("observation {q}"));
    if many > 1 {
        count("in several threads at once");
    }
    if r.pct(25) {
        nonsense(t, href, r).await?;
    }
    Ok(())
}

fn text(what: &str, rust: Result<String, Bad>, py: Answer) -> Result<(), Bad> {
    if let Some((a, b)) = both(what, rust, py)? {
        if b.0 != json!(a) {
            return wrong(format!("{what}: {a:?} in Rust, {} in Python", b.0));
        }
    }
    Ok(())
}
fn schema(what: &str, rust: Result<Schema, Bad>, py: Answer) -> Result<(), Bad> {
    if let Some((a, b)) = both(what, rust, py)? {
        if *b.schema()? != a {
            return wrong(format!("{what}: {a:?} in Rust, {:?} in Python", b.schema()?));
        }
    }
    Ok(())
}

/// Calls that fail, and fail alike.
async fn nonsense(t: &Table, href: &str, r: &mut Rng) -> Result<(), Bad> {
    let ff: [(&str, &str, &str); 4] = [("no such column", "=", "1"), ("id", "~", "1"), ("", "", ""), ("ord", "IN", "x")];
    let f = [*r.pick(&ff)];
    let fj = || Some(json!({"tuples": [f[0]]}));
    let ts = *r.pick(&["", "garbage", "2024", "20240101", "2024-13-01", "99999999999999999", "20240101000000000x", "é0240101000000000"]);
    let tj = || Some(json!(ts));
    let n = r.below(4);
    let what = format!("nonsense {f:?} {ts:?}");
    match r.below(9) {
        0 => check(&what, t.read_snapshot(&f).await, Call::of(Some(href), "read_snapshot").args(r, &[("filters", fj(), &[])])).await,
        1 => check(&what, t.read_snapshot_as_of(ts, &[]).await, Call::of(Some(href), "read_snapshot_as_of").args(r, &[("timestamp", tj(), &[]), ("filters", None, FLT)])).await,
        2 => check(&what, t.get_file_slices(&f).await, Call::of(Some(href), "get_file_slices").args(r, &[("filters", fj(), &[])])).await,
        3 => check(&what, t.get_file_slices_as_of(ts, &f).await, Call::of(Some(href), "get_file_slices_as_of").args(r, &[("timestamp", tj(), &[]), ("filters", fj(), &[])])).await,
        4 => check(&what, t.get_file_slices_splits_as_of(n, ts, &f).await, Call::of(Some(href), "get_file_slices_splits_as_of").args(r, &[("n", Some(json!(n)), &[]), ("timestamp", tj(), &[]), ("filters", fj(), &[])])).await,
        5 => check(&what, t.get_file_slices_between(Some(ts), None).await, between_call(href, Some(ts), None, r)).await,
        6 => check(&what, t.read_incremental_records(ts, None).await, Call::of(Some(href), "read_incremental_records").args(r, &[("start_timestamp", tj(), &[]), ("end_timestamp", None, &["none"])])).await,
        7 => check(&what, t.get_file_slices_between(None, Some(ts)).await, between_call(href, None, Some(ts), r)).await,
        _ => {
            let o = [(r.pick(&[END_TS, "hoodie.populate.meta.fields", "hoodie.table.record.merge.strategy"]).to_string(), ts.to_string())];
            let c = Call::of(Some(href), "create_file_group_reader_with_options").args(r, &[("options", Some(dict(&o)), &[])]).keep("bad");
            let rust = t.create_file_group_reader_with_options(o).map_err(Bad::from);
            let Some((rd, _)) = both(&what, rust, c.one().await?)? else { return Ok(()) };
            let p = *r.pick(&["no such file", "../../x.parquet", ".hoodie/hoodie.properties", ""]);
            check(&what, rd.read_file_slice_by_base_file_path(p).await, Call::of(Some("bad"), "read_file_slice_by_base_file_path").arg(json!(p))).await
        }
    }
}
async fn check<T>(what: &str, rust: Result<T, hudi_core::error::CoreError>, c: Call) -> Result<(), Bad> {
    let what = format!("{what} {:?}", c.req["name"]);
    both(&what, rust.map_err(Bad::from), c.one().await?).map(|_| ())
}

pub async fn forget(prefix: &str) -> Result<(), Bad> {
    ask(json!({"forget": prefix})).await.map(|_| ())
}

fn own_ref(o: &[(String, String)]) -> J {
    json!({"own": "dict", "init": o.iter().cloned().collect::<BTreeMap<_, _>>()})
}
const FIELDS: [&str; 3] = ["hudi_options", "storage_options", "options"];
/// A builder; by its constructor with the caller's dictionary, if given.
pub async fn builder_new(name: &str, uri: &str, own: Option<(usize, &[(String, String)])>, r: &mut Rng) -> Result<(), Bad> {
    match own {
        None if r.pct(50) => Call::of(None, "HudiTableBuilder.from_base_uri").arg(json!(uri)).keep(name).sure().await?,
        _ => {
            let p: Vec<(&str, Option<J>, &[&str])> = std::iter::once(("base_uri", Some(json!(uri)), &[] as &[&str]))
                .chain((0..3).map(|i| (FIELDS[i], own.filter(|o| o.0 == i).map(|o| own_ref(o.1)), &["dict"] as &[&str])))
                .collect();
            Call::of(None, "HudiTableBuilder").args(r, &p).keep(name).sure().await?
        }
    };
    Ok(())
}
pub async fn builder_own(name: &str, kind: usize, own: &[(String, String)]) -> Result<(), Bad> {
    Call::of(Some(name), &format!("with_{}", FIELDS[kind])).arg(own_ref(own)).sure().await.map(|_| ())
}
pub async fn builder_build(name: &str) -> Result<(BTreeMap<String, String>, BTreeMap<String, String>), Bad> {
    Call::of(Some(name), "build").keep("bt").sure().await?;
    let get = |g: Got| serde_json::from_value(g.0["dict"].clone()).unwrap_or_default();
    Ok((get(Call::of(Some("bt"), "hudi_options").sure().await?), get(Call::of(Some("bt"), "storage_options").sure().await?)))
}
/// The caller's dictionary.
pub async fn own() -> Result<J, Bad> {
    Ok(Call::of(Some("KEPT"), "get").arg(json!("own:dict")).one().await?.map(|g| g.0).unwrap_or(J::Null))
}
