//! Makes the observations of a generated behaviour on the real library and
//! compares what it returns with what the specification expects.
use crate::rng::Rng;
use crate::rows::*;
use crate::writer::Writer;
use arrow_array::cast::AsArray;
use arrow_array::{Array, RecordBatch};
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::table::Table;
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type R<T> = Result<T, String>;

/// Kinds of failure of an observation.
#[derive(Debug)]
pub enum Bad {
    /// the library returned an error
    Err(String),
    /// the library returned a wrong result
    Wrong(String),
}
impl From<hudi_core::error::CoreError> for Bad {
    fn from(e: hudi_core::error::CoreError) -> Self {
        Bad::Err(e.to_string())
    }
}
pub fn wrong<T>(s: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Wrong(s.into()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SliceKey {
    pub p: i64,
    pub f: i64,
    pub b: i64,
    pub n: i64,
}

fn str_col<'a>(b: &'a RecordBatch, name: &str) -> Result<&'a arrow_array::StringArray, Bad> {
    match b.column_by_name(name).and_then(|c| c.as_string_opt::<i32>()) {
        Some(a) => Ok(a),
        None => wrong(format!("result has no string column {name}")),
    }
}

/// Rows of the batches, each with the index of its copy.
pub fn decode(w: &Writer, batches: &[RecordBatch]) -> Result<Vec<(ARow, i64)>, Bad> {
    let mut out = Vec::new();
    let mut tscache: HashMap<String, i64> = HashMap::new();
    let mut pcache: HashMap<String, i64> = HashMap::new();
    for b in batches {
        if b.num_rows() == 0 {
            continue;
        }
        let ts = str_col(b, "_hoodie_commit_time")?;
        let sq = str_col(b, "_hoodie_commit_seqno")?;
        let key = str_col(b, "id")?;
        let hkey = str_col(b, "_hoodie_record_key")?;
        let pp = str_col(b, "_hoodie_partition_path")?;
        let Some(ord) = b.column_by_name("ord") else { return wrong("no column ord") };
        let mut rows = Vec::with_capacity(b.num_rows());
        for i in 0..b.num_rows() {
            let t = ts.value(i);
            let v = match tscache.get(t) {
                Some(v) => *v,
                None => {
                    let Some(v) = w.instant_of(t) else { return wrong(format!("unknown commit time {t}")) };
                    tscache.insert(t.to_string(), v);
                    v
                }
            };
            let path = pp.value(i);
            let p = match pcache.get(path) {
                Some(p) => *p,
                None => {
                    let Some(p) = w.part_of_path(path) else { return wrong(format!("unknown partition {path}")) };
                    pcache.insert(path.to_string(), p);
                    p
                }
            };
            let k = key.value(i);
            if hkey.value(i) != k {
                return wrong(format!("record key {} of id {k}", hkey.value(i)));
            }
            let parse = || -> Option<(i64, i64, i64)> {
                let (kk, c) = k.strip_prefix('k')?.split_once('#')?;
                let mut it = sq.value(i).split('_');
                let st = it.next()?;
                let q = it.next()?.parse().ok()?;
                let sc = it.next()?;
                if st != t || sc != c {
                    return None;
                }
                Some((kk.parse().ok()?, q, c.parse().ok()?))
            };
            let Some((k, q, c)) = parse() else {
                return wrong(format!("inconsistent row key={k} seqno={} time={t}", sq.value(i)));
            };
            rows.push((ARow { p, k, v, o: -1, q }, c));
        }
        let vals = ord_values(w, ord)?;
        for (r, o) in rows.iter_mut().zip(vals) {
            r.0.o = o;
        }
        check_payload(w, b, &rows)?;
        out.extend(rows);
    }
    Ok(out)
}

fn ord_values(w: &Writer, a: &arrow_array::ArrayRef) -> Result<Vec<i64>, Bad> {
    use arrow_array::types::*;
    let n = a.len();
    let f = |v: Val| w.ord_of(&v);
    let get = |i: usize| -> Option<i64> {
        if a.is_null(i) {
            return Some(-1);
        }
        Some(match w.prof.ord_kind {
            Kind::Int => f(Val::Int(a.as_primitive_opt::<Int32Type>()?.value(i))),
            Kind::Date => f(Val::Int(a.as_primitive_opt::<Date32Type>()?.value(i))),
            Kind::Long => f(Val::Long(a.as_primitive_opt::<Int64Type>()?.value(i))),
            Kind::TsMicros => f(Val::Long(a.as_primitive_opt::<TimestampMicrosecondType>()?.value(i))),
            Kind::TsMillis => f(Val::Long(a.as_primitive_opt::<TimestampMillisecondType>()?.value(i))),
            Kind::Float => f(Val::Float(a.as_primitive_opt::<Float32Type>()?.value(i))),
            Kind::Double => f(Val::Double(a.as_primitive_opt::<Float64Type>()?.value(i))),
            _ => f(Val::Str(a.as_string_opt::<i32>()?.value(i).to_string())),
        })
    };
    (0..n).map(|i| get(i).ok_or(Bad::Wrong("column ord has a wrong type".into()))).collect()
}

/// Every column value is the one that was written for the row.
fn check_payload(w: &Writer, b: &RecordBatch, rows: &[(ARow, i64)]) -> Result<(), Bad> {
    let mut cols = w.cols.clone();
    if b.column_by_name(&w.extra_col.name).is_some() {
        cols.push(w.extra_col.clone());
    } else if w.prof.evolve_at > 0 && rows.iter().any(|r| r.0.v >= w.prof.evolve_at) {
        return wrong("rows without the column that was added before they were written");
    }
    let want = w.batch(rows, &cols, "");
    if want.schema().fields() != b.schema().fields() {
        return wrong(format!("schema of result: {:?}, expected {:?}", b.schema(), want.schema()));
    }
    for (i, c) in cols.iter().enumerate() {
        if c.name == "_hoodie_file_name" {
            if b.column(i).null_count() > 0 {
                return wrong("null _hoodie_file_name");
            }
            continue;
        }
        if b.column(i) != want.column(i) {
            let bad = (0..rows.len()).find(|j| b.column(i).slice(*j, 1).to_data() != want.column(i).slice(*j, 1).to_data()).unwrap_or(0);
            return wrong(format!(
                "column {} ({:?}) of row {:?}: got {:?}, written {:?}",
                c.name, c.kind, rows[bad], b.column(i).slice(bad, 1), want.column(i).slice(bad, 1)
            ));
        }
    }
    Ok(())
}

pub fn exp_rows(e: &J) -> BTreeSet<ARow> {
    e["exp"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|r| {
                    let g = |i: usize| r[i].as_i64().unwrap();
                    ARow { p: g(0), k: g(1), v: g(2), o: g(3), q: g(4) }
                })
                .collect()
        })
        .unwrap_or_default()
}
pub fn exp_slices(e: &J) -> BTreeSet<SliceKey> {
    e["exp"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|r| {
                    let g = |i: usize| r[i].as_i64().unwrap();
                    SliceKey { p: g(0), f: g(1), b: g(2), n: g(3) }
                })
                .collect()
        })
        .unwrap_or_default()
}

/// All copies of every expected row once, and nothing else.
pub fn compare_rows(w: &Writer, got: &[(ARow, i64)], exp: &BTreeSet<ARow>) -> Result<(), Bad> {
    let mut seen: BTreeMap<ARow, Vec<bool>> = BTreeMap::new();
    let n = w.prof.copies as usize;
    for (r, c) in got {
        if *c < 0 || *c as usize >= n {
            return wrong(format!("row copy {c} of {r:?}"));
        }
        let e = seen.entry(*r).or_insert_with(|| vec![false; n]);
        if std::mem::replace(&mut e[*c as usize], true) {
            return wrong(format!("row {r:?} copy {c} returned more than once"));
        }
    }
    let g: BTreeSet<ARow> = seen.keys().cloned().collect();
    if g != *exp {
        let miss: Vec<_> = exp.difference(&g).take(6).collect();
        let extra: Vec<_> = g.difference(exp).take(6).collect();
        return wrong(format!("rows differ: missing {miss:?}; not expected {extra:?} ({} rows expected, {} returned)", exp.len(), g.len()));
    }
    for (r, c) in &seen {
        if let Some(i) = c.iter().position(|x| !x) {
            return wrong(format!("copy {i} of row {r:?} is missing"));
        }
    }
    Ok(())
}

/// Checks names, sizes and counts of a listed slice against storage.
pub fn slice_key(w: &Writer, s: &FileSlice, fresh: bool, listed: bool) -> Result<SliceKey, Bad> {
    let Some(p) = w.part_of_path(&s.partition_path) else {
        return wrong(format!("slice of unknown partition {:?}", s.partition_path));
    };
    let Some(f) = w.fid_of(p, s.file_id()) else {
        return wrong(format!("slice of unknown file group {} in {:?}", s.file_id(), s.partition_path));
    };
    let Some(b) = w.instant_of(s.creation_instant_time()) else {
        return wrong(format!("slice of unknown instant {}", s.creation_instant_time()));
    };
    let rel = s.base_file_relative_path().map_err(Bad::from)?;
    let Some((name, rows)) = w.base.get(&(p, f, b)) else {
        return wrong(format!("slice without base file on storage: {rel}"));
    };
    if s.base_file.file_name() != *name {
        return wrong(format!("base file {} is {} on storage", s.base_file.file_name(), name));
    }
    let path = w.root.join(&rel);
    let Ok(md) = std::fs::metadata(&path) else { return wrong(format!("base file path {rel} does not exist")) };
    if listed {
        match &s.base_file.file_metadata {
            Some(m) if m.fully_populated => {
                if m.size as u64 != md.len() || m.num_records != *rows {
                    return wrong(format!("metadata of {rel}: size {} records {}, really {} and {}", m.size, m.num_records, md.len(), rows));
                }
                if m.name != *name {
                    return wrong(format!("metadata name {} of {rel}", m.name));
                }
            }
            m => return wrong(format!("metadata of {rel} not populated: {m:?}")),
        }
    }
    let mut n = -1;
    if fresh {
        n = s.log_files.len() as i64;
    }
    // (log files written onto a pending compaction carry its instant)
    let have: BTreeSet<&String> =
        w.logs.iter().filter(|(k, _)| k.0 == p && k.1 == f && k.2 >= b).flat_map(|(_, v)| v).collect();
    let mut names = BTreeSet::new();
    for l in &s.log_files {
        let name = l.file_name();
        if !have.contains(&name) {
            return wrong(format!("log file {name} of slice {rel} is not on storage ({have:?})"));
        }
        let lp = s.log_file_relative_path(l).map_err(Bad::from)?;
        if !w.root.join(&lp).is_file() {
            return wrong(format!("log file path {lp} does not exist"));
        }
        if !names.insert(name.clone()) {
            return wrong(format!("log file {name} listed twice"));
        }
    }
    Ok(SliceKey { p, f, b, n })
}

pub fn compare_slices(got: &[SliceKey], exp: &BTreeSet<SliceKey>) -> Result<(), Bad> {
    let g: BTreeSet<SliceKey> = got.iter().cloned().collect();
    if g.len() != got.len() {
        return wrong(format!("slices returned more than once: {got:?}"));
    }
    if g != *exp {
        return wrong(format!(
            "slices differ: missing {:?}; not expected {:?}",
            exp.difference(&g).collect::<Vec<_>>(),
            g.difference(exp).collect::<Vec<_>>()
        ));
    }
    Ok(())
}

pub struct Env {
    pub uri: String,
    pub opts: Vec<(String, String)>,
    pub handles: HashMap<i64, Table>,
}

impl Env {
    pub fn options(&self, ro: Option<bool>) -> Vec<(String, String)> {
        let mut o = self.opts.clone();
        if let Some(ro) = ro {
            o.push(("hoodie.read.use.read_optimized.mode".into(), ro.to_string()));
        }
        o
    }
    pub async fn open(&self, ro: Option<bool>) -> Result<Table, Bad> {
        let o = self.options(ro);
        if o.is_empty() {
            Ok(Table::new(&self.uri).await?)
        } else {
            Ok(Table::new_with_options(&self.uri, o).await?)
        }
    }
}

pub struct Args {
    pub q: String,
    pub t: Option<String>,
    pub s: String,
    pub e: Option<String>,
    pub n: usize,
    pub ro: bool,
    pub filters: Vec<(String, String, String)>,
}

pub fn args(w: &Writer, e: &J, r: &mut Rng) -> Args {
    let g = |k: &str| e[k].as_i64().unwrap_or(-1);
    let names = w.prof.part_cols();
    let mut filters = Vec::new();
    if let Some(fl) = e["flt"].as_array() {
        for f in fl {
            let c = f["c"].as_i64().unwrap() as usize - 1;
            filters.push((
                names[c].clone(),
                f["op"].as_str().unwrap().to_string(),
                w.prof.coord(c, f["x"].as_i64().unwrap()),
            ));
        }
    }
    Args {
        q: e["q"].as_str().unwrap().to_string(),
        t: if g("T") < 0 { None } else { Some(w.prof.ts_user(g("T"), r)) },
        s: w.prof.ts_user(g("s").max(0), r),
        e: if g("e") < 0 { None } else { Some(w.prof.ts_user(g("e"), r)) },
        n: match g("n") { -1 => usize::MAX, -2 => usize::MAX / 2 + 1, n => n.max(0) as usize },
        ro: e["ro"] == true,
        filters,
    }
}

fn pick_some<'a>(a: &'a [(String, String, String)]) -> Vec<(&'a str, &'a str, &'a str)> {
    a.iter().map(|(x, y, z)| (x.as_str(), y.as_str(), z.as_str())).collect()
}

pub async fn list(t: &Table, a: &Args) -> Result<Vec<FileSlice>, Bad> {
    let f = pick_some(&a.filters);
    Ok(match &a.t {
        None => t.get_file_slices(&f).await?,
        Some(ts) => t.get_file_slices_as_of(ts, &f).await?,
    })
}

pub async fn splits(t: &Table, a: &Args) -> Result<Vec<Vec<FileSlice>>, Bad> {
    let f = pick_some(&a.filters);
    Ok(match &a.t {
        None => t.get_file_slices_splits(a.n, &f).await?,
        Some(ts) => t.get_file_slices_splits_as_of(a.n, ts, &f).await?,
    })
}

pub fn judge_splits(w: &Writer, e: &J, a: &Args, parts: &[Vec<FileSlice>], fresh: bool) -> Result<usize, Bad> {
    let exp = exp_slices(e);
    let mut keys = Vec::new();
    for p in parts {
        if p.is_empty() {
            return wrong("empty split");
        }
        for s in p {
            keys.push(slice_key(w, s, fresh, true)?);
        }
    }
    compare_slices(&keys, &exp)?;
    if parts.len() > a.n.max(1) || (parts.is_empty() != exp.is_empty()) {
        return wrong(format!("{} splits of {} slices for n = {}", parts.len(), exp.len(), a.n));
    }
    Ok(keys.len())
}

pub async fn read_slices<K: AsRef<str>>(t: &Table, slices: &[FileSlice], opts: Vec<(K, String)>) -> Result<Vec<RecordBatch>, Bad> {
    let rd = t.create_file_group_reader_with_options(opts)?;
    let mut out = Vec::new();
    for s in slices {
        out.push(rd.read_file_slice(s).await?);
    }
    Ok(out)
}

pub const END_TS: &str = "hoodie.read.file_group.end_timestamp";
pub const START_TS: &str = "hoodie.read.file_group.start_timestamp";

/// One read on a table handle; returns the rows.
pub async fn read_rows(t: &Table, a: &Args) -> Result<Vec<RecordBatch>, Bad> {
    let f = pick_some(&a.filters);
    Ok(match a.q.as_str() {
        "snap" | "asof" => match &a.t {
            None => t.read_snapshot(&f).await?,
            Some(ts) => t.read_snapshot_as_of(ts, &f).await?,
        },
        "incr" => t.read_incremental_records(&a.s, a.e.as_deref()).await?,
        "slread" => {
            let sl = list(t, a).await?;
            let opts = match &a.t {
                None => Vec::<(&str, String)>::new(),
                Some(ts) => vec![(END_TS, ts.clone())],
            };
            read_slices(t, &sl, opts).await?
        }
        "islread" => {
            let sl = t.get_file_slices_between(Some(&a.s), a.e.as_deref()).await?;
            let mut opts = vec![(START_TS, a.s.clone())];
            if let Some(e) = &a.e {
                opts.push((END_TS, e.clone()));
            }
            read_slices(t, &sl, opts).await?
        }
        q => panic!("unknown read {q}"),
    })
}

pub async fn observe(w: &Writer, t: &Table, e: &J, a: &Args, fresh: bool) -> Result<usize, Bad> {
    match a.q.as_str() {
        "snap" | "asof" | "incr" | "slread" | "islread" => {
            let b = read_rows(t, a).await?;
            let rows = decode(w, &b)?;
            compare_rows(w, &rows, &exp_rows(e))?;
            Ok(rows.len())
        }
        "slices" => {
            let sl = list(t, a).await?;
            let keys = sl.iter().map(|s| slice_key(w, s, fresh, true)).collect::<Result<Vec<_>, _>>()?;
            compare_slices(&keys, &exp_slices(e))?;
            Ok(keys.len())
        }
        "splits" => judge_splits(w, e, a, &splits(t, a).await?, fresh),
        "ibetween" => {
            let sl = t.get_file_slices_between(Some(&a.s), a.e.as_deref()).await?;
            let keys = sl.iter().map(|s| slice_key(w, s, false, false)).collect::<Result<Vec<_>, _>>()?;
            compare_slices(&keys, &exp_slices(e))?;
            if e["s"] == 0 {
                let sl = t.get_file_slices_between(None, a.e.as_deref()).await?;
                let keys = sl.iter().map(|s| slice_key(w, s, false, false)).collect::<Result<Vec<_>, _>>()?;
                compare_slices(&keys, &exp_slices(e))?;
            }
            Ok(keys.len())
        }
        "tl" => observe_timeline(w, t, e).await,
        "schema" => observe_schema(w, t, e).await,
        q => panic!("unknown observation {q}"),
    }
}

async fn observe_timeline(w: &Writer, t: &Table, e: &J) -> Result<usize, Bad> {
    let mut exp: Vec<(i64, String, String)> = e["exp"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (x[0].as_i64().unwrap(), x[1].as_str().unwrap().to_string(), x[2].as_str().unwrap().to_string()))
        .collect();
    exp.sort();
    let tl = t.get_timeline();
    for desc in [false, true] {
        for kind in ["commit", "deltacommit", "replacecommit", "cluster"] {
            let got = match kind {
                "commit" => tl.get_completed_commits(desc).await?,
                "deltacommit" => tl.get_completed_deltacommits(desc).await?,
                "replacecommit" => tl.get_completed_replacecommits(desc).await?,
                _ => tl.get_completed_clustering_commits(desc).await?,
            };
            let mut want: Vec<String> = exp
                .iter()
                .filter(|x| if kind == "cluster" { x.2 == "cluster" } else { x.1 == kind })
                .map(|x| w.ts(x.0))
                .collect();
            if desc {
                want.reverse();
            }
            let g: Vec<String> = got.iter().map(|i| i.timestamp.clone()).collect();
            if g != want {
                return wrong(format!("{kind} instants (desc={desc}): {g:?}, expected {want:?}"));
            }
            for i in &got {
                let n = w.instant_of(&i.timestamp).unwrap();
                let md = tl.get_instant_metadata_in_json(i).await?;
                if md != w.commits[&n] {
                    return wrong(format!("metadata of {}: {md}", i.timestamp));
                }
                let act = if kind == "cluster" { "replacecommit" } else { kind };
                if i.file_name() != format!("{}.{act}", i.timestamp) {
                    return wrong(format!("file name {}", i.file_name()));
                }
            }
        }
    }
    let all: Vec<String> = exp.iter().map(|x| w.ts(x.0)).collect();
    let g: Vec<String> = tl.completed_commits.iter().map(|i| i.timestamp.clone()).collect();
    if g != all {
        return wrong(format!("timeline {g:?}, expected {all:?}"));
    }
    match (tl.get_latest_commit_timestamp(), all.last()) {
        (Ok(x), Some(y)) if x == *y => {}
        (Err(_), None) => {}
        (x, y) => return wrong(format!("latest commit {x:?}, expected {y:?}")),
    }
    Ok(all.len())
}

async fn observe_schema(w: &Writer, t: &Table, e: &J) -> Result<usize, Bad> {
    let exp: Vec<(i64, bool, bool)> = e["exp"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (x[0].as_i64().unwrap(), x[1] == 1, x[2] == 1))
        .collect();
    // data-less commits may carry no Avro schema
    match exp.iter().filter(|x| x.2 || !w.prof.empty_schema).map(|x| x.0).max() {
        Some(last) => {
            let av = t.get_avro_schema().await?;
            if av != w.avro_at(last) {
                return wrong(format!("avro schema {av}, expected {}", w.avro_at(last)));
            }
        }
        None => {
            if let Ok(s) = t.get_avro_schema().await {
                return wrong(format!("avro schema without any commit that has one: {s}"));
            }
        }
    }
    let Some(file) = exp.iter().filter(|x| x.1).map(|x| x.0).max() else {
        return match t.get_schema().await {
            Ok(s) => wrong(format!("schema {s:?} without any data file")),
            Err(_) => Ok(0),
        };
    };
    let got = t.get_schema().await?;
    // columns that commits without a file left added count as well
    let last = exp.iter().filter(|x| x.2 || !w.prof.empty_schema).map(|x| x.0).max().map_or(file, |a| a.max(file));
    let want = w.schema_at(last);
    if got.fields() != want.fields() {
        return wrong(format!("schema {got:?}, expected {want:?} (commit {})", w.ts(last)));
    }
    if w.dims == 0 && w.prof.keygen == 3 {
        // (fields told, but no partitions)
        return Ok(got.fields().len());
    }
    let ps = t.get_partition_schema().await?;
    let names: Vec<String> = ps.fields().iter().map(|f| f.name().clone()).collect();
    if names != w.prof.part_cols() {
        return wrong(format!("partition schema {names:?}, expected {:?}", w.prof.part_cols()));
    }
    for f in ps.fields() {
        if Some(f) != want.fields().find(f.name()).map(|x| x.1) {
            return wrong(format!("partition field {f:?}"));
        }
    }
    Ok(got.fields().len())
}
