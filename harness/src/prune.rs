//! The cases of spec/Prune.tla: filters on partition columns of many types, on
//! tables whose partitions' paths are also of unexpected forms.
use crate::observer::*;
use crate::pool::Job;
use crate::profile::hudi_escape;
use crate::rng::{hash, Rng};
use crate::writer::META;
use arrow_array::builder::*;
use arrow_array::*;
use arrow_schema::{DataType, Field, Schema, TimeUnit};
use hudi_core::table::Table;
use parquet::arrow::ArrowWriter;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    Str,
    Byte,
    Short,
    Int,
    Long,
    Float,
    Double,
    Dec,
    Date,
    Micros,
    Millis,
    Bool,
}
use Ty::*;

impl Ty {
    fn of(class: &str, r: &mut Rng) -> Ty {
        match class {
            "str" => Str,
            "num" => *r.pick(&[Byte, Short, Int, Int, Long, Float, Double, Dec]),
            "ord" => *r.pick(&[Date, Date, Micros, Millis]),
            "bool" => Bool,
            c => panic!("class {c}"),
        }
    }
    fn data_type(self) -> DataType {
        match self {
            Str => DataType::Utf8,
            Byte => DataType::Int8,
            Short => DataType::Int16,
            Int => DataType::Int32,
            Long => DataType::Int64,
            Float => DataType::Float32,
            Double => DataType::Float64,
            Dec => DataType::Decimal128(10, 2),
            Date => DataType::Date32,
            Micros => DataType::Timestamp(TimeUnit::Microsecond, None),
            Millis => DataType::Timestamp(TimeUnit::Millisecond, None),
            Bool => DataType::Boolean,
        }
    }
    fn avro(self) -> J {
        match self {
            Str => json!("string"),
            Byte | Short | Int => json!("int"),
            Long => json!("long"),
            Float => json!("float"),
            Double => json!("double"),
            Dec => json!({"type": "bytes", "logicalType": "decimal", "precision": 10, "scale": 2}),
            Date => json!({"type": "int", "logicalType": "date"}),
            Micros => json!({"type": "long", "logicalType": "timestamp-micros"}),
            Millis => json!({"type": "long", "logicalType": "timestamp-millis"}),
            Bool => json!("boolean"),
        }
    }
    /// How value v (1..5, in the order of the type; 0: no value of the type)
    /// of column n is spelled in a path.
    fn text(self, v: usize, style: &str, r: &mut Rng) -> String {
        if v == 0 {
            const NULL: &str = "__HIVE_DEFAULT_PARTITION__";
            let of: &[&str] = match self {
                Byte => &[NULL, NULL, "default", "abc", "5.5", "128", "1 0"],
                Short => &[NULL, NULL, "default", "abc", "5.5", "40000"],
                Int => &[NULL, NULL, "default", "abc", "5.5", "3000000000", "0x5"],
                Long => &[NULL, NULL, "default", "abc", "5.5", "9223372036854775808"],
                Float | Double => &[NULL, NULL, "default", "abc", "1,5"],
                Dec => &[NULL, NULL, "default", "abc", "12x", "1,5"],
                Date => &[NULL, NULL, "default", "2024-13-01", "2024-02-30", "yesterday", "19723"],
                Micros | Millis => &[NULL, NULL, "default", "1704067200000000", "2024-01-01 25_00_00"],
                _ => &[NULL, NULL, "default", "2", "truefalse"],
            };
            return r.pick(of).to_string();
        }
        let i = v - 1;
        match self {
            Str => {
                let enc = style == "enc" || style == "hiveenc";
                let sets: &[[&str; 5]] = if enc {
                    // (encoded, "%3D" and the like sort before what they stand for)
                    &[["2021/01/01", "2021/01/02", "2021/01/03", "2021/02/01", "2022/01/01"], ["#", "/", "5", ":", "="], ["a", "a%20b", "a+b", "b=c/d", "é"], ["A", "B", "a", "b", "c"]]
                } else {
                    &[["A", "B", "a", "b", "c"], [" ", "10%", "5", "b=c", "é"], ["a b", "a%20b", "a+b", "b=c", "日本"], ["-1", "10", "100", "2", "20"]]
                };
                // the same set for a column: chosen by its seed
                sets[r.below(sets.len())][i].to_string()
            }
            Byte | Short | Int => ["-20", "-7", "5", "10", "100"][i].into(),
            Long => ["-3000000000", "-7", "5", "10", "3000000000"][i].into(),
            Float | Double => ["-20.5", "-7.0", "5.0", "10.25", "100.0"][i].into(),
            Dec => ["-20.50", "-7.00", "5.00", "10.25", "100.00"][i].into(),
            Date => ["1969-12-31", "2023-12-31", "2024-01-01", "2024-01-02", "2024-02-29"][i].into(),
            Micros => ["1969-12-31 23:59:59", "2023-12-31 23:59:59.5", "2024-01-01 00:00:00", "2024-01-01 00:00:00.000001", "2024-02-29 12:00:00"][i].into(),
            Millis => ["1969-12-31 23:59:59", "2023-12-31 23:59:59.5", "2024-01-01 00:00:00", "2024-01-01 00:00:00.001", "2024-02-29 12:00:00"][i].into(),
            Bool => ["", "false", "", "true", ""][i].into(),
        }
    }
    /// A column of the rows of one partition.
    fn array(self, v: usize, text: &str, n: usize) -> ArrayRef {
        let null = v == 0;
        let mut s = StringBuilder::new();
        for _ in 0..n {
            s.append_option(if null { None } else { Some(text) });
        }
        let s: ArrayRef = Arc::new(s.finish());
        if self == Str { s } else { arrow::compute::cast(&s, &self.data_type()).unwrap() }
    }
}

#[derive(Clone, Debug)]
pub struct Part {
    pub path: String,
    pub id: String,
    pub rows: usize,
}

pub struct Tbl {
    pub root: PathBuf,
    pub types: Vec<Ty>,
    pub names: Vec<String>,
    pub style: String,
    seed: u64,
    pub parts: BTreeMap<String, Part>, // form and values -> partition
}

fn key(p: &J) -> String {
    format!("{}:{}", p["form"].as_str().unwrap(), p["v"].as_array().unwrap().iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-"))
}

impl Tbl {
    /// The spelling of a value of column n; what is drawn at random is drawn
    /// alike for all values of the column.
    pub fn text(&self, n: usize, v: usize) -> String {
        let mut r = Rng::new(hash(&[self.seed as i64, n as i64, 0x7e]));
        if v == 0 {
            r = Rng::new(hash(&[self.seed as i64, n as i64, 0xbad]));
        }
        self.types[n].text(v, &self.style, &mut r)
    }
    fn path(&self, p: &J) -> String {
        let (hive, enc) = (self.style.starts_with("hive"), self.style.ends_with("enc"));
        let form = p["form"].as_str().unwrap();
        let mut s: Vec<String> = Vec::new();
        for (n, v) in p["v"].as_array().unwrap().iter().enumerate() {
            let t = self.text(n, v.as_u64().unwrap() as usize);
            // (a path all of which is encoded is read as one, too: no separator in a short one)
            let t = if form == "short" { t.replace('/', "-") } else { t };
            let t = if enc { hudi_escape(&t) } else { t };
            let name = if form == "name" { format!("{}x", self.names[n]) } else { self.names[n].clone() };
            s.push(if hive && form != "bare" { format!("{name}={t}") } else { t });
        }
        match form {
            "short" => {
                s.pop();
            }
            "long" => s.push(if hive { "more=10".into() } else { "10".into() }),
            _ => {}
        }
        s.join("/")
    }

    fn write(&mut self, parts: &[J], flip: bool, r: &mut Rng) {
        let ts = "20240101120000123";
        let put = |rel: &str, data: &[u8]| {
            let p = self.root.join(rel);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, data).unwrap();
        };
        let props = format!(
            "hoodie.table.name=t\nhoodie.table.type=COPY_ON_WRITE\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.recordkey.fields=id\n\
             hoodie.table.base.file.format=PARQUET\nhoodie.table.partition.fields={}\nhoodie.table.keygenerator.class=org.apache.hudi.keygen.{}KeyGenerator\n\
             hoodie.datasource.write.hive_style_partitioning={}\nhoodie.datasource.write.partitionpath.urlencode={}\n",
            self.names.join(","),
            if self.names.len() == 1 { "Simple" } else { "Complex" },
            self.style.starts_with("hive"),
            self.style.ends_with("enc")
        );
        put(".hoodie/hoodie.properties", props.as_bytes());
        let mut order: Vec<usize> = (0..self.names.len()).collect();
        if flip {
            order.reverse();
        }
        let mut fields: Vec<Field> = META.iter().map(|m| Field::new(*m, DataType::Utf8, true)).collect();
        let mut avro: Vec<J> = META.iter().map(|m| json!({"name": m, "type": ["null", "string"], "default": null})).collect();
        fields.push(Field::new("id", DataType::Utf8, false));
        avro.push(json!({"name": "id", "type": "string"}));
        for n in &order {
            fields.push(Field::new(&self.names[*n], self.types[*n].data_type(), true));
            avro.push(json!({"name": self.names[*n], "type": ["null", self.types[*n].avro()], "default": null}));
        }
        let schema = Arc::new(Schema::new(fields));
        let mut stats = serde_json::Map::new();
        for (i, p) in parts.iter().enumerate() {
            let path = self.path(p);
            let name = format!("{:08x}-0000-4000-8000-{:012x}-0_0-{}-0_{ts}.parquet", hash(&[self.seed as i64]) as u32, i, i + 1);
            let rows = 1 + r.below(3);
            let id = key(p);
            let strs = |f: &dyn Fn(usize) -> String| -> ArrayRef { Arc::new(StringArray::from((0..rows).map(f).collect::<Vec<_>>())) };
            let mut cols: Vec<ArrayRef> = vec![
                strs(&|_| ts.into()),
                strs(&|x| format!("{ts}_{i}_{x}")),
                strs(&|x| format!("{id}#{x}")),
                strs(&|_| path.clone()),
                strs(&|_| name.clone()),
                strs(&|x| format!("{id}#{x}")),
            ];
            for n in &order {
                let v = p["v"][*n].as_u64().unwrap() as usize;
                cols.push(self.types[*n].array(v, &self.text(*n, v), rows));
            }
            let batch = RecordBatch::try_new(schema.clone(), cols).unwrap();
            let mut buf = Vec::new();
            let mut w = ArrowWriter::try_new(&mut buf, schema.clone(), None).unwrap();
            w.write(&batch).unwrap();
            w.close().unwrap();
            put(&format!("{path}/{name}"), &buf);
            put(&format!("{path}/.hoodie_partition_metadata"), format!("commitTime={ts}\npartitionDepth={}\n", path.split('/').count()).as_bytes());
            stats.insert(
                path.clone(),
                json!([{"fileId": name.split('_').next().unwrap(), "path": format!("{path}/{name}"), "prevCommit": "null", "numWrites": rows, "numInserts": rows,
                        "partitionPath": path, "fileSizeInBytes": buf.len(), "totalWriteBytes": buf.len()}]),
            );
            assert!(self.parts.insert(id.clone(), Part { path, id, rows }).is_none());
        }
        let avro = json!({"type": "record", "name": "t_record", "fields": avro}).to_string();
        let meta = json!({"partitionToWriteStats": stats, "compacted": false, "extraMetadata": {"schema": avro}, "operationType": "INSERT"});
        put(&format!(".hoodie/{ts}.commit.requested"), b"");
        put(&format!(".hoodie/{ts}.inflight"), b"");
        put(&format!(".hoodie/{ts}.commit"), meta.to_string().as_bytes());
    }
}

/// Tables shared by the cases of this process.
pub fn table(job: &Job) -> Arc<Tbl> {
    type Key = (String, u64);
    static T: Mutex<BTreeMap<Key, Arc<Tbl>>> = Mutex::new(BTreeMap::new());
    let c = &job.case;
    let classes: Vec<&str> = c["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap()).collect();
    let style = c["style"].as_str().unwrap();
    let variant = Rng::new(hash(&[job.seed as i64, job.idx as i64, 0x9e])).next() % 4;
    let k = (format!("{}-{style}", classes.join(".")), variant);
    let mut tables = T.lock().unwrap();
    if let Some(t) = tables.get(&k) {
        return t.clone();
    }
    let mut s = vec![job.seed as i64, variant as i64];
    s.extend(k.0.bytes().map(|b| b as i64));
    let seed = hash(&s);
    let mut r = Rng::new(seed);
    let root = job.work.parent().unwrap().join(format!("tpl-{}-{variant}", k.0));
    let _ = std::fs::remove_dir_all(&root);
    let types: Vec<Ty> = classes.iter().map(|x| Ty::of(x, &mut r)).collect();
    // names whose order is not that of the columns
    let names = ["pm", "pa", "pz"].iter().take(types.len()).map(|x| x.to_string()).collect();
    let mut t = Tbl { root, types, names, style: style.into(), seed, parts: BTreeMap::new() };
    let flip = r.pct(50);
    t.write(c["parts"].as_array().unwrap(), flip, &mut r);
    let t = Arc::new(t);
    tables.insert(k, t.clone());
    t
}

pub struct Cond {
    pub n: usize,
    pub op: String,
    pub x: usize,
}
pub fn conds(c: &J) -> Vec<Cond> {
    c["fs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| Cond { n: f["c"].as_u64().unwrap() as usize - 1, op: f["op"].as_str().unwrap().into(), x: f["x"].as_u64().unwrap() as usize })
        .collect()
}

pub fn ids(batches: &[RecordBatch]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for b in batches {
        let c = arrow::compute::cast(b.column_by_name("id").expect("id"), &DataType::Utf8).unwrap();
        let c = c.as_any().downcast_ref::<StringArray>().unwrap();
        for i in 0..c.len() {
            *m.entry(c.value(i).split('#').next().unwrap().to_string()).or_default() += 1;
        }
    }
    m
}

/// What must be, and what may be among the partitions returned.
fn judge(t: &Tbl, c: &J, what: &str, got: &BTreeSet<String>) -> Result<(), Bad> {
    for p in c["parts"].as_array().unwrap() {
        let q = &t.parts[&key(p)];
        let ok: Vec<bool> = p["ok"].as_array().unwrap().iter().map(|x| x == true).collect();
        let is = got.contains(&q.id);
        if !ok.contains(&is) {
            return wrong(format!("{what}: partition {:?} ({}) {} [{:?} {}]", q.path, q.id, if is { "is returned" } else { "is missing" }, t.types, t.style));
        }
    }
    if let Some(x) = got.iter().find(|x| !t.parts.contains_key(*x)) {
        return wrong(format!("{what}: {x} is of no partition"));
    }
    Ok(())
}

pub fn run(job: Arc<Job>) -> Pin<Box<dyn Future<Output = Result<(), Bad>>>> {
    Box::pin(async move {
        let t = table(&job);
        job.ready();
        let mut r = Rng::new(hash(&[job.seed as i64, job.idx as i64, 0xf1]));
        let c = &job.case;
        let filters: Vec<(String, String, String)> = conds(c)
            .iter()
            .map(|f| {
                let s = t.text(f.n, f.x);
                let s = if matches!(t.types[f.n], Ty::Micros | Ty::Millis) && r.pct(50) { s.replace(' ', "T") } else { s };
                (t.names[f.n].clone(), f.op.clone(), s)
            })
            .collect();
        let f: Vec<(&str, &str, &str)> = filters.iter().map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str())).collect();
        let h = Table::new(t.root.to_str().unwrap()).await?;
        let note = |b: Bad| match b {
            Bad::Wrong(s) => Bad::Wrong(format!("{s} {f:?}")),
            Bad::Err(s) => Bad::Err(format!("{s} {f:?} [{:?} {}]", t.types, t.style)),
        };
        one(&job, &t, c, &h, &f, &mut r).await.map_err(note)
    })
}

async fn one(job: &Job, t: &Tbl, c: &J, h: &Table, f: &[(&str, &str, &str)], r: &mut Rng) -> Result<(), Bad> {
    let by_path = |p: &str| t.parts.values().find(|q| q.path == p).map(|q| q.id.clone()).unwrap_or(format!("path {p}"));
    let asof = ["20240101120000123", "20240101120000124", "20240202000000"];
    let slices = h.get_file_slices(f).await?;
    let got: BTreeSet<String> = slices.iter().map(|s| by_path(&s.partition_path)).collect();
    if got.len() != slices.len() {
        return wrong(format!("{} slices of {} partitions", slices.len(), got.len()));
    }
    judge(t, c, "slices", &got)?;
    job.count("slices");
    let (what, batches) = if r.pct(60) { ("snapshot", h.read_snapshot(f).await?) } else { ("as of", h.read_snapshot_as_of(*r.pick(&asof[..]), f).await?) };
    let rows = ids(&batches);
    let got: BTreeSet<String> = rows.keys().cloned().collect();
    judge(t, c, what, &got)?;
    if let Some(x) = rows.iter().find(|x| t.parts[x.0].rows != *x.1) {
        return wrong(format!("{what}: {x:?} rows"));
    }
    job.count(what);
    if r.pct(40) {
        let n = *r.pick(&[0, 1, 2, 5, 100]);
        let got: Vec<String> = h.get_file_slices_splits(n, f).await?.into_iter().flatten().map(|s| by_path(&s.partition_path)).collect();
        let set: BTreeSet<String> = got.iter().cloned().collect();
        if set.len() != got.len() {
            return wrong("a slice twice in the splits".to_string());
        }
        judge(t, c, "splits", &set)?;
        job.count("splits");
    } else {
        let got: BTreeSet<String> = h.get_file_slices_as_of(*r.pick(&asof[..]), f).await?.iter().map(|s| by_path(&s.partition_path)).collect();
        judge(t, c, "slices as of", &got)?;
        job.count("slices as of");
    }
    if c["fs"].as_array().unwrap().is_empty() && slices.len() != t.parts.len() {
        return wrong("not all slices without filters".to_string());
    }
    Ok(())
}

/// A condition as SQL.
pub fn sql(t: &Tbl, f: &Cond, r: &mut Rng) -> String {
    let s = t.text(f.n, f.x);
    let q = format!("'{}'", s.replace('\'', "''"));
    let x = match t.types[f.n] {
        Byte | Short | Int | Long | Float | Double | Dec => if s.starts_with('-') { format!("({s})") } else { s },
        Date => if r.pct(50) { format!("DATE {q}") } else { q },
        Micros | Millis => match r.below(3) {
            0 => format!("TIMESTAMP {q}"),
            1 => format!("CAST({q} AS TIMESTAMP)"),
            _ => q,
        },
        Bool => s,
        Str => q,
    };
    let c = &t.names[f.n];
    let swap = |op: &str| -> String {
        match op {
            "<" => ">".into(),
            "<=" => ">=".into(),
            ">" => "<".into(),
            ">=" => "<=".into(),
            o => o.into(),
        }
    };
    let negate = |op: &str| -> String {
        match op {
            "<" => ">=",
            "<=" => ">",
            ">" => "<=",
            ">=" => "<",
            "=" => "!=",
            _ => "=",
        }
        .into()
    };
    match r.below(4) {
        0 => format!("{x} {} {c}", swap(&f.op)),
        1 => format!("NOT ({c} {} {x})", negate(&f.op)),
        2 => format!("NOT ({x} {} {c})", swap(&negate(&f.op))),
        _ => format!("{c} {} {x}", f.op),
    }
}

/// The rows a query with the conditions returns: id -> rows.
pub fn expected(t: &Tbl, c: &J) -> BTreeMap<String, usize> {
    c["parts"].as_array().unwrap().iter().filter(|p| p["row"] == true).map(|p| &t.parts[&key(p)]).map(|q| (q.id.clone(), q.rows)).collect()
}
pub fn root(t: &Tbl) -> &Path {
    &t.root
}
