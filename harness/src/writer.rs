//! Performs the writer events of a generated behaviour on a real table
//! directory: one storage operation of a Hudi writer per event.
use crate::profile::{hudi_escape, LogFmt, Profile};
use crate::rng::Rng;
use crate::rows::*;
use arrow_array::RecordBatch;
use arrow_schema::SchemaRef;
use parquet::arrow::ArrowWriter;
use parquet::basic::Compression;
use parquet::file::properties::WriterProperties;
use serde_json::{json, Map, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

pub const META: [&str; 5] = [
    "_hoodie_commit_time",
    "_hoodie_commit_seqno",
    "_hoodie_record_key",
    "_hoodie_partition_path",
    "_hoodie_file_name",
];

#[derive(Clone, Debug)]
pub struct Plan {
    pub act: String,
    pub op: String,
    pub items: Vec<J>,
    pub repl: Vec<(i64, i64)>,
    /// write statistics collected so far: item -> stat
    pub stats: BTreeMap<usize, (i64, J)>,
}

pub struct Writer {
    pub prof: Profile,
    pub root: PathBuf,
    pub mor: bool,
    pub app: bool,
    pub dims: i64,
    pub plans: BTreeMap<i64, Plan>,
    pub base: BTreeMap<(i64, i64, i64), (String, i64)>, // -> file name, rows
    pub logs: BTreeMap<(i64, i64, i64), Vec<String>>,   // -> file names, in order
    pub cols: Vec<Col>,
    pub rng: Rng,
    pub commits: BTreeMap<i64, String>, // completed instants' metadata
    pub extra_col: Col,
}

fn codec(c: u8) -> Compression {
    match c {
        1 => Compression::SNAPPY,
        2 => Compression::GZIP(Default::default()),
        3 => Compression::ZSTD(Default::default()),
        _ => Compression::UNCOMPRESSED,
    }
}

pub fn arows(v: &J) -> Vec<ARow> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|r| {
                    let g = |i: usize| r[i].as_i64().unwrap();
                    ARow { p: 0, k: g(0), v: g(1), o: g(2), q: g(3) }
                })
                .collect()
        })
        .unwrap_or_default()
}

impl Writer {
    pub fn new(prof: Profile, root: PathBuf, mor: bool, app: bool, dims: i64) -> Writer {
        let mut cols: Vec<Col> = META
            .iter()
            .map(|m| Col { name: m.to_string(), kind: Kind::Str, nullable: true })
            .collect();
        let mut parts: Vec<Col> = prof
            .part_cols()
            .into_iter()
            .zip(&prof.part_kinds)
            .map(|(name, kind)| Col { name, kind: *kind, nullable: true })
            .collect();
        if prof.cfg_part_first {
            parts.reverse();
        }
        cols.push(Col { name: "id".into(), kind: Kind::Str, nullable: false });
        let tail = parts.split_off(parts.len() / 2);
        cols.extend(parts);
        cols.push(Col { name: "ord".into(), kind: prof.ord_kind, nullable: true });
        cols.extend(prof.payload.clone());
        cols.extend(tail);
        let rng = Rng::new(prof.seed ^ 0xabcdef);
        let extra_kind = [Kind::Long, Kind::Str, Kind::Double, Kind::Date, Kind::Bool, Kind::Struct][(prof.seed % 6) as usize];
        let extra_col = Col { name: "added".into(), kind: extra_kind, nullable: true };
        Writer {
            prof, root, mor, app, dims, plans: BTreeMap::new(), base: BTreeMap::new(), logs: BTreeMap::new(),
            cols, rng, commits: BTreeMap::new(), extra_col,
        }
    }

    pub fn cols_at(&self, t: i64) -> Vec<Col> {
        let mut c = self.cols.clone();
        if self.prof.evolve_at > 0 && t >= self.prof.evolve_at {
            c.push(self.extra_col.clone());
        }
        c
    }
    pub fn schema_at(&self, t: i64) -> SchemaRef {
        self.batch(&[], &self.cols_at(t), "").schema()
    }
    pub fn avro_at(&self, t: i64) -> String {
        avro_schema(&self.cols_at(t), "t_record").to_string()
    }

    /// (column coordinates) of partition p
    pub fn coords(&self, p: i64) -> Vec<i64> {
        match self.dims {
            0 => vec![],
            1 => vec![p],
            _ => vec![(p - 1) / 2 + 1, (p - 1) % 2 + 1],
        }
    }
    pub fn part_vals(&self, p: i64) -> Vec<String> {
        self.coords(p).iter().enumerate().map(|(i, c)| self.prof.coord(i, 2 * c)).collect()
    }
    pub fn part_path(&self, p: i64) -> String {
        let names = self.prof.part_cols();
        self.part_vals(p)
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let v = if self.prof.urlenc { hudi_escape(v) } else { v.clone() };
                if self.prof.hive { format!("{}={}", names[i], v) } else { v }
            })
            .collect::<Vec<_>>()
            .join("/")
    }
    pub fn nparts(&self) -> i64 {
        match self.dims {
            0 => 1,
            1 => 3,
            _ => 4,
        }
    }
    pub fn part_of_path(&self, path: &str) -> Option<i64> {
        (1..=self.nparts()).find(|p| self.part_path(*p) == path)
    }
    pub fn fid(&self, p: i64, f: i64) -> String {
        let pp = if self.prof.shared_fids { 0 } else { p };
        let h = crate::rng::hash(&[self.prof.seed as i64, f, pp, 5]);
        format!("{:08x}-{:04x}-4{:03x}-8{:03x}-{:012x}-{}", h as u32, (h >> 32) as u16, f, pp, h >> 16, f % 2)
    }
    pub fn fid_of(&self, p: i64, fid: &str) -> Option<i64> {
        (1..60).find(|f| self.fid(p, *f) == fid)
    }
    pub fn ts(&self, n: i64) -> String {
        self.prof.ts_string(n)
    }
    pub fn instant_of(&self, ts: &str) -> Option<i64> {
        (1..80).map(|i| 2 * i).find(|n| self.ts(*n) == ts)
    }

    pub fn meta_dir(&self) -> PathBuf {
        self.root.join(".hoodie")
    }
    pub fn put(&self, rel: &str, data: &[u8]) {
        let p = self.root.join(rel);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, data).unwrap();
    }
    fn del(&self, rel: &str) {
        let _ = fs::remove_file(self.root.join(rel));
    }
    pub fn rel(&self, p: i64, name: &str) -> String {
        let pp = self.part_path(p);
        if pp.is_empty() { name.to_string() } else { format!("{pp}/{name}") }
    }

    pub fn properties(&self) -> String {
        let mut s = String::from("#Properties saved on 2025-01-21T00:05:39Z\n#Tue Jan 21 00:05:39 UTC 2025\n");
        let mut add = |k: &str, v: &str| s.push_str(&format!("{k}={v}\n"));
        add("hoodie.table.name", "t");
        add("hoodie.table.type", if self.mor { "MERGE_ON_READ" } else { "COPY_ON_WRITE" });
        add("hoodie.table.version", &self.prof.table_version.to_string());
        add("hoodie.timeline.layout.version", "1");
        add("hoodie.table.recordkey.fields", "id");
        add("hoodie.table.base.file.format", "PARQUET");
        add("hoodie.archivelog.folder", "archived");
        add("hoodie.datasource.write.drop.partition.columns", "false");
        if !self.prof.part_props_absent {
            add("hoodie.datasource.write.hive_style_partitioning", &self.prof.hive.to_string());
            add("hoodie.datasource.write.partitionpath.urlencode", &self.prof.urlenc.to_string());
        }
        if self.prof.local_tz {
            add("hoodie.table.timeline.timezone", "LOCAL");
        }
        let explicit = self.prof.explicit_strategy;
        if self.app {
            if explicit {
                add("hoodie.table.record.merge.strategy", "APPEND_ONLY");
                add("hoodie.table.precombine.field", "ord");
            }
        } else {
            if explicit {
                add("hoodie.table.record.merge.strategy", "OVERWRITE_WITH_LATEST");
            }
            add("hoodie.table.precombine.field", "ord");
        }
        if self.dims > 0 {
            add("hoodie.table.partition.fields", &self.prof.part_cols().join(","));
            add(
                "hoodie.table.keygenerator.class",
                if self.dims == 1 { "org.apache.hudi.keygen.SimpleKeyGenerator" } else { "org.apache.hudi.keygen.ComplexKeyGenerator" },
            );
        } else {
            match self.prof.keygen {
                0 => {}
                1 => add("hoodie.table.keygenerator.class", "org.apache.hudi.keygen.NonpartitionedKeyGenerator"),
                2 => add("hoodie.table.partition.fields", ""),
                // not partitioned whatever fields are told
                _ => {
                    add("hoodie.table.partition.fields", "ord");
                    add("hoodie.table.keygenerator.class", "org.apache.hudi.keygen.NonpartitionedKeyGenerator");
                }
            }
        }
        s
    }

    pub fn init(&mut self) {
        fs::create_dir_all(self.meta_dir()).unwrap();
        for d in [".aux", ".temp", "archived", ".schema"] {
            fs::create_dir_all(self.meta_dir().join(d)).unwrap();
        }
        let props = self.properties();
        self.put(".hoodie/hoodie.properties", props.as_bytes());
        if self.prof.extras {
            self.put(".hoodie/.hoodie.properties.crc", b"crc\x00\x00");
            self.put(".hoodie/metadata/.hoodie/hoodie.properties", b"hoodie.table.name=t_metadata\n");
            self.put(".hoodie/metadata/files/files-0000-0_0-1-1_00000000000000.hfile", b"x");
            self.put(".hoodie/.aux/.bootstrap/.partitions/x", b"");
            self.put(".hoodie/.heartbeat/20200101000000000", b"");
            // the table is synced to other formats
            self.put("metadata/v1.metadata.json", b"{}");
            self.put("metadata/snap-1-1-x.avro", b"Obj\x01");
            self.put("_delta_log/00000000000000000000.json", b"{}");
            self.put("_delta_log/00000000000000000010.checkpoint.parquet", b"PAR1");
        }
    }

    fn ensure_partition(&mut self, p: i64) {
        let marker = self.rel(p, ".hoodie_partition_metadata");
        let full = self.root.join(&marker);
        if !full.exists() {
            let t = self.ts(2);
            let depth = self.dims;
            self.put(&marker, format!("#partition metadata\ncommitTime={t}\npartitionDepth={depth}\n").as_bytes());
            if self.prof.stray_dirs {
                // what an engine's aborted job leaves
                let d = self.rel(p, ".hive-staging_hive_2024-01-01_1/_tmp.-ext-10000");
                fs::create_dir_all(self.root.join(&d)).unwrap();
                self.put(&format!("{d}/_SUCCESS"), b"");
            }
            if self.prof.extras {
                let crc = self.rel(p, "..hoodie_partition_metadata.crc");
                self.put(&crc, b"crc\x00");
            }
        }
    }

    /// Physical values of one abstract row copy.
    fn cell(&self, r: &ARow, copy: i64, col: &Col, ci: usize, file: &str) -> Val {
        match col.name.as_str() {
            "_hoodie_commit_time" => Val::Str(self.ts(r.v)),
            "_hoodie_commit_seqno" => Val::Str(format!("{}_{}_{}", self.ts(r.v), r.q, copy)),
            "_hoodie_record_key" | "id" => Val::Str(format!("k{}#{copy}", r.k)),
            "_hoodie_partition_path" => Val::Str(self.part_path(r.p)),
            "_hoodie_file_name" => Val::Str(file.to_string()),
            "ord" => {
                if r.o < 0 {
                    return Val::Null;
                }
                self.prof.ord_val(r.o)
            }
            n if n.starts_with("part") => {
                let i = self.prof.part_cols().iter().position(|x| x == n).unwrap();
                let s = &self.part_vals(r.p)[i];
                match col.kind {
                    Kind::Int => Val::Int(s.parse().unwrap()),
                    Kind::Long => Val::Long(s.parse().unwrap()),
                    Kind::Date => {
                        let d = chrono::NaiveDate::parse_from_str(s, "%Y-%m-%d").unwrap();
                        Val::Int((d - chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days() as i32)
                    }
                    _ => Val::Str(s.clone()),
                }
            }
            // rows written before the column was added have no value for it
            "added" if r.v < self.prof.evolve_at => Val::Null,
            _ => r.payload(col, ci, copy),
        }
    }

    pub fn ord_of(&self, v: &Val) -> i64 {
        if *v == Val::Null { -1 } else { (0..=5).find(|o| self.prof.ord_val(*o) == *v).unwrap_or(-9) }
    }

    pub fn expand(&self, rows: &[ARow]) -> Vec<(ARow, i64)> {
        // copies interleave the keys: copy-major order
        (0..self.prof.copies).flat_map(|c| rows.iter().map(move |r| (*r, c))).collect()
    }

    /// The rows as a base file holds them.
    pub fn batch(&self, rows: &[(ARow, i64)], cols: &[Col], file: &str) -> RecordBatch {
        self.batch_in(rows, cols, file, self.prof.style)
    }
    fn batch_in(&self, rows: &[(ARow, i64)], cols: &[Col], file: &str, style: u8) -> RecordBatch {
        let arrays = cols
            .iter()
            .enumerate()
            .map(|(ci, c)| to_array(c, &rows.iter().map(|(r, i)| self.cell(r, *i, c, ci, file)).collect::<Vec<_>>()))
            .collect();
        styled(RecordBatch::try_new(arrow_schema(cols), arrays).unwrap(), cols, style)
    }

    fn parquet_bytes(&self, batch: &RecordBatch) -> Vec<u8> {
        let props = WriterProperties::builder()
            .set_compression(codec(self.prof.codec))
            .set_max_row_group_size(self.prof.row_group.max((batch.num_rows() / 8).max(1)))
            .set_dictionary_enabled(self.prof.seed % 2 == 0)
            .build();
        let mut buf = Vec::new();
        let mut w = ArrowWriter::try_new(&mut buf, batch.schema(), Some(props)).unwrap();
        w.write(batch).unwrap();
        w.close().unwrap();
        buf
    }

    pub fn block(header: &[(u32, String)], btype: u32, content: &[u8]) -> Vec<u8> {
        Self::block_of(1, header, btype, content)
    }
    pub fn block_of(version: u32, header: &[(u32, String)], btype: u32, content: &[u8]) -> Vec<u8> {
        Self::block_full(version, header, btype, content, &[])
    }
    /// With what else may be in a header and a footer, in any order.
    pub fn block_dressed(version: u32, header: &[(u32, String)], btype: u32, content: &[u8], r: &mut Rng) -> Vec<u8> {
        let (mut h, mut f) = (header.to_vec(), Vec::new());
        if r.pct(40) {
            let more = [(4u32, "19700101000000000".to_string()), (5, "OjAAAAEAAAAAAAAAEAAAAAEA".to_string()), (6, "0,3".to_string()), (5, String::new())];
            let n = r.below(3);
            for _ in 0..n {
                let m = r.pick(&more).clone();
                if h.iter().all(|x| x.0 != m.0) {
                    h.push(m);
                }
            }
            let n = r.below(3);
            for _ in 0..n {
                f.push(r.pick(&more).clone());
            }
            r.shuffle(&mut h);
        }
        Self::block_full(version, &h, btype, content, &f)
    }
    /// Only version 1 has a footer and the total length.
    pub fn block_full(version: u32, header: &[(u32, String)], btype: u32, content: &[u8], footer: &[(u32, String)]) -> Vec<u8> {
        let mut body = Vec::new();
        body.extend(version.to_be_bytes());
        body.extend(btype.to_be_bytes());
        let entries = |body: &mut Vec<u8>, es: &[(u32, String)]| {
            body.extend((es.len() as u32).to_be_bytes());
            for (k, v) in es {
                body.extend(k.to_be_bytes());
                body.extend((v.len() as u32).to_be_bytes());
                body.extend(v.as_bytes());
            }
        };
        entries(&mut body, header);
        body.extend((content.len() as u64).to_be_bytes());
        body.extend(content);
        if version == 1 {
            entries(&mut body, footer);
        }
        let len = body.len() as u64 + if version == 1 { 8 } else { 0 };
        let mut out = b"#HUDI#".to_vec();
        out.extend(len.to_be_bytes());
        out.extend(body);
        if version == 1 {
            out.extend((len + 6).to_be_bytes());
        }
        out
    }

    /// Content of a data block in Avro (true) or Parquet.
    pub fn data_content(&self, rows: &[(ARow, i64)], cols: &[Col], file: &str, avro: bool) -> Vec<u8> {
        if avro {
            let sch = apache_avro::Schema::parse_str(&avro_schema(cols, "t_record").to_string()).unwrap();
            let mut c = Vec::new();
            c.extend(3u32.to_be_bytes());
            c.extend((rows.len() as u32).to_be_bytes());
            for (r, i) in rows {
                let rec = apache_avro::types::Value::Record(
                    cols.iter()
                        .enumerate()
                        .map(|(ci, col)| (col.name.clone(), to_avro(col, &self.cell(r, *i, col, ci, file))))
                        .collect(),
                );
                let d = apache_avro::to_avro_datum(&sch, rec).unwrap();
                c.extend((d.len() as u32).to_be_bytes());
                c.extend(d);
            }
            c
        } else {
            let b = self.batch_in(rows, cols, file, self.prof.log_style);
            self.parquet_bytes(&b)
        }
    }

    pub fn data_block(&mut self, t: i64, rows: &[(ARow, i64)], cols: &[Col], file: &str) -> Vec<u8> {
        let schema = avro_schema(cols, "t_record").to_string();
        let header = vec![(0u32, self.ts(t)), (2u32, schema)];
        let use_avro = match self.prof.log_fmt {
            LogFmt::Avro => true,
            LogFmt::Parquet => false,
            LogFmt::Mixed => self.rng.pct(50),
        };
        let c = self.data_content(rows, cols, file, use_avro);
        Self::block_dressed(1, &header, if use_avro { 3 } else { 5 }, &c, &mut self.rng)
    }

    pub fn command_block(&mut self, rb: i64, target: i64) -> Vec<u8> {
        Self::block_dressed(1, &[(0, self.ts(rb)), (1, self.ts(target)), (3, "0".into())], 0, &[], &mut self.rng)
    }

    fn append_log(&mut self, p: i64, f: i64, b: i64, bytes: &[u8], roll: bool) -> String {
        let key = (p, f, b);
        let n = self.logs.get(&key).map(|l| l.len()).unwrap_or(0);
        let name = if n == 0 || roll {
            let ver = self.prof.log_start + n as i64;
            let tok = format!("{}-{}-{}", self.rng.below(3), self.rng.below(60), self.rng.below(200));
            let name = format!(".{}_{}.log.{}_{}", self.fid(p, f), self.ts(b), ver, tok);
            self.logs.entry(key).or_default().push(name.clone());
            name
        } else {
            self.logs[&key][n - 1].clone()
        };
        let full = self.root.join(self.rel(p, &name));
        let mut data = fs::read(&full).unwrap_or_default();
        data.extend(bytes);
        if self.prof.bad_logs {
            match crate::rng::hash(&[self.prof.seed as i64, p, f, b, n as i64]) % 4 {
                0 => data.extend(Self::block(&[(0, self.ts(b))], 1, b"deletes")),
                1 => data.extend(b"garbage"),
                2 => data.truncate(data.len() - 9),
                _ => data[0] ^= 1,
            }
        }
        fs::write(full, data).unwrap();
        if self.prof.extras && self.rng.pct(30) {
            let cdc = format!("{}{}", name, ".cdc");
            let rel = self.rel(p, &cdc);
            self.put(&rel, b"#HUDI#not a data log");
            let crc = self.rel(p, &format!("{name}.crc"));
            self.put(&crc, b"crc");
        }
        name
    }

    fn item_rows(it: &J, field: &str, p: i64) -> Vec<ARow> {
        let mut v = arows(&it[field]);
        for r in &mut v {
            r.p = p;
        }
        v
    }

    /// Executes one writer event.
    pub fn exec(&mut self, e: &J) {
        let i = |k: &str| e[k].as_i64().unwrap();
        match e["ev"].as_str().unwrap() {
            "begin" => {
                let t = i("t");
                let act = e["act"].as_str().unwrap().to_string();
                let op = e["op"].as_str().unwrap().to_string();
                let items = e["items"].as_array().cloned().unwrap_or_default();
                let repl = e["repl"]
                    .as_array()
                    .map(|a| a.iter().map(|x| (x[0].as_i64().unwrap(), x[1].as_i64().unwrap())).collect())
                    .unwrap_or_default();
                let ts = self.ts(t);
                let name = Self::pending_act(&act, &op);
                let body: &[u8] = if self.rng.pct(50) { b"" } else { b"Obj\x01avro.schema" };
                self.put(&format!(".hoodie/{ts}.{name}.requested"), body);
                self.plans.insert(t, Plan { act, op, items, repl, stats: BTreeMap::new() });
            }
            "inflight" => {
                let t = i("t");
                let f = self.inflight_name(t);
                self.put(&f, b"{\"partitionToWriteStats\":{},\"operationType\":\"UPSERT\"}");
                if self.prof.extras {
                    self.put(&format!(".hoodie/.temp/{}/MARKERS.type", self.ts(t)), b"TIMELINE_SERVER_BASED");
                }
            }
            "witem" => self.write_item(i("t"), i("i") as usize - 1),
            "torn" => {
                let t = i("t");
                let idx = i("i") as usize - 1;
                let it = self.plans[&t].items[idx].clone();
                let (p, f) = (it["p"].as_i64().unwrap(), it["f"].as_i64().unwrap());
                self.ensure_partition(p);
                if !self.base.contains_key(&(p, f, t)) {
                    let name = format!("{}_{}-1-1_{}.parquet", self.fid(p, f), idx, self.ts(t));
                    let rel = self.rel(p, &name);
                    let junk = b"PAR1\x15\x04\x15\x10\x15\x14garbage-of-a-crashed-writer";
                    let n = self.rng.below(junk.len());
                    self.put(&rel, &junk[..n]);
                    self.base.insert((p, f, t), (name, 0));
                }
            }
            "complete" => self.complete(i("t")),
            "rbbegin" => {
                let rb = self.ts(i("rb"));
                self.put(&format!(".hoodie/{rb}.rollback.requested"), b"");
                self.put(&format!(".hoodie/{rb}.rollback.inflight"), b"");
            }
            "rbitem" => {
                let t = i("t");
                let it = self.plans[&t].items[i("i") as usize - 1].clone();
                let (p, f, b) = (it["p"].as_i64().unwrap(), it["f"].as_i64().unwrap(), it["b"].as_i64().unwrap());
                if it["k"] == "base" {
                    if let Some((name, _)) = self.base.remove(&(p, f, t)) {
                        let rel = self.rel(p, &name);
                        self.del(&rel);
                    }
                } else if e["app"].as_bool().unwrap_or(true) && self.wrote_block(t, p, f, b) {
                    let blk = self.command_block(i("rb"), t);
                    self.append_log(p, f, b, &blk, e["roll"] == true);
                }
            }
            "rbend" => {
                let t = i("t");
                let f = self.inflight_name(t);
                self.del(&f);
                let (name, compact) = { let p = &self.plans[&t]; (Self::pending_act(&p.act, &p.op), p.op == "compact") };
                if !compact {
                    // a compaction stays scheduled when its execution is rolled back
                    let rq = format!(".hoodie/{}.{}.requested", self.ts(t), name);
                    self.del(&rq);
                }
                let rb = self.ts(i("rb"));
                self.put(&format!(".hoodie/{rb}.rollback"), b"Obj\x01");
                if compact {
                    self.plans.get_mut(&t).unwrap().stats.clear();
                } else {
                    self.plans.remove(&t);
                }
            }
            "clean" => {
                let key = (i("p"), i("f"), i("b"));
                for l in self.logs.remove(&key).unwrap_or_default() {
                    let rel = self.rel(key.0, &l);
                    self.del(&rel);
                    for sfx in [".cdc", ".crc"] {
                        self.del(&format!("{rel}{sfx}"));
                    }
                }
                if let Some((name, _)) = self.base.remove(&key) {
                    let rel = self.rel(key.0, &name);
                    self.del(&rel);
                }
                if self.prof.vanish && !self.prof.nest && self.dims > 0 && !self.base.keys().any(|k| k.0 == key.0) {
                    // an object store has no empty directories
                    let d = self.root.join(self.part_path(key.0));
                    let _ = fs::remove_dir_all(&d);
                }
                if self.prof.extras {
                    let ts = self.prof.ts_string(1);
                    self.put(&format!(".hoodie/{ts}.clean"), b"Obj\x01");
                    self.put(&format!(".hoodie/{ts}.clean.requested"), b"Obj\x01");
                    self.put(&format!(".hoodie/{ts}.clean.inflight"), b"Obj\x01");
                }
            }
            "archive" => {
                let t = i("t");
                let ts = self.ts(t);
                let (act, name) = { let p = &self.plans[&t]; (p.act.clone(), Self::pending_act(&p.act, &p.op)) };
                self.del(&format!(".hoodie/{ts}.{act}"));
                let f = self.inflight_name(t);
                self.del(&f);
                self.del(&format!(".hoodie/{ts}.{name}.requested"));
                self.put(".hoodie/archived/.commits_.archive.1_1-0-1", b"Obj");
            }
            x => panic!("unknown event {x}"),
        }
    }

    fn wrote_block(&self, t: i64, p: i64, f: i64, b: i64) -> bool {
        // the block is there iff some item of t for this slice was written
        self.plans[&t].stats.iter().any(|(idx, _)| {
            let it = &self.plans[&t].items[*idx];
            it["k"] == "log" && it["p"] == p && it["f"] == f && it["b"] == b
        })
    }

    fn pending_act(act: &str, op: &str) -> String {
        if op == "compact" { "compaction".into() } else { act.into() }
    }
    fn inflight_name(&self, t: i64) -> String {
        let ts = self.ts(t);
        let p = &self.plans[&t];
        match (p.act.as_str(), p.op.as_str()) {
            (_, "compact") => format!(".hoodie/{ts}.compaction.inflight"),
            ("commit", _) => format!(".hoodie/{ts}.inflight"),
            (a, _) => format!(".hoodie/{ts}.{a}.inflight"),
        }
    }

    fn write_item(&mut self, t: i64, idx: usize) {
        let it = self.plans[&t].items[idx].clone();
        let (p, f, b) = (it["p"].as_i64().unwrap(), it["f"].as_i64().unwrap(), it["b"].as_i64().unwrap());
        self.ensure_partition(p);
        let rows = self.expand(&Self::item_rows(&it, "rows", p));
        let cols = self.cols_at(t);
        let stat;
        if it["k"] == "base" {
            if let Some((old, _)) = self.base.remove(&(p, f, t)) {
                let rel = self.rel(p, &old);
                self.del(&rel); // torn attempt
            }
            let name = format!("{}_{}-{}-{}_{}.parquet", self.fid(p, f), idx, self.rng.below(50), self.rng.below(99), self.ts(t));
            let batch = self.batch(&rows, &cols, &name);
            let bytes = self.parquet_bytes(&batch);
            let rel = self.rel(p, &name);
            self.put(&rel, &bytes);
            if self.prof.extras {
                let crc = self.rel(p, &format!(".{name}.crc"));
                self.put(&crc, b"crc\x00");
            }
            stat = self.stat(p, f, &rel, rows.len());
            self.base.insert((p, f, t), (name, rows.len() as i64));
        } else {
            // no base file yet if the log is written onto a pending compaction
            let nb = it["nb"] == true;
            let file = if nb { String::new() } else { self.base[&(p, f, b)].0.clone() };
            let blk = self.data_block(t, &rows, &cols, &file);
            let name = self.append_log(p, f, b, &blk, it["roll"] == true);
            let rel = self.rel(p, &name);
            let mut s = self.stat(p, f, &rel, rows.len());
            s["baseFile"] = json!(file);
            // log files of the slice this write knows of: all so far
            s["logFiles"] = json!(self.logs[&(p, f, b)]);
            s["logVersion"] = json!(1);
            s["logOffset"] = json!(0);
            stat = s;
        }
        self.plans.get_mut(&t).unwrap().stats.insert(idx, (p, stat));
    }

    fn stat(&self, p: i64, f: i64, rel: &str, n: usize) -> J {
        json!({"fileId": self.fid(p, f), "path": rel, "cdcStats": null, "prevCommit": "null",
               "numWrites": n, "numDeletes": 0, "numUpdateWrites": 0, "numInserts": n,
               "totalWriteBytes": 1, "totalWriteErrors": 0, "partitionPath": self.part_path(p),
               "fileSizeInBytes": 1})
    }

    pub fn metadata(&self, t: i64) -> J {
        let plan = &self.plans[&t];
        let mut pws: Map<String, J> = Map::new();
        for (p, s) in plan.stats.values() {
            pws.entry(self.part_path(*p)).or_insert_with(|| json!([])).as_array_mut().unwrap().push(s.clone());
        }
        let mut extra = Map::new();
        if !(plan.items.is_empty() && self.prof.empty_schema) {
            extra.insert("schema".into(), json!(self.avro_at(t)));
        }
        let mut m = json!({
            "partitionToWriteStats": pws,
            "compacted": plan.op == "compact",
            "extraMetadata": extra,
            "operationType": plan.op,
        });
        if plan.act == "replacecommit" {
            let mut r: Map<String, J> = Map::new();
            for (p, f) in &plan.repl {
                r.entry(self.part_path(*p)).or_insert_with(|| json!([])).as_array_mut().unwrap().push(json!(self.fid(*p, *f)));
            }
            m["partitionToReplaceFileIds"] = J::Object(r);
        }
        m
    }

    fn complete(&mut self, t: i64) {
        let m = serde_json::to_string_pretty(&self.metadata(t)).unwrap();
        let f = format!(".hoodie/{}.{}", self.ts(t), self.plans[&t].act);
        self.put(&f, m.as_bytes());
        if self.prof.extras {
            self.put(&format!(".hoodie/.{}.{}.crc", self.ts(t), self.plans[&t].act), b"crc");
        }
        self.commits.insert(t, m);
    }

    pub fn partition_dirs(&self) -> BTreeSet<String> {
        self.base.keys().map(|k| self.part_path(k.0)).collect()
    }
    pub fn exists(&self, rel: &str) -> bool {
        Path::new(&self.root.join(rel)).exists()
    }
}
