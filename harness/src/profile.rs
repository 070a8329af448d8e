//! Rendering profile: how an abstract behaviour becomes a concrete table.
use crate::rng::Rng;
use crate::rows::{Col, Kind, Val, NESTED, RARE, REFUSED};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TsStyle {
    MsRandom,   // 17 digits, random gaps
    MsAdjacent, // 17 digits, 2 ms apart: points between are 1 ms away
    SecAligned, // 17 digits ending in 000
    Sec,        // 14 digits
    Mixed,      // older instants 14 digits, later 17 digits
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LogFmt {
    Avro,
    Parquet,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub seed: u64,
    pub ts: TsStyle,
    pub ts_base: i64, // epoch millis of instant 0
    pub hive: bool,
    pub urlenc: bool,
    pub part_kinds: Vec<Kind>, // one per partition column
    pub part_special: bool,
    pub part_props_absent: bool, // hive_style / urlencode not in hoodie.properties
    pub cfg_part_first: bool,    // partition columns reversed in the schema
    pub copies: i64,
    pub log_fmt: LogFmt,
    pub log_start: i64,
    pub row_group: usize,
    pub codec: u8,
    pub ord_kind: Kind,
    pub ord_style: u8, // 0: evenly spaced; else values that are near each other, extreme, or sort unlike they look
    pub payload: Vec<Col>,
    pub extras: bool,
    pub table_version: u8,
    pub shared_fids: bool,
    pub explicit_strategy: bool,
    pub base_style: u8, // spelling of the base location
    pub dir_style: u8,  // characters in the base location
    pub evolve_at: i64, // instant from which on the schema has one more column (0: never)
    pub empty_schema: bool, // data-less commits carry no schema
    pub keygen: u8,
    pub local_tz: bool,
    pub vanish: bool, // empty partition directories vanish
    pub rm_dup_stats: bool,
    pub nest: bool, // one partition's directory lies in another's
    pub stray_dirs: bool,
    pub style: u8,     // how the types are labelled in base files, see rows.rs
    pub log_style: u8, // and in the Parquet blocks of log files
    pub refused: bool, // a column of a type the reader may refuse in Avro blocks
    pub bad_logs: bool, // log files cannot be decoded: only read-optimized reads can succeed
}

fn payload_cols(kinds: &[Kind], rng: &mut Rng) -> Vec<Col> {
    kinds
        .iter()
        .enumerate()
        .map(|(i, k)| Col { name: format!("c{i}"), kind: *k, nullable: rng.pct(60) })
        .collect()
}

impl Profile {
    pub fn new(focus: &str, seed: u64, dims: usize, mor: bool) -> Profile {
        let mut r = Rng::new(seed);
        let has = |f: &str| focus.split(',').any(|x| x == f);
        let ts = if has("ts") {
            *r.pick(&[TsStyle::MsRandom, TsStyle::MsAdjacent, TsStyle::SecAligned, TsStyle::SecAligned, TsStyle::Sec, TsStyle::Mixed])
        } else {
            *r.pick(&[TsStyle::MsRandom, TsStyle::MsAdjacent, TsStyle::MsRandom, TsStyle::Sec, TsStyle::SecAligned])
        };
        // start shortly before a second/day/year boundary most of the time
        let bases = [1_703_980_799_000i64, 1_709_164_790_000, 1_718_000_000_000, 1_735_689_599_000, 1_700_000_000_000];
        let jitter = if matches!(ts, TsStyle::MsRandom | TsStyle::MsAdjacent) { r.below(999) as i64 } else { 0 };
        // with "dst": around the hour that occurs twice when the clocks of TZ (lib/table.py) are set back
        let bases = if has("dst") { [1_699_145_997_000i64, 1_699_146_000_000, 1_699_147_800_000, 1_699_149_595_000, 1_699_149_599_000] } else { bases };
        let ts_base = *r.pick(&bases) + jitter;
        let pk = [Kind::Str, Kind::Int, Kind::Long, Kind::Date, Kind::Str];
        let part_kinds: Vec<Kind> = (0..dims).map(|_| *r.pick(&pk)).collect();
        let wide = has("wide") || has("types") || r.pct(25);
        let all = [
            Kind::Str, Kind::Int, Kind::Long, Kind::Float, Kind::Double, Kind::Bool, Kind::Bytes,
            Kind::Date, Kind::TsMicros, Kind::TsMillis, Kind::Decimal, Kind::List, Kind::Struct,
        ];
        let kinds: Vec<Kind> = if wide {
            let n = 3 + r.below(6);
            let mut v: Vec<Kind> = (0..n).map(|_| *r.pick(&all)).collect();
            if has("wide") {
                v = all.to_vec();
            }
            if has("types") {
                let more: Vec<Kind> = all.iter().chain(&NESTED).chain(&RARE).copied().collect();
                v = (0..6).map(|_| *r.pick(&more)).collect();
            }
            v
        } else {
            vec![*r.pick(&[Kind::Str, Kind::Long])]
        };
        let mut payload = payload_cols(&kinds, &mut r);
        if has("refused") {
            let i = r.below(payload.len());
            payload[i].kind = *r.pick(&REFUSED);
        }
        let copies = match r.below(if has("fat") { 4 } else { 12 }) {
            0 => 700,
            1 => 3,
            2 => 12,
            _ => 1,
        };
        Profile {
            seed,
            ts,
            ts_base,
            hive: r.pct(50),
            urlenc: r.pct(if has("part") { 50 } else { 25 }),
            part_kinds,
            part_special: r.pct(if has("part") { 50 } else { 15 }),
            part_props_absent: false,
            cfg_part_first: r.pct(50),
            copies,
            log_fmt: *r.pick(&[LogFmt::Avro, LogFmt::Parquet, LogFmt::Mixed]),
            log_start: *r.pick(&[1, 1, 8, 98]),
            row_group: *r.pick(&[1_000_000, 2, 100]),
            codec: r.below(4) as u8,
            ord_kind: *r.pick(&[Kind::Int, Kind::Long, Kind::Double, Kind::Str, Kind::Date]),
            ord_style: 0,
            payload,
            extras: r.pct(if has("extras") { 80 } else { 35 }),
            table_version: if r.pct(70) { 6 } else { 5 },
            shared_fids: r.pct(60),
            explicit_strategy: r.pct(50),
            base_style: if has("loc") { r.below(4) as u8 } else { 0 },
            dir_style: if has("loc") { r.below(5) as u8 } else { 0 },
            evolve_at: if has("evolve") && r.pct(60) { 4 + 2 * r.below(8) as i64 } else { 0 },
            empty_schema: has("evolve") && r.pct(50),
            keygen: r.below(4) as u8,
            local_tz: has("dst") || has("tz") && r.pct(60),
            vanish: r.pct(50),
            rm_dup_stats: mor,
            nest: has("nest"),
            stray_dirs: has("extras") && Rng::new(seed ^ 0xd125).pct(30),
            bad_logs: has("badlogs"),
            refused: has("refused"),
            style: Rng::new(seed ^ 0x57e1).below(3) as u8,
            log_style: Rng::new(seed ^ 0x57e2).below(3) as u8,
        }
        .tweak(has("absent"), mor, &mut r)
        .ords(has("ord"))
        .nested()
    }
    pub fn tweak(mut self, absent: bool, mor: bool, r: &mut Rng) -> Self {
        if absent && r.pct(50) {
            self.part_props_absent = true;
        }
        if mor && self.log_fmt != LogFmt::Parquet {
            // the library refuses decimals in Avro log blocks
            for c in &mut self.payload {
                if c.kind == Kind::Decimal && !self.refused {
                    c.kind = Kind::Long;
                }
                // the Avro library knows no nanoseconds
                if c.kind == Kind::TsNanos {
                    c.kind = Kind::TimeMicros;
                }
            }
        }
        if self.part_props_absent {
            self.hive = false;
            self.urlenc = false;
        }
        self
    }

    fn nested(mut self) -> Self {
        if self.nest {
            self.part_kinds = vec![Kind::Str; self.part_kinds.len()];
            self.urlenc = false;
        }
        self
    }

    fn ords(mut self, ord: bool) -> Self {
        let mut r = Rng::new(self.seed ^ 0x5eed);
        if ord {
            self.ord_style = r.below(4) as u8;
            self.ord_kind = *r.pick(&[Kind::Int, Kind::Long, Kind::Long, Kind::Double, Kind::Float, Kind::Str, Kind::Date, Kind::TsMicros, Kind::TsMillis]);
        }
        self
    }

    /// The ordering value standing for o in 0..=5 (increasing with o).
    pub fn ord_val(&self, o: i64) -> Val {
        let i = o.clamp(0, 5) as usize;
        let int = |a: [i32; 6]| Val::Int(a[i]);
        let long = |a: [i64; 6]| Val::Long(a[i]);
        match (self.ord_kind, self.ord_style) {
            (Kind::Int | Kind::Date, 0) => Val::Int((o * 7 - 10) as i32),
            (Kind::Int, 1) => int([i32::MIN, -1, 0, 1, i32::MAX - 1, i32::MAX]),
            (Kind::Int, 2) => int([16_777_215, 16_777_216, 16_777_217, 16_777_218, 16_777_219, 16_777_220]),
            (Kind::Int, _) => int([-300, -2, 9, 10, 100, 255]),
            (Kind::Date, _) => int([-400, -1, 0, 1, 19_000, 19_001]),
            (Kind::Long, 0) => Val::Long(o * 1_000_000_007 - 2_000_000_000),
            (Kind::Long, 1) => long([i64::MIN, -1, 0, 1, i64::MAX - 1, i64::MAX]),
            (Kind::Long, 2) => Val::Long(1_732_000_000_123_456_700 + o),
            (Kind::Long, _) => long([-4_294_967_297, -4_294_967_296, 1, 4_294_967_296, 4_294_967_297, 8_589_934_592]),
            (Kind::TsMicros | Kind::TsMillis, 1) => long([-1_000_001, -1, 0, 1, 999, 1_000]),
            (Kind::TsMicros | Kind::TsMillis, _) => Val::Long(1_732_000_000_123_456 + o),
            (Kind::Double, 0) => Val::Double(o as f64 * 1.5 - 3.0),
            (Kind::Double, 1) => Val::Double([f64::MIN, -1e-300, 0.0, 1e-300, 1.0, f64::MAX][i]),
            (Kind::Double, _) => Val::Double(16_777_216.0 + o as f64 * 1e-7),
            (Kind::Float, 1) => Val::Float([f32::MIN, -1e-30, 0.0, 1e-30, 1.0, f32::MAX][i]),
            (Kind::Float, _) => Val::Float(o as f32 * 0.125 - 0.5),
            (_, 1) => Val::Str(["", "10", "100", "2", "20", "3"][i].into()),
            (_, 2) => Val::Str(["A", "a", "a ", "aa", "ab", "é"][i].into()),
            _ => Val::Str(format!("o{o}")),
        }
    }

    /// Timestamp string of abstract time n (odd: strictly between instants).
    pub fn ts_string(&self, n: i64) -> String {
        let ms = self.ts_millis(n);
        let dt = chrono::DateTime::from_timestamp_millis(ms).unwrap();
        let s14 = dt.format("%Y%m%d%H%M%S").to_string();
        match self.ts {
            TsStyle::Sec => s14,
            TsStyle::Mixed if n < 10 => s14,
            _ => format!("{}{:03}", s14, ms.rem_euclid(1000)),
        }
    }
    pub fn ts_millis(&self, n: i64) -> i64 {
        let h = |i: i64| crate::rng::hash(&[self.seed as i64, 77, i]) as i64 & 0x7fff_ffff;
        // even instants: cumulative gaps; odd: 1 unit after the instant before
        let e = n.div_euclid(2);
        let unit = match self.ts {
            TsStyle::Sec | TsStyle::SecAligned | TsStyle::Mixed => 1000,
            _ => 1,
        };
        let mut t = self.ts_base;
        for i in 0..e.max(0) {
            t += match self.ts {
                TsStyle::MsAdjacent => 2,
                TsStyle::MsRandom => 2 + h(i) % if i % 3 == 0 { 40_000_000 } else { 900 },
                TsStyle::Sec => 1000 * (2 + h(i) % if i % 3 == 0 { 50_000 } else { 3 }),
                TsStyle::SecAligned => 1000 * (2 + h(i) % if i % 3 == 0 { 50_000 } else { 2 }),
                TsStyle::Mixed => if i < 4 { 2000 } else { 1000 * (2 + h(i) % 4) },
            };
        }
        if n % 2 != 0 {
            t += unit;
        }
        t
    }
    /// A user-given spelling of time n: sometimes the second form of a
    /// millisecond timestamp or the other way round.
    pub fn ts_user(&self, n: i64, r: &mut Rng) -> String {
        let s = self.ts_string(n);
        if s.len() == 17 && s.ends_with("000") && r.pct(50) {
            return s[..14].to_string();
        }
        if s.len() == 14 && r.pct(30) {
            return format!("{s}000");
        }
        s
    }

    /// Spelling of a partition column value; x is the doubled coordinate, so
    /// odd values lie between two partitions' values.
    pub fn coord(&self, col: usize, x: i64) -> String {
        match self.part_kinds.get(col).copied().unwrap_or(Kind::Str) {
            Kind::Int | Kind::Long => {
                // negative, one- and two-digit numbers: numeric and string order differ
                let v = [-20, -7, -3, 1, 5, 9, 10, 55, 100, 1000];
                v[x.clamp(0, 9) as usize].to_string()
            }
            Kind::Date => {
                let base = chrono::NaiveDate::from_ymd_opt(2023, 12, 29).unwrap();
                (base + chrono::Duration::days(x)).format("%Y-%m-%d").to_string()
            }
            _ => {
                let plain = ["A0", "B1", "B2", "C", "D", "a", "aa", "b", "c", "d"];
                let special = [" ", "10%", "A b", "A:b", "B=2+3&4", "C", "metadata", "n", "é", "日本"];
                let enc = ["#", "2021/01/01", "2021/01/02", "2021/02", "A b", "a", "b%20c", "c?", "d=e/f", "é/é"];
                // (names do not end like a hive-style column)
                let nest = ["", "m", "n", "n/", "n/a", "n/b", "n/a/2", "o", "p", "q"];
                let l = if self.nest { &nest } else if !self.part_special { &plain } else if self.urlenc { &enc } else { &special };
                l[x.clamp(0, 9) as usize].to_string()
            }
        }
    }
    pub fn part_cols(&self) -> Vec<String> {
        (0..self.part_kinds.len()).map(|i| format!("part{}", ["b", "a"][i])).collect()
    }
}

/// Hudi's URL encoding of partition values (PartitionPathEncodeUtils).
pub fn hudi_escape(s: &str) -> String {
    let special = "\"#%'*/:=?\\{}[]^\x7f";
    let mut out = String::new();
    for c in s.chars() {
        if (c as u32) < 0x20 || special.contains(c) {
            out.push_str(&format!("%{:02X}", c as u32));
        } else {
            out.push(c);
        }
    }
    out
}
