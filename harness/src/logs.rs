//! Replays the behaviours of spec/LogFile.tla: log files of given blocks,
//! damaged in one field, read by the real library.
use crate::observer::*;
use crate::profile::{LogFmt, Profile};
use crate::replay::*;
use crate::rng::{hash, Rng};
use crate::rows::*;
use crate::writer::Writer;
use futures::FutureExt;
use hudi_core::table::Table;
use serde_json::{json, Value as J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Notes the largest block of memory a thread has asked for.
pub struct Watch;
thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
}
fn note(n: usize) {
    let _ = LARGEST.try_with(|c| {
        if n > c.get() {
            c.set(n)
        }
    });
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
/// Files are at most a few hundred kB; nothing may ask for this much at once.
const RUNAWAY: usize = 1 << 30;

struct Tok {
    f: &'static str,
    j: usize,
    at: usize,
    n: usize,
}

/// A block with the places of its fields.
#[derive(Default)]
struct Block {
    bytes: Vec<u8>,
    toks: Vec<Tok>,
}
impl Block {
    fn add(&mut self, f: &'static str, j: usize, b: &[u8]) {
        self.toks.push(Tok { f, j, at: self.bytes.len(), n: b.len() });
        self.bytes.extend(b);
    }
    fn u32(&mut self, f: &'static str, j: usize, v: u32) {
        self.add(f, j, &v.to_be_bytes())
    }
    fn tok(&self, f: &str, j: usize) -> &Tok {
        self.toks.iter().find(|t| t.f == f && t.j == j).unwrap_or_else(|| panic!("no field {f} {j}"))
    }
}

fn type_id(kind: &str) -> u32 {
    ["roll", "delete", "corrupted", "avro", "hfile", "parquet", "cdc"].iter().position(|k| *k == kind).unwrap() as u32
}
fn time(i: usize) -> i64 {
    2 + 2 * i as i64
}
const LATE: i64 = 20;

fn row(k: i64, v: i64) -> ARow {
    let i = (v - 2) / 2;
    ARow { p: 1, k, v, o: i, q: 10 * i + k }
}
fn keys_of(i: usize) -> Vec<i64> {
    let i = i as i64;
    let mut v = vec![(i - 1) % 3 + 1, i % 3 + 1];
    v.sort();
    v
}

fn build(w: &Writer, i: usize, b: &J, base: &str) -> Block {
    let kind = b["kind"].as_str().unwrap();
    let ver = b["ver"].as_u64().unwrap() as u32;
    let cols = w.cols_at(time(i));
    let schema = avro_schema(&cols, "t_record").to_string();
    let header: Vec<(u32, String)> = if kind == "roll" {
        let tgt = b["tgt"].as_u64().unwrap() as usize;
        vec![(0, w.ts(time(i))), (1, w.ts(if tgt == 0 { 1 } else { time(tgt) })), (3, "0".into())]
    } else {
        vec![(0, w.ts(time(i))), (2, schema)]
    };
    let rows: Vec<_> = w.expand(&keys_of(i).into_iter().map(|k| row(k, time(i))).collect::<Vec<_>>());
    let mut o = Block::default();
    o.add("magic", 0, b"#HUDI#");
    o.add("len", 0, &[0; 8]);
    o.u32("ver", 0, ver);
    o.u32("type", 0, type_id(kind));
    o.u32("hcount", 0, header.len() as u32);
    for (j, (k, v)) in header.iter().enumerate() {
        o.u32("hkey", j + 1, *k);
        o.u32("hlen", j + 1, v.len() as u32);
        o.add("hb", j + 1, v.as_bytes());
    }
    let content = match kind {
        "roll" => vec![],
        "avro" => w.data_content(&rows, &cols, base, true),
        _ => w.data_content(&rows, &cols, base, false),
    };
    o.add("clen", 0, &(content.len() as u64).to_be_bytes());
    match kind {
        "roll" => {}
        "avro" => {
            o.add("aver", 0, &content[..4]);
            o.add("acount", 0, &content[4..8]);
            let (mut at, mut j) = (8, 1);
            while at < content.len() {
                let n = u32::from_be_bytes(content[at..at + 4].try_into().unwrap()) as usize;
                o.add("rlen", j, &content[at..at + 4]);
                o.add("rb", j, &content[at + 4..at + 4 + n]);
                at += 4 + n;
                j += 1;
            }
        }
        _ => {
            o.add("pq", 0, &content[..content.len() - 4]);
            o.add("pend", 0, &content[content.len() - 4..]);
        }
    }
    let mut len = o.bytes.len() as u64 - 14;
    if ver == 1 {
        o.u32("fcount", 0, 0);
        len = o.bytes.len() as u64 - 14 + 8;
        o.add("total", 0, &(len + 6).to_be_bytes());
    }
    o.bytes[6..14].copy_from_slice(&len.to_be_bytes());
    o
}

fn number(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// The bytes of the file of these blocks after damage d.
fn damage(blocks: &[(usize, &Block)], d: &J, r: &mut Rng) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let mut start = BTreeMap::new();
    for (i, b) in blocks {
        start.insert(*i, out.len());
        out.extend(&b.bytes);
    }
    let g = |k: &str| d[k].as_str().unwrap();
    let blk = d["blk"].as_u64().unwrap() as usize;
    let find = || {
        let (x, b) = blocks.iter().find(|(i, _)| *i == blk).unwrap();
        let t = b.tok(g("f"), d["j"].as_u64().unwrap() as usize);
        (start[x] + t.at, t.n)
    };
    match g("k") {
        "none" => {}
        "set" => {
            let (at, n) = find();
            let old = number(&out[at..at + n.min(8)]);
            let next = blocks.iter().skip_while(|(i, _)| *i != blk).nth(1).map(|(_, b)| b.bytes.len()).unwrap_or(40) as u64;
            let max = if n >= 8 { u64::MAX } else { (1 << (8 * n)) - 1 };
            let new = match g("c") {
                "flip" if g("f") == "hb" => {
                    out[at] = 0xff;
                    return out;
                }
                "flip" => {
                    out[at + r.below(n)] ^= 1 << r.below(8);
                    return out;
                }
                "other" => {
                    out[at] = b"9xA"[r.below(3)];
                    return out;
                }
                "zero" => 0,
                "dec" => old - 1,
                "inc" => old + 1,
                "huge" => old + 1_000_003,
                "skip" => old + next,
                "max" | "100" => max,
                v => v.parse().unwrap(),
            };
            out[at..at + n].copy_from_slice(&new.to_be_bytes()[8 - n..]);
        }
        "cut" => {
            let (at, n) = find();
            out.truncate(if g("c") == "at" { at } else { at + 1 + if n > 2 { r.below(n - 2) } else { 0 } });
            if g("c") == "in" && n == 1 {
                out.truncate(at);
            }
        }
        "tail" => match g("c") {
            "part" => out.extend((0..1 + r.below(5)).map(|_| r.below(256) as u8)),
            "junk" => {
                out.push(b'!');
                out.extend((0..5 + r.below(40)).map(|_| r.below(256) as u8))
            }
            "torn" => out.extend(&b"#HUDI#\0\0\0\0\0\0\x01"[..6 + r.below(8)]),
            _ => out.extend(vec![0; 512]),
        },
        "fuzz" => {
            // not inside Parquet files and schemas: what their decoders do is not the library's
            let places: Vec<usize> = blocks
                .iter()
                .flat_map(|(i, b)| b.toks.iter().filter(|t| !["pq", "pend"].contains(&t.f) && (t.f != "hb" || t.n < 40)).flat_map(|t| start[i] + t.at..start[i] + t.at + t.n).collect::<Vec<_>>())
                .collect();
            for _ in 0..1 + r.below(4) {
                let x = *r.pick(&places);
                out[x] = match r.below(3) {
                    0 => out[x] ^ (1 << r.below(8)),
                    1 => 0xff,
                    _ => r.below(256) as u8,
                };
            }
        }
        k => panic!("unknown damage {k}"),
    }
    out
}

#[derive(Default)]
struct Tally {
    cases: usize,
    kinds: BTreeMap<String, [usize; 3]>, // damage -> [cases, error, rows]
    failures: Vec<J>,
    samples: Vec<J>,
}

type Where = Arc<Mutex<Option<(Instant, J)>>>;

async fn group(work: &Path, seed: u64, gi: usize, cases: &[J], fuzz: usize, slot: &Where) -> Tally {
    let mut tally = Tally::default();
    let shape = &cases[0];
    let gseed = hash(&[seed as i64, gi as i64]);
    let mut prof = Profile::new("extras", gseed, 1, true);
    prof.log_fmt = LogFmt::Avro; // no decimals
    for c in &mut prof.payload {
        if c.kind == Kind::Decimal {
            c.kind = Kind::Long;
        }
    }
    prof.copies = 1;
    let root = work.join(format!("lg{gi}"));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let mut w = Writer::new(prof, root.clone(), true, false, 1);
    w.init();
    let arch = shape["arch"] == true;
    let blocks = shape["blocks"].as_array().unwrap();
    let split = shape["split"].as_u64().unwrap() as usize;
    let rows = |v: &[ARow]| json!(v.iter().map(|r| json!([r.k, r.v, r.o, r.q])).collect::<Vec<_>>());
    let write = |w: &mut Writer, t: i64, it: J, op: &str| {
        w.exec(&json!({"ev": "begin", "t": t, "act": "deltacommit", "op": op, "items": [it], "repl": []}));
        w.exec(&json!({"ev": "inflight", "t": t}));
        w.exec(&json!({"ev": "witem", "t": t, "i": 1}));
        w.exec(&json!({"ev": "complete", "t": t}));
    };
    let base: Vec<ARow> = (1..=3).map(|k| row(k, 2)).collect();
    write(&mut w, 2, json!({"k": "base", "p": 1, "f": 1, "b": 0, "rows": rows(&base), "nb": false, "roll": false}), "insert");
    if arch {
        w.exec(&json!({"ev": "archive", "t": 2}));
    }
    let file = w.base[&(1, 1, 2)].0.clone();
    let names: Vec<String> = (0..if split == 0 { 1 } else { 2 })
        .map(|i| format!(".{}_{}.log.{}_{}-{}-{}", w.fid(1, 1), w.ts(2), w.prof.log_start + i as i64, gi % 3, gi % 7, i))
        .collect();
    let targeted: BTreeSet<usize> = blocks.iter().map(|b| b["tgt"].as_u64().unwrap() as usize).collect();
    let built: Vec<Block> = blocks.iter().enumerate().map(|(i, b)| build(&w, i + 1, b, &file)).collect();
    for (i, b) in blocks.iter().enumerate() {
        if arch || b["kind"] == "roll" || targeted.contains(&(i + 1)) {
            continue;
        }
        let rs: Vec<ARow> = keys_of(i + 1).into_iter().map(|k| row(k, time(i + 1))).collect();
        w.logs.insert((1, 1, 2), vec![names[if split != 0 && i >= split { 1 } else { 0 }].clone()]);
        write(&mut w, time(i + 1), json!({"k": "log", "p": 1, "f": 1, "b": 2, "rows": rows(&rs), "nb": false, "roll": false}), "upsert");
    }
    let late: Vec<ARow> = (1..=3).map(|k| ARow { p: 2, k, v: LATE, o: 1, q: k }).collect();
    write(&mut w, LATE, json!({"k": "base", "p": 2, "f": 1, "b": 0, "rows": rows(&late), "nb": false, "roll": false}), "insert");
    w.logs.insert((1, 1, 2), names.clone());
    let files: Vec<Vec<(usize, &Block)>> = (0..names.len())
        .map(|f| built.iter().enumerate().filter(|(i, _)| names.len() == 1 || (*i >= split) == (f == 1)).map(|(i, b)| (i + 1, b)).collect())
        .collect();
    let uri = root.to_str().unwrap().to_string();
    let env = Env { uri, opts: vec![], handles: Default::default() };
    let put = |f: usize, b: &[u8]| std::fs::write(root.join(w.rel(1, &names[f])), b).unwrap();
    for f in 0..names.len() {
        put(f, &files[f].iter().flat_map(|(_, b)| b.bytes.clone()).collect::<Vec<_>>());
    }
    let held = env.open(None).await.unwrap();
    let held_ro = env.open(Some(true)).await.unwrap();
    let late_set: BTreeSet<ARow> = late.iter().cloned().collect();
    let ro_set: BTreeSet<ARow> = base.iter().cloned().chain(late.iter().cloned()).collect();
    let mut all: Vec<J> = cases.to_vec();
    for i in 0..fuzz {
        let mut c = cases[0].clone();
        c["dmg"] = json!({"k": "fuzz", "in": 1 + i % names.len(), "blk": 0, "f": "", "j": 0, "c": i});
        all.push(c);
    }
    for (ci, c) in all.iter().enumerate() {
        let d = &c["dmg"];
        let ci = c["ci"].as_u64().map(|x| x as usize).unwrap_or(ci);
        let mut r = Rng::new(hash(&[gseed as i64, ci as i64]));
        let f = d["in"].as_u64().unwrap() as usize - 1;
        let bytes = damage(&files[f], d, &mut r);
        put(f, &bytes);
        tally.cases += 1;
        let kind = format!("{} {}{}", d["k"].as_str().unwrap(), d["f"].as_str().unwrap_or(""), if d["k"] == "tail" { d["c"].as_str().unwrap() } else { "" });
        let any = d["k"] == "fuzz";
        let exps: Vec<BTreeSet<ARow>> = c["ok"]
            .as_array()
            .unwrap()
            .iter()
            .map(|s| s.as_array().unwrap().iter().map(|x| row(x[0].as_i64().unwrap(), x[1].as_i64().unwrap())).chain(late.iter().cloned()).collect())
            .collect();
        *slot.lock().unwrap() = Some((Instant::now(), json!({"seed": seed, "group": gi, "ci": ci, "case": c})));
        LARGEST.with(|x| x.set(0));
        let fut = async {
            let mut out = (0, 0);
            let fresh;
            let t: &Table = if ci % 8 == 0 {
                fresh = env.open(None).await?;
                &fresh
            } else {
                &held
            };
            let end = w.ts(LATE);
            for q in 0..2 {
                let how = if q == 0 { 0 } else { 1 + r.below(if arch { 2 } else { 3 }) };
                let a = |q: &str| Args { q: q.into(), t: Some(end.clone()), s: w.ts(0), e: Some(end.clone()), n: 1, ro: false, filters: vec![] };
                let got = match how {
                    0 => t.read_snapshot(&[] as &[(&str, &str, &str)]).await.map_err(Bad::from),
                    1 => read_rows(t, &a("asof")).await,
                    2 => read_rows(t, &a("slread")).await,
                    _ => read_rows(t, &a("incr")).await,
                };
                match got {
                    Err(Bad::Err(e)) => {
                        out.0 += 1;
                        if c["errok"] != true && !any {
                            return wrong(format!("read {how}: undamaged file refused: {e}"));
                        }
                    }
                    Err(e) => return Err(e),
                    Ok(b) => {
                        out.1 += 1;
                        if !any {
                            let rows = decode(&w, &b)?;
                            if !exps.iter().any(|e| compare_rows(&w, &rows, e).is_ok()) {
                                let v: BTreeSet<(i64, i64, i64)> = rows.iter().map(|(r, _)| (r.p, r.k, r.v)).collect();
                                return wrong(format!("read {how}: rows <partition, key, instant> {v:?} from a damaged file"));
                            }
                        }
                    }
                }
            }
            if ci % 3 == 0 {
                let name = w.prof.part_cols()[0].clone();
                let val = w.part_vals(2)[0].clone();
                let b = t.read_snapshot(&[(name.as_str(), "=", val.as_str())]).await?;
                compare_rows(&w, &decode(&w, &b)?, &late_set)?;
                let b = held_ro.read_snapshot(&[] as &[(&str, &str, &str)]).await?;
                compare_rows(&w, &decode(&w, &b)?, &ro_set)?;
            }
            Ok(out)
        };
        let res = match std::panic::AssertUnwindSafe(fut).catch_unwind().await {
            Ok(r) => r,
            Err(p) => Err(Bad::Wrong(format!("panic: {}", panic_text(p)))),
        };
        let most = LARGEST.with(|x| x.get());
        let res = if most > RUNAWAY { wrong(format!("asked for {most} bytes of memory")) } else { res };
        let k = tally.kinds.entry(kind).or_default();
        k[0] += 1;
        match res {
            Ok((e, o)) => {
                k[1] += e;
                k[2] += o;
                if ci == all.len() / 2 && tally.samples.is_empty() {
                    tally.samples.push(json!({"case": c, "errors": e, "results": o, "file_bytes": bytes.len()}));
                }
            }
            Err(b) => {
                let mut c = c.clone();
                c["ci"] = json!(ci);
                tally.failures.push(json!({"problem": format!("{b:?}"), "observation": d, "case": c, "seed": seed, "group": gi}));
            }
        }
        put(f, &files[f].iter().flat_map(|(_, b)| b.bytes.clone()).collect::<Vec<_>>());
        if tally.failures.len() > 20 {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    tally
}

fn with(v: &J, k: &str, x: &J) -> J {
    let mut v = v.clone();
    v[k] = x.clone();
    v
}

pub fn main(c: &Cli) {
    quiet_panics();
    let work = PathBuf::from(c.str("work", "/tmp/hvl"));
    std::fs::create_dir_all(&work).unwrap();
    let seed = c.num("seed", 1);
    let (threads, limit) = (c.num("threads", 8) as usize, Duration::from_secs(c.num("hang", 60)));
    let fuzz = c.num("fuzz", 4) as usize;
    let mut groups: Vec<(usize, Vec<J>)> = Vec::new();
    let first = c.num("first", 0) as usize;
    let mut last = String::new();
    for l in std::fs::read_to_string(c.get("cases").expect("--cases")).unwrap().lines() {
        let v: J = serde_json::from_str(l).unwrap();
        let key = json!([v["blocks"], v["split"], v["arch"]]).to_string();
        if key != last || groups.last().map(|g| g.1.len() > 400).unwrap_or(false) {
            groups.push((first + groups.len(), vec![]));
            last = key;
        }
        groups.last_mut().unwrap().1.push(v);
    }
    let ngroups = groups.len();
    let queue = Arc::new(Mutex::new(groups.into_iter().collect::<VecDeque<_>>()));
    let total = Arc::new(Mutex::new((Tally::default(), 0usize)));
    let slots: Vec<Where> = (0..threads).map(|_| Default::default()).collect();
    for i in 0..threads {
        let (queue, total, slot, work) = (queue.clone(), total.clone(), slots[i].clone(), work.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                loop {
                    let Some((gi, cases)) = queue.lock().unwrap().pop_front() else { break };
                    let t = rt.block_on(group(&work, seed, gi, &cases, fuzz, &slot));
                    *slot.lock().unwrap() = None;
                    let mut all = total.lock().unwrap();
                    all.0.cases += t.cases;
                    for (k, v) in t.kinds {
                        let e = all.0.kinds.entry(k).or_default();
                        for i in 0..3 {
                            e[i] += v[i];
                        }
                    }
                    all.0.failures.extend(t.failures);
                    if all.0.samples.len() < 3 {
                        all.0.samples.extend(t.samples);
                    }
                }
                total.lock().unwrap().1 += 1;
            })
            .unwrap();
    }
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut t = total.lock().unwrap();
        if t.1 == threads {
            break;
        }
        let hung: Vec<J> = slots
            .iter()
            .filter_map(|s| s.lock().unwrap().as_ref().filter(|x| x.0.elapsed() > limit).map(|x| x.1.clone()))
            .map(|x| json!({"problem": format!("did not finish in {limit:?}"), "observation": x["case"]["dmg"], "case": with(&x["case"], "ci", &x["ci"]), "seed": x["seed"], "group": x["group"]}))
            .collect();
        if !hung.is_empty() {
            t.0.failures.extend(hung);
            break;
        }
    }
    let t = total.lock().unwrap();
    let out = json!({"groups": ngroups, "cases": t.0.cases, "kinds": t.0.kinds.iter().map(|(k, v)| (k.clone(), json!({"cases": v[0], "errors": v[1], "results": v[2]}))).collect::<serde_json::Map<_, _>>(),
        "failures": t.0.failures, "samples": t.0.samples});
    match c.get("out") {
        Some(o) => std::fs::write(o, out.to_string()).unwrap(),
        None => println!("{out:#}"),
    }
    std::process::exit(if t.0.failures.is_empty() { 0 } else { 1 });
}
