//! SQL observations: the query of the specification is put to the real table
//! provider, the answer compared with the rows the specification selects.
use arrow_array::RecordBatch;
use datafusion::common::DFSchema;
use datafusion::datasource::MemTable;
use datafusion::logical_expr::execution_props::ExecutionProps;
use datafusion::logical_expr::simplify::SimplifyContext;
use datafusion::optimizer::simplify_expressions::ExprSimplifier;
use datafusion::physical_plan::{collect, ExecutionPlanProperties};
use datafusion::prelude::{SessionConfig, SessionContext};
use hudi_core::table::Table;
use hudi_datafusion::{HudiDataSource, HudiTableFactory};
use hudi_verif::observer::*;
use hudi_verif::pool::Job;
use hudi_verif::prune;
use hudi_verif::replay::*;
use hudi_verif::rng::{hash, Rng};
use hudi_verif::rows::*;
use hudi_verif::writer::Writer;
use serde_json::Value as J;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

fn quote(s: &str) -> String {
    format!("'{}'", s.replace('\'', "''"))
}

fn column(w: &Writer, c: &str) -> String {
    match c {
        "p1" => w.prof.part_cols()[0].clone(),
        "p2" => w.prof.part_cols()[1].clone(),
        "key" => "id".into(),
        "ver" => "_hoodie_commit_time".into(),
        _ => "ord".into(),
    }
}

fn number(s: String) -> String {
    if s.starts_with('-') { format!("({s})") } else { s }
}

fn typed(kind: Kind, s: &str, r: &mut Rng) -> String {
    match kind {
        Kind::Int | Kind::Long | Kind::Double => number(s.to_string()),
        Kind::Date => if r.pct(50) { format!("DATE {}", quote(s)) } else { quote(s) },
        _ => quote(s),
    }
}

fn constant(w: &Writer, c: &str, x: i64, r: &mut Rng) -> String {
    match c {
        "p1" | "p2" => {
            let i = if c == "p1" { 0 } else { 1 };
            typed(w.prof.part_kinds[i], &w.prof.coord(i, x), r)
        }
        "key" => quote(&format!("k{}", (x + 1) / 2)),
        "ver" => quote(&w.ts(x)),
        _ => {
            let o = x / 2;
            match w.prof.ord_kind {
                Kind::Int => number((o * 7 - 10).to_string()),
                Kind::Date => {
                    let d = o * 7 - 10;
                    let y = datafusion::arrow::temporal_conversions::date32_to_datetime(d as i32).unwrap();
                    typed(Kind::Date, &y.format("%Y-%m-%d").to_string(), r)
                }
                Kind::Long => number((o * 1_000_000_007 - 2_000_000_000).to_string()),
                Kind::Double => number(format!("{:?}", o as f64 * 1.5 - 3.0)),
                _ => quote(&format!("o{o}")),
            }
        }
    }
}

fn pred(w: &Writer, e: &J, r: &mut Rng) -> String {
    let c = e["c"].as_str().unwrap_or("");
    let col = column_or_empty(w, c);
    let not = if e["neg"] == true { "NOT " } else { "" };
    let op = e["op"].as_str().unwrap_or("");
    let op = if op == "!=" && r.pct(50) { "<>" } else { op };
    match e["k"].as_str().unwrap() {
        "cmp" => {
            let x = constant(w, c, e["x"].as_i64().unwrap(), r);
            if e["flip"] == true { format!("{x} {op} {col}") } else { format!("{col} {op} {x}") }
        }
        "cmpnull" => format!("{col} {op} NULL"),
        "in" => {
            let l: Vec<String> = e["xs"].as_array().unwrap().iter().map(|x| constant(w, c, x.as_i64().unwrap(), r)).collect();
            format!("{col} {not}IN ({})", l.join(", "))
        }
        "btw" => format!("{col} {not}BETWEEN {} AND {}", constant(w, c, e["x"].as_i64().unwrap(), r), constant(w, c, e["y"].as_i64().unwrap(), r)),
        "null" => format!("{col} IS {not}NULL"),
        "not" => format!("NOT ({})", pred(w, &e["a"], r)),
        "and" => format!("({}) AND ({})", pred(w, &e["a"], r), pred(w, &e["b"], r)),
        "or" => format!("({}) OR ({})", pred(w, &e["a"], r), pred(w, &e["b"], r)),
        _ => "1 = 1".into(),
    }
}
fn column_or_empty(w: &Writer, c: &str) -> String {
    if c.is_empty() { String::new() } else { column(w, c) }
}

fn df<T>(r: datafusion::error::Result<T>, q: &str) -> Result<T, Bad> {
    r.map_err(|e| Bad::Err(format!("{e} [{q}]")))
}

/// Rows as text, sorted.
fn texts(batches: &[RecordBatch]) -> Vec<String> {
    let mut v = Vec::new();
    for b in batches {
        let o = datafusion::arrow::util::display::FormatOptions::default().with_null("NULL");
        let f: Vec<_> = b.columns().iter().map(|c| datafusion::arrow::util::display::ArrayFormatter::try_new(c, &o).unwrap()).collect();
        for i in 0..b.num_rows() {
            v.push(f.iter().map(|x| x.value(i).to_string()).collect::<Vec<_>>().join("|"));
        }
    }
    v.sort();
    v
}

/// The provider asked with the conditions as written (the optimizer rewrites
/// what it hands down); it may return more, never less: table "scanned".
async fn scanned(ctx: &SessionContext, conds: &[String]) -> Result<(), Bad> {
    let p = conds.join(" AND ");
    let prov = df(ctx.table_provider("t").await, "provider")?;
    let schema = df(DFSchema::try_from(prov.schema()), "schema")?;
    let props = ExecutionProps::new();
    let mut xs = Vec::new();
    for c in conds {
        let x = df(ctx.state().create_logical_expr(c, &schema), c)?;
        let info = SimplifyContext::new(&props).with_schema(Arc::new(schema.clone()));
        xs.push(df(ExprSimplifier::new(info).coerce(x, &schema), c)?);
    }
    let plan = df(prov.scan(&ctx.state(), None, &xs, None).await, &p)?;
    let b = df(collect(plan, ctx.task_ctx()).await, &p)?;
    let m = df(MemTable::try_new(prov.schema(), vec![b]), &p)?;
    df(ctx.register_table("scanned", Arc::new(m)), "register")?;
    Ok(())
}

fn sql<'a>(w: &'a Writer, t: &'a Table, e: &'a J, _a: &'a Args, r: &'a mut Rng) -> Pin<Box<dyn Future<Output = Result<usize, Bad>> + 'a>> {
    Box::pin(async move {
        let q = &e["sql"];
        let np = q["np"].as_i64().unwrap();
        let uri = t.base_url().to_string();
        let mut sc = SessionConfig::new()
            .with_target_partitions(*r.pick(&[1, 2, 4, 8]))
            .with_batch_size(if w.prof.copies > 20 { *r.pick(&[500, 8192]) } else { *r.pick(&[1, 3, 100, 8192]) })
            .with_parquet_pruning(r.pct(80));
        sc.options_mut().execution.parquet.pushdown_filters = r.pct(40);
        sc.options_mut().execution.parquet.reorder_filters = r.pct(30);
        let s3 = uri.starts_with("s3:");
        let via_ddl = !s3 && r.pct(25);
        let ctx;
        if via_ddl {
            let mut st = datafusion::execution::SessionStateBuilder::new().with_default_features().with_config(sc).build();
            st.table_factories_mut().insert("HUDI".into(), Arc::new(HudiTableFactory::new()));
            ctx = SessionContext::new_with_state(st);
            let opt = if np >= 0 { format!(" OPTIONS ('hoodie.read.input.partitions' '{np}')") } else { String::new() };
            let ddl = format!("CREATE EXTERNAL TABLE t STORED AS HUDI LOCATION {}{opt}", quote(&uri));
            df(ctx.sql(&ddl).await, &ddl)?;
        } else {
            ctx = SessionContext::new_with_config(sc);
            let mut opts: Vec<(String, String)> = if s3 { t.storage_options().into_iter().collect() } else { vec![] };
            if np >= 0 {
                opts.push(("hoodie.read.input.partitions".into(), np.to_string()));
            }

            let p = df(HudiDataSource::new_with_options(&uri, opts).await, "register")?;
            df(ctx.register_table("t", Arc::new(p)), "register")?;
        }
        if np >= 0 && r.pct(30) {
            // the option given determines the partitioning of the scan as it does the splits
            let n = Table::new_with_options(&uri, if s3 { t.storage_options().into_iter().collect() } else { vec![] }).await?.get_file_slices_splits(np as usize, &[]).await?.len();
            let plan = df(df(ctx.table_provider("t").await, "provider")?.scan(&ctx.state(), None, &[], None).await, "scan")?;
            let got = plan.output_partitioning().partition_count();
            if n > 0 && got != n {
                return wrong(format!("scan of {got} partitions, {n} splits for {np} (DDL: {via_ddl})"));
            }
        }
        let p = pred(w, &q["pred"], r);
        let wh = if q["pred"]["k"] == "true" && r.pct(50) { String::new() } else { format!(" WHERE {p}") };
        let exp = exp_rows(e);
        let mut all: Vec<(ARow, i64)> = exp.iter().flat_map(|x| (0..w.prof.copies).map(move |c| (*x, c))).collect();
        all.sort();
        let total = all.len();
        let lim = q["lim"].as_i64().unwrap() as usize;
        let sel = q["sel"].as_str().unwrap();
        let cols = w.cols_at(1_000_000);
        // schema of the table: with the column added later only if it is known by now
        let text = match sel {
            "cols" | "group" => String::new(),
            "count" => format!("SELECT count(*) FROM t{wh}"),
            "limit" => format!("SELECT * FROM t{wh} LIMIT {lim}"),
            "minmax" => format!("SELECT min(_hoodie_commit_time), max(_hoodie_commit_time), count(ord) FROM t{wh}"),
            "sorted" => format!("SELECT * FROM t{wh} ORDER BY id DESC, _hoodie_commit_time"),
            _ => format!("SELECT * FROM t{wh}"),
        };
        let run = |text: String| {
            let ctx = ctx.clone();
            async move {
                let d = df(ctx.sql(&text).await, &text)?;
                df(d.collect().await, &text)
            }
        };
        let note = |b: Bad, text: &str| match b {
            Bad::Wrong(s) => Bad::Wrong(format!("{s} [{text}]")),
            b => b,
        };
        if !wh.is_empty() && r.pct(40) {
            scanned(&ctx, &[p.clone()]).await?;
            let text = format!("SELECT * FROM scanned WHERE {p}");
            let rows = decode(w, &run(text.clone()).await?).map_err(|x| note(x, &text))?;
            compare_rows(w, &rows, &exp).map_err(|x| note(x, &text))?;
        }
        match sel {
            "all" | "sorted" | "limit" => {
                let b = run(text.clone()).await?;
                let rows = decode(w, &b).map_err(|x| note(x, &text))?;
                if sel == "limit" {
                    let mut seen = std::collections::BTreeSet::new();
                    for x in &rows {
                        if all.binary_search(x).is_err() || !seen.insert(*x) {
                            return wrong(format!("row {x:?} not expected [{text}]"));
                        }
                    }
                    if rows.len() != lim.min(total) {
                        return wrong(format!("{} rows of {total} for limit {lim} [{text}]", rows.len()));
                    }
                } else {
                    compare_rows(w, &rows, &exp).map_err(|x| note(x, &text))?;
                }
                if sel == "sorted" && rows.windows(2).any(|x| {
                    let k = |y: &(ARow, i64)| format!("k{}#{}", y.0.k, y.1);
                    k(&x[0]) < k(&x[1])
                }) {
                    return wrong(format!("not sorted [{text}]"));
                }
                Ok(rows.len())
            }
            "cols" => {
                let mut c: Vec<Col> = cols.iter().filter(|c| c.name != "_hoodie_file_name" && c.name != "added").cloned().collect();
                let n = 1 + r.below(c.len().min(5));
                let mut pick = Vec::new();
                for _ in 0..n {
                    pick.push(c.remove(r.below(c.len())));
                }
                let names: Vec<String> = pick.iter().map(|c| c.name.clone()).collect();
                let text = format!("SELECT {} FROM t{wh}", names.join(", "));
                let b = run(text.clone()).await?;
                let full = w.batch(&all, &w.cols, "");
                let idx: Vec<usize> = names.iter().map(|n| full.schema().index_of(n).unwrap()).collect();
                let want = full.project(&idx).unwrap();
                if let Some(x) = b.iter().find(|x| x.schema().fields().iter().map(|f| f.data_type()).ne(want.schema().fields().iter().map(|f| f.data_type()))) {
                    return wrong(format!("types {:?} [{text}]", x.schema()));
                }
                let (g, x) = (texts(&b), texts(&[want]));
                if g != x {
                    return wrong(format!("{} rows, expected {}: {:?} / {:?} [{text}]", g.len(), x.len(), g.iter().find(|y| !x.contains(y)), x.iter().find(|y| !g.contains(y))));
                }
                Ok(g.len())
            }
            "count" => {
                let g = texts(&run(text.clone()).await?);
                if g != vec![total.to_string()] {
                    return wrong(format!("count {g:?}, expected {total} [{text}]"));
                }
                Ok(total)
            }
            "minmax" => {
                let g = texts(&run(text.clone()).await?);
                let ts = |f: Option<i64>| f.map(|v| w.ts(v)).unwrap_or("NULL".into());
                let want = format!("{}|{}|{}", ts(exp.iter().map(|x| x.v).min()), ts(exp.iter().map(|x| x.v).max()), all.iter().filter(|x| x.0.o >= 0).count());
                if g != vec![want.clone()] {
                    return wrong(format!("{g:?}, expected {want} [{text}]"));
                }
                Ok(total)
            }
            "group" => {
                let c = w.prof.part_cols().first().cloned().unwrap_or("_hoodie_partition_path".into());
                let text = format!("SELECT {c}, count(*) FROM t{wh} GROUP BY {c}");
                let g = texts(&run(text.clone()).await?);
                let mut m: BTreeMap<String, usize> = BTreeMap::new();
                for x in &all {
                    let k = if w.dims == 0 { w.part_path(x.0.p) } else { w.part_vals(x.0.p)[0].clone() };
                    *m.entry(k).or_default() += 1;
                }
                let mut want: Vec<String> = m.iter().map(|(k, v)| format!("{k}|{v}")).collect();
                want.sort();
                if g != want {
                    return wrong(format!("{g:?}, expected {want:?} [{text}]"));
                }
                Ok(total)
            }
            x => panic!("{x}"),
        }
    })
}

/// A case of spec/Prune.tla: the conditions as SQL, on a table with partition
/// columns of many types and with partitions of any form.
fn prune(job: Arc<Job>) -> Pin<Box<dyn Future<Output = Result<(), Bad>>>> {
    Box::pin(async move {
        let t = prune::table(&job);
        job.ready();
        let mut r = Rng::new(hash(&[job.seed as i64, job.idx as i64, 0x5c1]));
        let mut c: Vec<String> = prune::conds(&job.case).iter().map(|f| prune::sql(&t, f, &mut r)).collect();
        r.shuffle(&mut c);
        let mut sc = SessionConfig::new().with_target_partitions(*r.pick(&[1, 4])).with_parquet_pruning(r.pct(80));
        sc.options_mut().execution.parquet.pushdown_filters = r.pct(40);
        let ctx = SessionContext::new_with_config(sc);
        let uri = prune::root(&t).to_str().unwrap();
        let p = df(HudiDataSource::new(uri).await, "register")?;
        df(ctx.register_table("t", Arc::new(p)), "register")?;
        let wh = if c.is_empty() { String::new() } else { format!(" WHERE {}", c.join(" AND ")) };
        let text = format!("SELECT {} FROM t{wh}", if r.pct(50) { "*" } else { "id" });
        let want = prune::expected(&t, &job.case);
        let mut texts = vec![text];
        if !c.is_empty() && r.pct(60) {
            scanned(&ctx, &c).await?;
            texts.push(format!("SELECT id FROM scanned{wh}"));
        }
        for text in texts {
            let d = df(ctx.sql(&text).await, &text)?;
            let got = prune::ids(&df(d.collect().await, &text)?);
            if got == want {
                continue;
            }
            let (m, e): (Vec<_>, Vec<_>) = (want.iter().filter(|x| got.get(x.0) != Some(x.1)).collect(), got.iter().filter(|x| want.get(x.0) != Some(x.1)).collect());
            let of = |x: &str| t.parts.get(x).map(|p| p.path.clone());
            let paths: Vec<_> = m.iter().chain(&e).map(|x| of(x.0)).collect();
            return wrong(format!("missing {m:?}, not expected {e:?} ({paths:?}) [{text}] {:?} {}", t.types, t.style));
        }
        job.count(if want.is_empty() { "none" } else { "rows" });
        Ok(())
    })
}

fn main() {
    let (cmd, c) = Cli::parse();
    match cmd.as_str() {
        "prune" => hudi_verif::pool::main_blocking(&c, prune),
        "replay" => main_replay(&c, Some(sql)),
        x => {
            eprintln!("unknown command {x:?}");
            std::process::exit(2)
        }
    }
}
