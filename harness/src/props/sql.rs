//! C19: DataFusion queries over the table against the same query over the model's rows in memory.
use super::*;
use crate::props::read::clean_view;
use crate::rng::Rng;
use crate::val::*;
use arrow_array::RecordBatch;
use datafusion::catalog::{TableProvider, TableProviderFactory};
use datafusion::datasource::MemTable;
use datafusion::execution::session_state::SessionStateBuilder;
use datafusion::logical_expr::{col as dcol, Expr, Operator};
use datafusion::physical_plan::collect;
use datafusion::prelude::{SessionConfig, SessionContext};
use datafusion::scalar::ScalarValue;
use hudi_datafusion::{HudiDataSource, HudiTableFactory};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub static PROPS: &[Prop] = &[Prop {
    id: "C19",
    run: c19,
    quick: 4800,
    thorough: 60000,
    level: "exploration",
    threads: 0,
    stall_s: 120,
    alloc_limit: NOLIM,
    rule: "random SQL queries (projections, predicate trees over partition, data and meta columns, aggregates, grouping, ordering, limits, self joins) and direct provider scans with random pushed-down expressions, over random copy-on-write tables, split counts and target partitions; each answer against the same query over an in-memory table holding the model's rows; distinct = (query shape, partition layout)",
}];

fn sql_lit(t: &Ty, v: &V) -> Option<String> {
    Some(match (t, v) {
        (Ty::Bool, V::B(b)) => b.to_string(),
        (Ty::Int | Ty::Long, V::I(i)) => {
            if *i == i64::MIN {
                return None;
            }
            i.to_string()
        }
        (Ty::Str | Ty::Enum(_), V::S(s)) => format!("'{}'", s.replace('\'', "''")),
        (Ty::Date, V::I(_)) => format!("DATE '{}'", date_text(v)?),
        (Ty::TsMicros, V::I(i)) => format!("arrow_cast({i}, 'Timestamp(Microsecond, None)')"),
        (Ty::Double, V::D(d)) if d.is_finite() && d.abs() < 1e15 => format!("CAST('{d}' AS DOUBLE)"),
        _ => return None,
    })
}
fn date_text(v: &V) -> Option<String> {
    let V::I(d) = v else { return None };
    let t = part_text(&Ty::Date, v);
    // years outside 0000..9999 have no plain literal
    if t.len() == 10 && (-700000..2900000).contains(d) {
        Some(t)
    } else {
        None
    }
}
fn scalar(t: &Ty, v: &V) -> Option<ScalarValue> {
    Some(match (t, v) {
        (Ty::Bool, V::B(b)) => ScalarValue::Boolean(Some(*b)),
        (Ty::Int, V::I(i)) => ScalarValue::Int32(Some(*i as i32)),
        (Ty::Long, V::I(i)) => ScalarValue::Int64(Some(*i)),
        (Ty::Str | Ty::Enum(_), V::S(s)) => ScalarValue::Utf8(Some(s.clone())),
        (Ty::Date, V::I(d)) => ScalarValue::Date32(Some(*d as i32)),
        (Ty::TsMicros, V::I(i)) => ScalarValue::TimestampMicrosecond(Some(*i), None),
        (Ty::Double, V::D(d)) => ScalarValue::Float64(Some(*d)),
        (Ty::Bytes, V::Y(b)) => ScalarValue::Binary(Some(b.clone())),
        _ => return None,
    })
}
fn comparable(t: &Ty) -> bool {
    matches!(t, Ty::Bool | Ty::Int | Ty::Long | Ty::Str | Ty::Enum(_) | Ty::Date | Ty::TsMicros | Ty::Double)
}

struct Q<'a> {
    sim: &'a Sim,
    rows: &'a [Row],
    cols: Vec<(String, Ty, bool)>,
    shape: String,
}

impl Q<'_> {
    fn pick_col(&mut self, r: &mut Rng) -> usize {
        // partition columns matter most
        if !self.sim.spec.part.is_empty() && r.chance(55) {
            let n = r.pick(&self.sim.spec.part).0.clone();
            return self.cols.iter().position(|c| c.0 == n).unwrap();
        }
        r.below(self.cols.len())
    }
    fn value(&mut self, r: &mut Rng, c: usize) -> V {
        let t = self.cols[c].1.clone();
        if !self.rows.is_empty() && r.chance(75) {
            let v = r.pick(self.rows).vals[c].clone();
            if v != V::Null {
                return match v {
                    V::I(i) if r.chance(30) && !matches!(t, Ty::TsMicros) => V::I(i.saturating_add(r.range(-1, 1)).clamp(i32::MIN as i64, i32::MAX as i64)),
                    V::S(s) if r.chance(15) => V::S(format!("{s}a")),
                    v => v,
                };
            }
        }
        gen_val(r, &t, false)
    }
    fn atom(&mut self, r: &mut Rng) -> String {
        let c = self.pick_col(r);
        let (n, t, _) = self.cols[c].clone();
        let p = if self.sim.spec.part.iter().any(|x| x.0 == n) { "P" } else { "d" };
        if !comparable(&t) || r.chance(8) {
            self.shape.push_str("null ");
            return format!("\"{n}\" IS {}NULL", if r.chance(50) { "NOT " } else { "" });
        }
        for _ in 0..4 {
            let v = self.value(r, c);
            let Some(l) = sql_lit(&t, &v) else { continue };
            let op = *r.pick(&["=", "=", "<>", "<", "<=", ">", ">="]);
            match r.below(14) {
                0..=6 => {
                    self.shape.push_str(&format!("{p}{op} "));
                    return format!("\"{n}\" {op} {l}");
                }
                7 | 8 => {
                    self.shape.push_str(&format!("lit{op}{p} "));
                    return format!("{l} {op} \"{n}\"");
                }
                9 => {
                    let v2 = self.value(r, c);
                    let Some(l2) = sql_lit(&t, &v2) else { continue };
                    self.shape.push_str(&format!("in{p} "));
                    return format!("\"{n}\" {}IN ({l}, {l2})", if r.chance(40) { "NOT " } else { "" });
                }
                10 => {
                    let v2 = self.value(r, c);
                    let Some(l2) = sql_lit(&t, &v2) else { continue };
                    self.shape.push_str(&format!("between{p} "));
                    return format!("\"{n}\" {}BETWEEN {l} AND {l2}", if r.chance(40) { "NOT " } else { "" });
                }
                11 => {
                    self.shape.push_str(&format!("not{p}{op} "));
                    return format!("NOT (\"{n}\" {op} {l})");
                }
                12 if t == Ty::Str => {
                    self.shape.push_str(&format!("like{p} "));
                    return format!("\"{n}\" {}LIKE '{}%'", if r.chance(40) { "NOT " } else { "" }, r.pick(&["a", "k", "2", "New", "", "%b"]));
                }
                13 if matches!(t, Ty::Int | Ty::Long) => {
                    self.shape.push_str(&format!("mixed{p} "));
                    return match r.below(3) {
                        0 => format!("\"{n}\" {op} 1.5"),
                        1 => format!("\"{n}\" {op} {}", r.pick(&["99999999999", "-99999999999", "0", "2147483648"])),
                        _ => format!("\"{n}\" + 1 {op} {l}"),
                    };
                }
                12 if t == Ty::Date => {
                    self.shape.push_str(&format!("datestr{p} "));
                    return format!("\"{n}\" {op} '{}'", date_text(&v).unwrap_or("2020-01-01".into()));
                }
                _ => {
                    // compares two columns of one type
                    let same: Vec<String> = self.cols.iter().filter(|x| x.1 == t).map(|x| x.0.clone()).collect();
                    self.shape.push_str(&format!("cols{p}{op} "));
                    return format!("\"{n}\" {op} \"{}\"", r.pick(&same));
                }
            }
        }
        "true".into()
    }
    fn pred(&mut self, r: &mut Rng, depth: usize) -> String {
        if depth == 0 || r.chance(45) {
            return self.atom(r);
        }
        match r.below(5) {
            0 | 1 => {
                self.shape.push_str("and ");
                format!("({} AND {})", self.pred(r, depth - 1), self.pred(r, depth - 1))
            }
            2 | 3 => {
                self.shape.push_str("or ");
                format!("({} OR {})", self.pred(r, depth - 1), self.pred(r, depth - 1))
            }
            _ => {
                self.shape.push_str("not ");
                format!("NOT {}", self.pred(r, depth - 1))
            }
        }
    }
    /// (sql with {T} for the table, ordered?, limit)
    fn query(&mut self, r: &mut Rng) -> (String, bool, Option<usize>) {
        let wh = if r.chance(85) { format!(" WHERE {}", self.pred(r, 2)) } else { String::new() };
        let simple: Vec<String> = self.cols.iter().filter(|c| comparable(&c.1)).map(|c| c.0.clone()).collect();
        let proj = |r: &mut Rng, cols: &[(String, Ty, bool)]| {
            let n = 1 + r.below(cols.len().min(5));
            (0..n).map(|i| format!("\"{}\" AS c{i}", r.pick(cols).0)).collect::<Vec<_>>().join(", ")
        };
        // a self join of a large table takes minutes
        match r.below(if self.rows.len() > 150 { 11 } else { 12 }) {
            0..=2 => {
                self.shape.push_str("star");
                (format!("SELECT * FROM {{T}}{wh}"), false, None)
            }
            3 | 4 => {
                self.shape.push_str("proj");
                let cols = self.cols.clone();
                (format!("SELECT {} FROM {{T}}{wh}", proj(r, &cols)), false, None)
            }
            5 => {
                self.shape.push_str("count");
                (format!("SELECT count(*) FROM {{T}}{wh}"), false, None)
            }
            6 => {
                self.shape.push_str("agg");
                let a = r.pick(&simple).clone();
                (format!("SELECT count(*), count(DISTINCT \"{a}\"), min(\"vid\"), max(\"vid\"), sum(\"vid\"), min(\"key\"), max(\"{}\") FROM {{T}}{wh}", r.pick(&["key", self.sim.spec.tsn.as_str(), "_hoodie_commit_time"])), false, None)
            }
            7 => {
                self.shape.push_str("group");
                let g = if !self.sim.spec.part.is_empty() { r.pick(&self.sim.spec.part).0.clone() } else { r.pick(&simple).clone() };
                let having = if r.chance(30) { " HAVING count(*) > 1" } else { "" };
                (format!("SELECT \"{g}\", count(*), min(\"vid\"), max(\"key\") FROM {{T}}{wh} GROUP BY \"{g}\"{having}"), false, None)
            }
            8 => {
                self.shape.push_str("order");
                let o = r.pick(&simple).clone();
                let lim = if r.chance(50) { format!(" LIMIT {}", r.below(8)) } else { String::new() };
                let off = if !lim.is_empty() && r.chance(30) { format!(" OFFSET {}", r.below(4)) } else { String::new() };
                (format!("SELECT * FROM {{T}}{wh} ORDER BY \"{o}\" {}, \"vid\", \"key\", \"_hoodie_commit_seqno\"{lim}{off}", r.pick(&["ASC", "DESC NULLS LAST"])), true, None)
            }
            9 => {
                self.shape.push_str("limit");
                let n = r.below(8);
                (format!("SELECT * FROM {{T}}{wh} LIMIT {n}"), false, Some(n))
            }
            10 => {
                self.shape.push_str("distinct");
                (format!("SELECT DISTINCT \"{}\" AS a, \"{}\" AS b FROM {{T}}{wh}", r.pick(&simple), r.pick(&simple)), false, None)
            }
            _ => {
                self.shape.push_str("join");
                let j = if !self.sim.spec.part.is_empty() { r.pick(&self.sim.spec.part).0.clone() } else { self.sim.spec.tsn.clone() };
                let c = r.pick(&simple).clone();
                (format!("SELECT a.\"key\" AS k1, b.\"key\" AS k2, b.\"{c}\" AS c FROM (SELECT * FROM {{T}}{wh}) a JOIN {{J}} b ON a.\"{j}\" = b.\"{j}\" AND a.\"vid\" <= b.\"vid\""), false, None)
            }
        }
    }
}

fn session(target: usize, tweak: &mut Rng) -> SessionContext {
    let mut cfg = SessionConfig::new()
        .set("datafusion.sql_parser.enable_ident_normalization", &ScalarValue::from(false))
        .with_target_partitions(target);
    cfg.options_mut().execution.parquet.pushdown_filters = tweak.chance(40);
    cfg.options_mut().execution.parquet.pruning = tweak.chance(80);
    cfg.options_mut().execution.batch_size = *tweak.pick(&[1usize, 3, 8192, 8192]);
    cfg.options_mut().execution.collect_statistics = tweak.chance(30);
    cfg.options_mut().optimizer.repartition_file_min_size = *tweak.pick(&[0usize, 10 << 20]);
    let f: Arc<dyn TableProviderFactory> = Arc::new(HudiTableFactory::new());
    let st = SessionStateBuilder::new()
        .with_default_features()
        .with_config(cfg)
        .with_table_factories(HashMap::from([("HUDI".to_string(), f)]))
        .build();
    SessionContext::new_with_state(st)
}

async fn run_sql(ctx: &SessionContext, q: &str) -> datafusion::error::Result<Vec<RecordBatch>> {
    ctx.sql(q).await?.collect().await
}

fn rows_in_order(b: &[RecordBatch]) -> Vec<String> {
    b.iter().flat_map(render_batch).collect()
}

fn multiset_within(small: &[String], big: &[String]) -> bool {
    let mut c: BTreeMap<&str, i64> = BTreeMap::new();
    for b in big {
        *c.entry(b).or_default() += 1;
    }
    small.iter().all(|s| {
        let x = c.entry(s).or_default();
        *x -= 1;
        *x >= 0
    })
}

fn rand_expr(q: &mut Q, r: &mut Rng) -> Option<Expr> {
    let c = q.pick_col(r);
    let (n, t, _) = q.cols[c].clone();
    let v = q.value(r, c);
    let s = scalar(&t, &v)?;
    if !comparable(&t) && t != Ty::Bytes {
        return None;
    }
    let op = *r.pick(&[Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq, Operator::IsDistinctFrom]);
    let (l, rr) = (dcol(format!("\"{n}\"")), Expr::Literal(s));
    q.shape.push_str(&format!("{op}"));
    let b = if r.chance(50) { datafusion::logical_expr::binary_expr(l, op, rr) } else { datafusion::logical_expr::binary_expr(rr, op, l) };
    Some(match r.below(8) {
        0..=4 => b,
        5 | 6 => Expr::Not(Box::new(b)),
        _ => Expr::Not(Box::new(Expr::Not(Box::new(b)))),
    })
}

fn c19(e: &mut Env) {
    let mut r0 = e.r.fork();
    let mut spec = gen_spec(&mut r0, false);
    if spec.part.is_empty() && r0.chance(80) {
        spec = gen_spec(&mut r0, false);
    }
    spec.deep = r0.chance(1);
    spec.evolve |= r0.chance(15);
    spec.wide = r0.chance(1);
    let np = 2 + r0.below(5);
    let mut sim = Sim::new(spec, r0, true, np);
    let t = e.table(&mut sim);
    let n = e.r.below(6);
    sim.grow(n, true);
    if e.r.chance(50) {
        *t.ctl.shuffle.lock().unwrap() = Some(e.r.fork());
    }
    let Some(l) = sim.latest() else {
        no_commits(e, &sim, &t);
        return;
    };
    if !clean_view(&sim, &l) {
        e.count("skipped_unclean", 1);
        return;
    }
    let rows = sim.snapshot(&l, Mode::Strong, false, &|_| true);
    e.detail = context(&sim);
    // the table's columns are those of its latest commit; files written earlier may lack the last ones
    let spec = sim.spec.clone();
    sim.spec.cols.truncate(sim.ncols());
    let rows = sim.padded(rows);
    let mut r = e.r.fork();
    let target = *r.pick(&[1usize, 1, 2, 3, 8]);
    let splits = *r.pick(&[0usize, 1, 2, 3, 5, 64]);
    let mut tw = r.fork();
    let sc = sim.spec.schema();
    let batch = sim.batch(&rows);
    let mem = Arc::new(MemTable::try_new(sc.clone(), vec![vec![batch.clone()]]).unwrap());
    let cols = sim.spec.all_cols();
    sim.spec = spec;
    let external = r.chance(50);
    let url = t.url.clone();
    let with_opt = r.chance(70);
    let reg = e.call("register", async {
        let ctx = session(target, &mut tw);
        let provider: Arc<dyn TableProvider> = if external {
            let o = if with_opt { format!(" OPTIONS ('hoodie.read.input.partitions' '{splits}')") } else { String::new() };
            ctx.sql(&format!("CREATE EXTERNAL TABLE hudi_t STORED AS HUDI LOCATION '{url}'{o}")).await?;
            ctx.table_provider("hudi_t").await?
        } else {
            let o: Vec<(String, String)> = if with_opt { vec![opt("hoodie.read.input.partitions", &splits.to_string())] } else { vec![] };
            let p = Arc::new(HudiDataSource::new_with_options(&url, o).await?);
            ctx.register_table("hudi_t", p.clone())?;
            p
        };
        ctx.register_table("mem_t", mem.clone())?;
        Ok::<_, datafusion::error::DataFusionError>((ctx, provider))
    });
    let (ctx, provider) = match reg {
        Res::Ok(x) => x,
        x => {
            e.viol("failed", format!("registering a valid table failed: {}", x.why()));
            return;
        }
    };
    if e.r.chance(25) {
        // what is committed after registration is not seen
        sim.grow(2, false);
        e.count("tables_grown_after_registration", 1);
    }
    let layout = format!("{:?}{}{}", sim.spec.part.iter().map(|p| &p.1).collect::<Vec<_>>(), sim.spec.hive, sim.spec.urlenc);
    let mut q = Q { sim: &sim, rows: &rows, cols, shape: String::new() };
    for _ in 0..6 {
        q.shape.clear();
        let (sql, ordered, limit) = q.query(&mut r);
        let hq = sql.replace("{T}", "hudi_t AS t").replace("{J}", "hudi_t");
        let mq = sql.replace("{T}", "mem_t AS t").replace("{J}", "mem_t");
        let free = match limit {
            // the rows a LIMIT may choose from
            Some(_) => mq[..mq.rfind(" LIMIT").unwrap()].to_string(),
            None => mq.clone(),
        };
        let want = match e.call("reference query", run_sql(&ctx, &free)) {
            Res::Ok(b) => rows_in_order(&b),
            x => {
                e.count("reference_query_refused", 1);
                if std::env::var("HV_SHOW").is_ok() {
                    eprintln!("refused: {mq}: {}", x.why());
                }
                continue;
            }
        };
        t.ctl.clear_log();
        e.eval();
        match e.call("DataFusion query", run_sql(&ctx, &hq)) {
            Res::Ok(b) => {
                let got = rows_in_order(&b);
                e.count("rows_compared", got.len() as u64);
                e.count("storage_operations", t.ctl.ops().len() as u64);
                let ok = if let Some(n) = limit {
                    if got.len() == want.len().min(n) && multiset_within(&got, &want) {
                        true
                    } else {
                        e.viol(CLS, format!("{hq}: {} rows, not {n} of the {} matching ones: {:?}", got.len(), want.len(), got.iter().take(2).collect::<Vec<_>>()));
                        false
                    }
                } else if ordered {
                    if got == want {
                        true
                    } else {
                        e.viol(CLS, format!("{hq}: {}{}", diff(&got, &want), if got.len() == want.len() { " (or order)" } else { "" }));
                        false
                    }
                } else {
                    let (mut g, mut w) = (got, want);
                    g.sort();
                    w.sort();
                    e.same_rows(CLS, &hq, &g, &w)
                };
                if ok {
                    e.sig_s(&format!("{}{layout}", q.shape));
                }
            }
            x => e.viol("failed", format!("{hq}: {}", x.why())),
        }
    }
    // direct scans: what is pushed down may only remove rows that do not match
    for _ in 0..3 {
        q.shape.clear();
        let mut fs = vec![];
        for _ in 0..1 + r.below(3) {
            if let Some(x) = rand_expr(&mut q, &mut r) {
                fs.push(x);
            }
        }
        let matching = e.call("reference filter", async {
            let mut d = ctx.table("mem_t").await?;
            for f in &fs {
                d = d.filter(f.clone())?;
            }
            d.collect().await
        });
        let Res::Ok(m) = matching else {
            e.count("reference_query_refused", 1);
            continue;
        };
        let mut matching = rows_in_order(&m);
        matching.sort();
        let proj: Option<Vec<usize>> = None;
        e.eval();
        let refs: Vec<&Expr> = fs.iter().collect();
        let got = e.call("scan", async {
            let push = provider.supports_filters_pushdown(&refs)?;
            let st = ctx.state();
            let pushed: Vec<Expr> = fs.iter().zip(&push).filter(|x| !matches!(x.1, datafusion::logical_expr::TableProviderFilterPushDown::Unsupported)).map(|x| x.0.clone()).collect();
            let exact = !push.is_empty() && push.iter().all(|p| matches!(p, datafusion::logical_expr::TableProviderFilterPushDown::Exact));
            let np = pushed.len();
            let plan = provider.scan(&st, proj.as_ref(), &pushed, None).await?;
            let b = collect(plan, ctx.task_ctx()).await?;
            Ok::<_, datafusion::error::DataFusionError>((b, exact, np))
        });
        match got {
            Res::Ok((b, exact, np)) => {
                let mut g = rows_in_order(&b);
                g.sort();
                e.count("expressions_pushed_down", np as u64);
                e.count("expressions_offered", fs.len() as u64);
                let mut all: Vec<String> = rows_in_order(&[batch.clone()]);
                all.sort();
                e.count("rows_pruned_by_scans", (all.len() - g.len().min(all.len())) as u64);
                if !multiset_within(&matching, &g) {
                    e.viol(CLS, format!("scan pushing {fs:?} loses matching rows: {}", diff(&g, &matching)));
                } else if !multiset_within(&g, &all) {
                    e.viol(CLS, format!("scan pushing {fs:?} returns rows the table does not hold: {}", diff(&g, &all)));
                } else if exact && g != matching {
                    e.viol(CLS, format!("scan pushing {fs:?} claims to filter exactly: {}", diff(&g, &matching)));
                } else {
                    e.sig_s(&format!("scan {}{layout}", q.shape));
                }
            }
            x => e.viol("failed", format!("scan pushing {fs:?}: {}", x.why())),
        }
    }
    e.sample(format!("case {}: target {target} splits {splits} external {external}; {}", e.case, sim.describe()));
}
const CLS: &str = "answer";

fn no_commits(e: &mut Env, sim: &Sim, t: &Tbl) {
    e.detail = context(sim);
    e.eval();
    let mut tw = e.r.fork();
    let url = t.url.clone();
    let r = e.call("query of a table without commits", async {
        let ctx = session(2, &mut tw);
        ctx.sql(&format!("CREATE EXTERNAL TABLE hudi_t STORED AS HUDI LOCATION '{url}'")).await?;
        let mut v = vec![];
        for q in ["SELECT * FROM hudi_t", "SELECT count(*) AS n FROM hudi_t", "SELECT count(*) AS n FROM (SELECT * FROM hudi_t LIMIT 3)"] {
            v.push(rows_in_order(&run_sql(&ctx, q).await?));
        }
        Ok::<_, datafusion::error::DataFusionError>(v)
    });
    match r {
        Res::Ok(v) if v[0].is_empty() && v[1] == ["n=0l|"] && v[2] == ["n=0l|"] => e.sig_s("no commits"),
        Res::Ok(v) => e.viol(CLS, format!("a table without commits answers {v:?}")),
        x => e.viol("failed", x.why()),
    }
}
