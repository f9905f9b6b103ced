//! C05 (incomplete writes), C10 (concurrency), C11 (storage failures).
use super::read::*;
use super::*;
use crate::rng::Rng;
use crate::store::{Fault, OpKind};
use hudi_core::error::CoreError;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

pub static PROPS: &[Prop] = &[
    Prop { id: "C05", run: c05, quick: 3000, thorough: 90000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "writers cut after every storage operation, left pending while other commits complete, rolled back operation by operation; snapshot, as-of, incremental and listing after each operation against the model of completed writes; distinct = (shape, writer kind, operation index, phase)" },
    Prop { id: "C10", run: c10, quick: 2100, thorough: 40000, level: "exploration", threads: 4, stall_s: 25, alloc_limit: NOLIM,
        rule: "2-10 concurrent calls of every kind on one fresh table object, on current-thread and multi-thread runtimes, under random yields, delays, listing orders and listing parallelism; each answer against the answer of the same call run alone, plus a hang watchdog; distinct = orders in which storage operations completed" },
    Prop { id: "C11", run: c11, quick: 2000, thorough: 30000, level: "exploration", threads: 0, stall_s: 60, alloc_limit: NOLIM,
        rule: "for random calls, a fault at each storage operation of the call in turn (not found, permission, error, short or broken body), random multiple faults, and data, log and commit files cut short; the answer must be an error or the fault-free answer, and the same object must answer correctly afterwards; distinct = (call, operation kind and file class, fault)" },
    Prop { id: "C28", run: c28, quick: 5000, thorough: 120000, level: "exploration", threads: 0, stall_s: 60, alloc_limit: NOLIM,
        rule: "the metadata file of one completed commit cut short, overwritten, or with one member missing or of a wrong type, then random calls on an object opened before and on a fresh one: an error or the answer from the undamaged table, never a panic; distinct = (call, member, damage)" },
];

/// A read or listing whose answer is a sorted list of texts.
#[derive(Clone, Debug)]
pub enum Q {
    Snap(Vec<F3>),
    AsOf(String, Vec<F3>),
    Incr(String, Option<String>),
    Slices(Vec<F3>),
    SlicesAsOf(String, Vec<F3>),
    Between(String, String),
    Splits(usize, Vec<F3>),
    SplitsAsOf(usize, String),
    ReadSlices(String),
    Schema,
    PartSchema,
    AvroSchema,
    Timeline,
    Options,
    Df(Option<String>),
}

fn fs_text(s: &hudi_core::file_group::file_slice::FileSlice) -> String {
    format!("{} {}", slice_key(s), s.base_file.file_metadata.as_ref().map_or(0, |m| m.byte_size))
}

pub async fn ask(tb: &Table, q: &Q) -> Result<Vec<String>, CoreError> {
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v
    };
    Ok(match q {
        Q::Snap(f) => texts(&tb.read_snapshot(&fl(f)).await?),
        Q::AsOf(t, f) => texts(&tb.read_snapshot_as_of(t, &fl(f)).await?),
        Q::Incr(a, b) => texts(&tb.read_incremental_records(a, b.as_deref()).await?),
        Q::Slices(f) => sorted(tb.get_file_slices(&fl(f)).await?.iter().map(fs_text).collect()),
        Q::SlicesAsOf(t, f) => sorted(tb.get_file_slices_as_of(t, &fl(f)).await?.iter().map(fs_text).collect()),
        Q::Between(a, b) => sorted(tb.get_file_slices_between(Some(a), Some(b)).await?.iter().map(fs_text).collect()),
        Q::Splits(n, f) => {
            let v = tb.get_file_slices_splits(*n, &fl(f)).await?;
            let mut o: Vec<String> = v.iter().flatten().map(fs_text).collect();
            o.push(format!("groups {}", v.len()));
            sorted(o)
        }
        Q::SplitsAsOf(n, t) => {
            let v = tb.get_file_slices_splits_as_of(*n, t, &[]).await?;
            let mut o: Vec<String> = v.iter().flatten().map(fs_text).collect();
            o.push(format!("groups {}", v.len()));
            sorted(o)
        }
        Q::ReadSlices(end) => {
            let fg = tb.create_file_group_reader_with_options([("hoodie.read.file_group.end_timestamp", end.as_str())])?;
            let mut out = vec![];
            for s in tb.get_file_slices_as_of(end, &[]).await? {
                out.push(fg.read_file_slice(&s).await?);
            }
            texts(&out)
        }
        Q::Schema => vec![format!("{:?}", tb.get_schema().await?)],
        Q::PartSchema => vec![format!("{:?}", tb.get_partition_schema().await?)],
        Q::AvroSchema => vec![tb.get_avro_schema().await?],
        Q::Timeline => {
            let tl = tb.get_timeline();
            let mut o = vec![];
            for v in [
                tl.get_completed_commits(false).await?,
                tl.get_completed_deltacommits(true).await?,
                tl.get_completed_replacecommits(false).await?,
                tl.get_completed_clustering_commits(true).await?,
            ] {
                o.push(format!("{:?}", v.iter().map(|i| i.file_name()).collect::<Vec<_>>()));
            }
            o
        }
        Q::Options => sorted(tb.hudi_options().into_iter().chain(tb.storage_options()).map(|(k, v)| format!("{k}={v}")).collect()),
        Q::Df(pred) => {
            use datafusion::prelude::*;
            let src = hudi_datafusion::HudiDataSource::new(tb.base_url().as_str())
                .await
                .map_err(|e| CoreError::Timeline(e.to_string()))?;
            let ctx = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(3));
            let f = |e: datafusion::error::DataFusionError| CoreError::Timeline(e.to_string());
            ctx.register_table("t", Arc::new(src)).map_err(f)?;
            let sql = match pred {
                Some(p) => format!("select * from t where {p}"),
                None => "select * from t".into(),
            };
            let df = ctx.sql(&sql).await.map_err(f)?;
            texts(&df.collect().await.map_err(f)?)
        }
    })
}

pub fn gen_q(r: &mut Rng, sim: &Sim) -> Q {
    let all = times(sim);
    let t = r.pick(&all).clone();
    let t2 = r.pick(&all).clone();
    let f = |r: &mut Rng| if r.chance(50) { gen_filters(r, sim).0 } else { vec![] };
    match r.below(17) {
        0..=2 => Q::Snap(f(r)),
        3 | 4 => Q::AsOf(t, f(r)),
        5 => Q::Incr(t.clone().min(t2.clone()), if r.chance(50) { None } else { Some(t.max(t2)) }),
        6 => Q::Slices(f(r)),
        7 => Q::SlicesAsOf(t, f(r)),
        8 => Q::Between(t.clone().min(t2.clone()), t.max(t2)),
        9 => Q::Splits(r.below(5), f(r)),
        10 => Q::SplitsAsOf(r.below(5), t),
        11 => Q::ReadSlices(t),
        12 => Q::Schema,
        13 => Q::PartSchema,
        14 => Q::AvroSchema,
        15 => Q::Timeline,
        _ => Q::Options,
    }
}

// ---------------- C05 ----------------
fn c05(e: &mut Env) {
    let mor = e.r.chance(55);
    let mut sim = fresh(e, mor, |s, _| {
        s.meta = true;
        s.monotone = true;
        if !s.precombine {
            s.strategy = Some("append_only");
        }
    });
    let t = e.table(&mut sim);
    let n = 1 + e.r.below(3);
    sim.grow(n, false);
    let mut pend: Vec<Txn> = vec![];
    for _ in 0..2 + e.r.below(3) {
        // one more writer starts; some earlier ones may still be pending
        let mut x = sim.next_txn(true);
        let nops = x.ops.len();
        let fate = e.r.below(10);
        let stop = if fate < 4 { nops } else { e.r.below(nops) };
        let mut i = 0;
        while i < stop {
            sim.step(&mut x);
            i += 1;
            if e.r.chance(40) || i == stop {
                c05_look(e, &mut sim, &t, &format!("{} {i}/{nops}", x.kind), &x.ts);
            }
        }
        if fate >= 4 {
            if fate < 8 {
                pend.push(x);
            } else {
                // the writer dies; its leftovers stay, and may be rolled back operation by operation
                sim.release(&x);
                sim.forget_unwritten(&x);
                if e.r.chance(60) {
                    let v = e.r.below(4);
                    let mut rb = sim.tx_rollback(x.inst, v);
                    let nrb = rb.ops.len();
                    for j in 0..nrb {
                        sim.step(&mut rb);
                        if e.r.chance(50) || j + 1 == nrb {
                            c05_look(e, &mut sim, &t, &format!("rollback of {} {j}/{nrb}", x.kind), &x.ts);
                        }
                    }
                }
            }
        }
        // a pending writer may go on and complete
        if !pend.is_empty() && e.r.chance(40) {
            let k = e.r.below(pend.len());
            let mut p = pend.remove(k);
            while p.done < p.ops.len() {
                sim.step(&mut p);
                if e.r.chance(40) || p.done == p.ops.len() {
                    c05_look(e, &mut sim, &t, &format!("resumed {} {}/{}", p.kind, p.done, p.ops.len()), &p.ts);
                }
            }
        }
    }
    e.sample(format!("case {}: {}", e.case, context(&sim)));
}

fn c05_look(e: &mut Env, sim: &mut Sim, t: &Tbl, phase: &str, ts: &str) {
    let Some(l) = sim.latest() else { return };
    e.detail = format!("{phase} | {}", context(sim));
    let all = times(sim);
    let mut ats: Vec<Option<String>> = vec![None];
    if e.r.chance(50) {
        ats.push(Some(ts.to_string()));
    }
    if e.r.chance(30) {
        ats.push(Some(e.r.pick(&all).clone()));
    }
    for at in ats {
        let end = at.clone().unwrap_or(l.clone());
        let strong = sim.snap_texts(Some(&end), Mode::Strong, false);
        let weak = sim.snap_texts(Some(&end), Mode::Weak, false);
        e.eval();
        let r = e.call("read", async {
            let tb = open(&t.url, &[]).await?;
            let b = match &at {
                None => tb.read_snapshot(&[]).await?,
                Some(a) => tb.read_snapshot_as_of(a, &[]).await?,
            };
            let s = tb.get_file_slices_as_of(&end, &[]).await?;
            let mut s: Vec<(String, String)> = s.iter().map(|s| (s.file_id().to_string(), s.creation_instant_time().to_string())).collect();
            s.sort();
            Ok::<_, CoreError>((texts(&b), s, tb.get_timeline().get_latest_commit_timestamp()?))
        });
        match r {
            Res::Ok((g, s, lt)) => {
                if strong == weak {
                    e.count("views_without_leftovers_in_range", 1);
                } else {
                    e.count("views_with_leftovers_in_range", 1);
                }
                let class = if g == weak { "leftover-of-incomplete-write-in-range" } else { CLS_ROWS };
                if e.same_rows(class, &format!("{phase}: read at {at:?}"), &g, &strong) {
                    e.sig_s(&format!("{}{phase}{}", sim.shape_hash(), at.is_some()));
                }
                if lt != l {
                    e.viol("latest", format!("{phase}: latest commit {lt}, want {l}"));
                }
                let want = |m: Mode| {
                    let mut v: Vec<(String, String)> = sim
                        .groups
                        .iter()
                        .filter(|g| !sim.replaced_as_of(g, &end))
                        .filter_map(|g| sim.base_as_of(g, &end, m).map(|b| (g.fid.clone(), g.bases[b].ts.clone())))
                        .collect();
                    v.sort();
                    v
                };
                if s != want(Mode::Strong) {
                    let class = if s == want(Mode::Weak) { "leftover-of-incomplete-write-in-range" } else { "slices" };
                    e.viol(class, format!("{phase}: slices at {at:?}: got {s:?} want {:?}", want(Mode::Strong)));
                }
            }
            x => e.viol("failed", format!("{phase}: {}", x.why())),
        }
    }
    if e.r.chance(25) {
        let a = e.r.pick(&all).clone();
        if a <= l {
            let strong = rows_of(sim, &sim.incremental(&a, &l));
            let weak = rows_of(sim, &sim.incremental_listed(&a, &l));
            e.eval();
            match e.call("incremental", async { open(&t.url, &[]).await?.read_incremental_records(&a, None).await }).map(|b| texts(&b)) {
                Res::Ok(g) => {
                    let class = if g == weak { "leftover-of-incomplete-write-in-range" } else { CLS_ROWS };
                    e.same_rows(class, &format!("{phase}: incremental from {a}"), &g, &strong);
                }
                x => e.viol("failed", format!("{phase}: incremental {}", x.why())),
            }
        }
    }
    // DataFusion fills columns that older files lack
    if !sim.spec.mor && !sim.spec.evolve && e.r.chance(8) {
        let strong = sim.snap_texts(Some(&l), Mode::Strong, false);
        let weak = sim.snap_texts(Some(&l), Mode::Weak, false);
        if sim.spec.urlenc {
            return; // percent-encoded paths are C19's and C21's matter
        }
        e.eval();
        let r = e.call("datafusion", async {
            let tb = open(&t.url, &[]).await?;
            ask(&tb, &Q::Df(None)).await
        });
        match r {
            Res::Ok(g) => {
                e.count("datafusion_reads", 1);
                let class = if g == weak { "leftover-of-incomplete-write-in-range" } else { CLS_ROWS };
                e.same_rows(class, &format!("{phase}: DataFusion"), &g, &strong);
            }
            x => e.viol("failed", format!("{phase}: DataFusion {}", x.why())),
        }
    }
}

// ---------------- C10 ----------------
fn c10(e: &mut Env) {
    let mor = e.r.chance(50);
    let mut sim = fresh(e, mor, |_, _| {});
    if e.r.chance(50) && !sim.spec.part.is_empty() {
        let mut r = e.r.fork();
        let spec = sim.spec.clone();
        let np = 3 + r.below(8);
        sim = Sim::new(spec, r, true, np);
    }
    let t = e.table(&mut sim);
    let n = 1 + e.r.below(5);
    sim.grow(n, false);
    let par = *e.r.pick(&[1usize, 2, 3, 10]);
    let o = vec![opt("hoodie.read.listing.parallelism", &par.to_string())];
    let nq = 2 + e.r.below(9);
    let mut qs: Vec<Q> = vec![];
    for _ in 0..nq {
        let same = !qs.is_empty() && e.r.chance(25);
        let q = if same { e.r.pick(&qs).clone() } else { gen_q(&mut e.r, &sim) };
        qs.push(q);
    }
    // alone, each on its own object
    let mut alone = vec![];
    for q in &qs {
        alone.push(e.call("alone", async { ask(&open(&t.url, &o).await?, q).await }));
    }
    e.detail = format!("{qs:?} | {}", context(&sim));
    for round in 0..2 {
        let mt = e.r.chance(50);
        *t.ctl.shuffle.lock().unwrap() = Some(e.r.fork());
        *t.ctl.sched.lock().unwrap() = Some((e.r.fork(), *e.r.pick(&[1u32, 3, 8])));
        *t.ctl.delay_us.lock().unwrap() = if mt && e.r.chance(60) { Some((e.r.fork(), 300)) } else { None };
        t.ctl.trace_hash.store(0, std::sync::atomic::Ordering::SeqCst);
        t.ctl.max_inflight.store(0, std::sync::atomic::Ordering::SeqCst);
        let workers = 2 + e.r.below(3);
        let (url, qs2, o2) = (t.url.clone(), qs.clone(), o.clone());
        let rt = if mt {
            Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap())
        } else {
            e.rt.clone()
        };
        let warm = e.r.chance(30);
        let spread = e.r.below(3);
        e.eval();
        let what = if mt { "concurrent calls (multi-thread)" } else { "concurrent calls (current-thread)" };
        let got = call_sync(what, || {
            rt.block_on(async {
                let tb = Arc::new(open(&url, &o2).await?);
                if warm {
                    let _ = tb.get_file_slices(&[]).await?;
                }
                let mut out = vec![];
                if mt {
                    let mut hs = vec![];
                    for q in qs2 {
                        // clones of a table share its view
                        let tb = if spread == 1 { Arc::new((*tb).clone()) } else { tb.clone() };
                        hs.push(tokio::spawn(async move { ask(&tb, &q).await.map_err(|e| e.to_string()) }));
                    }
                    for h in hs {
                        out.push(match h.await {
                            Ok(Ok(v)) => Res::Ok(v),
                            Ok(Err(x)) => Res::Err(x),
                            Err(x) => Res::Panic(x.to_string()),
                        });
                    }
                } else {
                    let fs = qs2.iter().map(|q| ask(&tb, q));
                    for r in futures::future::join_all(fs).await {
                        out.push(match r {
                            Ok(v) => Res::Ok(v),
                            Err(x) => Res::Err(x.to_string()),
                        });
                    }
                }
                Ok::<_, CoreError>(out)
            })
        });
        drop(rt);
        *t.ctl.sched.lock().unwrap() = None;
        *t.ctl.delay_us.lock().unwrap() = None;
        match got {
            Res::Ok(v) => {
                e.count("concurrent_calls", v.len() as u64);
                e.max("max_storage_ops_in_flight", t.ctl.max_inflight.load(std::sync::atomic::Ordering::SeqCst) as u64);
                for ((q, a), b) in qs.iter().zip(&alone).zip(&v) {
                    let same = match (a, b) {
                        (Res::Ok(x), Res::Ok(y)) => x == y,
                        (Res::Err(_), Res::Err(_)) => true,
                        _ => false,
                    };
                    if !same {
                        let d = match (a, b) {
                            (Res::Ok(x), Res::Ok(y)) => diff(y, x),
                            _ => format!("alone {}, concurrent {}", a.why(), b.why()),
                        };
                        e.viol("differs", format!("round {round} {what}: {q:?}: {d}"));
                    }
                }
                e.sig(t.ctl.trace_hash.load(std::sync::atomic::Ordering::SeqCst));
            }
            x => e.viol("failed", format!("{what}: {}", x.why())),
        }
    }
    e.sample(format!("case {}: {} parallelism {par} calls {qs:?}", e.case, sim.describe()));
}

// ---------------- C11 ----------------
fn file_class(p: &str) -> &'static str {
    if p.contains(".hoodie/hoodie.properties") {
        "properties"
    } else if p.ends_with("hudi-defaults.conf") {
        "global-conf"
    } else if p.contains("/.hoodie/") {
        "commit"
    } else if p.contains(".log.") {
        "log"
    } else if p.ends_with(".parquet") {
        "base"
    } else {
        "dir"
    }
}
fn c11(e: &mut Env) {
    let mor = e.r.chance(50);
    let mut sim = fresh(e, mor, |_, _| {});
    let t = e.table(&mut sim);
    let n = 1 + e.r.below(5);
    sim.grow(n, false);
    let mut q = gen_q(&mut e.r, &sim);
    if !mor && !sim.spec.urlenc && e.r.chance(25) {
        q = Q::Df(None);
    }
    let fresh_open = e.r.chance(60);
    e.detail = format!("{q:?} | {}", context(&sim));
    let tb0 = match e.call("open", open(&t.url, &[])) {
        Res::Ok(t) => t,
        x => {
            e.viol("failed", x.why());
            return;
        }
    };
    let run = |e: &Env, tb: &Table| -> Res<Vec<String>> {
        e.call("faulty", async {
            if fresh_open {
                ask(&open(&t.url, &[]).await?, &q).await
            } else {
                ask(tb, &q).await
            }
        })
    };
    t.ctl.clear_log();
    let start = t.ctl.count();
    let want = match run(e, &tb0) {
        Res::Ok(v) => v,
        x => {
            // e.g. an incremental read past the end; that is other properties' matter
            if matches!(x, Res::Panic(_)) {
                e.viol("panic", x.why());
            }
            return;
        }
    };
    let nops = (t.ctl.count() - start) as usize;
    let ops = t.ctl.ops();
    let mut plan: Vec<HashMap<u64, Fault>> = vec![];
    let kinds = [Fault::NotFound, Fault::Generic, Fault::Permission, Fault::ShortBody, Fault::BrokenBody];
    for k in 0..nops.min(60) {
        for _ in 0..if e.thorough { 3 } else { 2 } {
            plan.push([(k as u64, *e.r.pick(&kinds))].into());
        }
    }
    for _ in 0..4 {
        let m = 1 + e.r.below(3);
        plan.push((0..m).map(|_| (e.r.below(nops.max(1)) as u64, *e.r.pick(&kinds))).collect());
    }
    for p in plan {
        // a short answer for the properties file is not detectable: see DESIGN.md
        let p: HashMap<u64, Fault> = p
            .into_iter()
            .map(|(k, f)| {
                let soft = ops.get(k as usize).map_or(true, |o| matches!(file_class(&o.path), "properties" | "global-conf"));
                (k, if soft && f == Fault::ShortBody { Fault::BrokenBody } else { f })
            })
            .collect();
        t.ctl.arm(p.clone());
        e.eval();
        let got = run(e, &tb0);
        let hit = t.ctl.faults_hit.load(std::sync::atomic::Ordering::SeqCst);
        t.ctl.disarm();
        if hit == 0 {
            e.count("fault_not_reached", 1);
            continue;
        }
        e.count("faults_injected", hit);
        let at: Vec<String> = p
            .iter()
            .map(|(k, f)| ops.get(*k as usize).map_or("?".into(), |o| format!("{:?} {} {:?}", o.kind, file_class(&o.path), f)))
            .collect();
        match &got {
            Res::Ok(v) if *v == want => e.count("complete_answers", 1),
            Res::Ok(v) => e.viol("partial", format!("{q:?} with faults {at:?}: {}", diff(v, &want))),
            Res::Err(_) => e.count("errors", 1),
            Res::Panic(x) => e.viol("panic", format!("{q:?} with faults {at:?}: {x}")),
        }
        let qn = format!("{q:?}");
        e.sig_s(&format!("{}{at:?}", qn.split('(').next().unwrap_or("")));
        // afterwards the same object answers
        if !fresh_open || e.r.chance(20) {
            e.eval();
            match e.call("after", ask(&tb0, &q)) {
                Res::Ok(v) if v == want => {}
                Res::Ok(v) => e.viol("after-fault", format!("{q:?} after faults {at:?}: {}", diff(&v, &want))),
                x => e.viol("after-fault", format!("{q:?} after faults {at:?}: {}", x.why())),
            }
        }
    }
    // files cut short
    let opened: BTreeSet<String> = ops.iter().filter(|o| o.kind == OpKind::Get).map(|o| o.path.clone()).collect();
    let prefix = format!("hv/{}/tbl/", t.id);
    for p in opened {
        let cl = file_class(&p);
        if !matches!(cl, "base" | "commit") {
            continue; // log files: C12
        }
        let Some(rel) = p.strip_prefix(&prefix) else { continue };
        let Some(orig) = sim.files.get(rel).cloned() else { continue };
        for cut in [0usize, orig.len() / 2, orig.len() - 1, e.r.below(orig.len())] {
            crate::sim::mem_put(&t.mem, &p, orig.slice(0..cut));
            e.eval();
            let got = run(e, &tb0);
            match &got {
                Res::Ok(v) if *v == want => e.count("complete_answers", 1),
                // sizes in a listing are those in storage
                Res::Ok(_) if matches!(q, Q::Slices(_) | Q::SlicesAsOf(..) | Q::Between(..) | Q::Splits(..) | Q::SplitsAsOf(..)) && cl == "base" => {}
                Res::Ok(v) => e.viol("partial", format!("{q:?} with {cl} file cut to {cut}/{}: {}", orig.len(), diff(v, &want))),
                Res::Err(_) => e.count("errors", 1),
                Res::Panic(x) => e.viol("panic", format!("{q:?} with {cl} file cut to {cut}/{}: {x}", orig.len())),
            }
            e.sig_s(&format!("cut{cl}{}", cut == 0));
            e.count("cut_files", 1);
        }
        crate::sim::mem_put(&t.mem, &p, orig);
    }
    e.sample(format!("case {}: {q:?} {} storage operations | {}", e.case, nops, sim.describe()));
}

// ---------------- C28 ----------------
/// Members that hudi-rs or a reader of the table needs: their path in the document, and whether a value of this
/// type could be taken for another valid one.
fn c28_members(v: &serde_json::Value) -> Vec<Vec<String>> {
    let mut out = vec![];
    let mut add = |p: &[&str]| out.push(p.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    for top in ["partitionToWriteStats", "partitionToReplaceFileIds", "extraMetadata"] {
        if v.get(top).is_some() {
            add(&[top]);
        }
    }
    if v["extraMetadata"].get("schema").is_some() {
        add(&["extraMetadata", "schema"]);
    }
    for (part, st) in v["partitionToWriteStats"].as_object().into_iter().flatten() {
        add(&["partitionToWriteStats", part]);
        for (i, s) in st.as_array().into_iter().flatten().enumerate() {
            let i = i.to_string();
            add(&["partitionToWriteStats", part, &i]);
            for k in s.as_object().into_iter().flatten().map(|x| x.0) {
                add(&["partitionToWriteStats", part, &i, k]);
            }
            for j in 0..s["logFiles"].as_array().map_or(0, |a| a.len()) {
                add(&["partitionToWriteStats", part, &i, "logFiles", &j.to_string()]);
            }
        }
    }
    for (part, ids) in v["partitionToReplaceFileIds"].as_object().into_iter().flatten() {
        add(&["partitionToReplaceFileIds", part]);
        for i in 0..ids.as_array().map_or(0, |a| a.len()) {
            add(&["partitionToReplaceFileIds", part, &i.to_string()]);
        }
    }
    out
}
fn c28_damage(r: &mut Rng, orig: &[u8]) -> Option<(String, Vec<u8>)> {
    use serde_json::{json, Value};
    let doc: Value = serde_json::from_slice(orig).ok()?;
    match r.below(12) {
        0 => {
            let n = r.below(orig.len());
            return Some((format!("cut to {}", if n == 0 { "nothing" } else { "a part" }), orig[..n].to_vec()));
        }
        1 => {
            let b = *r.pick(&[&b""[..], b"null", b"[]", b"7", b"\"x\"", b"{", b"}", b" ", b"\0", b"[{}]", b"true", b"Obj\x01\x04"]);
            return Some((format!("replaced by {:?}", String::from_utf8_lossy(b)), b.to_vec()));
        }
        2 => {
            // a byte of the document's structure
            let at: Vec<usize> = (0..orig.len()).filter(|i| b"{}[]:,".contains(&orig[*i])).collect();
            // inside a text it is not structure: the result must not be JSON any more
            for _ in 0..10 {
                let mut b = orig.to_vec();
                b[*r.pick(&at)] = *r.pick(b"{}[]:,x\0\xff\"");
                if serde_json::from_slice::<Value>(&b).is_err() {
                    return Some(("structure byte".into(), b));
                }
            }
            return None;
        }
        _ => {}
    }
    let mem = c28_members(&doc);
    if mem.is_empty() {
        return None;
    }
    let path = r.pick(&mem).clone();
    let mut new = doc.clone();
    let key = path.last().unwrap().clone();
    let mut cur = &mut new;
    for k in &path[..path.len() - 1] {
        cur = match cur {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            x => &mut x[k.as_str()],
        };
    }
    let name = |path: &[String]| -> String {
        let mut o = vec![path[0].clone()];
        for (i, k) in path.iter().enumerate().skip(1) {
            o.push(if i == 1 && path[0] != "extraMetadata" { "<partition>".into() } else if k.parse::<usize>().is_ok() { "<n>".into() } else { k.clone() });
        }
        o.join(".")
    };
    if cur.is_object() && path.len() != 2 && r.chance(35) || (path[0] == "extraMetadata" && r.chance(35)) {
        // a member is gone (whole partitions and array elements that are gone cannot be noticed)
        cur.as_object_mut()?.remove(&key);
        return Some((format!("{} missing", name(&path)), new.to_string().into_bytes()));
    }
    let old = match cur {
        Value::Array(a) => &mut a[key.parse::<usize>().unwrap()],
        x => &mut x[key.as_str()],
    };
    let vals = [json!(null), json!(7), json!(true), json!("x"), json!([]), json!({}), json!(["x"]), json!({"x": 1}), json!([[]]), json!(1.5)];
    let v = r.pick(&vals).clone();
    let kind = |v: &Value| match v {
        Value::Null => 0,
        Value::Bool(_) => 1,
        Value::Number(_) => 2,
        Value::String(_) => 3,
        Value::Array(_) => 4,
        Value::Object(_) => 5,
    };
    // a value of the right type cannot be told from a right value; no partition at all is one too
    if kind(&v) == kind(old) && !(v == json!({"x": 1})) && v != json!([[]]) {
        return None;
    }
    *old = v.clone();
    Some((format!("{} = {v}", name(&path)), new.to_string().into_bytes()))
}
fn c28(e: &mut Env) {
    let mor = e.r.chance(50);
    let mut sim = fresh(e, mor, |s, r| {
        s.evolve = r.chance(30);
        s.big = false;
        s.deep = false;
    });
    let t = e.table(&mut sim);
    let n = 1 + e.r.below(6);
    sim.grow(n, false);
    if e.r.chance(60) {
        let k = *e.r.pick(&["insert_overwrite", "cluster", "delete_partition"]);
        if let Some(mut x) = sim.tx_replace(k) {
            sim.finish(&mut x);
        }
        if e.r.chance(40) {
            sim.grow(1, false);
        }
    }
    e.detail = context(&sim);
    let prefix = format!("hv/{}/tbl/", t.id);
    let Res::Ok(tb) = e.call("open", open(&t.url, &[])) else {
        e.viol("failed", "open".into());
        return;
    };
    let done: Vec<(String, bytes::Bytes)> = sim
        .files
        .iter()
        .filter(|(p, _)| p.starts_with(".hoodie/2") && p.matches('/').count() == 1)
        .filter(|(p, _)| [".commit", ".deltacommit", ".replacecommit"].iter().any(|x| p.ends_with(x)))
        .map(|(p, b)| (p.clone(), b.clone()))
        .collect();
    let mut qs = vec![];
    let first = sim.commits().first().map(|c| c.ts.clone());
    for i in 0..8 {
        let q = match (i, &first) {
            (0, _) => Q::Snap(vec![]),
            (1, _) => Q::Schema,
            (2, Some(_)) => Q::Incr(if sim.spec.ts17 { "19700101000000000".into() } else { "19700101000000".into() }, None),
            (3, _) if !mor && !sim.spec.urlenc && !sim.spec.evolve => Q::Df(None),
            _ => gen_q(&mut e.r, &sim),
        };
        if matches!(q, Q::Timeline) {
            continue;
        }
        match e.call("undamaged", ask(&tb, &q)) {
            Res::Ok(v) => qs.push((q, v)),
            Res::Err(_) => {}
            x => e.viol("panic", format!("{q:?}: {}", x.why())),
        }
    }
    for _ in 0..6 {
        if done.is_empty() {
            break;
        }
        // the last ones matter most
        let k = if e.r.chance(40) { done.len() - 1 } else { e.r.below(done.len()) };
        let (p, orig) = done[k].clone();
        let Some((what, bytes)) = c28_damage(&mut e.r, &orig) else { continue };
        let noted = serde_json::from_slice::<serde_json::Value>(&bytes).ok();
        crate::sim::mem_put(&t.mem, &format!("{prefix}{p}"), bytes.into());
        e.count("files_damaged", 1);
        let fresh_tb = e.call("open", open(&t.url, &[]));
        let fresh_tb = match fresh_tb {
            Res::Ok(t) => Some(t),
            Res::Err(_) => None,
            x => {
                e.viol("panic", format!("open with {p}: {what}: {}", x.why()));
                None
            }
        };
        for (q, want) in &qs {
            // a commit whose write statistics are absent counts as one that wrote nothing
            if matches!(q, Q::Schema | Q::PartSchema | Q::Df(_)) && noted.as_ref().is_some_and(|d| d.is_object() && d["partitionToWriteStats"].is_null()) {
                continue;
            }
            for (how, tb) in [("object opened before", Some(&tb)), ("fresh object", fresh_tb.as_ref())] {
                let Some(tb) = tb else { continue };
                if how == "object opened before" && e.r.chance(60) {
                    continue;
                }
                e.eval();
                match e.call("damaged metadata", ask(tb, q)) {
                    Res::Ok(v) if v == *want => e.count("complete_answers", 1),
                    Res::Ok(v) => e.viol("misread", format!("{q:?} on {how} with {p}: {what}: {}", diff(&v, want))),
                    Res::Err(_) => {
                        e.count("errors", 1);
                        let qn = format!("{q:?}");
                        e.sig_s(&format!("{}{what}", qn.split('(').next().unwrap_or("")));
                    }
                    Res::Panic(x) => e.viol("panic", format!("{q:?} on {how} with {p}: {what}: {x}")),
                }
            }
        }
        crate::sim::mem_put(&t.mem, &format!("{prefix}{p}"), orig);
    }
    e.sample(format!("case {}: {}", e.case, sim.describe()));
}
