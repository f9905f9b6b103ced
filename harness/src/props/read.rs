//! C01-C04, C06-C09, C23-C27: reads of simulated tables against the reference model.
use super::*;
use crate::rng::Rng;
use crate::store::OpKind;
use crate::val::*;
use hudi_core::config::HudiConfigs;
use hudi_core::file_group::file_slice::FileSlice;
use std::collections::{BTreeMap, BTreeSet};

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", run: c01, quick: 12000, thorough: 240000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "random copy-on-write tables (schema, partitioning, encodings) grown by random inserts, updates, deletes, rewrites, replacements, failed-and-rolled-back writes; the snapshot is read after several commits and compared row by row with the model; distinct = table shapes with at least two commits" },
    Prop { id: "C02", run: c02, quick: 10000, thorough: 240000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "random merge-on-read tables with Avro and Parquet log blocks in several log files per slice, equal and decreasing ordering values, compactions, rollbacks; snapshot compared with the model merge; distinct = table shapes holding at least one log file" },
    Prop { id: "C03", run: c03, quick: 5000, thorough: 120000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "snapshots recorded by real reads right after every commit, then every recorded, neighbouring and extreme timestamp is read as of, in a fresh and in the long-open table; distinct = (table shape, timestamp class)" },
    Prop { id: "C04", run: c04, quick: 6000, thorough: 150000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "incremental reads over pairs of commit, neighbouring and extreme timestamps of random tables, compared with the model of changed records; distinct = (table shape, pair)" },
    Prop { id: "C06", run: c06, quick: 5000, thorough: 120000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "tables under repeated insert-overwrite, clustering and partition-drop commits, some left pending; visible file groups and rows before, at and after each compared with the model; distinct = (table shape, replace history)" },
    Prop { id: "C07", run: c07, quick: 12000, thorough: 240000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "conjunctions of 1-4 partition filters (6 operators, existing, neighbouring and absent values) on tables with 0-3 typed partition columns, hive/plain and encoded paths; rows compared with typed evaluation by the model; distinct = (partition layout, filter list)" },
    Prop { id: "C08", run: c08, quick: 9000, thorough: 180000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "split counts 0..k+2 and huge, with filters and as-of times, against the unsplit listing and rows; distinct = (slice count, n, filtered, as-of)" },
    Prop { id: "C09", run: c09, quick: 12000, thorough: 180000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "read-optimized reads of merge-on-read tables whose log files are intact, deleted or overwritten by garbage, and of copy-on-write tables; rows against base files only and the storage log against any log-file access; distinct = (shape, damage)" },
    Prop { id: "C23", run: c23, quick: 20000, thorough: 240000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "table, partition and Avro schema and the schema of every batch returned, for random column lists; distinct = column lists" },
    Prop { id: "C24", run: c24, quick: 5000, thorough: 120000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "every file-slice listing (latest, as-of, between, filtered, repeated) against the model's slices with size and row counts, and slice-by-slice reads; distinct = (shape, listing)" },
    Prop { id: "C25", run: c25, quick: 4000, thorough: 120000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "log files whose rollback blocks are repeated, moved across the slice's files and positions, or target instants with no block; rows against the model; distinct = block layouts" },
    Prop { id: "C26", run: c26, quick: 2250, thorough: 90000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "one table object re-read between the storage operations of later writers; each answer against its first answer, and a fresh object against the model; distinct = (shape, writer, operation index)" },
    Prop { id: "C27", run: c27, quick: 12000, thorough: 180000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "storage-operation logs of every kind of read: no mutation, data files opened within the selected slices, listings in flight within the configured parallelism; distinct = (call, table shape)" },
];

pub const CLS_ROWS: &str = "rows";

/// A random table that grows; the caller picks the kind.
pub fn fresh(e: &mut Env, mor: bool, tweak: impl FnOnce(&mut Spec, &mut Rng)) -> Sim {
    let mut r = e.r.fork();
    let mut spec = gen_spec(&mut r, mor);
    tweak(&mut spec, &mut r);
    let n = 1 + r.below(4);
    Sim::new(spec, r, true, n)
}

pub fn clean_view(sim: &Sim, t: &str) -> bool {
    let a = sim.snap_texts(Some(t), Mode::Strong, false);
    let b = sim.snap_texts(Some(t), Mode::Weak, false);
    a == b
}

/// opens the table and reads its snapshot
pub fn snap(e: &Env, url: &str, o: &[(String, String)], f: &[(String, String, String)]) -> Res<Vec<String>> {
    e.call("read_snapshot", async {
        let t = open(url, o).await?;
        let b = t.read_snapshot(&fl(f)).await?;
        Ok::<_, hudi_core::error::CoreError>(texts(&b))
    })
}
pub fn slices(e: &Env, url: &str, o: &[(String, String)]) -> Res<Vec<FileSlice>> {
    e.call("get_file_slices", async {
        let t = open(url, o).await?;
        t.get_file_slices(&[]).await
    })
}

fn maybe_shuffle(e: &mut Env, t: &Tbl) {
    if e.r.chance(50) {
        *t.ctl.shuffle.lock().unwrap() = Some(e.r.fork());
    }
}

fn c01(e: &mut Env) {
    let mut sim = fresh(e, false, |_, _| {});
    snapshot_rounds(e, &mut sim);
}
fn c02(e: &mut Env) {
    let mut sim = fresh(e, true, |_, _| {});
    snapshot_rounds(e, &mut sim);
}
fn snapshot_rounds(e: &mut Env, sim: &mut Sim) {
    let t = e.table(sim);
    maybe_shuffle(e, &t);
    let rounds = 1 + e.r.below(3);
    for i in 0..=rounds {
        if i > 0 || e.r.chance(90) {
            let n = 1 + sim.r.below(4);
            sim.grow(n, true);
        }
        let want = match sim.latest() {
            None => vec![],
            Some(l) => {
                if !clean_view(sim, &l) {
                    e.count("skipped_unclean", 1);
                    continue;
                }
                rows_of(sim, &sim.snapshot(&l, Mode::Strong, false, &|_| true))
            }
        };
        e.detail = context(sim);
        e.eval();
        match snap(e, &t.url, &[], &[]) {
            Res::Ok(got) => {
                e.count("rows_compared", want.len() as u64);
                if e.same_rows(CLS_ROWS, "snapshot", &got, &want) && sim.commits().len() >= 2 && (!sim.spec.mor || sim.groups.iter().any(|g| !g.logs.is_empty())) {
                    e.sig(sim.shape_hash());
                }
            }
            x => e.viol("failed", format!("snapshot read failed on a valid table: {}", x.why())),
        }
    }
    e.sample(format!("case {}: {}", e.case, context(sim)));
}

fn c03(e: &mut Env) {
    let mor = e.r.chance(60);
    let mut sim = fresh(e, mor, |_, _| {});
    let t = e.table(&mut sim);
    maybe_shuffle(e, &t);
    // (commit, what a real read returned right after it)
    let mut hist: Vec<(String, Vec<String>)> = vec![];
    let n = 2 + e.r.below(6) + if sim.spec.deep { 14 } else { 0 };
    for _ in 0..n {
        sim.grow_exactly(1, true);
        let l = sim.latest().unwrap();
        if !clean_view(&sim, &l) {
            e.count("skipped_unclean", 1);
            return;
        }
        match snap(e, &t.url, &[], &[]) {
            Res::Ok(v) => hist.push((l, v)),
            x => {
                e.detail = context(&sim);
                e.viol("failed", format!("snapshot read failed: {}", x.why()));
                return;
            }
        }
    }
    e.detail = context(&sim);
    let Res::Ok(tb) = e.call("open", open(&t.url, &[])) else {
        e.viol("failed", "open failed".into());
        return;
    };
    let mut ts = times(&sim);
    e.r.shuffle(&mut ts);
    ts.truncate(14);
    for at in ts {
        if !clean_view(&sim, &at) {
            e.count("skipped_unclean", 1);
            continue;
        }
        // a failed write older than `at` that was rolled back later has no effect in either model
        let rec = hist.iter().filter(|h| h.0 <= at).max_by(|a, b| a.0.cmp(&b.0));
        let want = rec.map(|h| h.1.clone()).unwrap_or_default();
        let model = rows_of(&sim, &sim.snapshot(&at, Mode::Strong, false, &|_| true));
        e.eval();
        let got = e.call("read_snapshot_as_of", async { tb.read_snapshot_as_of(&at, &[]).await }).map(|b| texts(&b));
        match got {
            Res::Ok(g) => {
                e.count("rows_compared", want.len() as u64);
                let ok = e.same_rows("history", &format!("as of {at} against the read made then"), &g, &want)
                    && e.same_rows(CLS_ROWS, &format!("as of {at} against the model"), &g, &model);
                if ok && !want.is_empty() {
                    e.sig_s(&format!("{}@{at}", sim.shape_hash()));
                }
            }
            x => e.viol("failed", format!("as of {at}: {}", x.why())),
        }
    }
    e.sample(format!("case {}: {} history of {} reads", e.case, sim.describe(), hist.len()));
}

fn c04(e: &mut Env) {
    let mor = e.r.chance(60);
    let mut sim = fresh(e, mor, |s, r| {
        s.meta = true;
        s.monotone = true;
        if r.chance(60) {
            s.precombine = true;
        }
        if s.strategy.is_none() && !s.precombine {
            s.strategy = Some("append_only");
        }
        s.strategy = if s.precombine { s.strategy } else { Some("append_only") };
    });
    let t = e.table(&mut sim);
    maybe_shuffle(e, &t);
    let n = 2 + e.r.below(7);
    sim.grow(n, true);
    e.detail = context(&sim);
    let Res::Ok(tb) = e.call("open", open(&t.url, &[])) else {
        e.viol("failed", "open failed".into());
        return;
    };
    let ts = times(&sim);
    for _ in 0..12 {
        let mut a = e.r.pick(&ts).clone();
        let mut b = e.r.pick(&ts).clone();
        if a > b && e.r.chance(90) {
            std::mem::swap(&mut a, &mut b);
        }
        let no_end = e.r.chance(15);
        if no_end {
            b = sim.latest().unwrap();
        }
        if e.r.chance(10) {
            a = "19700101000000000".into();
            if !sim.spec.ts17 {
                a.truncate(14);
            }
        }
        let early = sim.commits().first().map_or(true, |c| a < c.ts);
        let want = rows_of(&sim, &sim.incremental(&a, &b));
        let end = if no_end { None } else { Some(b.as_str()) };
        e.eval();
        let got = e.call("read_incremental_records", tb.read_incremental_records(&a, end)).map(|b| texts(&b));
        match got {
            Res::Ok(g) => {
                e.count("rows_compared", want.len() as u64);
                let weak = rows_of(&sim, &sim.incremental_listed(&a, &b));
                let class = if g == weak { "incremental-uncommitted-log-block" } else { CLS_ROWS };
                if e.same_rows(class, &format!("incremental ({a}, {end:?}]"), &g, &want) && !want.is_empty() {
                    e.sig_s(&format!("{}@{a}-{b}", sim.shape_hash()));
                }
            }
            x => e.viol("failed", format!("incremental ({a}, {end:?}]: {}", x.why())),
        }
        // listing of changed slices
        let from = if early && e.r.chance(60) { None } else { Some(a.as_str()) };
        let sl = e.call("get_file_slices_between", tb.get_file_slices_between(from, end));
        let wantf: BTreeSet<(String, String, String)> = sim
            .touched_between(&a, &b)
            .into_iter()
            .map(|(g, ts)| (sim.parts[sim.groups[g].part].path.clone(), sim.groups[g].fid.clone(), ts))
            .collect();
        match sl {
            Res::Ok(v) => {
                let gotf: BTreeSet<(String, String, String)> =
                    v.iter().map(|s| (s.partition_path.clone(), s.file_id().to_string(), s.creation_instant_time().to_string())).collect();
                if gotf != wantf || gotf.len() != v.len() {
                    e.viol("slices", format!("slices in ({a}, {b}]: got {gotf:?} want {wantf:?}"));
                }
            }
            x => e.viol("failed", format!("slices between: {}", x.why())),
        }
    }
    e.sample(format!("case {}: {}", e.case, sim.describe()));
}

fn c06(e: &mut Env) {
    let mor = e.r.chance(40);
    let mut sim = fresh(e, mor, |_, _| {});
    let t = e.table(&mut sim);
    maybe_shuffle(e, &t);
    let mut log = String::new();
    for i in 0..3 + e.r.below(4) {
        if i == 0 || e.r.chance(55) {
            let n = 1 + e.r.below(2);
            sim.grow(n, false);
        }
        let kind = *e.r.pick(&["insert_overwrite", "cluster", "delete_partition"]);
        let Some(mut x) = sim.tx_replace(kind) else { continue };
        log.push_str(kind);
        let pending = e.r.chance(35);
        if pending {
            // requested (and inflight) only: the write has put no data file yet
            let k = 1 + e.r.below(2);
            let names: Vec<(String, String)> = (0..2).map(|i| (x.ops[i].path.clone(), String::new())).collect();
            sim.cut(&mut x, k);
            if e.r.chance(50) {
                // a pending replace carries its plan in the requested file
                let plan = sim.insts[x.inst].meta_json.clone();
                sim.put_raw(&names[e.r.below(k)].0.clone(), plan.into_bytes());
            }
            log.push('?');
        } else {
            sim.finish(&mut x);
        }
        e.detail = context(&sim);
        let l = sim.latest().unwrap();
        if !clean_view(&sim, &l) {
            e.count("skipped_unclean", 1);
            continue;
        }
        let mut ats = vec![l.clone()];
        let all = times(&sim);
        ats.push(e.r.pick(&all).clone());
        ats.push(x.ts.clone());
        for at in ats {
            if !clean_view(&sim, &at) {
                continue;
            }
            let want = rows_of(&sim, &sim.snapshot(&at, Mode::Strong, false, &|_| true));
            let wantg: BTreeSet<String> = sim
                .groups
                .iter()
                .filter(|g| !sim.replaced_as_of(g, &at) && sim.base_as_of(g, &at, Mode::Strong).is_some())
                .map(|g| g.fid.clone())
                .collect();
            e.eval();
            let r = e.call("as_of", async {
                let tb = open(&t.url, &[]).await?;
                let s = tb.get_file_slices_as_of(&at, &[]).await?;
                let b = tb.read_snapshot_as_of(&at, &[]).await?;
                Ok::<_, hudi_core::error::CoreError>((s, texts(&b)))
            });
            match r {
                Res::Ok((s, g)) => {
                    let gotg: BTreeSet<String> = s.iter().map(|x| x.file_id().to_string()).collect();
                    let mut ok = true;
                    if gotg != wantg {
                        ok = false;
                        e.viol("groups", format!("visible groups as of {at}: got {gotg:?} want {wantg:?}"));
                    }
                    if e.same_rows(CLS_ROWS, &format!("as of {at}"), &g, &want) && ok {
                        e.sig_s(&format!("{}{log}", sim.shape_hash()));
                    }
                }
                x => e.viol("failed", format!("as of {at}: {}", x.why())),
            }
        }
    }
    e.sample(format!("case {}: {} replaces [{log}]", e.case, sim.describe()));
}

pub fn gen_filter(r: &mut Rng, sim: &Sim) -> (String, &'static str, String, usize, V) {
    let ci = r.below(sim.spec.part.len());
    let (n, t) = sim.spec.part[ci].clone();
    let op = *r.pick(&["=", "!=", "<", "<=", ">", ">="]);
    let mut v = if r.chance(75) {
        r.pick(&sim.parts).vals[ci].clone()
    } else {
        match &t {
            Ty::Str => V::s(*r.pick::<&str>(&["", "a", "b b", "zzz", "10", "A", "ü", "sf"])),
            Ty::Bool => V::B(r.chance(50)),
            _ => V::I(r.range(-20, 300)),
        }
    };
    if let (V::I(i), true) = (&v, r.chance(20)) {
        v = V::I(*i + r.range(-1, 1));
    }
    let text = part_text(&t, &v);
    (n, op, text, ci, v)
}
pub fn cmp_v(a: &V, b: &V) -> std::cmp::Ordering {
    match (a, b) {
        (V::I(x), V::I(y)) => x.cmp(y),
        (V::S(x), V::S(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::B(x), V::B(y)) => x.cmp(y),
        _ => unreachable!(),
    }
}
pub fn holds(op: &str, a: &V, b: &V) -> bool {
    let o = cmp_v(a, b);
    match op {
        "=" => o.is_eq(),
        "!=" => o.is_ne(),
        "<" => o.is_lt(),
        "<=" => o.is_le(),
        ">" => o.is_gt(),
        _ => o.is_ge(),
    }
}
pub type F3 = (String, String, String);
/// Random filters and the partitions they select.
pub fn gen_filters(r: &mut Rng, sim: &Sim) -> (Vec<F3>, Vec<bool>) {
    let mut keep = vec![true; sim.parts.len()];
    let mut f = vec![];
    if sim.spec.part.is_empty() {
        return (f, keep);
    }
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 2, 3, 4]) {
        let (n, op, text, ci, v) = gen_filter(r, sim);
        for (k, p) in keep.iter_mut().zip(&sim.parts) {
            *k = *k && holds(op, &p.vals[ci], &v);
        }
        f.push((n, op.to_string(), text));
    }
    (f, keep)
}

fn c07(e: &mut Env) {
    let mor = e.r.chance(30);
    let mut r0 = e.r.fork();
    let mut spec = gen_spec(&mut r0, mor);
    if spec.part.is_empty() && r0.chance(90) {
        spec = gen_spec(&mut r0, mor);
    }
    let np = 2 + r0.below(6);
    let mut sim = Sim::new(spec, r0, true, np);
    let t = e.table(&mut sim);
    maybe_shuffle(e, &t);
    let n = 2 + e.r.below(4);
    sim.grow(n, false);
    e.detail = context(&sim);
    let l = sim.latest().unwrap();
    let tb = match e.call("open", open(&t.url, &[])) {
        Res::Ok(t) => t,
        x => {
            e.viol("failed", format!("open failed: {}", x.why()));
            return;
        }
    };
    for _ in 0..10 {
        let mut g = e.r.fork();
        let (f, keep) = if e.r.chance(12) { (vec![], vec![true; sim.parts.len()]) } else { gen_filters(&mut g, &sim) };
        let want = rows_of(&sim, &sim.snapshot(&l, Mode::Strong, false, &|p| keep[p]));
        e.eval();
        let got = e.call("read_snapshot filtered", async { tb.read_snapshot(&fl(&f)).await }).map(|b| texts(&b));
        match got {
            Res::Ok(g) => {
                let kept = keep.iter().filter(|k| **k).count();
                e.count("partitions_kept", kept as u64);
                e.count("partitions_pruned", (keep.len() - kept) as u64);
                if e.same_rows(CLS_ROWS, &format!("filters {f:?} partitions {:?}", sim.parts.iter().map(|p| &p.path).collect::<Vec<_>>()), &g, &want) && !f.is_empty() {
                    e.sig_s(&format!("{:?}{:?}{f:?}", sim.spec.part, (sim.spec.hive, sim.spec.urlenc)));
                }
            }
            x => e.viol("failed", format!("filters {f:?}: {}", x.why())),
        }
    }
    e.sample(format!("case {}: {} partitions {:?}", e.case, sim.describe(), sim.parts.iter().map(|p| &p.path).collect::<Vec<_>>()));
}

pub fn slice_key(s: &FileSlice) -> String {
    let logs: Vec<String> = s.log_files.iter().map(|l| l.file_name()).collect();
    let fm = s.base_file.file_metadata.as_ref();
    format!(
        "{}/{} logs{:?} size={:?} rows={:?}",
        s.partition_path,
        s.base_file.file_name(),
        logs,
        fm.map(|m| m.size),
        fm.map(|m| m.num_records)
    )
}

fn c08(e: &mut Env) {
    let mor = e.r.chance(40);
    let mut sim = fresh(e, mor, |_, _| {});
    let t = e.table(&mut sim);
    let n = e.r.below(6);
    sim.grow(n, false);
    e.detail = context(&sim);
    let Res::Ok(tb) = e.call("open", open(&t.url, &[])) else {
        e.viol("failed", "open failed".into());
        return;
    };
    let all = times(&sim);
    for _ in 0..6 {
        maybe_shuffle(e, &t);
        let mut g = e.r.fork();
        let (f, keep) = if e.r.chance(40) { gen_filters(&mut g, &sim) } else { (vec![], vec![true; sim.parts.len()]) };
        let at = if e.r.chance(40) { Some(e.r.pick(&all).clone()) } else { None };
        let base = e.call("slices", async {
            match &at {
                Some(a) => tb.get_file_slices_as_of(a, &fl(&f)).await,
                None => tb.get_file_slices(&fl(&f)).await,
            }
        });
        let Res::Ok(base) = base else {
            e.viol("failed", format!("listing failed {}", base.why()));
            continue;
        };
        let k = base.len();
        let n = match e.r.below(8) {
            0 => 0,
            1 => 1,
            2 => k,
            3 => k + 1,
            4 => k.saturating_sub(1),
            5 => usize::MAX,
            _ => e.r.below(k + 3),
        };
        let sp = e.call("splits", async {
            match &at {
                Some(a) => tb.get_file_slices_splits_as_of(n, a, &fl(&f)).await,
                None => tb.get_file_slices_splits(n, &fl(&f)).await,
            }
        });
        e.eval();
        let what = format!("n={n} filters={f:?} as of {at:?} slices={k}");
        let Res::Ok(sp) = sp else {
            e.viol("failed", format!("{what}: {}", sp.why()));
            continue;
        };
        let mut a: Vec<String> = base.iter().map(slice_key).collect();
        let mut b: Vec<String> = sp.iter().flatten().map(slice_key).collect();
        a.sort();
        b.sort();
        if a != b {
            e.viol("content", format!("{what}: splits hold {b:?}, listing {a:?}"));
        }
        if sp.iter().any(|g| g.is_empty()) {
            e.viol("empty-group", what.clone());
        }
        if sp.len() > n.max(1) {
            e.viol("too-many", format!("{what}: {} groups", sp.len()));
        }
        let cap = k.div_ceil(n.max(1)).max(1);
        if sp.iter().any(|g| g.len() > cap) {
            e.viol("unbalanced", format!("{what}: sizes {:?}", sp.iter().map(|g| g.len()).collect::<Vec<_>>()));
        }
        // rows of all splits together
        let end = at.clone().or(sim.latest());
        if let Some(end) = end {
            let rows = e.call("read splits", async {
                let fg = tb.create_file_group_reader_with_options([("hoodie.read.file_group.end_timestamp", end.as_str())])?;
                let mut out = vec![];
                for g in &sp {
                    for s in g {
                        out.push(fg.read_file_slice(s).await?);
                    }
                }
                Ok::<_, hudi_core::error::CoreError>(texts(&out))
            });
            let want = rows_of(&sim, &sim.snapshot(&end, Mode::Strong, false, &|p| keep[p]));
            match rows {
                Res::Ok(r) => {
                    if e.same_rows(CLS_ROWS, &what, &r, &want) {
                        e.sig_s(&format!("{k},{n},{},{}", f.len(), at.is_some()));
                    }
                }
                x => e.viol("failed", format!("{what}: {}", x.why())),
            }
        }
    }
    e.sample(format!("case {}: {}", e.case, sim.describe()));
}

fn c09(e: &mut Env) {
    let mor = e.r.chance(85);
    let mut sim = fresh(e, mor, |_, _| {});
    let t = e.table(&mut sim);
    maybe_shuffle(e, &t);
    let n = 2 + e.r.below(5);
    sim.grow(n, false);
    let logs: Vec<String> = sim.files.keys().filter(|f| f.contains(".log.")).cloned().collect();
    let damage = e.r.below(4);
    for f in &logs {
        match damage {
            1 => sim.del_raw(f),
            2 => sim.put_raw(f, b"garbage that is no log file".to_vec()),
            3 if e.r.chance(50) => sim.put_raw(f, vec![]),
            _ => {}
        }
    }
    e.detail = context(&sim);
    let o = vec![opt("hoodie.read.use.read_optimized.mode", "true")];
    let tb = match e.call("open", open(&t.url, &o)) {
        Res::Ok(t) => t,
        x => {
            e.viol("failed", format!("open: {}", x.why()));
            return;
        }
    };
    let mut ats = vec![None];
    let all = times(&sim);
    for _ in 0..3 {
        ats.push(Some(e.r.pick(&all).clone()));
    }
    for at in ats {
        let mut g = e.r.fork();
        let (f, keep) = if e.r.chance(40) { gen_filters(&mut g, &sim) } else { (vec![], vec![true; sim.parts.len()]) };
        t.ctl.clear_log();
        e.eval();
        let end = at.clone().or(sim.latest()).unwrap();
        let got = e.call("read-optimized", async {
            match &at {
                Some(a) => tb.read_snapshot_as_of(a, &fl(&f)).await,
                None => tb.read_snapshot(&fl(&f)).await,
            }
        }).map(|b| texts(&b));
        let want = rows_of(&sim, &sim.snapshot(&end, Mode::Strong, true, &|p| keep[p]));
        match got {
            Res::Ok(g) => {
                if e.same_rows(CLS_ROWS, &format!("as of {at:?} {f:?} damage {damage}"), &g, &want) {
                    e.sig_s(&format!("{},{damage},{:?}", sim.shape_hash(), at));
                }
            }
            x => e.viol("failed", format!("as of {at:?} damage {damage}: {}", x.why())),
        }
        for op in t.ctl.ops() {
            if matches!(op.kind, OpKind::Get | OpKind::Head) && op.path.contains(".log.") {
                e.viol("log-opened", format!("{:?} {}", op.kind, op.path));
            }
        }
        e.count("storage_ops_checked", t.ctl.ops().len() as u64);
    }
    // a reader's own option decides, whatever the table was opened with
    if damage == 0 {
        let end = sim.latest().unwrap();
        for ro in [true, false] {
            let table_opt = *e.r.pick(&[None, Some("true"), Some("false")]);
            let own = if ro { "true" } else { "false" };
            e.eval();
            let r = e.call("reader option", async {
                let o: Vec<_> = table_opt.iter().map(|v| opt("hoodie.read.use.read_optimized.mode", v)).collect();
                let tb = open(&t.url, &o).await?;
                let s = tb.get_file_slices(&[]).await?;
                let fg = tb.create_file_group_reader_with_options([
                    ("hoodie.read.use.read_optimized.mode", own),
                    ("hoodie.read.file_group.end_timestamp", end.as_str()),
                ])?;
                let mut out = vec![];
                for x in &s {
                    out.push(fg.read_file_slice(x).await?);
                }
                Ok::<_, hudi_core::error::CoreError>(texts(&out))
            });
            let want = if ro || clean_view(&sim, &end) {
                rows_of(&sim, &sim.snapshot(&end, Mode::Strong, ro, &|_| true))
            } else {
                continue;
            };
            match r {
                Res::Ok(g) => {
                    e.same_rows(CLS_ROWS, &format!("reader option {own}, table option {table_opt:?}"), &g, &want);
                }
                x => e.viol("failed", format!("reader option {own}, table option {table_opt:?}: {}", x.why())),
            }
        }
    }
    e.sample(format!("case {}: {} damage {damage}", e.case, sim.describe()));
}

fn c23(e: &mut Env) {
    let mor = e.r.chance(40);
    let mut sim = fresh(e, mor, |s, r| s.evolve |= r.chance(40));
    let t = e.table(&mut sim);
    let n = 1 + e.r.below(6);
    sim.grow(n, false);
    e.detail = context(&sim);
    let r = e.call("schemas", async {
        let tb = open(&t.url, &[]).await?;
        let s = tb.get_schema().await?;
        let p = tb.get_partition_schema().await?;
        let a = tb.get_avro_schema().await?;
        let b = tb.read_snapshot(&[]).await?;
        Ok::<_, hudi_core::error::CoreError>((s, p, a, b))
    });
    e.eval();
    let Res::Ok((s, p, a, b)) = r else {
        e.viol("failed", r.why());
        return;
    };
    let mut spec = sim.spec.clone();
    spec.cols.truncate(sim.ncols());
    let want = spec.schema();
    let nt = |s: &arrow_schema::Schema| -> Vec<(String, String)> {
        s.fields().iter().map(|f| (f.name().clone(), norm_ty(f.data_type()))).collect()
    };
    let w = nt(&want);
    if nt(&s) != w {
        e.viol("table-schema", format!("got {:?} want {w:?}", nt(&s)));
    }
    let wp: Vec<(String, String)> = sim
        .spec
        .part
        .iter()
        .map(|(n, _)| w.iter().find(|x| x.0 == *n).unwrap().clone())
        .collect();
    if nt(&p) != wp {
        e.viol("partition-schema", format!("got {:?} want {wp:?}", nt(&p)));
    }
    let wa = &sim.commits().last().unwrap().schema;
    if a != *wa {
        e.viol("avro-schema", format!("got {a} want {wa}"));
    }
    for x in &b {
        // files written before columns were added lack those
        let g = nt(&x.schema());
        let older = sim.groups.iter().flat_map(|g| &g.bases).any(|b| b.committed && 5 + b.ncols == g.len());
        if g != w[..g.len().min(w.len())] || !older {
            e.viol("batch-schema", format!("got {g:?} want {w:?}"));
        }
        e.count("batches", 1);
        e.count("batches_of_older_columns", (g.len() < w.len()) as u64);
    }
    let l = sim.latest().unwrap();
    if clean_view(&sim, &l) {
        let wr = sim.snap_texts(Some(&l), Mode::Strong, false);
        e.same_rows("rows", "rows by column", &texts(&b), &wr);
    }
    e.sig_s(&format!("{w:?}{wp:?}"));
    e.sample(format!("case {}: {w:?} partition {wp:?}", e.case));
}
/// data type text without nullability and element names
pub fn norm_ty(t: &arrow_schema::DataType) -> String {
    use arrow_schema::DataType as D;
    match t {
        D::List(f) => format!("list<{}>", norm_ty(f.data_type())),
        D::Struct(fs) => format!(
            "struct<{}>",
            fs.iter().map(|f| format!("{}:{}", f.name(), norm_ty(f.data_type()))).collect::<Vec<_>>().join(",")
        ),
        D::Map(f, _) => format!("map<{}>", norm_ty(f.data_type())),
        t => format!("{t:?}"),
    }
}

/// (partition, base file) -> (logs, size, rows) expected as of `at`
fn want_slices(sim: &Sim, at: &str, keep: &[bool]) -> BTreeMap<String, (BTreeSet<String>, usize, usize, i64)> {
    let mut m = BTreeMap::new();
    for g in &sim.groups {
        if !keep[g.part] || sim.replaced_as_of(g, at) {
            continue;
        }
        if let Some(bi) = sim.base_as_of(g, at, Mode::Strong) {
            let b = &g.bases[bi];
            let logs: BTreeSet<String> = g.logs.iter().filter(|l| l.base_ts == b.ts && l.present()).map(|l| l.name.clone()).collect();
            m.insert(format!("{}|{}|{}|{}", sim.parts[g.part].path, g.fid, b.ts, b.file), (logs, b.size, b.num_rows, b.byte_size));
        }
    }
    m
}

fn c24(e: &mut Env) {
    let mor = e.r.chance(65);
    let mut sim = fresh(e, mor, |_, _| {});
    let t = e.table(&mut sim);
    maybe_shuffle(e, &t);
    let n = 2 + e.r.below(6);
    sim.grow(n, false);
    e.detail = context(&sim);
    let tb = match e.call("open", open(&t.url, &[])) {
        Res::Ok(t) => t,
        x => {
            e.viol("failed", x.why());
            return;
        }
    };
    let all = times(&sim);
    for i in 0..6 {
        let mut g = e.r.fork();
        let (f, keep) = if e.r.chance(35) { gen_filters(&mut g, &sim) } else { (vec![], vec![true; sim.parts.len()]) };
        let at = if i > 0 && e.r.chance(75) { Some(e.r.pick(&all).clone()) } else { None };
        let end = at.clone().or(sim.latest()).unwrap();
        let alone = e.r.chance(30);
        let r = e.call("slices", async {
            let l = || async {
                match &at {
                    Some(a) => tb.get_file_slices_as_of(a, &fl(&f)).await,
                    None => tb.get_file_slices(&fl(&f)).await,
                }
            };
            let a = l().await?;
            let b = l().await?;
            let fg = if alone {
                let mut o: Vec<(String, String)> = tb.hudi_options().into_iter().chain(tb.storage_options()).collect();
                o.push(("hoodie.read.file_group.end_timestamp".into(), end.clone()));
                hudi_core::file_group::reader::FileGroupReader::new_with_options(tb.base_url().as_str(), o)?
            } else {
                tb.create_file_group_reader_with_options([("hoodie.read.file_group.end_timestamp", end.as_str())])?
            };
            let mut rows = vec![];
            for s in &a {
                rows.push(fg.read_file_slice(s).await?);
            }
            let all = match &at {
                Some(a) => tb.read_snapshot_as_of(a, &fl(&f)).await?,
                None => tb.read_snapshot(&fl(&f)).await?,
            };
            Ok::<_, hudi_core::error::CoreError>((a, b, texts(&rows), texts(&all)))
        });
        e.eval();
        let what = format!("listing as of {at:?} filters {f:?}");
        let Res::Ok((a, b, rows, allrows)) = r else {
            e.viol("failed", format!("{what}: {}", r.why()));
            continue;
        };
        let want = want_slices(&sim, &end, &keep);
        let mut got = BTreeMap::new();
        for s in &a {
            let fm = s.base_file.file_metadata.clone().unwrap_or_default();
            let k = format!("{}|{}|{}|{}", s.partition_path, s.file_id(), s.creation_instant_time(), s.base_file.file_name());
            let logs: BTreeSet<String> = s.log_files.iter().map(|l| l.file_name()).collect();
            if logs.len() != s.log_files.len() {
                e.viol("slices", format!("{what}: a log file is listed twice in {k}"));
            }
            if got.insert(k.clone(), (logs, fm.size, fm.num_records as usize, fm.byte_size)).is_some() {
                e.viol("slices", format!("{what}: {k} listed twice"));
            }
            let vers: Vec<u32> = s.log_files.iter().map(|l| sim.groups.iter().flat_map(|g| &g.logs).find(|x| x.name == l.file_name()).map_or(0, |x| x.version)).collect();
            if vers.windows(2).any(|w| w[0] > w[1]) {
                e.viol("log-order", format!("{what}: log versions {vers:?}"));
            }
        }
        if got != want {
            e.viol("slices", format!("{what}: got {got:?} want {want:?}"));
        } else {
            e.sig_s(&format!("{}{at:?}{f:?}", sim.shape_hash()));
        }
        let (mut ka, mut kb): (Vec<_>, Vec<_>) = (a.iter().map(slice_key).collect(), b.iter().map(slice_key).collect());
        ka.sort();
        kb.sort();
        if ka != kb {
            e.viol("repeat", format!("{what}: {ka:?} then {kb:?}"));
        }
        e.same_rows("slice-rows", &what, &rows, &allrows);
        // byte_size against the parquet footer
        e.count("slices_checked", a.len() as u64);
    }
    // between
    let (mut a, mut b) = (e.r.pick(&all).clone(), e.r.pick(&all).clone());
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let want: BTreeSet<String> = sim
        .touched_between(&a, &b)
        .into_iter()
        .map(|(g, ts)| {
            let gr = &sim.groups[g];
            let base = gr.bases.iter().find(|x| x.ts == ts).unwrap();
            format!("{}|{}|{}", sim.parts[gr.part].path, gr.fid, base.file)
        })
        .collect();
    e.eval();
    let early = sim.commits().first().map_or(true, |c| a < c.ts);
    let from = if early && e.r.chance(60) { None } else { Some(a.as_str()) };
    let to = if sim.latest().as_ref() == Some(&b) && e.r.chance(50) { None } else { Some(b.as_str()) };
    match e.call("between", tb.get_file_slices_between(from, to)) {
        Res::Ok(v) => {
            let got: BTreeSet<String> = v.iter().map(|s| format!("{}|{}|{}", s.partition_path, s.file_id(), s.base_file.file_name())).collect();
            if got != want || v.len() != want.len() {
                e.viol("between", format!("({a}, {b}]: got {got:?} want {want:?}"));
            }
            for s in &v {
                let Some(g) = sim.groups.iter().find(|g| sim.parts[g.part].path == s.partition_path && g.fid == s.file_id()) else { continue };
                let got: BTreeSet<String> = s.log_files.iter().map(|l| l.file_name()).collect();
                let of: Vec<_> = g.logs.iter().filter(|l| l.base_ts == s.creation_instant_time()).collect();
                let may: BTreeSet<String> = of.iter().filter(|l| l.present()).map(|l| l.name.clone()).collect();
                let must: BTreeSet<String> = of
                    .iter()
                    .filter(|l| l.blocks.iter().any(|x| x.committed && x.instant > a && x.instant <= b && matches!(x.kind, BlkKind::Data(_))))
                    .map(|l| l.name.clone())
                    .collect();
                if !must.is_subset(&got) || !got.is_subset(&may) || got.len() != s.log_files.len() {
                    e.viol("between", format!("({a}, {b}]: log files {got:?} of {}, must hold {must:?} and only {may:?}", s.file_id()));
                }
                if let (Some(m), Some(w)) = (&s.base_file.file_metadata, g.bases.iter().find(|x| x.file == s.base_file.file_name())) {
                    if (m.size, m.num_records, m.byte_size) != (w.size, w.num_rows as i64, w.byte_size) && m.fully_populated {
                        e.viol("between", format!("({a}, {b}]: {m:?} of {}", w.file));
                    }
                }
            }
            for s in &v {
                for l in &s.log_files {
                    let known = sim.groups.iter().any(|g| g.fid == s.file_id() && g.logs.iter().any(|x| x.name == l.file_name() && x.base_ts == s.creation_instant_time()));
                    if !known {
                        e.viol("between", format!("({a}, {b}]: {} lists {}", s.file_id(), l.file_name()));
                    }
                }
            }
        }
        x => e.viol("failed", format!("between: {}", x.why())),
    }
    e.sample(format!("case {}: {}", e.case, sim.describe()));
}

fn c25(e: &mut Env) {
    let mut sim = fresh(e, true, |s, _| {
        s.tz = None;
    });
    let t = e.table(&mut sim);
    let n = 1 + e.r.below(2);
    sim.grow(n, false);
    // deltacommits, some of them rolled back right away (or after others, as a restore would)
    let mut done: Vec<usize> = vec![];
    for _ in 0..2 + e.r.below(5) {
        if let Some(mut x) = sim.tx_log_upsert() {
            if e.r.chance(45) {
                let k = if e.r.chance(70) { x.ops.len() - 1 } else { e.r.below(x.ops.len()) };
                sim.cut(&mut x, k);
                sim.forget_unwritten(&x);
                let mut rb = sim.tx_rollback(x.inst, e.r.below(4));
                sim.finish(&mut rb);
            } else {
                sim.finish(&mut x);
                done.push(x.inst);
            }
        }
        if e.r.chance(25) {
            // undo the newest completed delta commit
            if let Some(i) = done.pop() {
                if sim.latest().as_deref() == Some(sim.insts[i].ts.as_str()) {
                    let mut rb = sim.tx_rollback(i, e.r.below(4));
                    sim.finish(&mut rb);
                }
            }
        }
    }
    // a write that stays, so that the latest state lies after every rollback
    let mut x = sim.tx_insert();
    sim.finish(&mut x);
    // move rollback blocks about, add blocks whose target has no block
    let mut layout = String::new();
    for gi in 0..sim.groups.len() {
        let idx: Vec<usize> = (0..sim.groups[gi].logs.len()).filter(|i| sim.groups[gi].logs[*i].present()).collect();
        if idx.is_empty() {
            continue;
        }
        if e.r.chance(70) {
            let mut moved: Vec<Blk> = vec![];
            for i in &idx {
                let l = &mut sim.groups[gi].logs[*i];
                let mut keep = vec![];
                for b in l.blocks.drain(..) {
                    if matches!(b.kind, BlkKind::Rollback(_)) && e.r.chance(60) {
                        moved.push(b);
                    } else {
                        keep.push(b);
                    }
                }
                l.blocks = keep;
            }
            for b in moved {
                let n = 1 + e.r.below(2);
                for _ in 0..n {
                    let same_base: Vec<usize> = idx.clone();
                    let i = *e.r.pick(&same_base);
                    // rollback blocks stay within their slice
                    let i = if slice_has_target(&sim, gi, i, &b) { i } else { *idx.iter().find(|j| slice_has_target(&sim, gi, **j, &b)).unwrap_or(&i) };
                    let l = &mut sim.groups[gi].logs[i];
                    let at = e.r.below(l.blocks.len() + 1);
                    l.blocks.insert(at, b.clone());
                }
            }
        }
        if e.r.chance(30) {
            // the target never wrote to this slice
            let unused: Vec<String> = sim.insts.iter().filter(|i| !i.committed).map(|i| i.ts.clone()).collect();
            let tgt = if !unused.is_empty() && e.r.chance(50) { e.r.pick(&unused).clone() } else { sim.fmt_ts(sim.clock_ms - 1_000_000_007) };
            let own = sim.insts.iter().any(|i| i.committed && i.ts == tgt);
            if !own {
                let rb_ts = sim.insts.last().unwrap().ts.clone();
                let (raw, _) = crate::logfmt::rollback_block(&rb_ts, &tgt);
                let i = *e.r.pick(&idx);
                let l = &mut sim.groups[gi].logs[i];
                let at = e.r.below(l.blocks.len() + 1);
                l.blocks.insert(at, Blk { instant: rb_ts, kind: BlkKind::Rollback(tgt), present: true, committed: true, raw });
            }
        }
        for i in idx {
            let (name, bytes, part, desc) = {
                let l = &sim.groups[gi].logs[i];
                let bytes: Vec<u8> = l.blocks.iter().flat_map(|b| b.raw.iter().copied()).collect();
                let d: String = l.blocks.iter().map(|b| if matches!(b.kind, BlkKind::Data(_)) { if b.committed { 'D' } else { 'x' } } else { 'R' }).collect();
                (l.name.clone(), bytes, sim.groups[gi].part, d)
            };
            layout.push_str(&desc);
            layout.push('/');
            let p = sim.part_file(part, &name);
            sim.put_raw(&p, bytes);
        }
    }
    e.detail = format!("layout {layout} {}", context(&sim));
    let l = sim.latest().unwrap();
    let want = rows_of(&sim, &sim.snapshot(&l, Mode::Strong, false, &|_| true));
    e.eval();
    match snap(e, &t.url, &[], &[]) {
        Res::Ok(g) => {
            if e.same_rows(CLS_ROWS, &format!("layout {layout}"), &g, &want) && layout.contains('R') {
                e.sig_s(&layout);
                e.count("rollback_blocks", layout.matches('R').count() as u64);
                e.count("rolled_back_data_blocks", layout.matches('x').count() as u64);
            }
        }
        x => e.viol("failed", format!("layout {layout}: {}", x.why())),
    }
    // states between: at or after the last rollback
    if let Some(last_rb) = sim.rollbacks.iter().map(|x| x.1.clone()).max() {
        for at in times(&sim).into_iter().filter(|t| *t >= last_rb).take(4) {
            if !clean_view(&sim, &at) {
                continue;
            }
            let want = rows_of(&sim, &sim.snapshot(&at, Mode::Strong, false, &|_| true));
            e.eval();
            let got = e.call("as of", async { open(&t.url, &[]).await?.read_snapshot_as_of(&at, &[]).await }).map(|b| texts(&b));
            match got {
                Res::Ok(g) => {
                    e.same_rows(CLS_ROWS, &format!("as of {at} layout {layout}"), &g, &want);
                }
                x => e.viol("failed", format!("as of {at}: {}", x.why())),
            }
        }
    }
    e.sample(format!("case {}: blocks per log file {layout} (D committed, x rolled back, R rollback)", e.case));
}
fn slice_has_target(sim: &Sim, gi: usize, li: usize, b: &Blk) -> bool {
    let BlkKind::Rollback(t) = &b.kind else { return true };
    let bts = &sim.groups[gi].logs[li].base_ts;
    sim.groups[gi].logs.iter().filter(|l| l.base_ts == *bts).any(|l| l.blocks.iter().any(|x| x.instant == *t))
}

fn c26(e: &mut Env) {
    let mor = e.r.chance(60);
    let mut sim = fresh(e, mor, |_, _| {});
    let t = e.table(&mut sim);
    maybe_shuffle(e, &t);
    let n = 1 + e.r.below(4);
    sim.grow(n, true);
    e.detail = context(&sim);
    let l = sim.latest().unwrap();
    if !clean_view(&sim, &l) {
        e.count("skipped_unclean", 1);
        return;
    }
    let tb = match e.call("open", open(&t.url, &[])) {
        Res::Ok(t) => t,
        x => {
            e.viol("failed", x.why());
            return;
        }
    };
    let all = times(&sim);
    let at = e.r.pick(&all).clone();
    let at_ok = clean_view(&sim, &at) && at <= l;
    let start = e.r.pick(&all).clone();
    let look = |e: &Env| {
        e.call("observe", async {
            let a = tb.read_snapshot(&[]).await?;
            let b = if at_ok { tb.read_snapshot_as_of(&at, &[]).await? } else { vec![] };
            let c = if start <= l { tb.read_incremental_records(&start, None).await? } else { vec![] };
            let s = tb.get_file_slices(&[]).await?;
            let mut sk: Vec<String> = s.iter().map(|s| format!("{}/{}", s.partition_path, s.base_file.file_name())).collect();
            sk.sort();
            let sch = tb.get_schema().await?;
            Ok::<_, hudi_core::error::CoreError>((texts(&a), texts(&b), texts(&c), sk, format!("{sch:?}"), tb.timeline.get_latest_commit_timestamp().unwrap()))
        })
    };
    let first = look(e);
    let Res::Ok(f) = first else {
        e.viol("failed", first.why());
        return;
    };
    let want = rows_of(&sim, &sim.snapshot(&l, Mode::Strong, false, &|_| true));
    e.same_rows(CLS_ROWS, "first read", &f.0, &want);
    for _ in 0..2 + e.r.below(3) {
        let mut x = sim.next_txn(true);
        let nops = x.ops.len();
        let cut = e.r.chance(20);
        let stop = if cut { e.r.below(nops) } else { nops };
        let mut i = 0;
        while i < stop {
            sim.step(&mut x);
            i += 1;
            if e.r.chance(45) || i == stop {
                e.eval();
                let g = look(e);
                e.detail = context(&sim);
                match g {
                    Res::Ok(g) => {
                        let w = format!("after operation {i}/{nops} of a later {} {}", x.kind, x.ts);
                        let mut ok = e.same_rows("moved", &format!("snapshot {w}"), &g.0, &f.0);
                        ok &= e.same_rows("moved", &format!("as of {at} {w}"), &g.1, &f.1);
                        ok &= e.same_rows("moved", &format!("incremental from {start} {w}"), &g.2, &f.2);
                        if g.3 != f.3 || g.4 != f.4 || g.5 != f.5 {
                            ok = false;
                            e.viol("moved", format!("listing, schema or latest commit {w}"));
                        }
                        if ok {
                            e.sig_s(&format!("{}{}{i}/{nops}", sim.shape_hash(), x.kind));
                        }
                    }
                    y => e.viol("failed", format!("old object after operation {i}/{nops} of {}: {}", x.kind, y.why())),
                }
            }
        }
        if cut {
            sim.release(&x);
            sim.forget_unwritten(&x);
            if e.r.chance(60) {
                let v = e.r.below(4);
                let mut rb = sim.tx_rollback(x.inst, v);
                sim.finish(&mut rb);
            } else {
                break;
            }
        } else {
            let nl = sim.latest().unwrap();
            if clean_view(&sim, &nl) {
                let want = rows_of(&sim, &sim.snapshot(&nl, Mode::Strong, false, &|_| true));
                e.eval();
                match snap(e, &t.url, &[], &[]) {
                    Res::Ok(g) => {
                        e.same_rows("new-object", "a table opened after the commit", &g, &want);
                    }
                    x => e.viol("failed", format!("new object: {}", x.why())),
                }
            }
        }
    }
    e.sample(format!("case {}: {}", e.case, sim.describe()));
}

fn c27(e: &mut Env) {
    let mor = e.r.chance(50);
    let mut sim = fresh(e, mor, |_, _| {});
    if e.r.chance(50) && !sim.spec.part.is_empty() {
        // many partitions, to see parallel listings
        let mut r = e.r.fork();
        let spec = sim.spec.clone();
        let np = 4 + r.below(12);
        sim = Sim::new(spec, r, true, np);
    }
    let t = e.table(&mut sim);
    let n = 2 + e.r.below(5);
    sim.grow(n, false);
    e.detail = context(&sim);
    let par = 1 + e.r.below(4);
    let ro = e.r.chance(30);
    let o = vec![
        opt("hoodie.read.listing.parallelism", &par.to_string()),
        opt("hoodie.read.use.read_optimized.mode", &ro.to_string()),
    ];
    *t.ctl.sched.lock().unwrap() = Some((e.r.fork(), 4));
    let all = times(&sim);
    for call in 0..6 {
        let mut g = e.r.fork();
        let (f, keep) = if e.r.chance(60) { gen_filters(&mut g, &sim) } else { (vec![], vec![true; sim.parts.len()]) };
        let at = e.r.pick(&all).clone();
        let b = e.r.pick(&all).clone();
        let end = if call == 1 || call == 3 { at.clone() } else { sim.latest().unwrap() };
        t.ctl.clear_log();
        t.ctl.max_inflight_list.store(0, std::sync::atomic::Ordering::SeqCst);
        let name = ["read_snapshot", "read_snapshot_as_of", "get_file_slices", "get_file_slices_as_of", "read_incremental_records", "schema"][call];
        let r = e.call(name, async {
            let tb = open(&t.url, &o).await?;
            match call {
                0 => drop(tb.read_snapshot(&fl(&f)).await?),
                1 => drop(tb.read_snapshot_as_of(&at, &fl(&f)).await?),
                2 => drop(tb.get_file_slices(&fl(&f)).await?),
                3 => drop(tb.get_file_slices_as_of(&at, &fl(&f)).await?),
                4 => drop(tb.read_incremental_records(&at.clone().min(b.clone()), Some(&at.clone().max(b.clone()))).await?),
                _ => {
                    tb.get_schema().await?;
                    tb.get_avro_schema().await?;
                    tb.get_partition_schema().await?;
                    tb.timeline.get_completed_commits(true).await?;
                    tb.timeline.get_completed_clustering_commits(true).await?;
                }
            }
            Ok::<_, hudi_core::error::CoreError>(())
        });
        e.eval();
        if !r.is_ok() {
            e.viol("failed", format!("{name}: {}", r.why()));
            continue;
        }
        let ops = t.ctl.ops();
        e.count("storage_ops_checked", ops.len() as u64);
        let prefix = format!("hv/{}/tbl/", t.id);
        // files a reader may open
        let (sel, rows_of_data) = if call == 4 {
            (None, true)
        } else {
            let mut s: BTreeSet<String> = BTreeSet::new();
            for g in &sim.groups {
                if !keep[g.part] || sim.replaced_as_of(g, &end) {
                    continue;
                }
                if let Some(bi) = sim.base_as_of(g, &end, Mode::Strong) {
                    s.insert(sim.part_file(g.part, &g.bases[bi].file));
                    if !ro && call < 2 {
                        for l in g.logs.iter().filter(|l| l.base_ts == g.bases[bi].ts) {
                            s.insert(sim.part_file(g.part, &l.name));
                        }
                    }
                }
            }
            (Some(s), true)
        };
        let _ = rows_of_data;
        let sel: BTreeSet<String> = match sel {
            Some(s) => s,
            None => {
                let (a, b) = (at.clone().min(b.clone()), at.clone().max(b.clone()));
                let mut s = BTreeSet::new();
                for (gi, ts) in sim.touched_between(&a, &b) {
                    let g = &sim.groups[gi];
                    for x in g.bases.iter().filter(|x| x.ts == ts) {
                        s.insert(sim.part_file(g.part, &x.file));
                    }
                    if !ro {
                        for l in g.logs.iter().filter(|l| l.base_ts == ts) {
                            s.insert(sim.part_file(g.part, &l.name));
                        }
                    }
                }
                s
            }
        };
        // one data file may be read for its schema
        let mut outside: BTreeSet<String> = BTreeSet::new();
        for op in &ops {
            if matches!(op.kind, OpKind::Put | OpKind::Delete | OpKind::Copy | OpKind::Rename) {
                e.viol("mutation", format!("{name}: {:?} {}", op.kind, op.path));
            }
            if matches!(op.kind, OpKind::Get | OpKind::Head) {
                let rel = op.path.strip_prefix(&prefix).unwrap_or(&op.path).to_string();
                if rel.starts_with(".hoodie/") || rel.ends_with("hudi-defaults.conf") {
                    continue;
                }
                if !sel.contains(&rel) {
                    outside.insert(rel.clone());
                }
                if ro && rel.contains(".log.") {
                    e.viol("log-opened", format!("{name}: {rel} in read-optimized mode"));
                }
            }
        }
        // the schema comes from one base file of the latest commit
        if outside.iter().any(|f| f.contains(".log.")) || outside.len() > 1 {
            e.viol("extra-file", format!("{name} filters {f:?} as of {end}: opened {outside:?} outside {sel:?}"));
        }
        let m = t.ctl.max_inflight_list.load(std::sync::atomic::Ordering::SeqCst);
        e.max("max_listings_in_flight", m as u64);
        if m > par as i64 {
            e.viol("parallelism", format!("{name}: {m} listings in flight, configured {par}"));
        }
        e.sig_s(&format!("{name}{}{par}{}", sim.shape_hash(), f.len()));
    }
    let _ = HudiConfigs::empty();
    e.sample(format!("case {}: {} parallelism {par} read-optimized {ro}", e.case, sim.describe()));
}
