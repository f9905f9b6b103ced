//! C12 (damaged log files) and C13 (Avro decoding).
use super::read::*;
use super::*;
use crate::logfmt::{self, Layout};
use crate::rng::Rng;
use crate::val::*;
use serde_json::{json, Value as J};

pub static PROPS: &[Prop] = &[
    Prop { id: "C12", run: c12, quick: 30000, thorough: 300000, level: "exploration", threads: 0, stall_s: 60, alloc_limit: 640 << 20,
        rule: "one log file of a valid slice truncated at any offset, one structural field of one block overwritten with random and extreme values, unsupported block types and format versions inserted, garbage appended, or arbitrary bytes changed; structural damage must give an error or exactly the written rows, any damage must give no panic, hang or allocation above 640 MB; distinct = (damage kind, field, value class, block kind, position)" },
    Prop { id: "C13", run: c13, quick: 18000, thorough: 150000, level: "exploration", threads: 0, stall_s: 60, alloc_limit: NOLIM,
        rule: "random Avro record schemas over all supported types nested to depth 4 with nullable fields and elements, 0 to 3100 rows in 1-3 blocks; rows read through the table against the generated values; unrepresentable schemas must give an error; distinct = (schema, row-count class)" },
];

/// Avro types for log columns, biased to nesting and nullability.
fn avro_ty(r: &mut Rng, depth: usize, in_list: bool) -> Ty {
    let leaf = |r: &mut Rng| match r.below(if in_list { 7 } else { 20 }) {
        0 => Ty::Bool,
        1 => Ty::Int,
        2 => Ty::Long,
        3 => Ty::Float,
        4 => Ty::Double,
        5 => Ty::Str,
        6 => Ty::Enum(vec!["A".into(), "BB".into(), "C_c".into()]),
        7 | 8 => Ty::Bytes,
        9 => Ty::Date,
        10 => Ty::TimeMillis,
        11 => Ty::TimeMicros,
        12 => Ty::TsMillis,
        13 => Ty::TsMicros,
        14 => Ty::Str,
        15 => Ty::LocalTsMillis,
        16 => Ty::LocalTsMicros,
        17 => Ty::Long,
        18 => Ty::Uuid,
        _ => Ty::Fixed(1 + r.below(20)),
    };
    if depth == 0 || r.chance(45) {
        return leaf(r);
    }
    if r.chance(50) {
        Ty::List(Box::new(avro_ty(r, depth - 1, true)), r.chance(50))
    } else {
        let n = 1 + r.below(3);
        Ty::Rec((0..n).map(|i| (format!("f{i}"), avro_ty(r, depth - 1, false), r.chance(50))).collect())
    }
}

fn put_commit(sim: &mut Sim, ts: &str) {
    sim.put_raw(&format!(".hoodie/{ts}.deltacommit.requested"), vec![]);
    sim.put_raw(&format!(".hoodie/{ts}.deltacommit.inflight"), b"{}".to_vec());
    sim.put_raw(
        &format!(".hoodie/{ts}.deltacommit"),
        json!({"partitionToWriteStats": {}, "compacted": false, "extraMetadata": {}, "operationType": "upsert"}).to_string().into_bytes(),
    );
}

/// One file group with a base file; returns its index.
fn one_group(sim: &mut Sim, nrows: usize) -> usize {
    let mut t = sim.begin("deltacommit", "insert");
    let gi = sim.new_group(0);
    let f = sim.base_name(gi, &t.ts);
    let ts = t.ts.clone();
    let rows = sim.fresh_rows(gi, &ts, &f, nrows, 0);
    let st = sim.add_base(&mut t, gi, rows, f);
    let mut t = sim.seal(t, vec![(0, st)], None);
    sim.finish(&mut t);
    gi
}

fn log_name(sim: &mut Sim, gi: usize, ver: usize) -> String {
    let tok = sim.token();
    let g = &sim.groups[gi];
    let name = format!(".{}_{}.log.{}_{}", g.fid, g.bases[0].ts, ver, tok);
    let p = g.part;
    sim.part_file(p, &name)
}

fn c13(e: &mut Env) {
    if e.r.chance(14) {
        return c13_refused(e);
    }
    NANS.with(|x| x.set(true));
    let mut sim = fresh(e, true, |s, r| {
        s.meta = true;
        s.noise = false;
        s.log_kind = 0;
        s.precombine = true;
        s.strategy = *r.pick(&[Some("append_only"), Some("append_only"), None]);
        s.cols.retain(|c| !c.0.starts_with('x'));
        for i in 0..1 + r.below(4) {
            let depth = *r.pick(&[0usize, 1, 2, 3, 4]);
            let t = avro_ty(r, depth, false);
            let nl = r.chance(60);
            s.cols.push((format!("x{i}"), t, nl));
        }
        r.shuffle(&mut s.cols);
    });
    let t = e.table(&mut sim);
    let nbase = 1 + e.r.below(3);
    let gi = one_group(&mut sim, nbase);
    let mut want: Vec<Row> = sim.groups[gi].bases[0].rows.clone();
    let big = e.r.chance(12);
    let nblk = 1 + e.r.below(3);
    let mut bytes = vec![];
    let mut cls = String::new();
    let mut total = 0;
    for b in 0..nblk {
        let n = if big {
            *e.r.pick(&[0usize, 1, 1023, 1024, 1025, 2048, 2049, 1500])
        } else {
            e.r.below(7)
        };
        let n = if total + n > 3100 { 3 } else { n };
        total += n;
        cls.push_str(&format!("{},", if n > 1000 { n } else { n.min(2) }));
        let ts = sim.tick();
        let fid = sim.groups[gi].fid.clone();
        let mut rows = sim.fresh_rows(gi, &ts, &fid, n, 1000 * (b + 1));
        // runs of equal null patterns are unlikely at random; force some columns to be all null or all present
        if e.r.chance(30) {
            let ci = e.r.below(sim.spec.cols.len());
            let (_, ty, nl) = sim.spec.cols[ci].clone();
            if nl {
                for r in rows.iter_mut() {
                    r.vals[5 + ci] = V::Null;
                }
            } else if let Ty::List(..) = ty {
                for r in rows.iter_mut() {
                    r.vals[5 + ci] = V::L(vec![]);
                }
            }
            for i in 0..rows.len() {
                let tx = sim.text(&rows[i].vals);
                rows[i].text = tx;
            }
        }
        let rs: Vec<Vec<V>> = rows.iter().map(|r| r.vals.clone()).collect();
        let c = logfmt::avro_content(&sim.spec.all_cols(), &rs);
        let h = vec![(logfmt::H_INSTANT, ts.clone()), (logfmt::H_SCHEMA, sim.spec.avro_schema(true))];
        bytes.extend(logfmt::block(logfmt::T_AVRO, &h, &c, &[]).0);
        put_commit(&mut sim, &ts);
        want.extend(rows);
    }
    let p = log_name(&mut sim, gi, 1);
    sim.put_raw(&p, bytes);
    e.detail = context(&sim);
    e.eval();
    e.count("avro_records", total as u64);
    let w = rows_of(&sim, &want);
    match snap(e, &t.url, &[], &[]) {
        Res::Ok(got) => {
            if e.same_rows("values", "rows decoded from Avro blocks", &got, &w) {
                let sch = format!("{:?}{cls}", sim.spec.cols.iter().filter(|c| c.0.starts_with('x')).collect::<Vec<_>>());
                e.sig_s(&sch);
                e.max("max_nesting", sim.spec.cols.iter().map(|c| c.1.depth()).max().unwrap_or(0) as u64);
            }
        }
        x => e.viol("failed", format!("reading a valid Avro log block failed: {}", x.why())),
    }
    e.sample(format!("case {}: {}", e.case, context(&sim)));
}

/// Schemas the library cannot represent, or that are no record schemas at all.
fn c13_refused(e: &mut Env) {
    let mut sim = fresh(e, true, |s, _| {
        s.meta = true;
        s.noise = false;
        s.log_kind = 0;
        s.precombine = true;
        s.strategy = Some("append_only");
        s.cols.retain(|c| !c.0.starts_with('x'));
    });
    let t = e.table(&mut sim);
    let gi = one_group(&mut sim, 1);
    let ts = sim.tick();
    let fid = sim.groups[gi].fid.clone();
    let rows = sim.fresh_rows(gi, &ts, &fid, 2, 100);
    let mut extra: Vec<u8> = vec![]; // bytes of the additional field of each record
    let kinds: Vec<(&str, J, Vec<u8>)> = vec![
        ("ref", json!({"type":"record","name":"Outer","fields":[{"name":"a","type":{"type":"fixed","name":"FF","size":2}},{"name":"b","type":"FF"}]}), vec![1, 2, 3, 4]),
        ("recursive", json!({"type":"record","name":"Node","fields":[{"name":"v","type":"int"},{"name":"next","type":["null","Node"]}]}), vec![2, 0]),
        ("union2", json!(["int", "string"]), vec![0, 2]),
        ("union3", json!(["null", "int", "string"]), vec![2, 2]),
        ("map", json!({"type":"map","values":"string"}), vec![0]),
        ("map_int", json!({"type":"map","values":"int"}), vec![0]),
        ("nullable_map", json!(["null", {"type":"map","values":"long"}]), vec![2, 0]),
        ("list_of_map", json!({"type":"array","items":{"type":"map","values":"string"}}), vec![0]),
        ("decimal", json!({"type":"bytes","logicalType":"decimal","precision":10,"scale":2}), vec![4, 1, 2]),
        ("decimal_fixed", json!({"type":"fixed","name":"DF","size":5,"logicalType":"decimal","precision":10,"scale":2}), vec![0, 0, 0, 1, 2]),
        ("duration", json!({"type":"fixed","name":"DU","size":12,"logicalType":"duration"}), vec![0; 12]),
        ("list_of_duration", json!({"type":"array","items":{"type":"fixed","name":"DU","size":12,"logicalType":"duration"}}), vec![0]),
        ("big_decimal", json!({"type":"bytes","logicalType":"big-decimal"}), vec![8, 2, 1, 0, 0]),
        ("list_of_date", json!({"type":"array","items":{"type":"int","logicalType":"date"}}), vec![2, 4, 0]),
        ("list_of_bytes", json!({"type":"array","items":"bytes"}), vec![0]),
        ("list_of_local_ts", json!({"type":"array","items":{"type":"long","logicalType":"local-timestamp-millis"}}), vec![2, 4, 0]),
        ("list_of_union", json!({"type":"array","items":["int","string"]}), vec![2, 0, 4, 0]),
        ("list_of_uuid", json!({"type":"array","items":{"type":"string","logicalType":"uuid"}}), vec![0]),
        ("struct_of_map", json!({"type":"record","name":"SM","fields":[{"name":"m","type":["null",{"type":"map","values":"string"}]}]}), vec![0]),
        ("not_record", json!("string"), vec![]),
        ("array_schema", json!({"type":"array","items":"int"}), vec![]),
        ("bad_json", J::Null, vec![]),
        ("unknown_type", json!("strin"), vec![]),
        ("no_schema", J::Null, vec![]),
    ];
    let (kind, ty, bytes) = e.r.pick(&kinds).clone();
    extra.extend(bytes);
    let mut cols = sim.spec.all_cols();
    let mut c = vec![];
    c.extend(3u32.to_be_bytes());
    c.extend((rows.len() as u32).to_be_bytes());
    for r in &rows {
        let mut d = vec![];
        for ((_, t, n), v) in cols.iter().zip(&r.vals) {
            avro_encode(&mut d, t, *n, v);
        }
        d.extend(&extra);
        c.extend((d.len() as u32).to_be_bytes());
        c.extend(d);
    }
    cols.clear();
    let mut schema: J = serde_json::from_str(&sim.spec.avro_schema(true)).unwrap();
    let text = match kind {
        "not_record" | "array_schema" => ty.to_string(),
        "bad_json" => "{\"type\":\"record\",".into(),
        _ => {
            schema["fields"].as_array_mut().unwrap().push(json!({"name":"xx","type":ty}));
            schema.to_string()
        }
    };
    let mut h = vec![(logfmt::H_INSTANT, ts.clone())];
    if kind != "no_schema" {
        h.push((logfmt::H_SCHEMA, text));
    }
    let b = logfmt::block(logfmt::T_AVRO, &h, &c, &[]).0;
    let p = log_name(&mut sim, gi, 1);
    sim.put_raw(&p, b);
    put_commit(&mut sim, &ts);
    e.detail = format!("{kind} {}", context(&sim));
    e.eval();
    e.count(&format!("refused[{kind}]"), 1);
    match snap(e, &t.url, &[], &[]) {
        Res::Err(_) => e.sig_s(&format!("refused {kind}")),
        Res::Ok(g) => e.viol("unrepresentable-accepted", format!("{kind}: read returned {} rows instead of an error: {:?}", g.len(), g.iter().take(2).collect::<Vec<_>>())),
        x => e.viol("panic", format!("{kind}: {}", x.why())),
    }
}

// ---------------- C12 ----------------
struct LBlk {
    kind: &'static str,
    lay: Layout,
    bytes: Vec<u8>,
}

fn c12(e: &mut Env) {
    let mut sim = fresh(e, true, |s, r| {
        s.meta = true;
        s.noise = false;
        s.precombine = true;
        s.strategy = *r.pick(&[Some("append_only"), None]);
        // array lengths inside Avro datums are decoded by the Avro crate, see DESIGN.md
        s.cols.retain(|c| !matches!(c.1, Ty::List(..)));
    });
    let t = e.table(&mut sim);
    let gi = one_group(&mut sim, 2);
    let base = sim.groups[gi].bases[0].rows.clone();
    let nfiles = 1 + e.r.below(2);
    let mut files: Vec<(String, Vec<LBlk>)> = vec![];
    let mut want: Vec<Row> = base;
    let mut failed: Option<String> = None;
    for f in 0..nfiles {
        let mut blks = vec![];
        for b in 0..1 + e.r.below(3) {
            let ts = sim.tick();
            let target = failed.take();
            if let (Some(target), true) = (&target, e.r.chance(70)) {
                let (bytes, lay) = logfmt::rollback_block(&ts, target);
                blks.push(LBlk { kind: "rollback", lay, bytes });
                continue;
            }
            let fid = sim.groups[gi].fid.clone();
            let k = 1 + e.r.below(3);
            let rows = sim.fresh_rows(gi, &ts, &fid, k, 1000 * (b + 1));
            let (bytes, lay) = sim.data_block(&ts, &rows);
            let avro = bytes[lay.fields.iter().find(|x| x.0 == "block_type").unwrap().1 + 3] == 3;
            let kind = if avro { "avro" } else { "parquet" };
            blks.push(LBlk { kind, lay, bytes });
            if e.r.chance(30) && target.is_none() {
                failed = Some(ts);
            } else {
                put_commit(&mut sim, &ts);
                want.extend(rows);
                failed = target;
            }
        }
        let p = log_name(&mut sim, gi, f + 1);
        files.push((p, blks));
    }
    // a block left by a failed write is rolled back in the end
    if let Some(target) = failed {
        let ts = sim.tick();
        let (bytes, lay) = logfmt::rollback_block(&ts, &target);
        files.last_mut().unwrap().1.push(LBlk { kind: "rollback", lay, bytes });
        put_commit(&mut sim, &ts);
    } else if files.iter().any(|f| f.1.iter().any(|b| b.kind == "rollback")) {
        let ts = sim.tick();
        put_commit(&mut sim, &ts);
    }
    let w = rows_of(&sim, &want);
    let undamaged: Vec<(String, Vec<u8>)> =
        files.iter().map(|(p, b)| (p.clone(), b.iter().flat_map(|x| x.bytes.clone()).collect())).collect();
    for (p, b) in &undamaged {
        sim.put_raw(p, b.clone());
    }
    e.detail = context(&sim);
    e.eval();
    match snap(e, &t.url, &[], &[]) {
        Res::Ok(got) => {
            if !e.same_rows("undamaged", "undamaged log files", &got, &w) {
                return;
            }
        }
        x => {
            e.viol("undamaged", format!("undamaged log files: {}", x.why()));
            return;
        }
    }
    let rounds = 6;
    for _ in 0..rounds {
        let fi = e.r.below(files.len());
        let (path, orig) = undamaged[fi].clone();
        let blks = &files[fi].1;
        let bi = e.r.below(blks.len());
        let start: usize = blks[..bi].iter().map(|b| b.lay.len).sum();
        let lay = &blks[bi].lay;
        let kind = blks[bi].kind;
        let mut d = orig.clone();
        // strict: an error or exactly the written rows
        let (what, strict) = match e.r.below(13) {
            0..=1 => {
                let cut = match e.r.below(4) {
                    0 => start + e.r.below(30),
                    1 => start + lay.len - 1 - e.r.below(20).min(lay.len - 1),
                    2 => {
                        let f = e.r.pick(&lay.fields);
                        start + f.1 + e.r.below(f.2)
                    }
                    _ => e.r.below(orig.len()),
                };
                let cut = cut.min(orig.len() - 1);
                d.truncate(cut);
                // cut exactly between blocks: nothing in the file tells
                let mut bounds = vec![0];
                for b in blks {
                    bounds.push(bounds.last().unwrap() + b.lay.len);
                }
                let off = bounds.iter().filter(|b| **b <= cut).max().unwrap();
                if *off == cut {
                    continue;
                }
                let within = blks[bounds.iter().position(|b| b == off).unwrap()].lay.clone();
                let f = within.fields.iter().filter(|f| f.1 <= cut - off).last().unwrap().0;
                (format!("truncated in {f} of {kind}"), true)
            }
            2..=6 => {
                let f = *e.r.pick(&lay.fields);
                let at = start + f.1;
                let old = d[at..at + f.2].to_vec();
                let cls = e.r.below(8);
                for i in 0..f.2 {
                    d[at + i] = match cls {
                        0 => 0xff,
                        1 => 0,
                        2 => if i == 0 { 0x7f } else { 0xff },
                        3 => if i + 1 == f.2 { old[i].wrapping_add(1) } else { old[i] },
                        4 => if i + 1 == f.2 { old[i].wrapping_sub(1) } else { old[i] },
                        5 => if i + 1 == f.2 { e.r.below(10) as u8 } else { old[i] },
                        6 => e.r.u64() as u8,
                        _ => old[i],
                    };
                }
                if cls == 7 {
                    let k = e.r.below(f.2 * 8);
                    d[at + k / 8] ^= 1 << (k % 8);
                }
                if d == orig {
                    continue;
                }
                (format!("{} of {kind} set, class {cls}", f.0), true)
            }
            7 => {
                // a block the library does not support, with a plausible body
                let ts = sim.tick();
                let ty = *e.r.pick(&[1u32, 2, 4, 6, 7, 99, u32::MAX]);
                let mut c = vec![];
                c.extend(3u32.to_be_bytes());
                c.extend((0..e.r.below(60)).map(|_| e.r.clone().u64() as u8));
                let (b, _) = logfmt::block(ty, &[(0, blks[0].instant_or(&ts)), (2, sim.spec.avro_schema(true))], &c, &[]);
                let at = *e.r.pick(&[start, d.len(), 0]);
                d.splice(at..at, b);
                // must be refused: the block may delete or change records
                let r = damaged(e, &mut sim, &t, &path, d, &format!("unsupported block type {ty}"));
                if let Some(Res::Ok(_)) = r {
                    e.viol("unsupported-ignored", format!("a block of unsupported type {ty} was ignored"));
                }
                continue;
            }
            8 => {
                let n = 1 + e.r.below(40);
                let z = e.r.chance(30);
                for _ in 0..n {
                    d.push(if z { 0 } else { e.r.u64() as u8 });
                }
                if d[orig.len()] == b'#' {
                    d[orig.len()] = 0;
                }
                ("trailing garbage".into(), true)
            }
            9 => {
                // record count and record lengths of Avro content
                if kind != "avro" {
                    continue;
                }
                let c0 = start + lay.content.0;
                let which = e.r.below(3);
                let mut at = c0 + [0, 4, 8][which];
                let mut v = *e.r.pick(&[0u32, 1, 2, 4, 7, 200, 0x7fff_ffff, u32::MAX]);
                if which == 2 {
                    // of any record, also by a little
                    let n = |p: usize| u32::from_be_bytes(orig[p..p + 4].try_into().unwrap());
                    while e.r.chance(50) && at + 4 + n(at) as usize + 4 <= start + lay.content.0 + lay.content.1 {
                        at += 4 + n(at) as usize;
                    }
                    if e.r.chance(60) {
                        let by = 1 + e.r.below(12) as u32;
                        v = if e.r.chance(50) { n(at).saturating_sub(by) } else { n(at) + by };
                    }
                }
                d[at..at + 4].copy_from_slice(&v.to_be_bytes());
                if d == orig {
                    continue;
                }
                (format!("avro {} set to {v}", ["format version", "record count", "record length"][which]), true)
            }
            10 => {
                // the content ends early, in a block whose own lengths agree
                if kind == "rollback" {
                    continue;
                }
                let (c0, cl) = lay.content;
                let keep = if kind == "avro" && e.r.chance(70) {
                    // after some of the records
                    let mut ends = vec![8usize];
                    let mut p = start + c0 + 8;
                    while p < start + c0 + cl {
                        p += 4 + u32::from_be_bytes(d[p..p + 4].try_into().unwrap()) as usize;
                        ends.push(p - start - c0);
                    }
                    ends.pop();
                    *e.r.pick(&ends)
                } else {
                    e.r.below(cl)
                };
                d.drain(start + c0 + keep..start + c0 + cl);
                for (name, v) in [("content_length", keep), ("block_length", lay.len - 14 - (cl - keep)), ("total_length", lay.len - (cl - keep))] {
                    let f = lay.fields.iter().find(|f| f.0 == name).unwrap();
                    let at = start + if f.1 >= c0 + cl { f.1 - (cl - keep) } else { f.1 };
                    d[at..at + 8].copy_from_slice(&(v as u64).to_be_bytes());
                }
                (format!("content of {kind} ending early"), true)
            }
            11 => {
                // a command block whose header lacks or damages what a rollback needs
                let ts = sim.tick();
                let tgt = w.first().map(|_| sim.insts.last().unwrap().ts.clone()).unwrap();
                let v = e.r.below(4);
                let h: Vec<(u32, String)> = match v {
                    0 => vec![(0, ts), (1, tgt)],
                    1 => vec![(0, ts), (1, tgt), (3, "1".into())],
                    2 => vec![(0, ts), (1, tgt), (3, "x".into())],
                    _ => vec![(0, ts), (3, "0".into())],
                };
                // same instant as the last commit keeps it in range of the read
                let mut h = h;
                h[0].1 = blks.last().map(|_| sim_latest(&sim)).unwrap();
                let (b, _) = logfmt::block(logfmt::T_COMMAND, &h, &[], &[]);
                d.extend(b);
                let r = damaged(e, &mut sim, &t, &path, d, &format!("command block variant {v}"));
                if let Some(Res::Ok(_)) = r {
                    e.viol("command-ignored", format!("a command block without a usable command (variant {v}) was ignored"));
                }
                continue;
            }
            _ => {
                let n = 1 + e.r.below(4);
                for _ in 0..n {
                    let at = e.r.below(d.len());
                    match e.r.below(4) {
                        0 => d[at] ^= 1 << e.r.below(8),
                        1 => d[at] = e.r.u64() as u8,
                        2 => {
                            let l = (1 + e.r.below(9)).min(d.len() - at);
                            d.drain(at..at + l);
                        }
                        _ => d.insert(at, e.r.u64() as u8),
                    }
                    if d.is_empty() {
                        break;
                    }
                }
                ("arbitrary bytes".to_string(), false)
            }
        };
        let r = damaged(e, &mut sim, &t, &path, d.clone(), &what);
        if let (Some(Res::Ok(got)), true) = (&r, strict) {
            let got = got.clone();
            let old = e.detail.clone();
            e.detail = format!("damage: {what}; {old}");
            e.same_rows("misread", &format!("log file with {what}"), &got, &w);
            e.detail = old;
        }
        if let Some(r) = &r {
            e.sig_s(&format!("{what} {} {bi} {}", r.kind(), blks.len()));
        }
        sim.put_raw(&path, orig);
    }
    e.sample(format!("case {}: {}", e.case, context(&sim)));
}

fn sim_latest(sim: &Sim) -> String {
    sim.files
        .keys()
        .filter_map(|k| k.strip_prefix(".hoodie/").and_then(|k| k.strip_suffix(".deltacommit")))
        .max()
        .unwrap()
        .to_string()
}

impl LBlk {
    fn instant_or(&self, d: &str) -> String {
        let v = self.lay.fields.iter().find(|f| f.0 == "header_value_len");
        match v {
            Some(f) => {
                let n = u32::from_be_bytes(self.bytes[f.1..f.1 + 4].try_into().unwrap()) as usize;
                String::from_utf8(self.bytes[f.1 + 4..f.1 + 4 + n].to_vec()).unwrap_or(d.into())
            }
            None => d.into(),
        }
    }
}

/// Reads the table with one file damaged, and restores the file.
fn damaged(e: &mut Env, sim: &mut Sim, t: &Tbl, path: &str, bytes: Vec<u8>, what: &str) -> Option<Res<Vec<String>>> {
    let orig = sim.files.get(path).cloned();
    sim.put_raw(path, bytes);
    e.eval();
    // lengths inside a block's content are read by the Avro and Parquet crates
    ALLOC_FREE.with(|c| c.set(what == "arbitrary bytes"));
    let r = snap(e, &t.url, &[], &[]);
    ALLOC_FREE.with(|c| c.set(false));
    e.count(&format!("damaged[{}]", r.kind()), 1);
    if let Res::Panic(_) = r {
        let w = r.why();
        // bytes inside a block's content belong to the Avro and Parquet crates, see DESIGN.md
        if what == "arbitrary bytes" && w.contains("/registry/src/") {
            e.count("content_damage_panicked_in_a_dependency", 1);
        } else {
            e.viol("panic", format!("{what}: {w}"));
        }
        if let Some(o) = orig {
            sim.put_raw(path, o.to_vec());
        }
        return None;
    }
    if let Some(o) = orig {
        sim.put_raw(path, o.to_vec());
    }
    Some(r)
}
