//! A simulated Hudi table writer and a reference model of the table's states.
//!
//! Every write is a transaction made of single storage operations, so that it can be cut at any
//! operation (crash), left pending, or interleaved with a reader.
use std::collections::BTreeMap;
use std::sync::Arc;

use arrow_array::{ArrayRef, RecordBatch};
use arrow_schema::{Field, Schema};
use bytes::Bytes;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::{ObjectStore, PutPayload};
use parquet::arrow::arrow_writer::{ArrowWriter, ArrowWriterOptions};
use parquet::basic::Compression;
use parquet::file::properties::WriterProperties;
use serde_json::{json, Map, Value as J};

use crate::logfmt;
use crate::rng::Rng;
use crate::val::*;

pub const META: [&str; 5] = [
    "_hoodie_commit_time",
    "_hoodie_commit_seqno",
    "_hoodie_record_key",
    "_hoodie_partition_path",
    "_hoodie_file_name",
];

#[derive(Clone, Debug)]
pub struct Spec {
    pub mor: bool,
    pub meta: bool,
    pub part: Vec<(String, Ty)>,
    pub hive: bool,
    pub urlenc: bool,
    /// data columns in table order (key, ts, vid, partition columns, extras)
    pub cols: Vec<(String, Ty, bool)>,
    pub precombine: bool,
    /// explicit merge strategy property
    pub strategy: Option<&'static str>,
    pub ts17: bool,
    pub tz: Option<&'static str>,
    /// every later write of a key has a higher ordering value
    pub monotone: bool,
    pub noise: bool,
    /// write log blocks as 0 avro, 1 parquet, 2 mixed
    pub log_kind: u8,
    pub extra_props: Vec<(String, String)>,
    /// some file ids occur in several partitions (a file group is a partition and a file id)
    pub share_fid: bool,
    /// files and blocks of more rows than one reader batch
    pub big: bool,
    /// many commits on few file groups: slices with more than ten log files or versions
    pub deep: bool,
    /// many partitions and many file groups in one partition
    pub wide: bool,
    /// later commits write additional columns
    pub evolve: bool,
    /// name of the ordering column
    pub tsn: String,
}

impl Spec {
    pub fn all_cols(&self) -> Vec<(String, Ty, bool)> {
        META.iter()
            .map(|m| (m.to_string(), Ty::Str, true))
            .chain(self.cols.iter().cloned())
            .collect()
    }
    pub fn schema(&self) -> Arc<Schema> {
        Arc::new(Schema::new(
            self.all_cols()
                .iter()
                .map(|(n, t, nl)| Field::new(n, t.arrow(), *nl))
                .collect::<Vec<_>>(),
        ))
    }
    pub fn avro_schema(&self, with_meta: bool) -> String {
        let cols = if with_meta { self.all_cols() } else { self.cols.clone() };
        json!({"type":"record","name":"hv_record","namespace":"hoodie.hv","fields":avro_fields(&cols,"c")})
            .to_string()
    }
    pub fn overwrite(&self) -> bool {
        match self.strategy {
            Some("append_only") => false,
            Some(_) => true,
            None => self.meta && self.precombine,
        }
    }
    pub fn col(&self, n: &str) -> usize {
        self.cols.iter().position(|c| c.0 == n).unwrap()
    }
}

/// Column types that have the same Arrow type in base files and in decoded Avro.
pub fn mixable_ty(r: &mut Rng, depth: usize) -> Ty {
    match r.below(if depth > 0 { 13 } else { 11 }) {
        0 => Ty::Bool,
        1 => Ty::Int,
        2 => Ty::Long,
        3 => Ty::Float,
        4 => Ty::Double,
        5 | 6 => Ty::Str,
        7 => Ty::Bytes,
        8 => Ty::Date,
        9 => Ty::TsMicros,
        10 => Ty::Enum(vec!["A".into(), "BB".into(), "C_c".into()]),
        11 => Ty::List(
            Box::new(r.pick(&[Ty::Int, Ty::Long, Ty::Str, Ty::Double]).clone()),
            false,
        ),
        _ => Ty::Rec(vec![
            ("s_a".into(), Ty::Int, false),
            ("s_b".into(), Ty::Str, false),
        ]),
    }
}

pub fn any_ty(r: &mut Rng, depth: usize) -> Ty {
    match r.below(if depth > 0 { 18 } else { 14 }) {
        0 => Ty::Bool,
        1 => Ty::Int,
        2 => Ty::Long,
        3 => Ty::Float,
        4 => Ty::Double,
        5 => Ty::Str,
        6 => Ty::Bytes,
        7 => Ty::Date,
        8 => Ty::TsMicros,
        9 => Ty::TsMillis,
        10 => Ty::TsNanos,
        11 => Ty::Fixed(1 + r.below(9)),
        12 => Ty::Decimal(10 + r.below(20) as u8, r.below(5) as i8),
        13 => Ty::TimeMicros,
        14 | 15 => Ty::List(Box::new(any_ty(r, depth - 1)), r.chance(50)),
        _ => {
            let n = 1 + r.below(3);
            Ty::Rec(
                (0..n)
                    .map(|i| (format!("f{i}"), any_ty(r, depth - 1), r.chance(50)))
                    .collect(),
            )
        }
    }
}

pub fn gen_spec(r: &mut Rng, mor: bool) -> Spec {
    set_avro_style(if r.chance(30) { r.u64() as u32 } else { 0 });
    let nparts = *r.pick(&[0usize, 1, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5]);
    let caps = r.chance(15);
    let mut part = vec![];
    for i in 0..nparts {
        let t = r
            .pick(&[Ty::Str, Ty::Str, Ty::Int, Ty::Long, Ty::Date, Ty::Bool])
            .clone();
        part.push((format!("{}{i}", if caps { "partCol" } else { "p" }), t));
    }
    let meta = r.chance(88);
    let tsn = r.pick(&["ts", "ts", "ts", "ts", "ts", "ts", "_ts", "Ts", "event_ts"]).to_string();
    let mut cols: Vec<(String, Ty, bool)> = vec![
        ("key".into(), Ty::Str, false),
        (
            tsn.clone(),
            r.pick(&[Ty::Long, Ty::Long, Ty::Int, Ty::Int, Ty::Str, Ty::Str, Ty::Double, Ty::Date, Ty::TsMicros]).clone(),
            false,
        ),
        ("vid".into(), Ty::Long, false),
    ];
    for (n, t) in &part {
        cols.push((n.clone(), t.clone(), false));
    }
    for i in 0..r.below(5) {
        let t = if mor { mixable_ty(r, 1) } else { any_ty(r, 2) };
        cols.push((format!("{}{i}", if caps { "X_Col" } else { "x" }), t, r.chance(60)));
    }
    r.shuffle(&mut cols);
    let precombine = r.chance(85);
    let strategy = if meta && precombine {
        *r.pick(&[None, None, None, Some("overwrite_with_latest"), Some("append_only")])
    } else {
        *r.pick(&[None, Some("append_only")])
    };
    Spec {
        mor,
        meta,
        hive: r.chance(50),
        urlenc: r.chance(40),
        part,
        cols,
        precombine,
        strategy,
        tsn,
        ts17: r.chance(75),
        tz: *r.pick(&[None, None, Some("utc"), Some("LOCAL")]),
        monotone: false,
        noise: r.chance(70),
        log_kind: r.below(3) as u8,
        extra_props: vec![],
        share_fid: r.chance(25),
        big: r.chance(2),
        deep: r.chance(4),
        wide: r.chance(2),
        evolve: r.chance(10),
    }
}

#[derive(Clone, Debug)]
pub struct Row {
    pub key: String,
    pub prec: V,
    pub seq: String,
    pub ctime: String,
    pub vals: Vec<V>,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct BaseVer {
    pub ts: String,
    pub file: String,
    pub rows: Vec<Row>,
    pub size: usize,
    pub present: bool,
    pub committed: bool,
    /// row count that a listing should report
    pub num_rows: usize,
    /// uncompressed bytes of all its row groups
    pub byte_size: i64,
    /// data columns in the file
    pub ncols: usize,
}

#[derive(Clone, Debug)]
pub enum BlkKind {
    Data(Vec<Row>),
    Rollback(String),
}

#[derive(Clone, Debug)]
pub struct Blk {
    pub instant: String,
    pub kind: BlkKind,
    pub present: bool,
    pub committed: bool,
    pub raw: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct LogF {
    pub base_ts: String,
    pub version: u32,
    pub name: String,
    pub blocks: Vec<Blk>,
    pub bytes: Vec<u8>,
}

impl LogF {
    pub fn present(&self) -> bool {
        self.blocks.iter().any(|b| b.present)
    }
}

#[derive(Clone, Debug)]
pub struct Group {
    pub part: usize,
    pub fid: String,
    pub bases: Vec<BaseVer>,
    pub logs: Vec<LogF>,
    pub replaced_at: Option<String>,
    pub locked: bool,
}

#[derive(Clone, Debug)]
pub struct Part {
    pub vals: Vec<V>,
    pub texts: Vec<String>,
    pub path: String,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub ts: String,
    pub action: &'static str,
    pub op: &'static str,
    pub committed: bool,
    pub rolled_back: bool,
    pub wrote_files: bool,
    /// groups with a write stat in this commit and the base instant of their slice then
    pub touched: Vec<(usize, String)>,
    pub meta_json: String,
    /// Avro schema text stored in the commit
    pub schema: String,
    /// number of data columns its files have
    pub ncols: usize,
}

#[derive(Clone, Debug)]
pub enum Eff {
    None,
    Base(usize, usize),
    Log(usize, usize, Vec<usize>),
    DropBase(usize, usize),
    Complete(usize),
    Uncomplete(usize),
}

#[derive(Clone, Debug)]
pub enum Act {
    Put(Bytes),
    Del,
}

#[derive(Clone, Debug)]
pub struct WOp {
    pub path: String,
    pub act: Act,
    pub eff: Eff,
}

#[derive(Clone, Debug)]
pub struct Txn {
    pub inst: usize,
    pub ts: String,
    pub kind: &'static str,
    pub ops: Vec<WOp>,
    pub done: usize,
    pub groups: Vec<usize>,
    pub replaces: Vec<usize>,
}

pub fn rows_of(sim: &Sim, v: &[Row]) -> Vec<String> {
    let _ = sim;
    let mut o: Vec<String> = v.iter().map(|r| r.text.clone()).collect();
    o.sort();
    o
}

pub struct Sim {
    pub spec: Spec,
    pub r: Rng,
    pub parts: Vec<Part>,
    pub groups: Vec<Group>,
    pub insts: Vec<Inst>,
    pub files: BTreeMap<String, Bytes>,
    pub mem: Option<(Arc<InMemory>, String)>,
    pub clock_ms: i64,
    pub vid: i64,
    pub nkey: usize,
    pub prec: i64,
    pub ops_done: BTreeMap<&'static str, usize>,
    pub writer_seq: usize,
    /// rollback history: (target instant, rollback instant)
    pub rollbacks: Vec<(String, String)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// what the property asks for: only completed writes
    Strong,
    /// files and blocks of writes that did not complete count when old enough
    Weak,
}

pub fn escape_path(s: &str) -> String {
    // Hudi's PartitionPathEncodeUtils.escapePathName
    let mut o = String::new();
    for c in s.chars() {
        let bad = matches!(c, '\u{1}'..='\u{1f}' | '"' | '#' | '%' | '\'' | '*' | '/' | ':' | '=' | '?' | '\\' | '\u{7f}' | '{' | '[' | ']' | '^');
        if bad {
            o.push_str(&format!("%{:02X}", c as u32));
        } else {
            o.push(c);
        }
    }
    o
}

pub fn part_text(t: &Ty, v: &V) -> String {
    match (t, v) {
        (Ty::Date, V::I(d)) => {
            let e = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap();
            (e + chrono::Duration::days(*d)).format("%Y-%m-%d").to_string()
        }
        (_, V::I(i)) => i.to_string(),
        (_, V::B(b)) => b.to_string(),
        (_, V::S(s)) => s.clone(),
        _ => unreachable!(),
    }
}

fn part_val(r: &mut Rng, t: &Ty, odd: bool) -> V {
    match t {
        Ty::Str => {
            if odd && r.chance(60) {
                V::s(*r.pick::<&str>(&["a b", "x=y", "50%", "a/b", "ü", "k:v", "a#b", "q?z", "a+b", "p&q", "2024/05/06", "%41", "a%2Fb", "[x]", "it's", "y ", " z", "w.parquet", ".q", "a%20b", "~t"]))
            } else {
                V::s(*r.pick::<&str>(&["a", "b", "c", "sf", "New_York", "10", "9", "007", "B", "zz"]))
            }
        }
        Ty::Int => V::I(r.range(-12, 120)),
        Ty::Long => V::I(*r.pick(&[-5, 0, 3, 20, 100, 9_000_000_000])),
        Ty::Date => V::I(r.range(-400, 20000)),
        Ty::Bool => V::B(r.chance(50)),
        _ => unreachable!(),
    }
}

impl Sim {
    pub fn new(spec: Spec, mut r: Rng, odd_parts: bool, nparts: usize) -> Sim {
        let mut parts: Vec<Part> = vec![];
        if spec.part.is_empty() {
            parts.push(Part { vals: vec![], texts: vec![], path: String::new() });
        } else {
            let nparts = if spec.wide && r.chance(60) { nparts * 15 } else { nparts };
            for _ in 0..nparts * 3 + 60 {
                if parts.len() >= nparts {
                    break;
                }
                let vals: Vec<V> = spec
                    .part
                    .iter()
                    .map(|(_, t)| if spec.wide && *t == Ty::Str { V::S(format!("v{}", r.below(60))) } else { part_val(&mut r, t, odd_parts) })
                    .collect();
                let texts: Vec<String> = spec.part.iter().zip(&vals).map(|((_, t), v)| part_text(t, v)).collect();
                // an unencoded separator would make another partition depth
                if !spec.urlenc && texts.iter().any(|t| t.contains('/')) {
                    continue;
                }
                let path = Sim::part_path(&spec, &texts);
                if parts.iter().all(|p: &Part| p.path != path) {
                    parts.push(Part { vals, texts, path });
                }
            }
        }
        let clock_ms = r.range(1_600_000_000_000, 1_750_000_000_000);
        // ordering values around zero and around a change in the number of digits too
        let prec = *r.pick(&[1000, 1000, 0, 90, -20, 9_980]);
        let mut s = Sim {
            spec,
            parts,
            groups: vec![],
            insts: vec![],
            files: BTreeMap::new(),
            mem: None,
            clock_ms,
            vid: 0,
            nkey: 0,
            prec,
            ops_done: BTreeMap::new(),
            writer_seq: 0,
            rollbacks: vec![],
            r,
        };
        let p = s.properties();
        s.put_raw(".hoodie/hoodie.properties", p.into_bytes());
        if s.spec.noise {
            for (p, b) in [
                (".hoodie/.aux/x", "x"),
                (".hoodie/.hoodie.properties.crc", "crc"),
                (".hoodie/archived/.commits_.archive.1_1-0-1", "z"),
                (".hoodie/.schema/20200101000000000.schemacommit", "{}"),
                (".hoodie/metadata/files/x.hfile", "z"),
            ] {
                s.put_raw(p, b.as_bytes().to_vec());
            }
        }
        s
    }

    pub fn part_path(spec: &Spec, texts: &[String]) -> String {
        spec.part
            .iter()
            .zip(texts)
            .map(|((n, _), t)| {
                let v = if spec.urlenc { escape_path(t) } else { t.clone() };
                if spec.hive {
                    format!("{n}={v}")
                } else {
                    v
                }
            })
            .collect::<Vec<_>>()
            .join("/")
    }

    pub fn properties(&mut self) -> String {
        let s = &self.spec;
        let mut l: Vec<(String, String)> = vec![
            ("hoodie.table.name".into(), "hv_tbl".into()),
            (
                "hoodie.table.type".into(),
                if s.mor { "MERGE_ON_READ" } else { "COPY_ON_WRITE" }.into(),
            ),
            ("hoodie.table.version".into(), if self.r.chance(85) { "6" } else { "5" }.into()),
            ("hoodie.timeline.layout.version".into(), "1".into()),
            ("hoodie.table.recordkey.fields".into(), "key".into()),
            ("hoodie.populate.meta.fields".into(), s.meta.to_string()),
            ("hoodie.table.base.file.format".into(), "PARQUET".into()),
            ("hoodie.datasource.write.hive_style_partitioning".into(), s.hive.to_string()),
            ("hoodie.datasource.write.partitionpath.urlencode".into(), s.urlenc.to_string()),
            ("hoodie.table.checksum".into(), "3230317".into()),
            ("hoodie.archivelog.folder".into(), "archived".into()),
        ];
        if s.precombine {
            l.push(("hoodie.table.precombine.field".into(), s.tsn.clone()));
        }
        if !s.part.is_empty() {
            l.push((
                "hoodie.table.partition.fields".into(),
                s.part.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(","),
            ));
            l.push(("hoodie.table.keygenerator.class".into(), "org.apache.hudi.keygen.ComplexKeyGenerator".into()));
        } else {
            match self.r.below(3) {
                0 => l.push(("hoodie.table.partition.fields".into(), "".into())),
                1 => {}
                _ => l.push((
                    "hoodie.table.keygenerator.class".into(),
                    "org.apache.hudi.keygen.NonpartitionedKeyGenerator".into(),
                )),
            }
        }
        if let Some(t) = s.tz {
            l.push(("hoodie.table.timeline.timezone".into(), t.into()));
        }
        if let Some(t) = s.strategy {
            l.push(("hoodie.table.record.merge.strategy".into(), t.into()));
        }
        l.extend(s.extra_props.iter().cloned());
        self.r.shuffle(&mut l);
        let mut o = String::from("#Updated at 2024-01-01T00:00:00Z\n#Mon Jan 01 00:00:00 UTC 2024\n");
        for (k, v) in l {
            o.push_str(&format!("{k}={v}\n"));
        }
        o
    }

    // ----- storage -----
    pub fn attach(&mut self, mem: Arc<InMemory>, prefix: &str) {
        for (p, b) in &self.files {
            mem_put(&mem, &format!("{prefix}/{p}"), b.clone());
        }
        self.mem = Some((mem, prefix.to_string()));
    }
    pub fn put_raw(&mut self, path: &str, b: Vec<u8>) {
        let b = Bytes::from(b);
        self.files.insert(path.to_string(), b.clone());
        if let Some((m, p)) = &self.mem {
            mem_put(m, &format!("{p}/{path}"), b);
        }
    }
    pub fn del_raw(&mut self, path: &str) {
        self.files.remove(path);
        if let Some((m, p)) = &self.mem {
            let m = m.clone();
            let pp = Path::parse(format!("{p}/{path}")).unwrap();
            let _ = futures::executor::block_on(async move { m.delete(&pp).await });
        }
    }
    pub fn dump(&self, dir: &std::path::Path) {
        for (p, b) in &self.files {
            let f = dir.join(p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, b).unwrap();
        }
    }
    pub fn part_file(&self, part: usize, name: &str) -> String {
        let p = &self.parts[part].path;
        if p.is_empty() {
            name.to_string()
        } else {
            format!("{p}/{name}")
        }
    }

    // ----- time -----
    pub fn fmt_ts(&self, ms: i64) -> String {
        let d = chrono::DateTime::from_timestamp_millis(ms).unwrap();
        if self.spec.ts17 {
            d.format("%Y%m%d%H%M%S%3f").to_string()
        } else {
            d.format("%Y%m%d%H%M%S").to_string()
        }
    }
    pub fn tick(&mut self) -> String {
        let unit = if self.spec.ts17 { 1 } else { 1000 };
        let step = *self.r.pick(&[1i64, 1, 2, 7, 999, 60_000, 86_400_000, 900_000_000]) / unit + 1;
        self.clock_ms += unit * self.r.range(1, step);
        self.fmt_ts(self.clock_ms)
    }

    // ----- rows -----
    pub fn new_key(&mut self) -> String {
        self.nkey += 1;
        match self.nkey % 16 {
            // keys that differ from others by blanks or case only
            5 => format!("k{} ", self.nkey - 4),
            9 => format!(" k{}", self.nkey - 8),
            12 => format!("KEY:{}", self.nkey - 8),
            0 | 4 | 8 => format!("key:{}", self.nkey),
            1 | 13 => format!("k{}", self.nkey),
            2 | 6 | 10 | 14 => format!("schlüssel_{}", self.nkey),
            _ => format!("{}", self.nkey),
        }
    }
    fn prec_val(&mut self, low: bool) -> V {
        self.prec += self.r.range(0, 3);
        if self.spec.monotone {
            self.prec += 1;
        }
        let p = if low && !self.spec.monotone {
            self.prec - self.r.range(1, 60)
        } else {
            self.prec
        };
        let ci = self.spec.col(&self.spec.tsn);
        match self.spec.cols[ci].1 {
            Ty::Str => V::S(format!("t{:08}", p + 1000)),
            Ty::Double => V::D(p as f64 / 4.0),
            _ => V::I(p),
        }
    }
    pub fn mk_row(&mut self, part: usize, key: &str, instant: &str, file: &str, n: usize, low: bool) -> Row {
        self.vid += 1;
        let prec = self.prec_val(low);
        let seq = format!("{instant}_{}_{}", part, n);
        let pvals = self.parts[part].vals.clone();
        let ppath = self.parts[part].path.clone();
        let mut vals: Vec<V> = if self.spec.meta {
            vec![V::s(instant), V::s(&seq), V::s(key), V::s(&ppath), V::s(file)]
        } else {
            vec![V::Null; 5]
        };
        for i in 0..self.spec.cols.len() {
            let (n, t, nl) = self.spec.cols[i].clone();
            let v = match n.as_str() {
                "key" => V::s(key),
                n if n == self.spec.tsn => prec.clone(),
                "vid" => V::I(self.vid),
                n if self.spec.part.iter().any(|p| p.0 == n) => {
                    pvals[self.spec.part.iter().position(|p| p.0 == n).unwrap()].clone()
                }
                _ => gen_val(&mut self.r, &t, nl),
            };
            vals.push(v);
        }
        let text = self.text(&vals);
        Row { key: key.into(), prec, seq, ctime: instant.into(), vals, text }
    }
    pub fn text(&self, vals: &[V]) -> String {
        let mut s = String::new();
        for ((n, t, _), v) in self.spec.all_cols().iter().zip(vals) {
            s.push_str(n);
            s.push('=');
            render(t, v, &mut s);
            s.push('|');
        }
        s
    }
    pub fn batch(&self, rows: &[Row]) -> RecordBatch {
        let cols = self.spec.all_cols();
        let arrays: Vec<ArrayRef> = cols
            .iter()
            .enumerate()
            .map(|(i, (_, t, _))| {
                let v: Vec<&V> = rows.iter().map(|r| &r.vals[i]).collect();
                to_arrow(t, &v)
            })
            .collect();
        RecordBatch::try_new(self.spec.schema(), arrays).unwrap()
    }
    pub fn parquet(&mut self, rows: &[Row]) -> Vec<u8> {
        let b = self.batch(rows);
        let comp = *self.r.pick(&[Compression::UNCOMPRESSED, Compression::SNAPPY, Compression::GZIP(Default::default())]);
        let mut p = WriterProperties::builder()
            .set_compression(comp)
            .set_dictionary_enabled(self.r.chance(60));
        if self.r.chance(40) {
            let n = if rows.len() > 100 { *self.r.pick(&[300usize, 1000, 1024, 1500]) } else { 1 + self.r.below(4) };
            p = p.set_max_row_group_size(n);
        }
        let opts = ArrowWriterOptions::new()
            .with_properties(p.build())
            .with_skip_arrow_metadata(true);
        let mut out = vec![];
        let mut w = ArrowWriter::try_new_with_options(&mut out, self.spec.schema(), opts).unwrap();
        w.write(&b).unwrap();
        w.close().unwrap();
        out
    }
    pub fn data_block(&mut self, instant: &str, rows: &[Row]) -> (Vec<u8>, logfmt::Layout) {
        let avro = match self.spec.log_kind {
            0 => true,
            1 => false,
            _ => self.r.chance(50),
        };
        let header = vec![
            (logfmt::H_INSTANT, instant.to_string()),
            (logfmt::H_SCHEMA, self.spec.avro_schema(true)),
        ];
        if avro {
            let rs: Vec<Vec<V>> = rows.iter().map(|r| r.vals.clone()).collect();
            let c = logfmt::avro_content(&self.spec.all_cols(), &rs);
            logfmt::block(logfmt::T_AVRO, &header, &c, &[])
        } else {
            let c = self.parquet(rows);
            logfmt::block(logfmt::T_PARQUET, &header, &c, &[])
        }
    }

    pub fn token(&mut self) -> String {
        self.writer_seq += 1;
        format!("{}-{}-{}", self.r.below(30), self.writer_seq, self.r.below(900))
    }
    pub fn new_fid(&mut self) -> String {
        let a = self.r.u64();
        let b = self.r.u64();
        format!(
            "{:08x}-{:04x}-{:04x}-{:04x}-{:012x}-0",
            a >> 32,
            (a >> 16) & 0xffff,
            a & 0xffff,
            b >> 48,
            b & 0xffff_ffff_ffff
        )
    }

    // ----- model queries -----
    pub fn merge(&self, rows: Vec<Row>, overwrite: bool) -> Vec<Row> {
        if !overwrite {
            return rows;
        }
        let mut m: BTreeMap<String, Row> = BTreeMap::new();
        for r in rows {
            match m.get(&r.key) {
                Some(o) if !newer(&r, o) => {}
                _ => {
                    m.insert(r.key.clone(), r);
                }
            }
        }
        m.into_values().collect()
    }

    /// index of the slice's base version as of `t`
    pub fn base_as_of(&self, g: &Group, t: &str, mode: Mode) -> Option<usize> {
        g.bases
            .iter()
            .enumerate()
            .filter(|(_, b)| b.ts.as_str() <= t && if mode == Mode::Strong { b.committed } else { b.present })
            .max_by(|a, b| a.1.ts.cmp(&b.1.ts))
            .map(|x| x.0)
    }
    pub fn slice_log_rows(&self, g: &Group, base_ts: &str, start: Option<&str>, t: &str, mode: Mode) -> Vec<Row> {
        let mut out = vec![];
        let mut targets: Vec<&str> = vec![];
        for l in g.logs.iter().filter(|l| l.base_ts == base_ts) {
            for b in &l.blocks {
                if let BlkKind::Rollback(tg) = &b.kind {
                    if mode == Mode::Strong || (b.present && b.instant.as_str() <= t && start.map_or(true, |s| b.instant.as_str() > s)) {
                        targets.push(tg);
                    }
                }
            }
        }
        let mut logs: Vec<&LogF> = g.logs.iter().filter(|l| l.base_ts == base_ts).collect();
        logs.sort_by_key(|l| l.version);
        for l in logs {
            for b in &l.blocks {
                if let BlkKind::Data(rows) = &b.kind {
                    let on = match mode {
                        Mode::Strong => b.committed,
                        Mode::Weak => b.present && !targets.contains(&b.instant.as_str()),
                    };
                    if on && b.instant.as_str() <= t && start.map_or(true, |s| b.instant.as_str() > s) {
                        out.extend(rows.iter().cloned());
                    }
                }
            }
        }
        out
    }
    pub fn replaced_as_of(&self, g: &Group, t: &str) -> bool {
        g.replaced_at.as_deref().map_or(false, |x| x <= t)
    }
    pub fn slice_rows(&self, g: &Group, bi: usize, t: &str, mode: Mode, ro: bool) -> Vec<Row> {
        let b = &g.bases[bi];
        let mut rows = b.rows.clone();
        if ro {
            return rows;
        }
        let has_log = g.logs.iter().any(|l| l.base_ts == b.ts && l.present());
        if !has_log {
            return rows;
        }
        rows.extend(self.slice_log_rows(g, &b.ts, None, t, mode));
        self.merge(rows, self.spec.overwrite())
    }
    pub fn snapshot(&self, t: &str, mode: Mode, ro: bool, keep: &dyn Fn(usize) -> bool) -> Vec<Row> {
        let mut out = vec![];
        for g in &self.groups {
            if !keep(g.part) || self.replaced_as_of(g, t) {
                continue;
            }
            if let Some(bi) = self.base_as_of(g, t, mode) {
                out.extend(self.slice_rows(g, bi, t, mode, ro));
            }
        }
        out
    }
    pub fn snap_texts(&self, t: Option<&str>, mode: Mode, ro: bool) -> Vec<String> {
        match t {
            None => vec![],
            Some(t) => rows_of(self, &self.snapshot(t, mode, ro, &|_| true)),
        }
    }
    pub fn latest(&self) -> Option<String> {
        self.insts.iter().filter(|i| i.committed).map(|i| i.ts.clone()).max()
    }
    pub fn commits(&self) -> Vec<&Inst> {
        let mut v: Vec<&Inst> = self.insts.iter().filter(|i| i.committed).collect();
        v.sort_by(|a, b| a.ts.cmp(&b.ts));
        v
    }
    /// Groups reported by an incremental listing of (start, end]: index and base instant of the slice.
    pub fn touched_between(&self, start: &str, end: &str) -> Vec<(usize, String)> {
        let mut m: BTreeMap<usize, String> = BTreeMap::new();
        for i in self.insts.iter().filter(|i| i.committed && i.ts.as_str() > start && i.ts.as_str() <= end) {
            for (g, b) in &i.touched {
                if b.as_str() > end {
                    continue;
                }
                let e = m.entry(*g).or_insert_with(|| b.clone());
                if *b > *e {
                    *e = b.clone();
                }
            }
        }
        m.retain(|g, _| {
            self.groups[*g]
                .replaced_at
                .as_deref()
                .map_or(true, |x| !(x > start && x <= end))
        });
        m.into_iter().collect()
    }
    pub fn incremental(&self, start: &str, end: &str) -> Vec<Row> {
        let mut out = vec![];
        for (gi, bts) in self.touched_between(start, end) {
            let g = &self.groups[gi];
            let Some(b) = g.bases.iter().find(|b| b.ts == bts) else { continue };
            let mut rows: Vec<Row> = b
                .rows
                .iter()
                .filter(|r| r.ctime.as_str() > start && r.ctime.as_str() <= end)
                .cloned()
                .collect();
            rows.extend(self.slice_log_rows(g, &bts, Some(start), end, Mode::Strong));
            if self.spec.overwrite() {
                rows = self.merge(rows, true);
            }
            out.extend(rows);
        }
        out
    }

    /// What an incremental read gives when it knows the slice's log files from the write stats of the
    /// commits in the window only, and every block found there counts unless a rollback block found there
    /// names it (the library's behaviour; differs from `incremental` only when blocks of incomplete or
    /// rolled-back writes sit in those files).
    pub fn incremental_listed(&self, start: &str, end: &str) -> Vec<Row> {
        let mut out = vec![];
        for (gi, bts) in self.touched_between(start, end) {
            let g = &self.groups[gi];
            let mut names: Vec<String> = vec![];
            for i in self.insts.iter().filter(|i| i.committed && i.ts.as_str() > start && i.ts.as_str() <= end) {
                let m: J = serde_json::from_str(&i.meta_json).unwrap();
                let Some(st) = m["partitionToWriteStats"][&self.parts[g.part].path].as_array() else { continue };
                for s in st.iter().filter(|s| s["fileId"] == json!(g.fid)) {
                    for n in s["logFiles"].as_array().unwrap_or(&vec![]) {
                        names.push(n.as_str().unwrap().to_string());
                    }
                }
            }
            let Some(b) = g.bases.iter().find(|b| b.ts == bts) else { continue };
            let mut rows: Vec<Row> = b
                .rows
                .iter()
                .filter(|r| r.ctime.as_str() > start && r.ctime.as_str() <= end)
                .cloned()
                .collect();
            let mut logs: Vec<&LogF> = g.logs.iter().filter(|l| l.base_ts == bts && names.contains(&l.name)).collect();
            logs.sort_by_key(|l| l.version);
            let inr = |t: &str| t > start && t <= end;
            let targets: Vec<&String> = logs
                .iter()
                .flat_map(|l| &l.blocks)
                .filter(|b| b.present && inr(&b.instant))
                .filter_map(|b| if let BlkKind::Rollback(t) = &b.kind { Some(t) } else { None })
                .collect();
            for b in logs.iter().flat_map(|l| &l.blocks) {
                if let BlkKind::Data(r) = &b.kind {
                    if b.present && inr(&b.instant) && !targets.contains(&&b.instant) {
                        rows.extend(r.iter().cloned());
                    }
                }
            }
            if self.spec.overwrite() {
                rows = self.merge(rows, true);
            }
            out.extend(rows);
        }
        out
    }

    // ----- transactions -----
    pub fn apply(&mut self, op: &WOp) {
        match &op.act {
            Act::Put(b) => self.put_raw(&op.path, b.to_vec()),
            Act::Del => self.del_raw(&op.path),
        }
        match &op.eff {
            Eff::None => {}
            Eff::Base(g, b) => self.groups[*g].bases[*b].present = true,
            Eff::DropBase(g, b) => self.groups[*g].bases[*b].present = false,
            Eff::Log(g, l, bs) => {
                for b in bs {
                    self.groups[*g].logs[*l].blocks[*b].present = true;
                }
            }
            Eff::Complete(i) => {
                let ts = self.insts[*i].ts.clone();
                self.insts[*i].committed = true;
                for g in &mut self.groups {
                    for b in &mut g.bases {
                        if b.ts == ts {
                            b.committed = true;
                        }
                    }
                    for l in &mut g.logs {
                        for b in &mut l.blocks {
                            if b.instant == ts {
                                b.committed = true;
                            }
                        }
                    }
                }
            }
            Eff::Uncomplete(i) => {
                let ts = self.insts[*i].ts.clone();
                self.insts[*i].committed = false;
                self.insts[*i].rolled_back = true;
                for g in &mut self.groups {
                    if g.replaced_at.as_deref() == Some(&ts) {
                        g.replaced_at = None;
                    }
                    for b in &mut g.bases {
                        if b.ts == ts {
                            b.committed = false;
                        }
                    }
                    for l in &mut g.logs {
                        for b in &mut l.blocks {
                            if b.instant == ts {
                                b.committed = false;
                            }
                        }
                    }
                }
            }
        }
    }
    pub fn step(&mut self, t: &mut Txn) -> bool {
        if t.done >= t.ops.len() {
            return false;
        }
        let op = t.ops[t.done].clone();
        self.apply(&op);
        if let Eff::Complete(_) = op.eff {
            for g in &t.replaces {
                self.groups[*g].replaced_at = Some(t.ts.clone());
            }
        }
        t.done += 1;
        if t.done == t.ops.len() {
            self.release(t);
        }
        true
    }
    pub fn release(&mut self, t: &Txn) {
        for g in t.groups.iter().chain(&t.replaces) {
            self.groups[*g].locked = false;
        }
    }
    pub fn finish(&mut self, t: &mut Txn) {
        *self.ops_done.entry(t.kind).or_default() += 1;
        while self.step(t) {}
    }
    /// Stops the transaction after `k` operations; it stays incomplete.
    pub fn cut(&mut self, t: &mut Txn, k: usize) {
        while t.done < k.min(t.ops.len() - 1) && self.step(t) {}
        self.release(t);
    }

    pub fn begin(&mut self, action: &'static str, op: &'static str) -> Txn {
        let ts = self.tick();
        self.insts.push(Inst {
            ts: ts.clone(),
            action,
            op,
            committed: false,
            rolled_back: false,
            wrote_files: false,
            touched: vec![],
            meta_json: String::new(),
            schema: String::new(),
            ncols: self.spec.cols.len(),
        });
        let inst = self.insts.len() - 1;
        let mut t = Txn { inst, ts: ts.clone(), kind: op, ops: vec![], done: 0, groups: vec![], replaces: vec![] };
        t.ops.push(put(&format!(".hoodie/{ts}.{action}.requested"), b"".to_vec()));
        let infl = if action == "commit" && op != "compact" {
            format!(".hoodie/{ts}.inflight")
        } else if op == "compact" {
            format!(".hoodie/{ts}.compaction.inflight")
        } else {
            format!(".hoodie/{ts}.{action}.inflight")
        };
        if op == "compact" {
            t.ops[0].path = format!(".hoodie/{ts}.compaction.requested");
        }
        t.ops.push(put(&infl, b"{}".to_vec()));
        t
    }

    /// Rows written before columns were added, in the current columns.
    pub fn padded(&self, mut rows: Vec<Row>) -> Vec<Row> {
        let n = 5 + self.spec.cols.len();
        for r in &mut rows {
            if r.vals.len() < n {
                r.vals.resize(n, V::Null);
                r.text = self.text(&r.vals);
            }
        }
        rows
    }
    /// Adds a nullable column that the files of later writes have.
    fn add_column(&mut self) {
        let t = if self.spec.mor { mixable_ty(&mut self.r, 1) } else { any_ty(&mut self.r, 1) };
        let n = self.spec.cols.len();
        self.spec.cols.push((format!("added{n}"), t, true));
        self.ops_done.entry("add_column").and_modify(|v| *v += 1).or_insert(1);
    }
    /// Number of data columns of the table as its latest completed commit that wrote files has them.
    pub fn ncols(&self) -> usize {
        self.commits().iter().rev().find(|i| i.wrote_files).map_or(self.spec.cols.len(), |i| i.ncols)
    }
    pub fn add_base(&mut self, t: &mut Txn, gi: usize, rows: Vec<Row>, file: String) -> J {
        let part = self.groups[gi].part;
        let rows = self.padded(rows);
        let bytes = self.parquet(&rows);
        let path = self.part_file(part, &file);
        let n = rows.len();
        let bv = BaseVer {
            ts: t.ts.clone(),
            file: file.clone(),
            size: bytes.len(),
            num_rows: n,
            byte_size: parquet_bytes(&bytes),
            ncols: self.spec.cols.len(),
            rows,
            present: false,
            committed: false,
        };
        let prev = self.groups[gi].bases.iter().filter(|b| b.committed).map(|b| b.ts.clone()).max();
        self.groups[gi].bases.push(bv);
        let bi = self.groups[gi].bases.len() - 1;
        if self.spec.noise && self.r.chance(30) && !self.parts[part].path.is_empty() {
            let pm = self.part_file(part, ".hoodie_partition_metadata");
            if !self.files.contains_key(&pm) {
                t.ops.push(put(&pm, format!("commitTime={}\npartitionDepth=1\n", t.ts).into_bytes()));
            }
        }
        t.ops.push(WOp { path: path.clone(), act: Act::Put(bytes.into()), eff: Eff::Base(gi, bi) });
        if self.spec.noise && self.r.chance(20) {
            let crc = self.part_file(part, &format!(".{file}.crc"));
            t.ops.push(put(&crc, b"crc!".to_vec()));
        }
        if self.spec.noise && self.r.chance(8) {
            // left by a copy that did not finish
            let tmp = self.part_file(part, &format!("{file}._COPYING_"));
            t.ops.push(put(&tmp, b"PAR1 half a copy".to_vec()));
        }
        if self.spec.noise && self.r.chance(10) {
            // change-data-capture files lie beside the data and are no part of a slice
            let fid = self.groups[gi].fid.clone();
            let v = self.r.below(3) + 1;
            let cdc = self.part_file(part, &format!(".{fid}_{}.log.{v}_1-2-3.cdc", t.ts));
            t.ops.push(put(&cdc, b"#HUDI#cdc".to_vec()));
        }
        t.groups.push(gi);
        self.groups[gi].locked = true;
        self.insts[t.inst].touched.push((gi, t.ts.clone()));
        self.insts[t.inst].wrote_files = true;
        json!({"fileId": self.groups[gi].fid, "path": path, "prevCommit": prev.unwrap_or("null".into()),
            "numWrites": n, "numDeletes": 0, "numUpdateWrites": 0, "numInserts": n, "totalWriteBytes": 1,
            "totalWriteErrors": 0, "partitionPath": self.parts[part].path, "fileSizeInBytes": 1})
    }
    pub fn seal(&mut self, mut t: Txn, stats: Vec<(usize, J)>, replaced: Option<Vec<usize>>) -> Txn {
        let mut m: BTreeMap<String, Vec<J>> = BTreeMap::new();
        let mut stats = stats;
        self.r.shuffle(&mut stats);
        for (p, s) in stats {
            m.entry(self.parts[p].path.clone()).or_default().push(s);
        }
        let mut o = Map::new();
        o.insert("partitionToWriteStats".into(), json!(m));
        o.insert("compacted".into(), json!(false));
        let schema = {
            let mut j: J = serde_json::from_str(&self.spec.avro_schema(false)).unwrap();
            if self.r.chance(60) {
                j["doc"] = json!(format!("written by {}", t.ts));
            }
            j.to_string()
        };
        o.insert("extraMetadata".into(), json!({"schema": schema.clone()}));
        self.insts[t.inst].schema = schema;
        o.insert("operationType".into(), json!(self.insts[t.inst].op.to_uppercase().to_lowercase()));
        if let Some(rep) = replaced {
            let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for g in &rep {
                m.entry(self.parts[self.groups[*g].part].path.clone())
                    .or_default()
                    .push(self.groups[*g].fid.clone());
                self.groups[*g].locked = true;
            }
            o.insert("partitionToReplaceFileIds".into(), json!(m));
            t.replaces = rep;
        }
        let action = self.insts[t.inst].action;
        let text = serde_json::to_string(&J::Object(o)).unwrap();
        self.insts[t.inst].meta_json = text.clone();
        t.ops.push(WOp {
            path: format!(".hoodie/{}.{}", t.ts, action),
            act: Act::Put(text.into_bytes().into()),
            eff: Eff::Complete(t.inst),
        });
        t
    }

    fn live_groups(&self) -> Vec<usize> {
        (0..self.groups.len())
            .filter(|g| {
                let g = &self.groups[*g];
                !g.locked && g.replaced_at.is_none() && g.bases.iter().any(|b| b.committed)
            })
            .collect()
    }
    pub fn new_group(&mut self, part: usize) -> usize {
        let mut fid = self.new_fid();
        if self.spec.share_fid && self.r.chance(60) {
            let here: Vec<&String> = self.groups.iter().filter(|g| g.part == part).map(|g| &g.fid).collect();
            let cand: Vec<String> = self.groups.iter().filter(|g| g.part != part && !here.contains(&&g.fid)).map(|g| g.fid.clone()).collect();
            if !cand.is_empty() {
                fid = self.r.pick(&cand).clone();
            }
        }
        self.groups.push(Group { part, fid, bases: vec![], logs: vec![], replaced_at: None, locked: true });
        self.groups.len() - 1
    }
    fn current_rows(&self, gi: usize) -> Vec<Row> {
        let g = &self.groups[gi];
        match self.base_as_of(g, "99999999999999999", Mode::Strong) {
            Some(bi) => self.slice_rows(g, bi, "99999999999999999", Mode::Strong, false),
            None => vec![],
        }
    }
    pub fn base_name(&mut self, gi: usize, ts: &str) -> String {
        let tok = self.token();
        format!("{}_{}_{}.parquet", self.groups[gi].fid, tok, ts)
    }
    pub fn fresh_rows(&mut self, gi: usize, ts: &str, file: &str, n: usize, from: usize) -> Vec<Row> {
        let part = self.groups[gi].part;
        (0..n)
            .map(|i| {
                let k = self.new_key();
                self.mk_row(part, &k, ts, file, from + i, false)
            })
            .collect()
    }

    pub fn data_action(&self) -> &'static str {
        if self.spec.mor {
            "deltacommit"
        } else {
            "commit"
        }
    }

    pub fn tx_insert(&mut self) -> Txn {
        let a = self.data_action();
        let mut t = self.begin(a, "insert");
        let mut stats = vec![];
        let (mut ng, mut one) = (1 + self.r.below(3), None);
        if self.spec.wide {
            ng = self.r.range(20, 90) as usize;
            one = if self.r.chance(50) { Some(self.r.below(self.parts.len())) } else { None };
        }
        for _ in 0..ng {
            let part = one.unwrap_or_else(|| self.r.below(self.parts.len()));
            let gi = self.new_group(part);
            let f = self.base_name(gi, &t.ts);
            let n = if self.spec.wide { 1 } else if self.spec.big && self.r.chance(50) { self.r.range(1000, 2300) as usize } else { *self.r.pick(&[1usize, 2, 3, 5, 9]) };
            let ts = t.ts.clone();
            let rows = self.fresh_rows(gi, &ts, &f, n, gi * 100);
            stats.push((part, self.add_base(&mut t, gi, rows, f)));
        }
        self.seal(t, stats, None)
    }
    /// COW: rewrites file groups with updates, deletes and inserts.
    pub fn tx_rewrite(&mut self) -> Option<Txn> {
        let live = self.live_groups();
        if live.is_empty() {
            return None;
        }
        let op = *self.r.pick(&["upsert", "delete", "upsert"]);
        let a = self.data_action();
        let mut t = self.begin(a, op);
        let ts = t.ts.clone();
        let mut stats = vec![];
        let mut cand = live;
        self.r.shuffle(&mut cand);
        let k = 1 + self.r.below(3);
        cand.truncate(k);
        for gi in cand {
            let f = self.base_name(gi, &ts);
            let part = self.groups[gi].part;
            let mut rows = vec![];
            let all_gone = op == "delete" && self.r.chance(30);
            for (i, row) in self.current_rows(gi).into_iter().enumerate() {
                if all_gone {
                    continue;
                }
                match self.r.below(4) {
                    0 if op == "delete" => continue,
                    1 if op == "upsert" => {
                        let nr = self.mk_row(part, &row.key, &ts, &f, gi * 100 + i, false);
                        rows.push(nr);
                    }
                    _ => rows.push(row),
                }
            }
            if op == "upsert" && self.r.chance(50) {
                let n = self.r.below(3);
                let more = self.fresh_rows(gi, &ts, &f, n, gi * 100 + 50);
                rows.extend(more);
            }
            stats.push((part, self.add_base(&mut t, gi, rows, f)));
        }
        Some(self.seal(t, stats, None))
    }
    /// replace commits: insert_overwrite, cluster, delete_partition
    pub fn tx_replace(&mut self, kind: &'static str) -> Option<Txn> {
        let live = self.live_groups();
        if live.is_empty() {
            return None;
        }
        let part = self.groups[*self.r.pick(&live)].part;
        let inpart: Vec<usize> = (0..self.groups.len())
            .filter(|g| self.groups[*g].part == part && self.groups[*g].replaced_at.is_none())
            .collect();
        if inpart.iter().any(|g| self.groups[*g].locked) {
            return None;
        }
        // groups whose only files never completed are not known to the writer
        let inpart: Vec<usize> = inpart
            .into_iter()
            .filter(|g| self.groups[*g].bases.iter().any(|b| b.committed))
            .collect();
        let mut rep = inpart;
        if kind == "cluster" && rep.len() > 1 && self.r.chance(50) {
            rep.truncate(1 + self.r.below(2));
        }
        let mut t = self.begin("replacecommit", kind);
        let ts = t.ts.clone();
        let mut stats = vec![];
        match kind {
            "insert_overwrite" => {
                for _ in 0..1 + self.r.below(2) {
                    let gi = self.new_group(part);
                    let f = self.base_name(gi, &ts);
                    let n = 1 + self.r.below(4);
                    let rows = self.fresh_rows(gi, &ts, &f, n, gi * 100);
                    stats.push((part, self.add_base(&mut t, gi, rows, f)));
                }
            }
            "cluster" => {
                let gi = self.new_group(part);
                let f = self.base_name(gi, &ts);
                let mut rows = vec![];
                for g in &rep {
                    rows.extend(self.current_rows(*g));
                }
                self.r.shuffle(&mut rows);
                stats.push((part, self.add_base(&mut t, gi, rows, f)));
            }
            _ => {}
        }
        Some(self.seal(t, stats, Some(rep)))
    }
    pub fn tx_empty(&mut self) -> Txn {
        let a = self.data_action();
        let t = self.begin(a, "upsert");
        self.seal(t, vec![], None)
    }

    // ----- MOR -----
    fn slice_log_names(&self, gi: usize, base_ts: &str) -> Vec<String> {
        self.groups[gi]
            .logs
            .iter()
            .filter(|l| l.base_ts == base_ts && l.blocks.iter().any(|b| b.committed))
            .map(|l| l.name.clone())
            .collect()
    }
    /// Adds blocks to the slice's current or a new log file; pushes the storage operation.
    pub fn add_log(&mut self, t: &mut Txn, gi: usize, base_ts: &str, blocks: Vec<(Blk, Vec<u8>)>, force_new: Option<bool>) -> usize {
        let part = self.groups[gi].part;
        let last = self.groups[gi]
            .logs
            .iter()
            .enumerate()
            .filter(|(_, l)| l.base_ts == base_ts)
            .max_by_key(|(_, l)| l.version)
            .map(|x| x.0);
        let fresh = force_new.unwrap_or_else(|| self.r.chance(if self.spec.deep { 90 } else { 55 })) || last.is_none();
        let li = if fresh {
            let v = last.map(|l| self.groups[gi].logs[l].version + 1).unwrap_or(1);
            let v = if last.is_none() || self.r.chance(80) {
                v
            } else if self.r.chance(8) {
                v + *self.r.pick(&[95, 250, 990])
            } else {
                v + self.r.below(9) as u32
            };
            let tok = self.token();
            let name = format!(".{}_{}.log.{}_{}", self.groups[gi].fid, base_ts, v, tok);
            self.groups[gi].logs.push(LogF { base_ts: base_ts.into(), version: v, name, blocks: vec![], bytes: vec![] });
            self.groups[gi].logs.len() - 1
        } else {
            last.unwrap()
        };
        let l = &mut self.groups[gi].logs[li];
        let mut idx = vec![];
        for (b, bytes) in blocks {
            l.blocks.push(b);
            idx.push(l.blocks.len() - 1);
            l.bytes.extend(bytes);
        }
        let path = {
            let n = l.name.clone();
            self.part_file(part, &n)
        };
        let bytes = Bytes::from(self.groups[gi].logs[li].bytes.clone());
        t.ops.push(WOp { path, act: Act::Put(bytes), eff: Eff::Log(gi, li, idx) });
        li
    }
    pub fn slice_base_ts(&self, gi: usize) -> Option<String> {
        let g = &self.groups[gi];
        self.base_as_of(g, "99999999999999999", Mode::Strong).map(|b| g.bases[b].ts.clone())
    }
    pub fn mk_log_rows(&mut self, gi: usize, ts: &str, n: usize, from: usize) -> Vec<Row> {
        let part = self.groups[gi].part;
        let mut keys: Vec<String> = self.current_rows(gi).iter().map(|r| r.key.clone()).collect();
        // also keys of uncommitted/rolled back data, which a writer may write again
        keys.sort();
        keys.dedup();
        self.r.shuffle(&mut keys);
        let mut rows = vec![];
        for i in 0..n {
            let low = self.r.chance(25);
            let k = if self.r.chance(75) && i < keys.len() { keys[i].clone() } else { self.new_key() };
            rows.push(self.mk_row(part, &k, ts, "", from + i, low));
        }
        // file name meta column: name of the slice's file id
        let fid = self.groups[gi].fid.clone();
        if self.spec.meta {
            for r in &mut rows {
                r.vals[4] = V::s(&fid);
                r.text = String::new();
            }
            for i in 0..rows.len() {
                let tx = self.text(&rows[i].vals);
                rows[i].text = tx;
            }
        }
        rows
    }
    pub fn tx_log_upsert(&mut self) -> Option<Txn> {
        let mut cand = self.live_groups();
        // log blocks have the columns of their base file
        cand.retain(|g| {
            let b = self.slice_base_ts(*g);
            self.groups[*g].bases.iter().any(|v| Some(&v.ts) == b.as_ref() && v.committed && v.ncols == self.spec.cols.len())
        });
        if cand.is_empty() {
            return None;
        }
        let mut t = self.begin("deltacommit", "upsert");
        let ts = t.ts.clone();
        self.r.shuffle(&mut cand);
        let k = 1 + self.r.below(3);
        cand.truncate(k);
        if self.spec.deep {
            cand.sort();
            cand.truncate(1);
        }
        let mut stats = vec![];
        for gi in cand {
            let part = self.groups[gi].part;
            let bts = self.slice_base_ts(gi).unwrap();
            self.groups[gi].locked = true;
            t.groups.push(gi);
            let nfiles = if self.r.chance(12) { 2 } else { 1 };
            let mut from = gi * 100;
            for fi in 0..nfiles {
                let mut blocks = vec![];
                let nb = *self.r.pick(&[1usize, 1, 1, 2]);
                for _ in 0..nb {
                    let n = if self.spec.big && self.r.chance(30) {
                        let top = *self.r.pick(&[2300, 2300, 7000]);
                        self.r.range(1000, top) as usize
                    } else { *self.r.pick(&[1usize, 1, 2, 3, 4]) };
                    // one key at most once per commit: later blocks of a commit take new keys
                    let rows = if fi == 0 && blocks.is_empty() {
                        self.mk_log_rows(gi, &ts, n, from)
                    } else {
                        let mut rows = self.fresh_rows(gi, &ts, "", n, from);
                        let fid = self.groups[gi].fid.clone();
                        for r in &mut rows {
                            if self.spec.meta {
                                r.vals[4] = V::s(&fid);
                            }
                            r.text = self.text(&r.vals);
                        }
                        rows
                    };
                    from += n;
                    let (bytes, _) = self.data_block(&ts, &rows);
                    blocks.push((
                        Blk { instant: ts.clone(), kind: BlkKind::Data(rows), present: false, committed: false, raw: bytes.clone() },
                        bytes,
                    ));
                }
                let prior = self.slice_log_names(gi, &bts);
                let li = self.add_log(&mut t, gi, &bts, blocks, if fi > 0 { Some(true) } else { None });
                let name = self.groups[gi].logs[li].name.clone();
                let mut names = if self.r.chance(70) { prior } else { vec![] };
                // files of this commit so far
                if !names.contains(&name) {
                    names.push(name.clone());
                }
                let bfile = self.groups[gi].bases.iter().find(|b| b.ts == bts && b.committed).unwrap().file.clone();
                let path = self.part_file(part, &name);
                stats.push((
                    part,
                    json!({"fileId": self.groups[gi].fid, "path": path, "prevCommit": bts, "baseFile": bfile,
                        "logFiles": names, "logVersion": self.groups[gi].logs[li].version, "logOffset": 0,
                        "partitionPath": self.parts[part].path, "numWrites": 1, "numDeletes": 0}),
                ));
            }
            self.insts[t.inst].touched.push((gi, bts.clone()));
            self.insts[t.inst].wrote_files = true;
        }
        // occasionally inserts to a new file group in the same delta commit
        if self.r.chance(25) {
            let part = self.r.below(self.parts.len());
            let gi = self.new_group(part);
            let f = self.base_name(gi, &ts);
            let rows = self.fresh_rows(gi, &ts, &f, 2, gi * 100);
            stats.push((part, self.add_base(&mut t, gi, rows, f)));
        }
        Some(self.seal(t, stats, None))
    }
    pub fn tx_compact(&mut self) -> Option<Txn> {
        let mut cand: Vec<usize> = self
            .live_groups()
            .into_iter()
            .filter(|g| {
                let b = self.slice_base_ts(*g).unwrap();
                self.groups[*g].logs.iter().any(|l| l.base_ts == b)
            })
            .collect();
        if cand.is_empty() {
            return None;
        }
        let mut t = self.begin("commit", "compact");
        let ts = t.ts.clone();
        self.r.shuffle(&mut cand);
        let k = 1 + self.r.below(3);
        cand.truncate(k);
        let mut stats = vec![];
        for gi in cand {
            let f = self.base_name(gi, &ts);
            let rows = self.current_rows(gi);
            let part = self.groups[gi].part;
            stats.push((part, self.add_base(&mut t, gi, rows, f)));
        }
        Some(self.seal(t, stats, None))
    }
    /// Rolls back an incomplete (or, as restore does, a completed) write.
    pub fn tx_rollback(&mut self, inst: usize, variant: usize) -> Txn {
        let target = self.insts[inst].ts.clone();
        let was_complete = self.insts[inst].committed;
        let action = self.insts[inst].action;
        let op = self.insts[inst].op;
        let ts = self.tick();
        let mut t = Txn {
            inst,
            ts: ts.clone(),
            kind: "rollback",
            ops: vec![],
            done: 0,
            groups: vec![],
            replaces: vec![],
        };
        t.ops.push(put(&format!(".hoodie/{ts}.rollback.requested"), b"r".to_vec()));
        t.ops.push(put(&format!(".hoodie/{ts}.rollback.inflight"), b"".to_vec()));
        if was_complete {
            t.ops.push(WOp {
                path: format!(".hoodie/{target}.{action}"),
                act: Act::Del,
                eff: Eff::Uncomplete(inst),
            });
        }
        for gi in 0..self.groups.len() {
            for bi in 0..self.groups[gi].bases.len() {
                let b = &self.groups[gi].bases[bi];
                if b.ts == target && b.present {
                    let p = self.part_file(self.groups[gi].part, &b.file.clone());
                    t.ops.push(WOp { path: p, act: Act::Del, eff: Eff::DropBase(gi, bi) });
                }
            }
            let base_tss: Vec<String> = {
                let mut v: Vec<String> = self.groups[gi]
                    .logs
                    .iter()
                    .filter(|l| l.blocks.iter().any(|b| b.instant == target && b.present))
                    .map(|l| l.base_ts.clone())
                    .collect();
                v.sort();
                v.dedup();
                v
            };
            for bts in base_tss {
                let n = if variant & 1 == 1 { 2 } else { 1 };
                let mut blocks = vec![];
                for _ in 0..n {
                    let (bytes, _) = logfmt::rollback_block(&ts, &target);
                    blocks.push((
                        Blk { instant: ts.clone(), kind: BlkKind::Rollback(target.clone()), present: false, committed: true, raw: bytes.clone() },
                        bytes,
                    ));
                }
                self.add_log(&mut t, gi, &bts, blocks, Some(variant & 2 == 2));
            }
        }
        if op == "compact" {
            t.ops.push(del(&format!(".hoodie/{target}.compaction.inflight")));
        } else {
            t.ops.push(del(&format!(
                ".hoodie/{target}.{}inflight",
                if action == "commit" { String::new() } else { format!("{action}.") }
            )));
            t.ops.push(del(&format!(".hoodie/{target}.{action}.requested")));
        }
        t.ops.push(put(&format!(".hoodie/{ts}.rollback"), b"rb".to_vec()));
        self.rollbacks.push((target, ts));
        t
    }
    /// Drops blocks of an incomplete write that never reached storage from the in-memory log image.
    pub fn forget_unwritten(&mut self, t: &Txn) {
        for g in &mut self.groups {
            for l in &mut g.logs {
                if l.blocks.iter().any(|b| b.instant == t.ts && !b.present) {
                    // blocks of one transaction are appended by one operation: all or none are present
                    l.blocks.retain(|b| !(b.instant == t.ts && !b.present));
                    l.bytes.clear();
                }
            }
            let fix: Vec<usize> = (0..g.logs.len()).filter(|i| g.logs[*i].bytes.is_empty()).collect();
            for i in fix {
                let key = {
                    let p = &self.parts[g.part].path;
                    if p.is_empty() {
                        g.logs[i].name.clone()
                    } else {
                        format!("{p}/{}", g.logs[i].name)
                    }
                };
                g.logs[i].bytes = self.files.get(&key).map(|b| b.to_vec()).unwrap_or_default();
            }
            g.logs.retain(|l| !l.blocks.is_empty());
        }
    }

    pub fn noise_op(&mut self) {
        if !self.spec.noise {
            return;
        }
        let ts = self.tick();
        match self.r.below(5) {
            0 => {
                for s in ["requested", "inflight"] {
                    self.put_raw(&format!(".hoodie/{ts}.clean.{s}"), b"x".to_vec());
                }
                self.put_raw(&format!(".hoodie/{ts}.clean"), b"x".to_vec());
            }
            1 => {
                self.put_raw(&format!(".hoodie/{ts}.savepoint"), b"x".to_vec());
            }
            2 => {
                self.put_raw(&format!(".hoodie/{ts}.indexing.requested"), b"x".to_vec());
            }
            3 => {
                self.put_raw(&format!(".hoodie/.temp/{ts}/MARKERS0"), b"x".to_vec());
            }
            _ => {
                self.put_raw(&format!(".hoodie/{ts}.restore"), b"x".to_vec());
            }
        }
    }

    pub fn next_txn(&mut self, allow_empty: bool) -> Txn {
        if self.spec.evolve && self.r.chance(20) && self.spec.cols.len() < 24 {
            self.add_column();
        }
        for _ in 0..20 {
            let x = if self.spec.deep && self.r.chance(85) { 40 } else { self.r.below(100) };
            let has = !self.live_groups().is_empty();
            if !has || x < 18 {
                return self.tx_insert();
            }
            let t = if x < 66 {
                if self.spec.mor {
                    self.tx_log_upsert()
                } else if self.spec.meta || true {
                    self.tx_rewrite()
                } else {
                    None
                }
            } else if x < 78 {
                if self.spec.mor {
                    self.tx_compact()
                } else {
                    self.tx_rewrite()
                }
            } else if x < 83 {
                self.tx_replace("insert_overwrite")
            } else if x < 90 {
                self.tx_replace("cluster")
            } else if x < 95 && allow_empty {
                self.tx_replace("delete_partition")
            } else if x < 97 && allow_empty {
                Some(self.tx_empty())
            } else {
                None
            };
            if let Some(t) = t {
                return t;
            }
        }
        self.tx_insert()
    }

    /// Runs `n` complete writes, with noise and at times a failed write that is rolled back.
    pub fn grow(&mut self, n: usize, failures: bool) {
        // rarely a hundred commits and more on the same few slices
        let n = if self.spec.deep { n * 4 + 8 + if self.r.chance(4) { 100 } else { 0 } } else { n };
        self.grow_exactly(n, failures)
    }
    pub fn grow_exactly(&mut self, n: usize, failures: bool) {
        for _ in 0..n {
            if self.r.chance(20) {
                self.noise_op();
            }
            if failures && self.r.chance(15) {
                let mut t = self.next_txn(true);
                let k = self.r.below(t.ops.len());
                self.cut(&mut t, k);
                self.forget_unwritten(&t);
                let mut rb = {
                    let v = self.r.below(4);
                    self.tx_rollback(t.inst, v)
                };
                self.finish(&mut rb);
            }
            let mut t = self.next_txn(true);
            self.finish(&mut t);
        }
    }

    pub fn describe(&self) -> String {
        let ops: Vec<String> = self.ops_done.iter().map(|(k, v)| format!("{k}:{v}")).collect();
        format!(
            "{} parts={} hive={} urlenc={} meta={} strategy={:?} commits={} groups={} ops[{}]",
            if self.spec.mor { "MOR" } else { "COW" },
            self.parts.len(),
            self.spec.hive,
            self.spec.urlenc,
            self.spec.meta,
            self.spec.strategy,
            self.commits().len(),
            self.groups.len(),
            ops.join(",")
        )
    }
    pub fn shape_hash(&self) -> u64 {
        let mut h = crate::rng::hash_str(&self.describe());
        for g in &self.groups {
            h = crate::rng::mix(h ^ (g.bases.len() * 31 + g.logs.len() * 7 + g.part) as u64);
            for l in &g.logs {
                h = crate::rng::mix(h ^ l.blocks.len() as u64);
            }
        }
        h
    }
}

pub fn newer(a: &Row, b: &Row) -> bool {
    let o = match (&a.prec, &b.prec) {
        (V::I(x), V::I(y)) => x.cmp(y),
        (V::S(x), V::S(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::D(x), V::D(y)) => x.total_cmp(y),
        _ => unreachable!(),
    };
    o.then_with(|| a.seq.as_bytes().cmp(b.seq.as_bytes())).is_gt()
}

/// Sum of the row groups' total byte sizes as the file's own footer gives them.
pub fn parquet_bytes(b: &[u8]) -> i64 {
    use parquet::file::reader::{FileReader, SerializedFileReader};
    let f = SerializedFileReader::new(Bytes::copy_from_slice(b)).unwrap();
    f.metadata().row_groups().iter().map(|g| g.total_byte_size()).sum()
}

pub fn put(path: &str, b: Vec<u8>) -> WOp {
    WOp { path: path.into(), act: Act::Put(b.into()), eff: Eff::None }
}
pub fn del(path: &str) -> WOp {
    WOp { path: path.into(), act: Act::Del, eff: Eff::None }
}

pub fn mem_put(m: &Arc<InMemory>, path: &str, b: Bytes) {
    let m = m.clone();
    let p = Path::parse(path).unwrap();
    futures::executor::block_on(async move { m.put(&p, PutPayload::from(b)).await }).unwrap();
}
