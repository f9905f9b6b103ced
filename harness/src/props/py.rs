//! C20: the Python package against the Rust library, call by call, on tables on disk.
use super::*;
use crate::props::read::gen_filters;
use arrow_schema::Schema;
use hudi_core::error::CoreError;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::table::builder::TableBuilder;
use hudi_core::timeline::instant::Instant as HInstant;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

pub static PROPS: &[Prop] = &[Prop {
    id: "C20",
    run: c20,
    quick: 500,
    thorough: 20000,
    level: "exploration",
    threads: 0,
    stall_s: 240,
    alloc_limit: NOLIM,
    rule: "random tables written to disk; one list of 25-40 calls per table (options, schemas, timeline, listings, splits, reads, file-group readers, failing calls, calls from several Python threads, tables served by a thread of the same interpreter) answered by the Rust library and by the Python package built from the same tree, compared value by value; distinct = (call, table shape)",
}];

struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: mpsc::Receiver<String>,
}
impl Worker {
    fn start() -> Worker {
        let mut child = Command::new("/opt/vp/venv/bin/python")
            .arg(format!("{VERIF}/pydriver.py"))
            .env("PYTHONPATH", format!("{VERIF}/target/pypkg"))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("python starts");
        let stdin = child.stdin.take().unwrap();
        let so = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Worker { child, stdin, rx }
    }
    fn ask(&mut self, q: &J, secs: u64) -> Result<J, String> {
        let sent = writeln!(self.stdin, "{q}").and_then(|_| self.stdin.flush());
        let r = match sent {
            Err(_) => Err(()),
            Ok(()) => self.rx.recv_timeout(Duration::from_secs(secs)).map_err(|e| {
                if matches!(e, mpsc::RecvTimeoutError::Timeout) {}
            }),
        };
        match r {
            Ok(l) => serde_json::from_str(&l).map_err(|e| format!("reply is no JSON: {e}")),
            Err(()) => {
                std::thread::sleep(Duration::from_millis(200));
                match self.child.try_wait() {
                    Ok(Some(s)) => Err(format!("the interpreter ended: {s}")),
                    _ => Err(format!("the interpreter did not answer within {secs} s")),
                }
            }
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static W: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn schema_j(s: &Schema) -> J {
    json!(s.fields().iter().map(|f| format!("{}:{:?}:{}", f.name(), f.data_type(), f.is_nullable())).collect::<Vec<_>>())
}
fn batches_j(bs: &[RecordBatch]) -> J {
    let mut v: Vec<J> = bs.iter().map(|b| json!([schema_j(&b.schema()), texts(std::slice::from_ref(b))])).collect();
    v.sort_by_key(|x| x.to_string());
    json!(v)
}
fn from_ipc(h: &str) -> (arrow_schema::SchemaRef, Vec<RecordBatch>) {
    let b = unhex(h);
    let r = arrow::ipc::reader::StreamReader::try_new(std::io::Cursor::new(b), None).unwrap();
    let s = r.schema();
    (s, r.map(|x| x.unwrap()).collect())
}
fn slice_j(f: &FileSlice) -> J {
    let m = f.base_file.file_metadata.clone().unwrap_or_default();
    let logs: Vec<String> = f.log_files.iter().map(|l| l.file_name()).collect();
    let join = |n: &str| if f.partition_path.is_empty() { n.to_string() } else { format!("{}/{n}", f.partition_path) };
    json!([
        f.file_id(),
        f.partition_path,
        f.creation_instant_time(),
        f.base_file.file_name(),
        m.size,
        m.byte_size,
        logs,
        m.num_records,
        f.base_file_relative_path().unwrap_or_default(),
        logs.iter().map(|l| join(l)).collect::<Vec<_>>()
    ])
}
fn sorted(mut v: Vec<J>) -> J {
    v.sort_by_key(|x| x.to_string());
    J::Array(v)
}
fn slices_j(v: &[FileSlice]) -> J {
    sorted(v.iter().map(slice_j).collect())
}
fn splits_j(v: &[Vec<FileSlice>]) -> J {
    json!([v.iter().map(|s| s.len()).collect::<Vec<_>>(), sorted(v.iter().flatten().map(slice_j).collect())])
}
fn inst_j(v: &[HInstant]) -> J {
    json!(v.iter().map(|i| json!([i.timestamp, i.action.as_ref(), i.state.as_ref(), i.epoch_millis])).collect::<Vec<_>>())
}
type Fl = Vec<(String, String, String)>;
pub fn jf(f: &Fl) -> J {
    json!(f.iter().map(|x| json!([x.0, x.1, x.2])).collect::<Vec<_>>())
}
fn fj(j: &J) -> Fl {
    j.as_array().map(|a| a.iter().map(|x| (s(&x[0]), s(&x[1]), s(&x[2]))).collect()).unwrap_or_default()
}
fn s(j: &J) -> String {
    j.as_str().unwrap_or_default().to_string()
}
fn os(j: &J) -> Option<&str> {
    j.as_str()
}
fn map(j: &J) -> HashMap<String, String> {
    j.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), s(v))).collect()).unwrap_or_default()
}

pub async fn rust_open(o: &J) -> Result<Table, CoreError> {
    let uri = s(&o["uri"]);
    if o["via"] == "ctor" {
        return Table::new_with_options(&uri, map(&o["options"])).await;
    }
    TableBuilder::from_base_uri(&uri)
        .with_hudi_options(map(&o["hudi"]))
        .with_storage_options(map(&o["storage"]))
        .with_options(map(&o["options"]))
        .build()
        .await
}

async fn read_all(r: FileGroupReader, v: Vec<FileSlice>) -> Result<Vec<RecordBatch>, CoreError> {
    let mut out = vec![];
    for f in &v {
        out.push(r.read_file_slice(f).await?);
    }
    Ok(out)
}
fn no_opts() -> Vec<(String, String)> {
    vec![]
}
/// The call on the Rust library, in the form compared.
pub async fn rust_call(t: &Table, m: &str, a: &J) -> Result<J, CoreError> {
    let (f0, f1, f2) = (fj(&a[0]), fj(&a[1]), fj(&a[2]));
    Ok(match m {
        "info" => json!([t.table_name(), t.table_type(), t.is_mor(), t.timezone()]),
        "hudi_options" => json!(t.hudi_options()),
        "storage_options" => json!(t.storage_options()),
        "get_avro_schema" => json!(t.get_avro_schema().await?),
        "get_schema" => schema_j(&t.get_schema().await?),
        "get_partition_schema" => schema_j(&t.get_partition_schema().await?),
        "get_file_slices" => slices_j(&t.get_file_slices(&fl(&f0)).await?),
        "get_file_slices_as_of" => slices_j(&t.get_file_slices_as_of(&s(&a[0]), &fl(&f1)).await?),
        "get_file_slices_between" => slices_j(&t.get_file_slices_between(os(&a[0]), os(&a[1])).await?),
        "get_file_slices_splits" => splits_j(&t.get_file_slices_splits(a[0].as_u64().unwrap() as usize, &fl(&f1)).await?),
        "get_file_slices_splits_as_of" => splits_j(&t.get_file_slices_splits_as_of(a[0].as_u64().unwrap() as usize, &s(&a[1]), &fl(&f2)).await?),
        "read_snapshot" => batches_j(&t.read_snapshot(&fl(&f0)).await?),
        "read_snapshot_as_of" => batches_j(&t.read_snapshot_as_of(&s(&a[0]), &fl(&f1)).await?),
        "read_incremental_records" => batches_j(&t.read_incremental_records(&s(&a[0]), os(&a[1])).await?),
        "read_slices" => batches_j(&read_all(t.create_file_group_reader_with_options(map(&a[0]))?, t.get_file_slices(&[]).await?).await?),
        "read_slices_as_of" => batches_j(&read_all(t.create_file_group_reader_with_options(no_opts())?, t.get_file_slices_as_of(&s(&a[0]), &[]).await?).await?),
        "read_slices_between" => batches_j(&read_all(t.create_file_group_reader_with_options(no_opts())?, t.get_file_slices_between(os(&a[0]), os(&a[1])).await?).await?),
        "read_base_files" => {
            let r = FileGroupReader::new_with_options(&s(&a[0]), map(&a[1]))?;
            let mut v = vec![];
            for f in t.get_file_slices(&[]).await? {
                v.push(r.read_file_slice_by_base_file_path(&f.base_file_relative_path()?).await?);
            }
            batches_j(&v)
        }
        "read_base_file" => batches_j(&[FileGroupReader::new_with_options(&s(&a[0]), no_opts())?.read_file_slice_by_base_file_path(&s(&a[1])).await?]),
        "get_completed_commits" => inst_j(&t.get_timeline().get_completed_commits(a[0].as_bool().unwrap_or(false)).await?),
        "get_completed_deltacommits" => inst_j(&t.get_timeline().get_completed_deltacommits(a[0].as_bool().unwrap_or(false)).await?),
        "get_completed_replacecommits" => inst_j(&t.get_timeline().get_completed_replacecommits(a[0].as_bool().unwrap_or(false)).await?),
        "get_completed_clustering_commits" => inst_j(&t.get_timeline().get_completed_clustering_commits(a[0].as_bool().unwrap_or(false)).await?),
        "instant_metadata" => {
            let mut v = vec![];
            for i in t.get_timeline().get_completed_commits(false).await? {
                v.push(json!(t.get_timeline().get_instant_metadata_in_json(&i).await?));
            }
            J::Array(v)
        }
        "get_latest_commit_timestamp" => json!(t.get_timeline().get_latest_commit_timestamp()?),
        "get_latest_avro_schema" => json!(t.get_timeline().get_latest_avro_schema().await?),
        "get_latest_schema" => schema_j(&t.get_timeline().get_latest_schema().await?),
        x => unreachable!("{x}"),
    })
}
/// The Python reply in the form compared.
fn canon(m: &str, v: &J) -> J {
    match m {
        "get_schema" | "get_partition_schema" | "get_latest_schema" => schema_j(&from_ipc(&s(v)).0),
        "read_snapshot" | "read_snapshot_as_of" | "read_incremental_records" | "read_slices" | "read_slices_as_of" | "read_slices_between" | "read_base_files" => {
            let b: Vec<RecordBatch> = v.as_array().unwrap().iter().flat_map(|h| from_ipc(&s(h)).1).collect();
            batches_j(&b)
        }
        "read_base_file" => batches_j(&from_ipc(&s(v)).1),
        "get_file_slices" | "get_file_slices_as_of" | "get_file_slices_between" => sorted(v.as_array().unwrap().clone()),
        "get_file_slices_splits" | "get_file_slices_splits_as_of" => {
            let a = v.as_array().unwrap();
            json!([a.iter().map(|x| x.as_array().unwrap().len()).collect::<Vec<_>>(), sorted(a.iter().flat_map(|x| x.as_array().unwrap().clone()).collect())])
        }
        _ => v.clone(),
    }
}
fn judge(e: &mut Env, m: &str, a: &J, py: &J, rs: &Res<J>, layout: &str) {
    e.eval();
    let what = format!("{m}{a}");
    match rs {
        Res::Ok(want) => {
            if let Some(err) = py.get("err") {
                e.viol("answer", format!("{what}: Rust answers, Python raises {}: {err}", py["type"]));
                return;
            }
            let got = canon(m, &py["ok"]);
            if &got != want {
                e.viol("answer", format!("{what}: Python {} Rust {}", short(&got.to_string(), 1200), short(&want.to_string(), 1200)));
                return;
            }
            e.count("answers_equal", 1);
            e.sig_s(&format!("{m} ok {layout}"));
        }
        Res::Err(want) => {
            let Some(err) = py.get("err") else {
                e.viol("error", format!("{what}: Rust fails with {want}, Python answers {}", short(&py["ok"].to_string(), 600)));
                return;
            };
            if py["is_exception"] != true || !s(&py["type"]).ends_with("HudiCoreError") || err != want {
                e.viol("error", format!("{what}: Rust fails with {want}, Python raises {} {err}", py["type"]));
                return;
            }
            e.count("errors_equal", 1);
            e.sig_s(&format!("{m} err {}", want.split(':').next().unwrap_or("")));
        }
        Res::Panic(p) => e.count(&format!("rust_panics {p}"), 1),
    }
}

pub struct Scratch(pub PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn c20(e: &mut Env) {
    let mor = e.r.chance(50);
    let mut r0 = e.r.fork();
    let mut spec = gen_spec(&mut r0, mor);
    spec.deep |= mor && r0.chance(16);
    spec.big |= r0.chance(8);
    let np = 1 + r0.below(4);
    let odd = r0.chance(40);
    let mut sim = Sim::new(spec, r0, odd, np);
    let n = e.r.below(7);
    sim.grow(n, true);
    let dir = Scratch(std::env::temp_dir().join(format!("hv-c20-{}-{}", std::process::id(), e.case)));
    let bucket = dir.0.join("bkt");
    let root = bucket.join("tbl");
    std::fs::create_dir_all(&root).unwrap();
    sim.dump(&root);
    e.detail = context(&sim);
    let layout = format!("{}{:?}{}", mor, sim.spec.part.len(), sim.commits().len().min(4));
    let mut r = e.r.fork();
    let times = times(&sim);
    let mut opts = serde_json::Map::new();
    if r.chance(40) {
        opts.insert("hoodie.read.input.partitions".into(), json!(r.below(5).to_string()));
    }
    if mor && r.chance(30) {
        opts.insert("hoodie.read.use.read_optimized.mode".into(), json!("true"));
    }
    if r.chance(20) {
        opts.insert("hoodie.read.listing.parallelism".into(), json!(r.pick(&["1", "3", "x", "-1"]).to_string()));
    }
    if r.chance(20) {
        opts.insert("aws_region".into(), json!("r1"));
    }
    if r.chance(20) {
        opts.insert("some.option".into(), json!("ü v"));
    }
    let via = *r.pick(&["ctor", "builder", "steps"]);
    let mut uri = if r.chance(50) { root.to_str().unwrap().to_string() } else { format!("file://{}", root.to_str().unwrap()) };
    let bad_open = r.chance(8);
    if bad_open {
        match r.below(4) {
            0 => uri.push_str("/nope"),
            1 => uri = "nosuch://x/y".into(),
            2 => uri = "::".into(),
            _ => {
                let p = root.join(".hoodie/hoodie.properties");
                let txt = std::fs::read_to_string(&p).unwrap().replace("hoodie.table.type=", "hoodie.table.type=X");
                std::fs::write(p, txt).unwrap();
            }
        }
    }
    let mut open = json!({"via": via, "uri": uri, "options": {}, "hudi": {}, "storage": {}, "none": r.chance(50)});
    for (k, v) in opts {
        let to = if via == "ctor" {
            "options"
        } else if k.starts_with("aws") {
            *r.pick(&["options", "storage"])
        } else {
            *r.pick(&["options", "hudi"])
        };
        if via != "ctor" && r.chance(20) {
            // given twice with different values: one of them counts
            let other = if k.starts_with("aws") { "storage" } else { "hudi" };
            let w = if k == "hoodie.read.use.read_optimized.mode" { json!("false") } else { json!("2") };
            let twice = if to == "options" { other } else { "options" };
            open[twice][&k] = w;
        }
        open[to][k] = v;
    }
    let filters = |r: &mut crate::rng::Rng| -> J {
        if r.chance(35) {
            jf(&gen_filters(r, &sim).0)
        } else if r.chance(8) {
            json!([[r.pick(&["nope", "p0", "key"]), r.pick(&["=", "~", "<"]), "v"]])
        } else {
            json!([])
        }
    };
    let time = |r: &mut crate::rng::Rng| -> J {
        if r.chance(8) {
            json!(r.pick(&["", "x", "2024", "20241301000000", "20240101000000xyz"]))
        } else {
            json!(r.pick(&times))
        }
    };
    let mut calls: Vec<J> = vec![];
    for m in ["info", "hudi_options", "storage_options", "get_avro_schema", "get_schema", "get_partition_schema", "instant_metadata", "get_latest_commit_timestamp", "get_latest_avro_schema", "get_latest_schema"] {
        calls.push(json!({"m": m, "a": []}));
    }
    for m in ["get_completed_commits", "get_completed_deltacommits", "get_completed_replacecommits", "get_completed_clustering_commits"] {
        calls.push(json!({"m": m, "a": [r.pick(&[None, Some(true), Some(false)])]}));
    }
    for _ in 0..18 {
        let c = match r.below(13) {
            0 => json!({"m": "get_file_slices", "a": [if r.chance(30) { J::Null } else { filters(&mut r) }]}),
            1 => json!({"m": "get_file_slices_as_of", "a": [time(&mut r), filters(&mut r)]}),
            2 => json!({"m": "get_file_slices_between", "a": [if r.chance(40) { J::Null } else { time(&mut r) }, if r.chance(40) { J::Null } else { time(&mut r) }]}),
            3 => json!({"m": "get_file_slices_splits", "a": [*r.pick(&[0u64, 1, 2, 3, 1000, 1 << 62]), filters(&mut r)]}),
            4 => json!({"m": "get_file_slices_splits_as_of", "a": [*r.pick(&[0u64, 1, 2, 3, 50]), time(&mut r), filters(&mut r)]}),
            5 => json!({"m": "read_snapshot", "a": [if r.chance(30) { J::Null } else { filters(&mut r) }]}),
            6 => json!({"m": "read_snapshot_as_of", "a": [time(&mut r), filters(&mut r)]}),
            7 => json!({"m": "read_incremental_records", "a": [time(&mut r), if r.chance(50) { J::Null } else { time(&mut r) }]}),
            8 => json!({"m": "read_slices", "a": [if r.chance(40) { json!({"hoodie.read.use.read_optimized.mode": "true"}) } else { json!({}) }]}),
            9 => json!({"m": "read_slices_as_of", "a": [time(&mut r)]}),
            10 => json!({"m": "read_slices_between", "a": [if r.chance(40) { J::Null } else { time(&mut r) }, if r.chance(40) { J::Null } else { time(&mut r) }]}),
            11 => json!({"m": "read_base_files", "a": [uri, {}]}),
            _ => json!({"m": "read_base_file", "a": [uri, r.pick(&["nope.parquet", "../x", ".hoodie/hoodie.properties", ""])]}),
        };
        calls.push(c);
    }
    for c in calls.iter_mut() {
        if r.chance(30) {
            c["kw"] = json!(true);
        }
    }
    let threaded = r.chance(25);
    if threaded {
        for c in calls.iter_mut().skip(14) {
            if r.chance(40) {
                c["threads"] = json!(2 + r.below(5));
            }
        }
    }
    let served = !bad_open && sim.groups.len() <= 30 && r.chance(15);
    // Rust
    let mut ropen = open.clone();
    if served {
        // the same table through an S3 endpoint that a thread of the calling interpreter serves
        ropen = json!({"via": open["via"], "uri": root.to_str().unwrap(), "options": {}, "hudi": {}, "storage": {}});
        calls.retain(|c| !["info", "hudi_options", "storage_options", "read_base_file", "read_base_files"].contains(&c["m"].as_str().unwrap()));
        calls.truncate(18);
        for c in calls.iter_mut() {
            c.as_object_mut().unwrap().remove("threads");
        }
    }
    let rt = e.call("open", rust_open(&ropen));
    let mut want: Vec<Res<J>> = vec![];
    if let Res::Ok(t) = &rt {
        for c in &calls {
            want.push(e.call(c["m"].as_str().unwrap(), rust_call(t, c["m"].as_str().unwrap(), &c["a"])));
        }
    }
    // Python
    let req = if served {
        let mut o = ropen.clone();
        o["uri"] = json!("s3://bkt/tbl");
        json!({"served": true, "root": bucket.to_str().unwrap(), "open": o, "calls": calls})
    } else {
        json!({"open": open, "calls": calls})
    };
    let reply = W.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(Worker::start());
        }
        let r = w.as_mut().unwrap().ask(&req, 60);
        if r.is_err() {
            *w = None;
        }
        r
    });
    let reply = match reply {
        Ok(x) => x,
        Err(why) => {
            e.viol("interpreter", format!("{why}; open {open} served {served} calls {}", short(&json!(calls).to_string(), 1500)));
            return;
        }
    };
    if served {
        let Some(ok) = reply.get("ok") else {
            e.viol("answer", format!("a table served by a thread of the interpreter: {}", short(&reply.to_string(), 800)));
            return;
        };
        e.count("served_by_own_thread_requests", ok["seen"].as_u64().unwrap_or(0));
        for ((c, w), p) in calls.iter().zip(&want).zip(ok["results"].as_array().unwrap()) {
            // messages may name the location
            let w = match w {
                Res::Err(_) if p.get("err").is_some() => continue,
                w => w,
            };
            judge(e, c["m"].as_str().unwrap(), &c["a"], p, w, &format!("served {layout}"));
        }
        return;
    }
    let po = &reply["open"];
    let ro = rt.map(|_| J::Null);
    judge(e, "open", &open, po, &ro, &layout);
    if !ro.is_ok() || po.get("err").is_some() {
        return;
    }
    for ((c, w), p) in calls.iter().zip(&want).zip(reply["results"].as_array().unwrap()) {
        let m = c["m"].as_str().unwrap();
        if c.get("threads").is_some() {
            e.count("calls_from_several_threads", 1);
            e.count("beats_of_other_thread", p["beats"].as_u64().unwrap_or(0));
            for x in p["each"].as_array().unwrap() {
                judge(e, m, &c["a"], x, w, &format!("threads {layout}"));
            }
        } else {
            judge(e, m, &c["a"], p, w, &layout);
        }
    }
    e.sample(format!("case {}: {} calls, via {via}, {}", e.case, calls.len(), sim.describe()));
}
