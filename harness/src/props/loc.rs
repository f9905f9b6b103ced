//! C21: odd locations and names on a real disk. C22: an S3-compatible endpoint over loopback.
use super::*;
use crate::props::py::{jf, rust_call, Scratch};
use crate::props::read::gen_filters;
use crate::rng::{hash_str, Rng};
use hudi_core::error::CoreError;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex, OnceLock};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

pub static PROPS: &[Prop] = &[
    Prop { id: "C21", run: c21, quick: 1600, thorough: 40000, level: "exploration", threads: 0, stall_s: 120, alloc_limit: NOLIM,
        rule: "random tables written to a scratch directory whose nested names hold spaces, percent signs, non-ASCII and URL-reserved characters, with partition values of the same kind; opened as plain path, file URL, with and without trailing slashes; all calls against the same table at a plain in-memory location, every reported path followed on disk, DataFusion row count; distinct = (address form, odd characters, layout)" },
    Prop { id: "C22", run: c22, quick: 1000, thorough: 25000, level: "exploration", threads: 0, stall_s: 170, alloc_limit: NOLIM,
        rule: "random tables served by an S3-compatible HTTP endpoint over loopback with random page sizes, sorted or shuffled listings, directory markers, 5xx and dropped-connection faults, cut bodies; all calls against the same table read locally, every request's signature checked against the credentials that should reach it; distinct = (address form, page size, fault plan, credential source, layout)" },
];

fn calls(r: &mut Rng, sim: &Sim, n: usize) -> Vec<(String, J)> {
    let ts = times(sim);
    let mut v: Vec<(String, J)> = vec![];
    let f = |r: &mut Rng| if r.chance(35) { jf(&gen_filters(r, sim).0) } else { json!([]) };
    for m in ["get_schema", "get_partition_schema", "get_avro_schema", "get_completed_commits", "get_file_slices", "read_snapshot"] {
        v.push((m.into(), json!([])));
    }
    for _ in 0..n {
        let t = json!(r.pick(&ts));
        let u = json!(r.pick(&ts));
        v.push(match r.below(9) {
            0 => ("get_file_slices_as_of".into(), json!([t, f(r)])),
            1 => ("get_file_slices_between".into(), json!([t, if r.chance(50) { J::Null } else { u }])),
            2 => ("get_file_slices_splits".into(), json!([r.below(5), f(r)])),
            3 => ("read_snapshot".into(), json!([f(r)])),
            4 => ("read_snapshot_as_of".into(), json!([t, f(r)])),
            5 => ("read_incremental_records".into(), json!([t, if r.chance(50) { J::Null } else { u }])),
            6 => ("read_slices".into(), json!([{}])),
            7 => ("instant_metadata".into(), json!([])),
            _ => (r.pick(&["get_completed_deltacommits", "get_completed_replacecommits", "get_latest_commit_timestamp", "get_latest_schema", "get_latest_avro_schema"]).to_string(), json!([r.chance(50)])),
        });
    }
    v
}

/// What each call answers; the error texts are dropped because they name the location.
fn answers(e: &Env, url: &str, o: &[(String, String)], cs: &[(String, J)]) -> Result<Vec<Res<J>>, Res<J>> {
    let t = match e.call("open", open(url, o)) {
        Res::Ok(t) => t,
        x => return Err(x.map(|_| J::Null)),
    };
    Ok(cs.iter().map(|(m, a)| e.call(m, rust_call(&t, m, a))).collect())
}

fn compare(e: &mut Env, what: &str, cs: &[(String, J)], want: &[Res<J>], got: &[Res<J>], sig: &str) {
    for (((m, a), w), g) in cs.iter().zip(want).zip(got) {
        e.eval();
        match (w, g) {
            (Res::Ok(x), Res::Ok(y)) if x == y => e.sig_s(&format!("{m}{sig}")),
            (Res::Err(_), Res::Err(_)) => e.count("errors_on_both", 1),
            (w, g) => {
                let sh = |x: &Res<J>| match x {
                    Res::Ok(j) => short(&j.to_string(), 900),
                    x => x.why(),
                };
                e.viol("answer", format!("{what}: {m}{a} answers {} instead of {}", sh(g), sh(w)));
            }
        }
    }
}

// ---------------------------------------------------------------- C21
const ODD: &[&str] = &["a b", "50%", "%41", "%2F", "%zz", "ü日", "x#y", "q?z", "a+b", "p&q", "k=v", "[x]", "it's", "c:d", "e;f", "@g", "~h", "!(i)", "*j", "{k}", "a\"b", "`l`", "^m", "|n", "\\o", "😀", ".dot", "tail.", " lead", "a,b", "$p", "A", "plain", "-"];

fn c21(e: &mut Env) {
    let mor = e.r.chance(40);
    let mut r0 = e.r.fork();
    let mut spec = gen_spec(&mut r0, mor);
    if spec.part.is_empty() && r0.chance(60) {
        spec = gen_spec(&mut r0, mor);
    }
    let np = 1 + r0.below(5);
    let reserved = r0.chance(12) && spec.part.len() == 1 && spec.part[0].1 == crate::val::Ty::Str && !spec.hive;
    let mut sim = Sim::new(spec, r0, true, np);
    if reserved {
        let n = e.r.pick(&["metadata", "_delta_log"]).to_string();
        let p = Part { vals: vec![crate::val::V::s(&n)], texts: vec![n.clone()], path: n };
        let i = sim.parts.len() - 1;
        sim.parts[i] = p;
    }
    let t = e.table(&mut sim);
    let n = 1 + e.r.below(4);
    sim.grow(n, true);
    let mut r = e.r.fork();
    let top = Scratch(std::env::temp_dir().join(format!("hv-c21-{}-{}", std::process::id(), e.case)));
    let mut root = top.0.clone();
    let mut names = vec![];
    for _ in 0..1 + r.below(3) {
        let k = r.pick(ODD);
        names.push(*k);
        root.push(k);
    }
    std::fs::create_dir_all(&root).unwrap();
    sim.dump(&root);
    if reserved {
        for p in sim.parts.iter().filter(|p| p.path == "metadata" || p.path == "_delta_log") {
            let d = root.join(&p.path);
            if d.exists() {
                std::fs::write(d.join(".hoodie_partition_metadata"), "commitTime=1\npartitionDepth=1\n").unwrap();
            }
        }
    }
    e.detail = format!("{} | root {root:?}", context(&sim));
    let cs = calls(&mut r, &sim, 8);
    if reserved {
        c21_reserved(e, &sim, root.to_str().unwrap());
        return;
    }
    let want = match answers(e, &t.url, &[], &cs) {
        Ok(w) => w,
        Err(x) => {
            e.viol("answer", format!("the plain table cannot be opened: {}", x.why()));
            return;
        }
    };
    let plain = root.to_str().unwrap().to_string();
    let clean = sim.latest().is_some_and(|l| crate::props::read::clean_view(&sim, &l));
    let furl = url::Url::from_file_path(&root).unwrap();
    let durl = url::Url::from_directory_path(&root).unwrap();
    let mut forms: Vec<(&str, String)> = vec![
        ("path", plain.clone()),
        ("path/", format!("{plain}/")),
        ("path//", format!("{plain}//")),
        ("file url", furl.to_string()),
        ("file url/", durl.to_string()),
        ("file url//", format!("{durl}/")),
        ("file:/", furl.to_string().replacen("file://", "file:", 1)),
    ];
    if !plain.contains(['%', '#', '?', '\\']) {
        // characters a URL parser encodes by itself
        forms.push(("loose file url", format!("file://{plain}")));
    }
    r.shuffle(&mut forms);
    for (name, addr) in forms.iter().take(3) {
        let sig = format!("{name}{names:?}{:?}{}{}", sim.spec.part.len(), sim.spec.hive, sim.spec.urlenc);
        match answers(e, addr, &[], &cs) {
            Ok(got) => compare(e, &format!("opened as {addr:?}"), &cs, &want, &got, &sig),
            Err(x) => {
                e.eval();
                e.viol("answer", format!("opening {addr:?}: {}", x.why()));
                continue;
            }
        }
        // reported paths lead back
        let addr2 = addr.clone();
        let fs = e.call("paths", async {
            let t = open(&addr2, &[]).await?;
            let s = t.get_file_slices(&[]).await?;
            Ok::<_, CoreError>((t.base_url(), s))
        });
        if let Res::Ok((base, s)) = fs {
            e.eval();
            match base.to_file_path() {
                Ok(p) if p == root => {}
                p => e.viol("path", format!("opened as {addr:?}: base_url {base} is {p:?}, not {root:?}")),
            }
            for f in &s {
                let mut rel = vec![f.base_file_relative_path().map_err(|x| x.to_string())];
                for l in &f.log_files {
                    rel.push(f.log_file_relative_path(l).map_err(|x| x.to_string()));
                }
                for (i, p) in rel.into_iter().enumerate() {
                    e.count("paths_followed", 1);
                    let size = f.base_file.file_metadata.as_ref().map(|m| m.size as u64);
                    match p.as_ref().map(|p| std::fs::metadata(root.join(p)).map(|m| m.len())) {
                        Ok(Ok(n)) if i > 0 || size == Some(n) => {}
                        x => e.viol("path", format!("opened as {addr:?}: reported path {p:?} gives {x:?} (size reported {size:?})")),
                    }
                }
            }
        }
        if r.chance(50) && !mor && clean {
            e.eval();
            let n = sim.snap_texts(sim.latest().as_deref(), Mode::Strong, false).len();
            let addr = addr.clone();
            let q = e.call("DataFusion count", async {
                let p = hudi_datafusion::HudiDataSource::new(&addr).await?;
                let ctx = datafusion::prelude::SessionContext::new();
                ctx.register_table("t", Arc::new(p))?;
                ctx.sql("SELECT * FROM t").await?.collect().await
            });
            match q {
                Res::Ok(b) if b.iter().map(|x| x.num_rows()).sum::<usize>() == n => {}
                Res::Ok(b) => e.viol("answer", format!("DataFusion over {addr:?}: {} rows, not {n}", b.iter().map(|x| x.num_rows()).sum::<usize>())),
                x => e.viol("answer", format!("DataFusion over {addr:?}: {}", x.why())),
            }
        }
    }
    e.sample(format!("case {}: {root:?} {:?} {}", e.case, sim.parts.iter().map(|p| &p.path).collect::<Vec<_>>(), sim.describe()));
}

/// A partition named like another lake format's metadata directory: known finding.
fn c21_reserved(e: &mut Env, sim: &Sim, path: &str) {
    let Some(l) = sim.latest() else { return };
    if !crate::props::read::clean_view(sim, &l) {
        return;
    }
    let all = rows_of(sim, &sim.snapshot(&l, Mode::Strong, false, &|_| true));
    let without = rows_of(sim, &sim.snapshot(&l, Mode::Strong, false, &|p| !["metadata", "_delta_log"].contains(&sim.parts[p].path.as_str())));
    e.eval();
    match crate::props::read::snap(e, path, &[], &[]) {
        Res::Ok(g) if g == all => e.sig_s("reserved names read"),
        Res::Ok(g) if g == without => e.viol("partition-named-like-lake-metadata", format!("records of partition dirs of {:?} missing", sim.parts.iter().map(|p| &p.path).collect::<Vec<_>>())),
        Res::Ok(g) => {
            e.same_rows("answer", "reserved partition name", &g, &all);
        }
        x => e.viol("answer", x.why()),
    }
}

// ---------------------------------------------------------------- C22
#[derive(Default)]
struct Bucket {
    objs: BTreeMap<String, Vec<u8>>,
    page: usize,
    shuffle: Option<u64>,
    /// request index -> fault
    faults: HashMap<u64, HFault>,
    nreq: u64,
    key: String,
    secret: String,
    token: Option<String>,
    region: String,
    bad: Vec<String>,
    stats: BTreeMap<&'static str, u64>,
}
#[derive(Clone, Copy, Debug)]
enum HFault {
    Status(u16),
    Drop,
    CutBody,
}
static BUCKETS: Mutex<BTreeMap<String, Arc<Mutex<Bucket>>>> = Mutex::new(BTreeMap::new());
static PORT: OnceLock<u16> = OnceLock::new();
const ENV_KEY: &str = "ENVKEYID";
const ENV_SECRET: &str = "env/secret+key";

fn server() -> u16 {
    *PORT.get_or_init(|| {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
            rt.block_on(async move {
                let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
                tx.send(l.local_addr().unwrap().port()).unwrap();
                loop {
                    if let Ok((s, _)) = l.accept().await {
                        let _ = s.set_nodelay(true);
                        tokio::spawn(serve(s));
                    }
                }
            });
        });
        rx.recv().unwrap()
    })
}

async fn serve(mut s: tokio::net::TcpStream) {
    let mut buf: Vec<u8> = vec![];
    loop {
        let end = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p + 4;
            }
            let mut b = [0u8; 4096];
            match s.read(&mut b).await {
                Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]),
                _ => return,
            }
        };
        let head = String::from_utf8_lossy(&buf[..end]).to_string();
        buf.drain(..end);
        let (bytes, close) = answer(&head);
        if bytes.is_empty() || s.write_all(&bytes).await.is_err() || close {
            let _ = s.shutdown().await;
            return;
        }
    }
}

fn dec(s: &str) -> String {
    percent_encoding::percent_decode_str(s).decode_utf8_lossy().to_string()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn uri_encode(s: &str, slash: bool) -> String {
    s.bytes()
        .map(|b| match b {
            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' => (b as char).to_string(),
            b'/' if !slash => "/".into(),
            b => format!("%{b:02X}"),
        })
        .collect()
}

/// AWS signature version 4, computed independently.
fn signature(b: &Bucket, method: &str, path: &str, query: &[(String, String)], hs: &HashMap<String, String>, signed: &str, date: &str, region: &str) -> String {
    use ring::{digest, hmac};
    let mut q: Vec<(String, String)> = query.iter().map(|(k, v)| (uri_encode(k, true), uri_encode(v, true))).collect();
    q.sort();
    let cq = q.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join("&");
    let ch: String = signed.split(';').map(|h| format!("{h}:{}\n", hs.get(h).map(|x| x.trim()).unwrap_or(""))).collect();
    let payload = hs.get("x-amz-content-sha256").cloned().unwrap_or_default();
    let creq = format!("{method}\n{}\n{cq}\n{ch}\n{signed}\n{payload}", uri_encode(path, false));
    let amz = hs.get("x-amz-date").cloned().unwrap_or_default();
    let scope = format!("{date}/{region}/s3/aws4_request");
    let sts = format!("AWS4-HMAC-SHA256\n{amz}\n{scope}\n{}", hex(digest::digest(&digest::SHA256, creq.as_bytes()).as_ref()));
    let mac = |k: &[u8], d: &str| hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, k), d.as_bytes()).as_ref().to_vec();
    let k = mac(format!("AWS4{}", b.secret).as_bytes(), date);
    let k = mac(&k, region);
    let k = mac(&k, "s3");
    let k = mac(&k, "aws4_request");
    hex(&mac(&k, &sts))
}

fn answer(head: &str) -> (Vec<u8>, bool) {
    let mut ls = head.split("\r\n");
    let mut first = ls.next().unwrap_or("").split(' ');
    let (method, target) = (first.next().unwrap_or("").to_string(), first.next().unwrap_or("").to_string());
    let hs: HashMap<String, String> = ls.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_ascii_lowercase(), v.trim().to_string())).collect();
    let (path, query) = target.split_once('?').unwrap_or((&target, ""));
    let path = dec(path);
    let query: Vec<(String, String)> = query.split('&').filter(|x| !x.is_empty()).map(|x| x.split_once('=').unwrap_or((x, ""))).map(|(k, v)| (dec(&k.replace('+', " ")), dec(&v.replace('+', " ")))).collect();
    let q: HashMap<&str, &str> = query.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let mut seg = path[1..].splitn(2, '/');
    let bucket = seg.next().unwrap_or("").to_string();
    let key = seg.next().unwrap_or("").to_string();
    let resp = |code: u16, h: &str, body: &[u8]| {
        let mut v = format!("HTTP/1.1 {code} X\r\nContent-Length: {}\r\n{h}\r\n", body.len()).into_bytes();
        if method != "HEAD" {
            v.extend_from_slice(body);
        }
        (v, false)
    };
    let Some(b) = BUCKETS.lock().unwrap().get(&bucket).cloned() else {
        return resp(404, "", b"<Error><Code>NoSuchBucket</Code></Error>");
    };
    let mut b = b.lock().unwrap();
    let i = b.nreq;
    b.nreq += 1;
    if method != "GET" && method != "HEAD" {
        let m = format!("request {method} {target}");
        b.bad.push(m);
    }
    // the credentials that reached us
    let auth = hs.get("authorization").cloned().unwrap_or_default();
    let part = |n: &str| auth.split([' ', ',']).find_map(|p| p.strip_prefix(n)).unwrap_or("").to_string();
    let (cred, signed, sig) = (part("Credential="), part("SignedHeaders="), part("Signature="));
    let c: Vec<&str> = cred.split('/').collect();
    if c.len() != 5 || c[0] != b.key || c[2] != b.region {
        let m = format!("request signed as {cred:?}, want key {} region {}", b.key, b.region);
        b.bad.push(m);
        return resp(403, "", b"<Error><Code>AccessDenied</Code></Error>");
    }
    if hs.get("x-amz-security-token") != b.token.as_ref() {
        let m = format!("session token {:?}, want {:?}", hs.get("x-amz-security-token"), b.token);
        b.bad.push(m);
    }
    let want = signature(&b, &method, &path, &query, &hs, &signed, c[1], c[2]);
    if want != sig {
        let m = format!("{method} {target}: signature does not match the secret key");
        b.bad.push(m);
        return resp(403, "", b"<Error><Code>SignatureDoesNotMatch</Code></Error>");
    }
    *b.stats.entry("requests_with_checked_signature").or_default() += 1;
    let fault = b.faults.get(&i).copied();
    match fault {
        Some(HFault::Status(s)) => {
            *b.stats.entry("server_errors_injected").or_default() += 1;
            return resp(s, "", b"<Error><Code>SlowDown</Code></Error>");
        }
        Some(HFault::Drop) => {
            *b.stats.entry("connections_dropped").or_default() += 1;
            return (vec![], true);
        }
        _ => {}
    }
    let out = if q.contains_key("list-type") {
        let prefix = q.get("prefix").copied().unwrap_or("");
        let mut es: BTreeSet<(String, bool)> = BTreeSet::new();
        for k in b.objs.keys().filter(|k| k.starts_with(prefix)) {
            match (q.get("delimiter"), k[prefix.len()..].find('/')) {
                (Some(_), Some(p)) => es.insert((k[..prefix.len() + p + 1].to_string(), true)),
                _ => es.insert((k.clone(), false)),
            };
        }
        let mut es: Vec<(String, bool)> = es.into_iter().collect();
        if let Some(s) = b.shuffle {
            Rng::new(s ^ hash_str(prefix)).shuffle(&mut es);
        }
        let from: usize = q.get("continuation-token").and_then(|t| t.strip_prefix("tok+/=")).and_then(|t| t.parse().ok()).unwrap_or(0);
        let to = (from + b.page).min(es.len());
        let x = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;");
        let mut o = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ListBucketResult xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">");
        o.push_str(&format!("<Name>{bucket}</Name><Prefix>{}</Prefix><KeyCount>{}</KeyCount><MaxKeys>{}</MaxKeys><IsTruncated>{}</IsTruncated>", x(prefix), to - from, b.page, to < es.len()));
        if to < es.len() {
            o.push_str(&format!("<NextContinuationToken>tok+/={to}</NextContinuationToken>"));
            *b.stats.entry("listing_pages_continued").or_default() += 1;
        }
        for (k, d) in &es[from..to] {
            if !*d {
                o.push_str(&format!("<Contents><Key>{}</Key><LastModified>2024-01-02T03:04:05.000Z</LastModified><ETag>&quot;e&quot;</ETag><Size>{}</Size><StorageClass>STANDARD</StorageClass></Contents>", x(k), b.objs[k].len()));
            }
        }
        for (k, d) in &es[from..to] {
            if *d {
                o.push_str(&format!("<CommonPrefixes><Prefix>{}</Prefix></CommonPrefixes>", x(k)));
            }
        }
        o.push_str("</ListBucketResult>");
        *b.stats.entry("listings").or_default() += 1;
        resp(200, "Content-Type: application/xml\r\n", o.as_bytes())
    } else {
        let Some(data) = b.objs.get(&key).cloned() else {
            return resp(404, "", b"<Error><Code>NoSuchKey</Code></Error>");
        };
        let h = "ETag: \"e\"\r\nLast-Modified: Tue, 02 Jan 2024 03:04:05 GMT\r\n";
        let n = data.len();
        match hs.get("range").and_then(|r| r.strip_prefix("bytes=")).and_then(|r| r.split_once('-')) {
            Some((a, z)) if n > 0 => {
                let (a, z) = if a.is_empty() { (n - z.parse::<usize>().unwrap_or(0).min(n), n - 1) } else { (a.parse().unwrap_or(0), z.parse::<usize>().unwrap_or(n - 1).min(n - 1)) };
                if a > z {
                    return resp(416, "", b"<Error><Code>InvalidRange</Code></Error>");
                }
                *b.stats.entry("range_requests").or_default() += 1;
                resp(206, &format!("{h}Content-Range: bytes {a}-{z}/{n}\r\n"), &data[a..=z])
            }
            _ => resp(200, h, &data),
        }
    };
    if let Some(HFault::CutBody) = fault {
        let (mut v, _) = out;
        if method == "GET" && v.len() > 4 {
            let h = v.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
            if v.len() > h + 1 {
                v.truncate(h + (v.len() - h) / 2);
                *b.stats.entry("bodies_cut").or_default() += 1;
                return (v, true);
            }
        }
        return (v, false);
    }
    out
}

pub fn c22_env() {
    std::env::set_var("AWS_ACCESS_KEY_ID", ENV_KEY);
    std::env::set_var("AWS_SECRET_ACCESS_KEY", ENV_SECRET);
    std::env::set_var("AWS_REGION", "env-region-1");
    std::env::set_var("AWS_ENDPOINT", format!("http://127.0.0.1:{}", server()));
    std::env::set_var("AWS_ALLOW_HTTP", "true");
}

fn c22(e: &mut Env) {
    let port = server();
    let mor = e.r.chance(45);
    let mut r0 = e.r.fork();
    let spec = gen_spec(&mut r0, mor);
    let np = 1 + r0.below(6);
    let mut sim = Sim::new(spec, r0, true, np);
    let t = e.table(&mut sim);
    let n = e.r.below(6);
    sim.grow(n, true);
    e.detail = context(&sim);
    let mut r = e.r.fork();
    let bname = format!("bkt-{}", e.case);
    let mut prefix = *r.pick(&["tbl", "tbl", "a/b c/tbl", "ü/50%/t", ""]);
    if sim.parts.iter().any(|p| p.path.starts_with(' ')) && prefix.is_empty() {
        // the client's XML reader drops a blank at the very start of a key
        prefix = "tbl";
    }
    let mut b = Bucket { page: *r.pick(&[1usize, 2, 3, 7, 1000, 1000]), region: "env-region-1".into(), key: ENV_KEY.into(), secret: ENV_SECRET.into(), ..Default::default() };
    let at = |p: &str| if prefix.is_empty() { p.to_string() } else { format!("{prefix}/{p}") };
    for (p, d) in &sim.files {
        b.objs.insert(at(p), d.to_vec());
    }
    // neighbours in the bucket that are not part of the table
    b.objs.insert("zzz/other.parquet".into(), b"x".to_vec());
    if !prefix.is_empty() {
        b.objs.insert(format!("{prefix}2/.hoodie/x.commit"), b"x".to_vec());
        b.objs.insert(format!("{prefix}.bak"), b"x".to_vec());
    } else {
        b.objs.remove("zzz/other.parquet");
    }
    let markers = r.chance(40);
    if markers {
        let mut dirs: BTreeSet<String> = BTreeSet::new();
        for p in sim.files.keys() {
            let mut d = p.as_str();
            while let Some(i) = d.rfind('/') {
                d = &d[..i];
                if r.chance(70) {
                    dirs.insert(format!("{}/", at(d)));
                }
            }
        }
        if !prefix.is_empty() && r.chance(70) {
            dirs.insert(format!("{prefix}/"));
        }
        e.count("directory_markers", dirs.len() as u64);
        for d in dirs {
            b.objs.insert(d, vec![]);
        }
    }
    if r.chance(40) {
        b.shuffle = Some(r.u64());
    }
    let plan = r.below(10);
    if plan < 3 {
        for _ in 0..1 + r.below(2) {
            let k = *r.pick(&[HFault::Status(500), HFault::Status(503), HFault::Drop]);
            b.faults.insert(r.below(60) as u64, k);
        }
    } else if plan == 3 {
        b.faults.insert(r.below(80) as u64, HFault::CutBody);
    }
    let cut = plan == 3;
    // where credentials come from
    let mut o: Vec<(String, String)> = vec![];
    let src = *r.pick(&["env", "options", "mixed case options", "part of each", "token"]);
    match src {
        "env" => {}
        "options" | "token" => {
            o.push(opt("aws_access_key_id", "OPTKEY"));
            o.push(opt("aws_secret_access_key", "opt=secret"));
            o.push(opt("aws_region", "opt-region-2"));
            o.push(opt("aws_endpoint", &format!("http://127.0.0.1:{port}")));
            o.push(opt("aws_allow_http", "true"));
            if src == "token" {
                o.push(opt("aws_session_token", "tok//en=="));
                b.token = Some("tok//en==".into());
            }
            b.key = "OPTKEY".into();
            b.secret = "opt=secret".into();
            b.region = "opt-region-2".into();
        }
        "mixed case options" => {
            o.push(opt("AWS_ACCESS_KEY_ID", "UPKEY"));
            o.push(opt("Aws_Secret_Access_Key", "up"));
            o.push(opt("AWS_REGION", "up-region-3"));
            b.key = "UPKEY".into();
            b.secret = "up".into();
            b.region = "up-region-3".into();
        }
        _ => {
            o.push(opt("aws_region", "part-region-4"));
            b.region = "part-region-4".into();
        }
    }
    let scheme = *r.pick(&["s3", "s3", "s3a"]);
    let base = url::Url::parse(&format!("{scheme}://{bname}")).unwrap();
    let mut u = base.clone();
    if !prefix.is_empty() {
        u.path_segments_mut().unwrap().extend(prefix.split('/'));
    }
    let mut addr = u.to_string();
    if r.chance(30) {
        addr.push('/');
    }
    let (page, shuffled, nf) = (b.page, b.shuffle.is_some(), b.faults.len());
    let b = Arc::new(Mutex::new(b));
    BUCKETS.lock().unwrap().insert(bname.clone(), b.clone());
    let cs = calls(&mut r, &sim, 6);
    let want = answers(e, &t.url, &[], &cs);
    let Ok(want) = want else {
        e.viol("answer", "the local table cannot be opened".into());
        return;
    };
    let what = format!("{addr} page {page} shuffled {shuffled} markers {markers} faults {nf} credentials {src}");
    let got = answers(e, &addr, &o, &cs);
    let (bad, stats) = {
        let mut b = b.lock().unwrap();
        (std::mem::take(&mut b.bad), std::mem::take(&mut b.stats))
    };
    for (k, v) in &stats {
        e.count(k, *v);
    }
    if let Some(m) = bad.first() {
        e.eval();
        e.viol("credentials", format!("{what}: {m}"));
    }
    let sig = format!("{prefix}{page}{shuffled}{markers}{plan}{src}{:?}{}{}", sim.spec.part.len(), sim.spec.hive, sim.spec.mor);
    match got {
        Ok(mut got) => {
            if cut {
                // a cut body may fail one call, but may not change an answer
                for (g, w) in got.iter_mut().zip(&want) {
                    if g.is_err() && w.is_ok() {
                        e.count("calls_failed_by_a_cut_body", 1);
                        *g = w.clone();
                    }
                }
            }
            compare(e, &what, &cs, &want, &got, &sig);
        }
        Err(x) if cut && x.is_err() => e.count("opens_failed_by_a_cut_body", 1),
        Err(x) => {
            e.eval();
            e.viol("answer", format!("{what}: opening fails: {}", x.why()));
        }
    }
    if e.r.chance(25) && !mor && !cut && sim.latest().is_some_and(|l| crate::props::read::clean_view(&sim, &l)) {
        e.eval();
        let n = sim.snap_texts(sim.latest().as_deref(), Mode::Strong, false).len();
        let (addr, o) = (addr.clone(), o.clone());
        let q = e.call("DataFusion", async {
            let p = hudi_datafusion::HudiDataSource::new_with_options(&addr, o).await?;
            let ctx = datafusion::prelude::SessionContext::new();
            ctx.register_table("t", Arc::new(p))?;
            ctx.sql("SELECT * FROM t").await?.collect().await
        });
        match q {
            Res::Ok(b) if b.iter().map(|x| x.num_rows()).sum::<usize>() == n => {}
            Res::Ok(b) => e.viol("answer", format!("{what}: DataFusion gives {} rows, not {n}", b.iter().map(|x| x.num_rows()).sum::<usize>())),
            x => e.viol("answer", format!("{what}: DataFusion: {}", x.why())),
        }
    }
    BUCKETS.lock().unwrap().remove(&bname);
    e.sample(format!("case {}: {what}; {}", e.case, sim.describe()));
}
