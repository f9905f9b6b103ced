pub mod avail;
pub mod cancel;
pub mod loc;
pub mod log;
pub mod meta;
pub mod py;
pub mod read;
pub mod sql;
use crate::ctx::*;
use crate::sim::*;
use arrow_array::RecordBatch;
use hudi_core::table::Table;

pub static ALL: &[&[Prop]] = &[read::PROPS, avail::PROPS, log::PROPS, meta::PROPS, sql::PROPS, py::PROPS, loc::PROPS, cancel::PROPS];

pub const NOLIM: usize = 8 << 30;

pub fn texts(b: &[RecordBatch]) -> Vec<String> {
    let mut v: Vec<String> = b.iter().flat_map(crate::val::render_batch).collect();
    v.sort();
    v
}
pub fn opt(k: &str, v: &str) -> (String, String) {
    (k.into(), v.into())
}
pub async fn open(url: &str, o: &[(String, String)]) -> Result<Table, hudi_core::error::CoreError> {
    Table::new_with_options(url, o.iter().map(|(k, v)| (k.clone(), v.clone()))).await
}
pub fn fl(f: &[(String, String, String)]) -> Vec<(&str, &str, &str)> {
    f.iter().map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str())).collect()
}

/// Everything a case needs to say what its table looked like.
pub fn context(sim: &Sim) -> String {
    let mut s = sim.describe();
    s.push_str(" | cols ");
    for (n, t, nl) in &sim.spec.cols {
        s.push_str(&format!("{n}:{t:?}{} ", if *nl { "?" } else { "" }));
    }
    s.push_str("| timeline ");
    for i in &sim.insts {
        s.push_str(&format!(
            "{}.{}({}{}) ",
            i.ts,
            i.action,
            i.op,
            if i.committed { "" } else if i.rolled_back { ",rolled back" } else { ",incomplete" }
        ));
    }
    s.push_str("| files ");
    for f in sim.files.keys() {
        if !f.starts_with(".hoodie/") {
            s.push_str(f);
            s.push(' ');
        }
    }
    s
}

/// Timestamps worth asking about: every commit, just before and after, and the far ends.
pub fn times(sim: &Sim) -> Vec<String> {
    let mut v = vec![];
    let unit = if sim.spec.ts17 { 1 } else { 1000 };
    for i in &sim.insts {
        v.push(i.ts.clone());
        let ms = parse_ms(&i.ts);
        v.push(sim.fmt_ts(ms - unit));
        v.push(sim.fmt_ts(ms + unit));
    }
    if sim.spec.ts17 {
        v.push("19700101000000000".into());
        v.push("99991231235959999".into());
    } else {
        v.push("19700101000000".into());
        v.push("99991231235959".into());
    }
    v.sort();
    v.dedup();
    v
}
pub fn parse_ms(ts: &str) -> i64 {
    let d = chrono::NaiveDateTime::parse_from_str(&ts[..14], "%Y%m%d%H%M%S").unwrap();
    let ms: i64 = if ts.len() > 14 { ts[14..].parse().unwrap() } else { 0 };
    d.and_utc().timestamp_millis() + ms
}
