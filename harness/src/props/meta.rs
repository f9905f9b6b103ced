//! C14 (timeline), C15 (instants), C16 (configuration), C17 (refusals), C18 (file names and file groups).
use super::read::*;
use super::*;
use crate::rng::Rng;
use chrono::{Datelike, NaiveDate, NaiveDateTime};
use hudi_core::config::internal::HudiInternalConfig;
use hudi_core::config::read::HudiReadConfig;
use hudi_core::config::table::HudiTableConfig;
use hudi_core::config::HudiConfigs;
use hudi_core::error::CoreError;
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::FileGroup;
use hudi_core::storage::file_metadata::FileMetadata;
use hudi_core::table::builder::TableBuilder;
use hudi_core::timeline::instant::{Action, Instant, State};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

/// The zone in which C14 and C15 run, so that "local" timelines differ from UTC ones.
pub const TEST_TZ: &str = "EST5EDT,M3.2.0,M11.1.0";

pub static PROPS: &[Prop] = &[
    Prop { id: "C14", run: c14, quick: 180000, thorough: 3000000, level: "exploration", threads: 0, stall_s: 60, alloc_limit: NOLIM,
        rule: "random .hoodie directories: completed, inflight and requested instants of every action, 14- and 17-digit times, unrelated files and directories, in UTC and in a local zone with daylight saving; every timeline call against the files written; distinct = set of instants" },
    Prop { id: "C15", run: c15, quick: 180000, thorough: 6000000, level: "exploration", threads: 0, stall_s: 60, alloc_limit: NOLIM,
        rule: "random valid instant names and mutations of them against an independent grammar and calendar; round trip, pairwise order and equality; distinct = strings" },
    Prop { id: "C16", run: c16, quick: 40000, thorough: 600000, level: "exploration", threads: 1, stall_s: 60, alloc_limit: NOLIM,
        rule: "random assignments of keys to the properties file, explicit, storage and generic options, environment and global defaults file; the options of the opened table and their typed values against an independent resolution; distinct = set of (key, sources)" },
    Prop { id: "C17", run: c17, quick: 45000, thorough: 1000000, level: "exploration", threads: 0, stall_s: 60, alloc_limit: NOLIM,
        rule: "small readable tables with zero or more defects in properties, options or arguments; refused with an error when a defect makes them invalid, read exactly otherwise, never a panic; distinct = set of defects" },
    Prop { id: "C18", run: c18, quick: 120000, thorough: 3000000, level: "exploration", threads: 0, stall_s: 60, alloc_limit: NOLIM,
        rule: "random base and log file names and mutations of them against an independent grammar; file groups built from the same files in several orders and by merging; distinct = names and file sets" },
];

// ---------- time ----------
fn dst_offset_h(utc_ms: i64) -> i64 {
    let d = chrono::DateTime::from_timestamp_millis(utc_ms).unwrap().naive_utc();
    let y = d.year();
    let sunday = |m: u32, nth: u32| {
        let first = NaiveDate::from_ymd_opt(y, m, 1).unwrap();
        let to = (7 - first.weekday().num_days_from_sunday()) % 7;
        NaiveDate::from_ymd_opt(y, m, 1 + to + 7 * (nth - 1)).unwrap()
    };
    let start = sunday(3, 2).and_hms_opt(7, 0, 0).unwrap();
    let end = sunday(11, 1).and_hms_opt(6, 0, 0).unwrap();
    if d >= start && d < end {
        -4
    } else {
        -5
    }
}
/// the moments a local time may denote: none in the gap, two in the repeated hour
fn local_moments(naive_ms: i64) -> Vec<i64> {
    [-4i64, -5]
        .iter()
        .filter_map(|h| {
            let utc = naive_ms - h * 3_600_000;
            (dst_offset_h(utc) == *h).then_some(utc)
        })
        .collect()
}
fn naive_ms(ts: &str) -> Option<i64> {
    if !(ts.len() == 14 || ts.len() == 17) || !ts.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let n = |a: usize, b: usize| ts[a..b].parse::<u32>().unwrap();
    let d = NaiveDate::from_ymd_opt(n(0, 4) as i32, n(4, 6), n(6, 8))?;
    let t = d.and_hms_opt(n(8, 10), n(10, 12), n(12, 14))?;
    let ms = if ts.len() == 17 { n(14, 17) as i64 } else { 0 };
    Some(t.and_utc().timestamp_millis() + ms)
}
/// a time near a moment of interest, or anywhere
fn any_ts(r: &mut Rng, s17: bool) -> String {
    let anchor = *r.pick(&[
        1_700_000_000_000i64, // 2023-11-14
        1_699_147_800_000,    // within the repeated hour 2023-11-05 in US zones
        1_710_037_800_000,    // 2024-03-10 around the gap
        1_582_934_399_000,    // 2020-02-29
        946_684_799_000,      // 1999-12-31 23:59:59
        4_102_444_800_000,
        0,
    ]);
    let ms = anchor + r.range(0, 1) * r.range(-7_200_000, 7_200_000) + r.range(-1500, 1500) * *r.pick(&[1i64, 1, 1000, 60_000, 86_400_000]);
    let d = chrono::DateTime::from_timestamp_millis(ms.max(0)).unwrap();
    if s17 {
        d.format("%Y%m%d%H%M%S%3f").to_string()
    } else {
        d.format("%Y%m%d%H%M%S").to_string()
    }
}

// ---------- C14 ----------
fn c14(e: &mut Env) {
    let mut sim = fresh(e, false, |_, _| {});
    let local = sim.spec.tz == Some("LOCAL");
    let mut r = e.r.fork();
    let mut done: BTreeMap<String, (i64, &'static str, String, bool)> = BTreeMap::new(); // name -> (order, action, content, clustering)
    let mut stamps: BTreeSet<String> = BTreeSet::new();
    let n = if r.chance(1) { 60 + r.below(200) } else { r.below(if e.thorough { 40 } else { 16 }) };
    let mix14 = r.chance(30);
    let s17 = r.chance(70);
    let mut bad_replace = false;
    for i in 0..n {
        let w = if mix14 { r.chance(50) } else { s17 };
        let ts = any_ts(&mut r, w);
        let ms = naive_ms(&ts).unwrap();
        if local && local_moments(ms).is_empty() {
            continue;
        }
        // one action per time, mostly
        let mut ts = ts;
        let twin: Vec<String> = stamps.iter().filter(|s| naive_ms(s) == Some(ms)).cloned().collect();
        if !twin.is_empty() && !r.chance(60) {
            continue;
        }
        if twin.is_empty() && !stamps.is_empty() && r.chance(8) {
            // another action at a time that is taken, perhaps written with the other precision
            ts = r.pick(&stamps.iter().cloned().collect::<Vec<_>>()).clone();
            if r.chance(50) {
                if ts.len() == 14 {
                    ts.push_str("000");
                } else if ts.ends_with("000") {
                    ts.truncate(14);
                }
            }
        }
        let ms = naive_ms(&ts).unwrap();
        stamps.insert(ts.clone());
        let action = *r.pick(&["commit", "commit", "deltacommit", "deltacommit", "replacecommit"]);
        let clus = action == "replacecommit" && r.chance(50);
        let op = if clus { "cluster" } else { *r.pick(&["upsert", "insert_overwrite", "compact"]) };
        let content = format!(
            r#"{{"partitionToWriteStats":{{}},"extraMetadata":{{"schema":"sch{i}é","k":"v"}},"operationType":"{op}","tag":{i}}}"#
        );
        let state = r.below(4);
        let base = format!(".hoodie/{ts}");
        let infl = if action == "commit" { format!("{base}.inflight") } else { format!("{base}.{action}.inflight") };
        if r.chance(80) {
            sim.put_raw(&format!("{base}.{action}.requested"), b"".to_vec());
        }
        if state >= 1 {
            sim.put_raw(&infl, b"".to_vec());
        }
        if state >= 2 && !done.contains_key(&format!("{ts}.{action}")) {
            sim.put_raw(&format!("{base}.{action}"), content.clone().into_bytes());
            done.insert(format!("{ts}.{action}"), (ms, action, content, clus));
        }
    }
    // files that are no completed commits
    for _ in 0..r.below(10) {
        let ts = any_ts(&mut r, s17);
        if stamps.contains(&ts) && r.chance(50) {
            continue;
        }
        let p = match r.below(26) {
            0 => format!("{ts}.clean"),
            1 => format!("{ts}.rollback"),
            2 => format!("{ts}.savepoint"),
            3 => format!("{ts}.restore"),
            4 => format!("{ts}.indexing"),
            5 => format!("{ts}.compaction.requested"),
            6 => format!("{ts}.compaction.inflight"),
            7 => format!("{ts}.logcompaction.requested"),
            8 => format!("{ts}.clean.inflight"),
            9 => format!("{ts}.schemacommit"),
            10 => format!(".{ts}.commit.crc"),
            11 => format!("{ts}.commit.crc"),
            12 => format!("{ts}.commit.tmp"),
            13 => format!("{ts}.commit."),
            14 => format!("{ts}.COMMIT"),
            15 => format!("{ts}.commits"),
            16 => format!("{}.commit", &ts[..8]),
            17 => format!("{ts}0.commit"),
            18 => format!("{ts}"),
            19 => format!("{ts}.commit/part-0"),
            20 => format!("archived/{ts}.commit"),
            21 => format!(".aux/{ts}.deltacommit"),
            22 => "hoodie.properties.backup".to_string(),
            23 => format!("99999999999999{}.commit", if s17 { "999" } else { "" }),
            24 => format!("20230229{}.commit", &ts[8..]),
            _ => format!("x{}.deltacommit", &ts[1..]),
        };
        // an object and a "directory" of the same name cannot both exist on a file system
        let pp = format!(".hoodie/{p}");
        if !sim.files.contains_key(&pp) && !sim.files.keys().any(|k| k.starts_with(&format!("{pp}/"))) && !sim.files.keys().any(|k| pp.starts_with(&format!("{k}/"))) {
            sim.put_raw(&pp, b"{}".to_vec());
        }
    }
    if r.chance(6) {
        // a replace commit whose metadata has no operation type
        let ts = any_ts(&mut r, s17);
        let ms = naive_ms(&ts).unwrap();
        if !(local && local_moments(ms).is_empty()) && !stamps.iter().any(|s| naive_ms(s) == Some(ms)) {
            let c = r#"{"partitionToReplaceFileIds":{},"extraMetadata":{"schema":"x"}}"#.to_string();
            sim.put_raw(&format!(".hoodie/{ts}.replacecommit"), c.clone().into_bytes());
            done.insert(format!("{ts}.replacecommit"), (ms, "replacecommit", c, false));
            bad_replace = true;
        }
    }
    let t = e.table(&mut sim);
    if r.chance(70) {
        *t.ctl.shuffle.lock().unwrap() = Some(r.fork());
    }
    let mut want: Vec<(i64, &str, String)> = done.iter().map(|(n, (ms, a, ..))| (*ms, *a, n.clone())).collect();
    want.sort();
    e.detail = format!("tz {:?} hoodie files: {:?}", sim.spec.tz, sim.files.keys().filter(|k| k.starts_with(".hoodie/")).collect::<Vec<_>>());
    e.eval();
    let tb = match e.call("Table::new", open(&t.url, &[])) {
        Res::Ok(t) => t,
        x => {
            e.viol("loading", format!("a table with these timeline files cannot be opened: {}", x.why()));
            return;
        }
    };
    let tl = tb.get_timeline();
    let names = |v: &[Instant]| v.iter().map(|i| i.file_name()).collect::<Vec<_>>();
    let got = names(&tl.completed_commits);
    // instants of the same moment may come in any order, but always in the same one
    let at = |n: &str| got.iter().position(|g| g == n).unwrap_or(usize::MAX);
    want.sort_by(|a, b| a.0.cmp(&b.0).then(at(&a.2).cmp(&at(&b.2))).then(a.cmp(b)));
    e.count("instants_of_one_moment", want.windows(2).filter(|w| w[0].0 == w[1].0).count() as u64);
    let all: Vec<String> = want.iter().map(|x| x.2.clone()).collect();
    if got != all {
        e.viol("instants", format!("completed_commits {got:?}, want {all:?}"));
    }
    for i in &tl.completed_commits {
        let (ts, rest) = i.timestamp.split_at(i.timestamp.len());
        let _ = rest;
        let ms = naive_ms(ts).unwrap_or(-1);
        let ok = if local { local_moments(ms).contains(&i.epoch_millis) } else { i.epoch_millis == ms };
        if !ok {
            e.viol("moment", format!("{} has epoch_millis {} in zone {:?}", i.file_name(), i.epoch_millis, sim.spec.tz));
        }
        if i.state != State::Completed {
            e.viol("instants", format!("{} has state {:?}", i.file_name(), i.state));
        }
        match e.call("get_instant_metadata_in_json", tl.get_instant_metadata_in_json(i)) {
            Res::Ok(j) => {
                if done.get(&i.file_name()).map(|d| d.2.as_str()) != Some(j.as_str()) {
                    e.viol("metadata", format!("metadata of {} is {j}", i.file_name()));
                }
            }
            x => e.viol("metadata", format!("metadata of {}: {}", i.file_name(), x.why())),
        }
    }
    for desc in [false, true] {
        for a in ["commit", "deltacommit", "replacecommit", "cluster"] {
            let mut w: Vec<String> = want
                .iter()
                .filter(|x| if a == "cluster" { x.1 == "replacecommit" && done[&x.2].3 } else { x.1 == a })
                .map(|x| x.2.clone())
                .collect();
            if desc {
                w.reverse();
            }
            let g = match a {
                "commit" => e.call("get_completed_commits", tl.get_completed_commits(desc)),
                "deltacommit" => e.call("get_completed_deltacommits", tl.get_completed_deltacommits(desc)),
                "replacecommit" => e.call("get_completed_replacecommits", tl.get_completed_replacecommits(desc)),
                _ => e.call("get_completed_clustering_commits", tl.get_completed_clustering_commits(desc)),
            };
            match g {
                Res::Ok(v) if names(&v) == w => {}
                Res::Err(_) if a == "cluster" && bad_replace => {}
                Res::Ok(v) => e.viol("filter", format!("completed {a}s (desc {desc}) are {:?}, want {w:?}", names(&v))),
                x => e.viol("filter", format!("completed {a}s: {}", x.why())),
            }
        }
    }
    let latest = want.last().map(|x| x.2.split('.').next().unwrap().to_string());
    match (call_sync("get_latest_commit_timestamp", || tl.get_latest_commit_timestamp()), &latest) {
        (Res::Ok(g), Some(l)) if g == *l => {}
        (Res::Err(_), None) => {}
        (x, l) => e.viol("latest", format!("latest commit timestamp {x:?}, want {l:?}")),
    }
    match (e.call("get_latest_avro_schema", tl.get_latest_avro_schema()), want.last()) {
        (Res::Ok(g), Some(l)) => {
            let j: serde_json::Value = serde_json::from_str(&done[&l.2].2).unwrap();
            if j["extraMetadata"]["schema"] != g.as_str() {
                e.viol("metadata", format!("latest avro schema {g}, want that of {}", l.2));
            }
        }
        (Res::Err(_), None) => {}
        (x, l) => e.viol("metadata", format!("latest avro schema {x:?} with latest commit {l:?}")),
    }
    if want.len() >= 2 {
        e.sig_s(&format!("{:?}{:?}", sim.spec.tz, all));
    }
    e.count("instants_checked", want.len() as u64);
    e.max("most_instants", want.len() as u64);
    let d = e.detail.clone();
    e.sample(d);
}

// ---------- C15 ----------
fn instant_grammar(s: &str) -> Option<(String, Action, State, i64)> {
    let (ts, rest) = s.split_once('.')?;
    let ms = naive_ms(ts)?;
    let (a, st) = match rest {
        "commit" => (Action::Commit, State::Completed),
        "commit.requested" => (Action::Commit, State::Requested),
        "inflight" => (Action::Commit, State::Inflight),
        "deltacommit" => (Action::DeltaCommit, State::Completed),
        "deltacommit.requested" => (Action::DeltaCommit, State::Requested),
        "deltacommit.inflight" => (Action::DeltaCommit, State::Inflight),
        "replacecommit" => (Action::ReplaceCommit, State::Completed),
        "replacecommit.requested" => (Action::ReplaceCommit, State::Requested),
        "replacecommit.inflight" => (Action::ReplaceCommit, State::Inflight),
        _ => return None,
    };
    Some((ts.into(), a, st, ms))
}
const SUFFIX: [&str; 9] = [
    "commit", "commit.requested", "inflight", "deltacommit", "deltacommit.requested", "deltacommit.inflight", "replacecommit",
    "replacecommit.requested", "replacecommit.inflight",
];
fn mutate(r: &mut Rng, s: &str, alphabet: &[&str]) -> String {
    let mut c: Vec<String> = s.chars().map(|c| c.to_string()).collect();
    for _ in 0..1 + r.below(2) {
        let at = r.below(c.len() + 1);
        match r.below(5) {
            0 => c.insert(at, r.pick(alphabet).to_string()),
            1 if at < c.len() => {
                c.remove(at);
            }
            2 if at < c.len() => c[at] = r.pick(alphabet).to_string(),
            3 if at + 1 < c.len() => c.swap(at, at + 1),
            4 => c.truncate(at),
            _ => {}
        }
    }
    c.concat()
}
fn c15(e: &mut Env) {
    let mut r = e.r.fork();
    let local = r.chance(50);
    let tz = if local { *r.pick(&["local", "LOCAL", "Local"]) } else { *r.pick(&["utc", "UTC", "Utc"]) };
    let mut pool: Vec<(Instant, i64, String)> = vec![];
    for _ in 0..24 {
        let s17 = r.chance(60);
        let ts = match r.below(10) {
            0 => {
                // digits in the right number, mostly no date
                (0..if s17 { 17 } else { 14 }).map(|_| char::from(b'0' + r.below(10) as u8)).collect::<String>()
            }
            1 => {
                let mut t = any_ts(&mut r, s17);
                let (at, v) = *r.pick(&[(12, "60"), (10, "60"), (8, "24"), (6, "31"), (6, "32"), (6, "00"), (4, "13"), (4, "00"), (6, "30"), (6, "29"), (12, "59")]);
                t.replace_range(at..at + 2, v);
                t
            }
            _ => any_ts(&mut r, s17),
        };
        if ts.starts_with("0000") {
            continue;
        }
        let mut s = format!("{ts}.{}", r.pick(&SUFFIX));
        if r.chance(40) {
            s = mutate(&mut r, &s, &["0", "1", "9", ".", "..", "+", "-", " ", "c", "C", "\u{661}", "é", "_", "commit", ".inflight", ".requested", "\n", "60"]);
        } else if r.chance(10) {
            s = format!("{ts}.{}", r.pick(&["commit.", "commit.inflight", "inflight.", "requested", "commit.completed", "deltacommit.", "commit.commit", ".commit", "Commit", "replacecommit.requested.x", "compaction.requested", "clean", ""]));
        }
        if s.starts_with("0000") {
            continue;
        }
        let mut want = instant_grammar(&s);
        let mut moments = vec![];
        if let Some(w) = &want {
            moments = if local { local_moments(w.3) } else { vec![w.3] };
            if moments.is_empty() {
                // the local time does not exist: refusing it and moving it are both fine
                let _ = call_sync::<_, CoreError>("Instant", || Instant::try_from_file_name_and_timezone(&s, tz));
                e.count("gap_times", 1);
                want = None;
                if instant_grammar(&s).is_some() {
                    continue;
                }
            }
        }
        e.eval();
        e.detail = format!("string {s:?} zone {tz}");
        e.sig_s(&s);
        let got = call_sync("Instant::try_from_file_name_and_timezone", || Instant::try_from_file_name_and_timezone(&s, tz));
        match (&got, &want) {
            (Res::Panic(p), _) => e.viol("panic", format!("{s:?}: {p}")),
            (Res::Err(_), None) => e.count("rejected", 1),
            (Res::Ok(i), None) => e.viol("accepts-invalid", format!("{s:?} is accepted as {i:?}")),
            (Res::Err(m), Some(_)) => e.viol("rejects-valid", format!("{s:?} is rejected: {m}")),
            (Res::Ok(i), Some((ts, a, st, _))) => {
                e.count("parsed", 1);
                if i.timestamp != *ts || i.action != *a || i.state != *st {
                    e.viol("parts", format!("{s:?} parses to {i:?}"));
                }
                if !moments.contains(&i.epoch_millis) {
                    e.viol("moment", format!("{s:?} denotes {} in zone {tz}, want one of {moments:?}", i.epoch_millis));
                }
                if i.file_name() != s {
                    e.viol("round-trip", format!("{s:?} is reproduced as {:?}", i.file_name()));
                }
                match call_sync("relative_path", || i.relative_path()) {
                    Res::Ok(p) if p == format!(".hoodie/{s}") => {}
                    x => e.viol("round-trip", format!("relative path of {s:?}: {x:?}")),
                }
                if i.is_replacecommit() != (*a == Action::ReplaceCommit) {
                    e.viol("parts", format!("is_replacecommit of {s:?}"));
                }
                pool.push((i.clone(), i.epoch_millis, s.clone()));
                if pool.len() == 3 {
                    // an equal instant made a second time
                    pool.push((Instant::try_from_file_name_and_timezone(&s, tz).unwrap(), i.epoch_millis, s.clone()));
                }
            }
        }
        // FromStr reads names in UTC; date-times are read the same way
        match (call_sync("Instant::from_str", || Instant::from_str(&s)), instant_grammar(&s)) {
            (Res::Ok(i), Some(w)) if i.epoch_millis == w.3 && i.file_name() == s => {}
            (Res::Err(_), None) => {}
            (x, w) => e.viol("from-str", format!("Instant::from_str({s:?}) gives {x:?}, want {w:?}")),
        }
        let ts = s.split('.').next().unwrap();
        match (call_sync("Instant::parse_datetime", || Instant::parse_datetime(ts, "UTC")), naive_ms(ts)) {
            (Res::Ok(d), Some(m)) if d.timestamp_millis() == m => {}
            (Res::Err(_), None) => {}
            (x, w) => e.viol("parse-datetime", format!("parse_datetime({ts:?}) gives {x:?}, want {w:?}")),
        }
        let bad_tz = *r.pick(&["", "gmt", "UTC+1", "America/New_York", "loca"]);
        match call_sync("zone", || Instant::try_from_file_name_and_timezone(&s, bad_tz)) {
            Res::Err(_) => {}
            x => e.viol("zone", format!("zone {bad_tz:?} is accepted: {x:?}")),
        }
    }
    for (a, am, an) in &pool {
        for (b, bm, bn) in &pool {
            let c = a.cmp(b);
            let eq = an == bn;
            if (a == b) != eq || (c == std::cmp::Ordering::Equal) != eq || a.partial_cmp(b) != Some(c) || b.cmp(a) != c.reverse() || (a < b) != (c == std::cmp::Ordering::Less) {
                e.viol("order-equality", format!("{an} and {bn}: cmp {c:?}, equal {}", a == b));
            }
            if am != bm && c != am.cmp(bm) {
                e.viol("order", format!("{an} and {bn} denote {am} and {bm} but compare {c:?}"));
            }
            e.count("pairs", 1);
        }
    }
    let mut v: Vec<&(Instant, i64, String)> = pool.iter().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    if v.windows(2).any(|w| w[0].1 > w[1].1) {
        e.viol("order", "sorting does not order by moment".to_string());
    }
    // states of one action progress requested, inflight, completed
    let ts = any_ts(&mut r, true);
    if !(local && local_moments(naive_ms(&ts).unwrap()).is_empty()) {
        for g in [[1usize, 2, 0], [4, 5, 3], [7, 8, 6]] {
            let v: Vec<Instant> = g.iter().map(|i| Instant::try_from_file_name_and_timezone(&format!("{ts}.{}", SUFFIX[*i]), tz).unwrap()).collect();
            if !(v[0] < v[1] && v[1] < v[2]) {
                e.viol("order", format!("states of {ts} do not order requested < inflight < completed"));
            }
        }
    }
}

// ---------- C16 ----------
fn java_escape(s: &str, r: &mut Rng) -> String {
    // java.util.Properties.store
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        match c {
            ' ' if i == 0 => o.push_str("\\ "),
            '\t' => o.push_str("\\t"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\x0c' => o.push_str("\\f"),
            '\\' | '=' | ':' | '#' | '!' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if r.chance(50) {
                        o.push_str(&format!("\\u{u:04X}"));
                    } else {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                }
            }
            c => o.push(c),
        }
    }
    o
}
const TBL_DEFAULTS: [(&str, &str); 5] = [
    ("hoodie.table.name", "t"),
    ("hoodie.table.type", "COPY_ON_WRITE"),
    ("hoodie.table.version", "6"),
    ("hoodie.timeline.layout.version", "1"),
    ("hoodie.internal.none", ""),
];
fn c16(e: &mut Env) {
    let mut r = e.r.fork();
    // keys with values that are valid for them
    let pool: Vec<(&str, Vec<&str>)> = vec![
        ("hoodie.table.name", vec!["t1", "my table", "tøbel", "a:b=c", "x#y!z", "p\\q", "日本"]),
        ("hoodie.table.type", vec!["COPY_ON_WRITE", "MERGE_ON_READ", "cow", "mor", "Merge-On-Read"]),
        ("hoodie.table.version", vec!["5", "6"]),
        ("hoodie.timeline.layout.version", vec!["1"]),
        ("hoodie.table.base.file.format", vec!["PARQUET", "parquet", "Parquet"]),
        ("hoodie.database.name", vec!["db1", "db two", "ü"]),
        ("hoodie.table.checksum", vec!["123", "-9", "4294967296"]),
        ("hoodie.datasource.write.drop.partition.columns", vec!["false"]),
        ("hoodie.datasource.write.hive_style_partitioning", vec!["true", "false"]),
        ("hoodie.datasource.write.partitionpath.urlencode", vec!["true", "false"]),
        ("hoodie.table.keygenerator.class", vec!["org.apache.hudi.keygen.SimpleKeyGenerator", "x.Y"]),
        ("hoodie.table.partition.fields", vec!["a", "a,b", "größe,b", ""]),
        ("hoodie.table.precombine.field", vec!["ts", "größe", "x y"]),
        ("hoodie.populate.meta.fields", vec!["true", "false"]),
        ("hoodie.table.recordkey.fields", vec!["k", "k,l,m"]),
        ("hoodie.table.record.merge.strategy", vec!["append_only", "overwrite_with_latest", "OVERWRITE_WITH_LATEST"]),
        ("hoodie.table.timeline.timezone", vec!["utc", "LOCAL", "UTC", "local"]),
        ("hoodie.read.input.partitions", vec!["0", "7", "100"]),
        ("hoodie.read.listing.parallelism", vec!["1", "20"]),
        ("hoodie.read.use.read_optimized.mode", vec!["true", "false"]),
        ("hoodie.read.file_group.start_timestamp", vec!["20240101000000000"]),
        ("hoodie.read.file_group.end_timestamp", vec!["20250101000000000"]),
        ("hoodie.custom.a", vec!["1", "a=b", "a = b", "  lead", "c:d", "multi word value", "ünï", "#x", "back\\slash", "=x", "😀", "tab\tin", "two\nlines\r\nthree", "page\x0cbreak", "\\u0041 \\t"]),
        ("hoodie.custom.k:e=y", vec!["1", "x:y"]),
        ("hoodie.custom.k y", vec!["1", "two words"]),
        ("hoodie.custom.ключ#!", vec!["1", "значение"]),
        ("hoodie.custom.B-c_d", vec!["x", "y z", "http://h:1/p?q=r"]),
        ("hoodie.table.create.schema", vec![r#"{"type":"record","fields":[{"name":"a","type":"int"}]}"#]),
    ];
    let mut props: BTreeMap<String, String> = BTreeMap::new();
    let mut hudi: BTreeMap<String, String> = BTreeMap::new();
    let mut generic: BTreeMap<String, String> = BTreeMap::new();
    let mut global: BTreeMap<String, String> = BTreeMap::new();
    let mut storage: BTreeMap<String, String> = BTreeMap::new();
    let mut env: BTreeMap<String, String> = BTreeMap::new();
    let has_conf = r.chance(75);
    for (k, vs) in &pool {
        let must = TBL_DEFAULTS.iter().any(|d| d.0 == *k);
        let present = must || r.chance(45);
        if !present {
            continue;
        }
        let many = r.chance(60);
        for s in 0..4usize {
            if (s == 0 && must && r.chance(70)) || r.chance(if many { 50 } else { 20 }) {
                let v = r.pick(vs).to_string();
                match s {
                    0 => props.insert(k.to_string(), v),
                    1 => hudi.insert(k.to_string(), v),
                    2 => generic.insert(k.to_string(), v),
                    _ => {
                        // the defaults file has one line per key and no quoting
                        let v = v.trim().to_string();
                        if k.contains(['=', ' ']) || v.is_empty() || v.starts_with(['=', ' ']) || v.contains(['\n', '\r', '\x0c']) || v.contains(" = ") {
                            None
                        } else {
                            global.insert(k.to_string(), v)
                        }
                    }
                };
            }
        }
        if must && !props.contains_key(*k) && !hudi.contains_key(*k) && !generic.contains_key(*k) && !(has_conf && global.contains_key(*k)) {
            let d = TBL_DEFAULTS.iter().find(|d| d.0 == *k).unwrap().1;
            props.insert(k.to_string(), d.into());
        }
    }
    let cased = |r: &mut Rng, k: &str| match r.below(3) {
        0 => k.to_ascii_uppercase(),
        1 => k.to_ascii_lowercase(),
        _ => k.split('_').map(|p| p[..1].to_ascii_uppercase() + &p[1..]).collect::<Vec<_>>().join("_"),
    };
    for k in ["aws_region", "aws_access_key_id", "aws_endpoint", "azure_storage_account_name", "google_service_account", "aws_hv_unknown"] {
        if r.chance(50) {
            let kk = cased(&mut r, k);
            storage.insert(kk, format!("explicit-{k}"));
        }
        if r.chance(40) {
            let kk = cased(&mut r, k);
            generic.insert(kk, format!("generic-{k}"));
        }
        if r.chance(50) {
            env.insert(k.to_ascii_uppercase(), format!("env-{k} =:x"));
        }
    }
    for k in ["allow_http", "timeout", "my.key", "Hoodie.x", "hoodie", "other"] {
        if r.chance(30) {
            storage.insert(k.into(), "e".into());
        }
        if r.chance(30) {
            generic.insert(k.into(), "g".into());
        }
    }
    for k in ["HV_AWS_X", "aws_lower", "HOODIE_ENV_x", "HOODIE_TABLE_NAME"] {
        if r.chance(30) {
            env.insert(k.into(), "n".into());
        }
    }
    let conf = has_conf.then(|| global.clone());
    // expected
    let id = format!("c{}n1", e.case);
    let url = format!("file:///hv/{id}/tbl");
    let mut want: BTreeMap<String, String> = props.clone();
    want.insert("hoodie.base.path".into(), url.clone());
    for src in [&hudi, &generic] {
        for (k, v) in src.iter() {
            if k.starts_with("hoodie.") {
                want.entry(k.clone()).or_insert(v.clone());
            }
        }
    }
    for (k, v) in conf.iter().flatten() {
        if k.starts_with("hoodie.") {
            want.entry(k.clone()).or_insert(v.clone());
        }
    }
    let mut wst: BTreeMap<String, String> = storage.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect();
    for (k, v) in &generic {
        if !k.starts_with("hoodie.") {
            wst.entry(k.to_ascii_lowercase()).or_insert(v.clone());
        }
    }
    for (k, v) in &env {
        if ["AWS_", "AZURE_", "GOOGLE_"].iter().any(|p| k.starts_with(p)) {
            wst.entry(k.to_ascii_lowercase()).or_insert(v.clone());
        }
    }
    // mutually inconsistent merge settings are C17's business
    let meta = want.get("hoodie.populate.meta.fields").map_or(true, |v| v == "true");
    let overwrite = want.get("hoodie.table.record.merge.strategy").is_some_and(|v| v.to_lowercase().starts_with("over"));
    if overwrite && (!meta || !want.contains_key("hoodie.table.precombine.field")) {
        e.count("inconsistent_skipped", 1);
        return;
    }
    // files
    let mut text = String::from("#Updated at x=y\n\n");
    let mut keys: Vec<&String> = props.keys().collect();
    r.shuffle(&mut keys);
    for k in keys {
        text.push_str(&format!("{}={}\n", java_escape(k, &mut r).replace(' ', "\\ "), java_escape(&props[k], &mut r)));
    }
    let mut files = vec![(".hoodie/hoodie.properties".to_string(), text.clone())];
    if r.chance(50) {
        files.push((".hoodie/20240101000000000.clean".into(), "x".into()));
    }
    let mut conf_text = None;
    if let Some(c) = &conf {
        let mut t = String::from("# defaults\nspark.x y\nspark.hoodie.custom no\n  # hoodie.table.name=no\n\n");
        for (k, v) in c {
            let sep = *r.pick(&[" ", "=", "\t", "    ", " = ", "= ", " =", "\t=\t"]);
            t.push_str(&format!("{k}{sep}{v}{}\n", r.pick(&["", " ", "\r"])));
        }
        conf_text = Some(t);
    }
    let mem = std::sync::Arc::new(object_store::memory::InMemory::new());
    let ctl = crate::store::Ctl::new();
    for (p, b) in &files {
        mem_put(&mem, &format!("hv/{id}/tbl/{p}"), b.clone().into_bytes().into());
    }
    let conf_dir = r.chance(60);
    if let Some(t) = &conf_text {
        let p = if conf_dir { format!("hv/{id}/conf d/hudi-defaults.conf") } else { "etc/hudi/conf/hudi-defaults.conf".into() };
        mem_put(&mem, &p, t.clone().into_bytes().into());
    }
    crate::store::register(&id, crate::store::Entry { ctl, mem: Some(mem) });
    e.detail = format!(
        "properties {text:?}; explicit {hudi:?}; storage {storage:?}; generic {generic:?}; env {env:?}; defaults file {conf_text:?} (HUDI_CONF_DIR {conf_dir})"
    );
    // this property runs on one thread: the environment is its own
    let old: Vec<(std::ffi::OsString, std::ffi::OsString)> =
        std::env::vars_os().filter(|(k, _)| ["AWS_", "AZURE_", "GOOGLE_", "HUDI_CONF"].iter().any(|p| k.to_string_lossy().starts_with(p))).collect();
    for (k, _) in &old {
        std::env::remove_var(k);
    }
    for (k, v) in &env {
        std::env::set_var(k, v);
    }
    if conf_dir {
        std::env::set_var("HUDI_CONF_DIR", format!("/hv/{id}/conf d"));
    }
    let junk = r.chance(10);
    if junk {
        use std::os::unix::ffi::OsStrExt;
        std::env::set_var("HV_JUNK", std::ffi::OsStr::from_bytes(b"\xff\xfe"));
    }
    let mk = |r: &mut Rng| {
        let mut b = TableBuilder::from_base_uri(&url);
        if r.chance(50) {
            b = b.with_hudi_options(hudi.iter());
        } else {
            for (k, v) in &hudi {
                b = b.with_hudi_option(k, v.to_string() + "-overwritten").with_hudi_option(k, v);
            }
        }
        if r.chance(50) {
            b = b.with_options(generic.iter()).with_storage_options(storage.iter());
        } else {
            for (k, v) in &storage {
                b = b.with_storage_option(k, v);
            }
            for (k, v) in &generic {
                b = b.with_option(k, v);
            }
        }
        b
    };
    let builders = [mk(&mut r), mk(&mut r)];
    let mut got = vec![];
    for mut b in builders {
        got.push(e.call("TableBuilder::build", async move { b.build().await }));
    }
    for (k, _) in &env {
        std::env::remove_var(k);
    }
    std::env::remove_var("HUDI_CONF_DIR");
    std::env::remove_var("HV_JUNK");
    for (k, v) in &old {
        std::env::set_var(k, v);
    }
    crate::store::unregister(&id);
    e.eval();
    e.sig_s(&format!(
        "{:?}",
        want.keys().map(|k| (k, props.contains_key(k), hudi.contains_key(k), generic.contains_key(k), global.contains_key(k))).collect::<Vec<_>>()
    ));
    for g in got {
        let t = match g {
            Res::Ok(t) => t,
            x => {
                e.viol("open", format!("the table cannot be opened: {}", x.why()));
                return;
            }
        };
        let h: BTreeMap<String, String> = t.hudi_options().into_iter().collect();
        if h != want {
            e.viol("table-options", map_diff(&h, &want));
            return;
        }
        let mut s: BTreeMap<String, String> = BTreeMap::new();
        for (k, v) in t.storage_options() {
            if let Some(o) = s.insert(k.to_ascii_lowercase(), v.clone()) {
                e.viol("storage-options", format!("storage option {k} is there twice: {o:?} and {v:?}"));
                return;
            }
        }
        if s != wst {
            e.viol("storage-options", map_diff(&s, &wst));
            return;
        }
        typed(e, &t.hudi_configs, &want);
        if t.table_name() != want["hoodie.table.name"] || t.is_mor() != want["hoodie.table.type"].to_lowercase().starts_with('m') {
            e.viol("typed", format!("table_name {:?} is_mor {}", t.table_name(), t.is_mor()));
        }
        if t.timezone() != want.get("hoodie.table.timeline.timezone").map_or("utc".into(), |v| v.to_lowercase()) {
            e.viol("typed", format!("timezone {:?}", t.timezone()));
        }
    }
    e.count("options_checked", (want.len() + wst.len()) as u64);
    let d = e.detail.clone();
    e.sample(d);
}
fn map_diff(g: &BTreeMap<String, String>, w: &BTreeMap<String, String>) -> String {
    let mut o = vec![];
    for k in g.keys().chain(w.keys()).collect::<BTreeSet<_>>() {
        if g.get(k) != w.get(k) {
            o.push(format!("{k}: got {:?}, want {:?}", g.get(k), w.get(k)));
        }
    }
    o.join("; ")
}
fn typed(e: &mut Env, c: &HudiConfigs, w: &BTreeMap<String, String>) {
    use HudiTableConfig as T;
    let list = |v: &str| -> Vec<String> { v.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() };
    let get = |k: &str| w.get(k).map(|v| v.as_str());
    let mut bad = vec![];
    macro_rules! chk {
        ($cfg:expr, $t:ty, $want:expr) => {{
            let cfg = $cfg;
            let k = cfg.as_ref().to_string();
            let want: Option<$t> = $want;
            let got = c.try_get(cfg).map(|v| v.to::<$t>());
            if got != want {
                bad.push(format!("{k}: {got:?}, want {want:?}"));
            }
        }};
    }
    chk!(T::BaseFileFormat, String, Some("parquet".into()));
    chk!(T::DatabaseName, String, Some(get("hoodie.database.name").unwrap_or("default").into()));
    chk!(T::DropsPartitionFields, bool, Some(false));
    chk!(T::PopulatesMetaFields, bool, Some(get("hoodie.populate.meta.fields") != Some("false")));
    chk!(T::IsHiveStylePartitioning, bool, get("hoodie.datasource.write.hive_style_partitioning").map(|v| v == "true"));
    chk!(T::IsPartitionPathUrlencoded, bool, get("hoodie.datasource.write.partitionpath.urlencode").map(|v| v == "true"));
    chk!(T::Checksum, isize, get("hoodie.table.checksum").map(|v| v.parse().unwrap()));
    chk!(T::TableVersion, isize, get("hoodie.table.version").map(|v| v.parse().unwrap()));
    chk!(T::TimelineLayoutVersion, isize, Some(1));
    chk!(T::KeyGeneratorClass, String, get("hoodie.table.keygenerator.class").map(|v| v.into()));
    chk!(T::PrecombineField, String, get("hoodie.table.precombine.field").map(|v| v.into()));
    chk!(T::PartitionFields, Vec<String>, Some(list(get("hoodie.table.partition.fields").unwrap_or(""))));
    chk!(T::RecordKeyFields, Vec<String>, get("hoodie.table.recordkey.fields").map(|v| v.split(',').map(|s| s.to_string()).collect()));
    chk!(T::TableType, String, get("hoodie.table.type").map(|v| if v.to_lowercase().starts_with('m') { "MERGE_ON_READ".into() } else { "COPY_ON_WRITE".into() }));
    chk!(T::TimelineTimezone, String, Some(get("hoodie.table.timeline.timezone").unwrap_or("utc").to_lowercase()));
    chk!(HudiReadConfig::InputPartitions, usize, Some(get("hoodie.read.input.partitions").unwrap_or("0").parse().unwrap()));
    chk!(HudiReadConfig::ListingParallelism, usize, Some(get("hoodie.read.listing.parallelism").unwrap_or("10").parse().unwrap()));
    chk!(HudiReadConfig::UseReadOptimizedMode, bool, Some(get("hoodie.read.use.read_optimized.mode") == Some("true")));
    chk!(HudiReadConfig::FileGroupStartTimestamp, String, get("hoodie.read.file_group.start_timestamp").map(|v| v.into()));
    chk!(HudiReadConfig::FileGroupEndTimestamp, String, get("hoodie.read.file_group.end_timestamp").map(|v| v.into()));
    chk!(HudiInternalConfig::SkipConfigValidation, bool, Some(false));
    let strat = match get("hoodie.table.record.merge.strategy") {
        Some(v) => v.to_lowercase(),
        None if get("hoodie.populate.meta.fields") == Some("false") || get("hoodie.table.precombine.field").is_none() => "append_only".into(),
        None => "overwrite_with_latest".into(),
    };
    let got = c.get_or_default(T::RecordMergeStrategy).to::<String>().to_lowercase();
    if got != strat {
        bad.push(format!("merge strategy {got}, want {strat}"));
    }
    if !bad.is_empty() {
        e.viol("typed", bad.join("; "));
    }
}

// ---------- C17 ----------
fn c17(e: &mut Env) {
    let mor = e.r.chance(50);
    let mut sim = fresh(e, mor, |s, _| s.monotone = true);
    sim.grow(2, false);
    if sim.latest().is_none() {
        return;
    }
    let l = sim.latest().unwrap();
    if !clean_view(&sim, &l) || sim.commits().is_empty() {
        return;
    }
    let want_rows = sim.snap_texts(Some(&l), Mode::Strong, false);
    let mut r = e.r.fork();
    let pfile = ".hoodie/hoodie.properties";
    let orig = String::from_utf8(sim.files[pfile].to_vec()).unwrap();
    let mut kv: Vec<(String, String)> = orig.lines().filter(|l| !l.starts_with('#')).map(|l| l.split_once('=').unwrap()).map(|(a, b)| (a.into(), b.into())).collect();
    let set = |kv: &mut Vec<(String, String)>, k: &str, v: &str| {
        kv.retain(|x| x.0 != k);
        kv.push((k.into(), v.into()));
    };
    let mut opts: Vec<(String, String)> = vec![];
    let mut invalid: Vec<String> = vec![]; // defects that must be refused
    let mut unsure: Vec<String> = vec![]; // may be refused or read: no panic, and only right rows
    let mut fine: Vec<String> = vec![]; // variations that must not matter
    let mut raw: Option<Vec<u8>> = None;
    let mut url_override: Option<String> = None;
    let nd = r.below(3);
    for _ in 0..nd {
        match r.below(30) {
            0 => {
                let k = *r.pick(&["hoodie.table.name", "hoodie.table.type", "hoodie.table.version", "hoodie.timeline.layout.version"]);
                kv.retain(|x| x.0 != k);
                invalid.push(format!("missing {k}"));
            }
            1 => {
                let v = *r.pick(&["4", "7", "8", "9", "0", "-1", "", "six", "6.0", "99999999999999999999", " ", "0x6", "261", "262", "65542", "4294967302", "-250", "5.", "56"]);
                set(&mut kv, "hoodie.table.version", v);
                invalid.push(format!("table version {v:?}"));
            }
            2 => {
                let v = *r.pick(&["0", "2", "-1", "x", "", "257", "65537", "4294967297", "-255", "11"]);
                set(&mut kv, "hoodie.timeline.layout.version", v);
                invalid.push(format!("layout {v:?}"));
            }
            3 => {
                let v = *r.pick(&["", "COPY", "MERGE_ON_WRITE", "copy on write", "0"]);
                set(&mut kv, "hoodie.table.type", v);
                invalid.push(format!("type {v:?}"));
            }
            4 => {
                let v = *r.pick(&["ORC", "hfile", "", "parq", "csv"]);
                set(&mut kv, "hoodie.table.base.file.format", v);
                invalid.push(format!("format {v:?}"));
            }
            5 => {
                let k = *r.pick(&["hoodie.populate.meta.fields", "hoodie.datasource.write.hive_style_partitioning", "hoodie.datasource.write.partitionpath.urlencode", "hoodie.datasource.write.drop.partition.columns"]);
                let v = *r.pick(&["yes", "1", "", "truee", "nope"]);
                set(&mut kv, k, v);
                invalid.push(format!("{k}={v}"));
            }
            6 => {
                set(&mut kv, "hoodie.datasource.write.drop.partition.columns", "true");
                invalid.push("drop partition columns".into());
            }
            7 => {
                let v = *r.pick(&["gmt", "", "UTC+1", "America/New_York"]);
                set(&mut kv, "hoodie.table.timeline.timezone", v);
                invalid.push(format!("zone {v:?}"));
            }
            8 => {
                let v = *r.pick(&["keep_all", "", "latest", "0"]);
                set(&mut kv, "hoodie.table.record.merge.strategy", v);
                invalid.push(format!("strategy {v:?}"));
            }
            9 => {
                set(&mut kv, "hoodie.table.record.merge.strategy", "overwrite_with_latest");
                set(&mut kv, "hoodie.populate.meta.fields", "false");
                invalid.push("overwrite without meta fields".into());
            }
            10 => {
                set(&mut kv, "hoodie.table.record.merge.strategy", "overwrite_with_latest");
                kv.retain(|x| x.0 != "hoodie.table.precombine.field");
                invalid.push("overwrite without precombine field".into());
            }
            11 => {
                let v = *r.pick(&["abc", "1.5", ""]);
                set(&mut kv, "hoodie.table.checksum", v);
                invalid.push(format!("checksum {v:?}"));
            }
            12 => {
                let k = *r.pick(&["hoodie.read.input.partitions", "hoodie.read.listing.parallelism"]);
                let v = *r.pick(&["-1", "x", "", "1.0", "99999999999999999999999"]);
                opts.push(opt(k, v));
                invalid.push(format!("option {k}={v}"));
            }
            13 => {
                let v = *r.pick(&["yes", "", "2"]);
                opts.push(opt("hoodie.read.use.read_optimized.mode", v));
                invalid.push(format!("read-optimized {v:?}"));
            }
            14 => {
                raw = Some(match r.below(4) {
                    0 => b"".to_vec(),
                    1 => b"\xff\xfe\x00hoodie.table.name=\xc3\x28\n".to_vec(),
                    2 => b"# only comments\n\n".to_vec(),
                    _ => b"hoodie.table.name\nhoodie.table.type\n".to_vec(),
                });
                invalid.push("properties content".into());
            }
            15 => {
                raw = Some(vec![]);
                invalid.push("properties file missing".into());
                sim.files.remove(pfile);
            }
            16 => {
                url_override = Some(
                    r.pick(&["", "relative/path", "foo://x/y", "file://", "http://[::1", "s3://", "mailto:a@b", "data:text/plain,x", "unknown:///x", ":", "//", "hdfs://nn/x", "file:///hv/none/none"])
                        .to_string(),
                );
                invalid.push(format!("base path {:?}", url_override));
            }
            17 => {
                set(&mut kv, "hoodie.read.file_group.end_timestamp", "garbage");
                unsure.push("garbage end timestamp property".into());
            }
            // variations that must not matter
            18 => {
                let v = kv.iter().find(|x| x.0 == "hoodie.table.type").map(|x| x.1.clone());
                if let Some(v) = v {
                    let nv = if v.to_lowercase().starts_with('c') { *r.pick(&["cow", "COW", "copy-on-write", "Copy_On_Write"]) } else if v.to_lowercase().starts_with("mer") { *r.pick(&["mor", "MOR", "merge-on-read", "Merge_On_Read"]) } else { v.as_str() };
                    let nv = nv.to_string();
                    set(&mut kv, "hoodie.table.type", &nv);
                    fine.push(format!("type as {nv}"));
                }
            }
            19 => {
                let k = *r.pick(&["hoodie.table.checksum", "hoodie.table.base.file.format", "hoodie.table.recordkey.fields", "hoodie.archivelog.folder", "hoodie.database.name", "hoodie.table.keygenerator.class"]);
                let np = sim.spec.part.is_empty();
                if !(np && k.ends_with("class")) {
                    kv.retain(|x| x.0 != k);
                    fine.push(format!("without {k}"));
                }
            }
            20 => {
                set(&mut kv, "hoodie.some.future.key", "x=y=z");
                set(&mut kv, "unrelated", "");
                fine.push("unknown keys".into());
            }
            21 => {
                let n = *r.pick(&["0", "1", "3", "1000"]);
                opts.push(opt("hoodie.read.listing.parallelism", n));
                opts.push(opt("hoodie.read.input.partitions", n));
                fine.push(format!("parallelism {n}"));
            }
            22 => {
                if !invalid.iter().any(|d| d.starts_with("format")) {
                    set(&mut kv, "hoodie.table.base.file.format", *r.pick(&["parquet", "Parquet"]));
                    fine.push("format case".into());
                }
            }
            23 => {
                opts.push(opt("some.storage.key", "x"));
                opts.push(opt("hoodie.internal.skip.config.validation", *r.pick(&["false", "TRUE", "no", ""])));
                fine.push("skip not asked for".into());
            }
            24 => {
                for _ in 0..2 {
                    let i = r.below(kv.len());
                    let x = kv[i].clone();
                    if x.0.starts_with("hoodie.table.name") {
                        set(&mut kv, &x.0, *r.pick(&["other", "n m"]));
                    }
                }
                fine.push("name".into());
            }
            _ => {}
        }
    }
    let skip = r.chance(12);
    if skip {
        opts.push(opt("hoodie.internal.skip.config.validation", "true"));
    }
    // last writer wins among options given twice
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in opts {
        m.insert(k, v);
    }
    // an option that was given twice may have lost its defect
    let still_bad_opt = |d: &String| !d.starts_with("option ") || m.iter().any(|(k, v)| *d == format!("option {k}={v}"));
    invalid.retain(still_bad_opt);
    // a property set twice may have lost its defect: look again
    let getp = |k: &str| kv.iter().rev().find(|x| x.0 == k).map(|x| x.1.clone());
    invalid.retain(|d| match d.as_str() {
        d if d.starts_with("missing ") => getp(&d[8..]).is_none(),
        d if d.starts_with("type ") => {
            let v = getp("hoodie.table.type").unwrap_or_default().to_lowercase();
            !["cow", "mor", "copy_on_write", "merge_on_read", "copy-on-write", "merge-on-read"].contains(&v.as_str())
        }
        d if d.starts_with("overwrite") => {
            let s = getp("hoodie.table.record.merge.strategy").unwrap_or_default() == "overwrite_with_latest";
            s && (getp("hoodie.populate.meta.fields").as_deref() == Some("false") || getp("hoodie.table.precombine.field").is_none())
        }
        "drop partition columns" => getp("hoodie.datasource.write.drop.partition.columns").as_deref() == Some("true"),
        d if d.starts_with("read-optimized") => true,
        d if d.starts_with("format") => !getp("hoodie.table.base.file.format").map_or(true, |v| v.eq_ignore_ascii_case("parquet")),
        d if d.starts_with("checksum") => getp("hoodie.table.checksum").is_some_and(|v| v.parse::<i64>().is_err()),
        _ => true,
    });
    if raw.is_none() {
        r.shuffle(&mut kv);
        let mut t = String::from("#c\n");
        let nl = if r.chance(20) { "\r\n" } else { "\n" };
        for (k, v) in &kv {
            match r.below(8) {
                0 => t.push_str(&format!("  {k} = {v} {nl}")),
                1 => t.push_str(&format!("{nl}# {k}=other{nl}{k}={v}{nl}")),
                _ => t.push_str(&format!("{k}={v}{nl}")),
            }
        }
        sim.put_raw(pfile, t.into_bytes());
    } else if sim.files.contains_key(pfile) {
        sim.put_raw(pfile, raw.unwrap());
    }
    let t = e.table(&mut sim);
    let url = url_override.clone().unwrap_or(t.url.clone());
    let o: Vec<(String, String)> = m.into_iter().collect();
    e.detail = format!("defects {invalid:?}, unsure {unsure:?}, variations {fine:?}, skip {skip}, options {o:?}, {}", context(&sim));
    e.eval();
    e.sig_s(&format!("{invalid:?}{unsure:?}{fine:?}{skip}"));
    let opened = e.call("open", open(&url, &o));
    let missing = invalid.iter().any(|d| d.starts_with("properties file") || d.starts_with("base path"));
    let tb = match opened {
        Res::Panic(p) => {
            e.viol("panic", format!("opening: {p}"));
            return;
        }
        Res::Err(m) => {
            if invalid.is_empty() && unsure.is_empty() {
                e.viol("refused", format!("a valid table is refused: {m}"));
            } else if skip && !missing && !m.is_empty() && invalid.iter().all(|d| ["table version \"7\"", "table version \"8\"", "table version \"4\"", "drop partition columns"].contains(&d.as_str())) {
                e.viol("skip", format!("validation was to be skipped: {m}"));
            }
            e.count("refused", 1);
            return;
        }
        Res::Ok(t) => t,
    };
    e.count("opened", 1);
    if !invalid.is_empty() && !skip {
        e.viol("accepted", format!("opened despite {invalid:?}"));
        return;
    }
    if !invalid.is_empty() {
        // validation skipped as asked for: behaviour is the caller's responsibility
        return;
    }
    // malformed arguments
    let bad_ts = r.pick(&["", "2024", "20240101", "2024010100000000000", "20241301000000000", "20240230000000", "2024-01-01T00:00:00Z", "20240101000060", "latest", "٢٠٢٤٠١٠١٠٠٠٠٠٠", "20240101 00000", "+0240101000000", "2024010100000\u{30}1x"]).to_string();
    let bad_ts: String = if naive_ms(&bad_ts).is_some() { "x".into() } else { bad_ts };
    let f3 = |a: &str, b: &str, c: &str| vec![(a.to_string(), b.to_string(), c.to_string())];
    let badf = match r.below(3) {
        0 => f3("no_such_column", "=", "1"),
        1 => f3(sim.spec.part.first().map_or("zz", |p| p.0.as_str()), *r.pick(&["==", "like", "", "<>", "in"]), "1"),
        _ => match sim.spec.part.iter().find(|p| p.1 != crate::val::Ty::Str) {
            Some(p) => f3(&p.0, "=", *r.pick(&["abc", "", "1.5x", "2024-99-99"])),
            None => f3("zz9", "<", ""),
        },
    };
    let calls: Vec<(&str, Res<Vec<String>>)> = vec![
        ("read_snapshot_as_of(bad time)", e.call("as_of", async { Ok::<_, CoreError>(texts(&tb.read_snapshot_as_of(&bad_ts, &[]).await?)) })),
        ("get_file_slices_as_of(bad time)", e.call("slices_as_of", async { Ok::<_, CoreError>(tb.get_file_slices_as_of(&bad_ts, &[]).await?.iter().map(|s| s.to_string()).collect()) })),
        ("get_file_slices_splits_as_of(bad time)", e.call("splits_as_of", async { Ok::<_, CoreError>(tb.get_file_slices_splits_as_of(2, &bad_ts, &[]).await?.iter().flatten().map(|s| s.to_string()).collect()) })),
        ("read_incremental_records(bad start)", e.call("incr", async { Ok::<_, CoreError>(texts(&tb.read_incremental_records(&bad_ts, None).await?)) })),
        ("read_incremental_records(bad end)", e.call("incr", async { Ok::<_, CoreError>(texts(&tb.read_incremental_records("19700101000000000", Some(&bad_ts)).await?)) })),
        ("get_file_slices_between(bad end)", e.call("between", async { Ok::<_, CoreError>(tb.get_file_slices_between(None, Some(&bad_ts)).await?.iter().map(|s| s.to_string()).collect()) })),
        ("read_snapshot(bad filter)", e.call("filter", async { Ok::<_, CoreError>(texts(&tb.read_snapshot(&fl(&badf)).await?)) })),
        ("get_file_slices(bad filter)", e.call("filter", async { Ok::<_, CoreError>(tb.get_file_slices(&fl(&badf)).await?.iter().map(|s| s.to_string()).collect()) })),
        ("splits(bad filter)", e.call("filter", async { Ok::<_, CoreError>(tb.get_file_slices_splits(2, &fl(&badf)).await?.iter().flatten().map(|s| s.to_string()).collect()) })),
    ];
    for (w, x) in calls {
        match x {
            Res::Err(_) => e.count("bad_arguments_refused", 1),
            Res::Panic(p) => e.viol("panic", format!("{w} with time {bad_ts:?} filter {badf:?}: {p}")),
            Res::Ok(v) => e.viol("bad-argument", format!("{w} with time {bad_ts:?} filter {badf:?} answers {} items", v.len())),
        }
    }
    match e.call("read_snapshot", async { Ok::<_, CoreError>(texts(&tb.read_snapshot(&[]).await?)) }) {
        Res::Ok(got) => {
            e.same_rows("rows", "snapshot", &got, &want_rows);
        }
        Res::Err(m) if unsure.is_empty() => e.viol("refused", format!("a valid table cannot be read: {m}")),
        Res::Panic(p) => e.viol("panic", format!("reading: {p}")),
        _ => {}
    }
    let d = e.detail.clone();
    e.sample(d);
}

// ---------- C18 ----------
fn base_grammar(s: &str) -> Option<(String, String, String, String)> {
    let dot = s.rfind('.')?;
    let (stem, ext) = (&s[..dot], &s[dot + 1..]);
    let p: Vec<&str> = stem.split('_').collect();
    if p.len() != 3 || p.iter().any(|x| x.is_empty()) || ext.is_empty() {
        return None;
    }
    Some((p[0].into(), p[1].into(), p[2].into(), ext.into()))
}
fn log_grammar(s: &str) -> Option<(String, String, String, String, String)> {
    // .<id>_<base instant>.<ext>.<version>_<token>
    let s = s.strip_prefix('.')?;
    let p: Vec<&str> = s.split('_').collect();
    if p.len() != 3 || p.iter().any(|x| x.is_empty()) || p[2].contains('.') {
        return None;
    }
    let m: Vec<&str> = p[1].split('.').collect();
    if m.len() != 3 || m.iter().any(|x| x.is_empty()) || !m[2].bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some((p[0].into(), m[0].into(), m[1].into(), m[2].into(), p[2].into()))
}
fn gen_fid(r: &mut Rng) -> String {
    match r.below(4) {
        0 => format!("f{}", r.below(1000)),
        1 => format!("{:08x}-a.b-{}", r.u64() as u32, r.below(9)),
        _ => format!("{:08x}-{:04x}-4000-8000-{:012x}-{}", r.u64() as u32, r.u64() as u16, r.u64() & 0xffff_ffff_ffff, r.below(3)),
    }
}
fn gen_token(r: &mut Rng) -> String {
    format!("{}-{}-{}", r.below(30), r.below(30), r.below(2000))
}
fn c18(e: &mut Env) {
    let mut r = e.r.fork();
    let alpha = ["_", ".", "-", "0", "a", "é", " ", "%", "..", "__", ".log.", ".cdc", "/", "+1"];
    for _ in 0..12 {
        let fid = gen_fid(&mut r);
        let s17 = r.chance(70);
        let ts = any_ts(&mut r, s17);
        let tok = gen_token(&mut r);
        let ext = *r.pick(&["parquet", "parquet", "orc", "hfile"]);
        let mut s = format!("{fid}_{tok}_{ts}.{ext}");
        if r.chance(50) {
            s = mutate(&mut r, &s, &alpha);
        }
        e.detail = format!("base file name {s:?}");
        e.eval();
        e.sig_s(&s);
        let size = r.below(1 << 20);
        let both = [
            call_sync("BaseFile::from_str", || BaseFile::from_str(&s)),
            call_sync("BaseFile::try_from", || BaseFile::try_from(FileMetadata::new(s.clone(), size))),
        ];
        for (j, g) in both.into_iter().enumerate() {
            match (g, base_grammar(&s)) {
                (Res::Ok(b), Some(w)) => {
                    let got = (b.file_id.clone(), b.write_token.clone(), b.commit_timestamp.clone(), b.extension.clone());
                    if got != w {
                        e.viol("parts", format!("base file {s:?} parses to {got:?}"));
                    }
                    if b.file_name() != s {
                        e.viol("round-trip", format!("base file {s:?} is reproduced as {:?}", b.file_name()));
                    }
                    if j == 1 && b.file_metadata.as_ref().map(|m| (m.name.clone(), m.size)) != Some((s.clone(), size)) {
                        e.viol("parts", format!("base file {s:?} lost its metadata"));
                    }
                    e.count("parsed", 1);
                }
                (Res::Err(_), None) => e.count("rejected", 1),
                (x, w) => e.viol("base-name", format!("base file name {s:?} gives {} ({x:?}), want {w:?}", x.kind())),
            }
        }
        // log files
        let ver = match r.below(6) {
            0 => "10".to_string(),
            1 => "9".into(),
            2 => format!("{}", r.below(200)),
            3 => "01".into(),
            _ => format!("{}", 1 + r.below(12)),
        };
        let mut s = format!(".{fid}_{ts}.{}.{ver}_{tok}", r.pick(&["log", "log", "log", "archive"]));
        if r.chance(50) {
            s = mutate(&mut r, &s, &alpha);
        } else if r.chance(10) {
            s.push_str(".cdc");
        }
        e.detail = format!("log file name {s:?}");
        e.eval();
        e.sig_s(&s);
        let both = [
            call_sync("LogFile::from_str", || LogFile::from_str(&s)),
            call_sync("LogFile::try_from", || LogFile::try_from(FileMetadata::new(s.clone(), size))),
        ];
        for (j, g) in both.into_iter().enumerate() {
            match (g, log_grammar(&s)) {
                (Res::Ok(b), Some(w)) => {
                    let got = (b.file_id.clone(), b.base_commit_timestamp.clone(), b.extension.clone(), b.version.clone(), b.write_token.clone());
                    if got != w {
                        e.viol("parts", format!("log file {s:?} parses to {got:?}"));
                    }
                    if b.file_name() != s {
                        e.viol("round-trip", format!("log file {s:?} is reproduced as {:?}", b.file_name()));
                    }
                    if j == 1 && b.file_metadata.as_ref().map(|m| (m.name.clone(), m.size)) != Some((s.clone(), size)) {
                        e.viol("parts", format!("log file {s:?} lost its metadata"));
                    }
                    e.count("parsed", 1);
                }
                (Res::Err(_), None) => e.count("rejected", 1),
                (x, w) => e.viol("log-name", format!("log file name {s:?} gives {} ({x:?}), want {w:?}", x.kind())),
            }
        }
    }
    // a file group
    let fid = gen_fid(&mut r);
    let part = r.pick(&["", "a", "p=1/q=2", "x y/%41"]).to_string();
    let mut bases: BTreeMap<String, String> = BTreeMap::new();
    let mut logs: BTreeMap<String, BTreeSet<(u64, String, String)>> = BTreeMap::new(); // base ts -> (version, token, name)
    for _ in 0..1 + r.below(4) {
        let ts = any_ts(&mut r, true);
        let n = format!("{fid}_{}_{ts}.parquet", gen_token(&mut r));
        bases.entry(ts.clone()).or_insert(n);
        for _ in 0..r.below(6) {
            let v = 1 + r.below(12) as u64 + *r.pick(&[0u64, 0, 0, 0, 92, 250, 993, 32_761, 65_530, 2_147_483_630]);
            let tok = gen_token(&mut r);
            let n = format!(".{fid}_{ts}.log.{v}_{tok}");
            logs.entry(ts.clone()).or_default().insert((v, tok, n));
        }
    }
    e.detail = format!("group {fid} in {part:?}: bases {bases:?} logs {logs:?}");
    e.eval();
    e.sig_s(&e.detail.clone());
    let view = |g: &FileGroup| -> Vec<(String, String, String, Vec<String>)> {
        g.file_slices.iter().map(|(t, s)| (t.clone(), s.partition_path.clone(), s.base_file.file_name(), s.log_files.iter().map(|l| l.file_name()).collect())).collect()
    };
    let want: Vec<(String, String, String, Vec<String>)> = bases
        .iter()
        .map(|(t, n)| (t.clone(), part.clone(), n.clone(), logs.get(t).into_iter().flatten().map(|x| x.2.clone()).collect()))
        .collect();
    // version first; how equal versions are ordered is only fixed to be the same in every build
    let versions = |v: &[String]| v.iter().map(|n| log_grammar(n).unwrap().3.parse::<u64>().unwrap()).collect::<Vec<_>>();
    let mut first: Option<Vec<(String, String, String, Vec<String>)>> = None;
    for round in 0..4 {
        let mut bs: Vec<BaseFile> = bases.values().map(|n| BaseFile::from_str(n).unwrap()).collect();
        let mut ls: Vec<LogFile> = logs.values().flatten().map(|x| LogFile::from_str(&x.2).unwrap()).collect();
        r.shuffle(&mut bs);
        r.shuffle(&mut ls);
        let mode = r.below(3);
        let mut rr = r.fork();
        let g = call_sync("build file group", || -> Result<FileGroup, CoreError> {
            let mut g = FileGroup::new(fid.clone(), part.clone());
            match mode {
                0 => {
                    g.add_base_files(bs.clone())?;
                    g.add_log_files(ls.clone())?;
                }
                1 => {
                    // base file by base file, each followed by its logs, in any order
                    for b in &bs {
                        g.add_base_file_from_name(&b.file_name())?;
                    }
                    for l in &ls {
                        g.add_log_file_from_name(&l.file_name())?;
                    }
                }
                _ => {
                    // merge partial groups
                    let mut parts = vec![];
                    for b in &bs {
                        let mut own: Vec<LogFile> = ls.iter().filter(|l| l.base_commit_timestamp == b.commit_timestamp).cloned().collect();
                        let k = rr.below(own.len() + 1);
                        let rest = own.split_off(k);
                        for set in [own, rest] {
                            let mut p = FileGroup::new_with_base_file_name(fid.clone(), part.clone(), &b.file_name())?;
                            p.add_log_files(set)?;
                            parts.push(p);
                        }
                    }
                    rr.shuffle(&mut parts);
                    for p in &parts {
                        g.merge(p)?;
                    }
                }
            }
            Ok(g)
        });
        let g = match g {
            Res::Ok(g) => g,
            x => {
                e.viol("group", format!("building the group (mode {mode}): {}", x.why()));
                return;
            }
        };
        let got = view(&g);
        let mut s1 = got.clone();
        let mut s2 = want.clone();
        s1.iter_mut().chain(s2.iter_mut()).for_each(|x| x.3.sort());
        if s1 != s2 {
            e.viol("group", format!("mode {mode}: slices {got:?}, want {want:?}"));
            return;
        }
        for (t, _, _, l) in &got {
            let v = versions(l);
            if v.windows(2).any(|w| w[0] > w[1]) {
                e.viol("log-order", format!("log files of slice {t} are ordered {l:?}"));
            }
        }
        match &first {
            None => first = Some(got),
            Some(f) if *f != got => e.viol("group", format!("build {round} (mode {mode}) orders files {got:?}, an earlier one {f:?}")),
            _ => {}
        }
        // slices as of a time
        let mut ts: Vec<String> = bases.keys().cloned().collect();
        for _ in 0..3 {
            ts.push(any_ts(&mut r, true));
        }
        for t in ts {
            let w = bases.range(..=t.clone()).next_back().map(|x| x.1.clone());
            let g1 = g.get_file_slice_as_of(&t).map(|s| s.base_file.file_name());
            let g2 = g.clone().get_file_slice_mut_as_of(&t).map(|s| s.base_file.file_name());
            if g1 != w || g2 != w {
                e.viol("as-of", format!("slice as of {t} is {g1:?} and {g2:?}, want {w:?}"));
            }
        }
        // identity of paths
        for s in g.file_slices.values() {
            let pre = if part.is_empty() { String::new() } else { format!("{part}/") };
            if s.base_file_relative_path().ok() != Some(format!("{pre}{}", s.base_file.file_name())) || s.file_id() != fid || s.has_log_file() == s.log_files.is_empty() || s.creation_instant_time() != s.base_file.commit_timestamp {
                e.viol("identity", format!("slice {s} misreports itself"));
            }
            for l in &s.log_files {
                if s.log_file_relative_path(l).ok() != Some(format!("{pre}{}", l.file_name())) {
                    e.viol("identity", format!("log path of {l}"));
                }
            }
        }
        // a second base file of the same instant, or a log file of an unknown one, is refused
        if let Some((t, _)) = bases.iter().next() {
            let mut g2 = g.clone();
            if call_sync("dup", || g2.add_base_file_from_name(&format!("{fid}_9-9-9_{t}.parquet")).map(|_| ())).is_ok() {
                e.viol("group", format!("a second base file of instant {t} replaces the first"));
            }
            if call_sync("orphan", || g2.add_log_file_from_name(&format!(".{fid}_00010101000000000.log.1_0-0-0")).map(|_| ())).is_ok() {
                e.viol("group", "a log file of an unknown base instant is accepted".to_string());
            }
            let mut other = FileGroup::new(fid.clone() + "x", part.clone());
            if call_sync("merge", || other.merge(&g)).is_ok() {
                e.viol("group", "different file groups merge".to_string());
            }
        }
    }
    // slices merge only with themselves
    let v: Vec<FileSlice> = bases.values().map(|n| FileSlice::new(BaseFile::from_str(n).unwrap(), part.clone())).collect();
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            let mut c = a.clone();
            let ok = call_sync("slice merge", || c.merge(b)).is_ok();
            if ok != (i == j) {
                e.viol("group", format!("merging slices {a} and {b}: {ok}"));
            }
        }
    }
    // order of log files is total and consistent with equality
    let all: Vec<LogFile> = logs.values().flatten().map(|x| LogFile::from_str(&x.2).unwrap()).collect();
    for a in &all {
        for b in &all {
            if (a == b) != (a.cmp(b) == std::cmp::Ordering::Equal) || a.cmp(b) != b.cmp(a).reverse() || (a == b) != (a.file_name() == b.file_name()) {
                e.viol("log-order", format!("{a} and {b} compare inconsistently"));
            }
        }
    }
    let _: HashMap<(), ()> = HashMap::new();
    let _: Option<NaiveDateTime> = None;
    let d = e.detail.clone();
    e.sample(d);
}
