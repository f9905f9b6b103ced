//! Instrumented object store: operation log, listing order, delays, faults, per-operation callback.
use std::collections::HashMap;
use std::fmt;
use std::ops::Range;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, RwLock};

use async_trait::async_trait;
use bytes::Bytes;
use futures::stream::BoxStream;
use futures::StreamExt;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::*;

use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OpKind {
    Get,
    Head,
    ListDelim,
    List,
    Put,
    Delete,
    Copy,
    Rename,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub seq: u64,
    pub kind: OpKind,
    pub path: String,
    pub ranges: usize,
    pub ok: Option<bool>,
    /// set while the operation was in flight together with this many others of its kind
    pub inflight_same: i64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    NotFound,
    Generic,
    Permission,
    /// the data of a get is cut short (only gets; others become Generic)
    ShortBody,
    /// the body stream yields an error after the first half
    BrokenBody,
}

type Callback = dyn Fn(&Ctl, OpKind, &str) + Send + Sync;

#[derive(Default)]
pub struct Ctl {
    pub log: Mutex<Vec<OpRec>>,
    pub next: AtomicU64,
    pub inflight: AtomicI64,
    pub inflight_list: AtomicI64,
    pub max_inflight: AtomicI64,
    pub max_inflight_list: AtomicI64,
    /// fault by index of the operation since `arm`
    pub faults: Mutex<HashMap<u64, Fault>>,
    /// random faults: probability in percent
    pub fault_pct: Mutex<Option<(Rng, u32)>>,
    pub fault_base: AtomicU64,
    pub faults_hit: AtomicU64,
    /// number of yields before an operation proceeds, drawn per operation
    pub sched: Mutex<Option<(Rng, u32)>>,
    /// real delays in microseconds (multi-threaded runs)
    pub delay_us: Mutex<Option<(Rng, u64)>>,
    pub shuffle: Mutex<Option<Rng>>,
    pub callback: RwLock<Option<Arc<Callback>>>,
    pub record: AtomicBool,
    pub trace_hash: AtomicU64,
}

impl fmt::Debug for Ctl {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Ctl")
    }
}

impl Ctl {
    pub fn new() -> Arc<Self> {
        let c = Ctl::default();
        c.record.store(true, Ordering::SeqCst);
        Arc::new(c)
    }
    pub fn clear_log(&self) {
        self.log.lock().unwrap().clear();
    }
    pub fn ops(&self) -> Vec<OpRec> {
        self.log.lock().unwrap().clone()
    }
    pub fn count(&self) -> u64 {
        self.next.load(Ordering::SeqCst)
    }
    pub fn arm(&self, faults: HashMap<u64, Fault>) {
        self.fault_base.store(self.count(), Ordering::SeqCst);
        self.faults_hit.store(0, Ordering::SeqCst);
        *self.faults.lock().unwrap() = faults;
    }
    pub fn disarm(&self) {
        self.faults.lock().unwrap().clear();
        *self.fault_pct.lock().unwrap() = None;
    }

    async fn enter(&self, kind: OpKind, path: &str, ranges: usize) -> (usize, Option<Fault>, Leave<'_>) {
        let seq = self.next.fetch_add(1, Ordering::SeqCst);
        let n = self.inflight.fetch_add(1, Ordering::SeqCst) + 1;
        self.max_inflight.fetch_max(n, Ordering::SeqCst);
        let nl = if kind == OpKind::ListDelim {
            let l = self.inflight_list.fetch_add(1, Ordering::SeqCst) + 1;
            self.max_inflight_list.fetch_max(l, Ordering::SeqCst);
            l
        } else {
            0
        };
        let leave = Leave { ctl: self, kind };
        let idx = if self.record.load(Ordering::Relaxed) {
            let mut l = self.log.lock().unwrap();
            l.push(OpRec { seq, kind, path: path.to_string(), ranges, ok: None, inflight_same: nl });
            l.len() - 1
        } else {
            usize::MAX
        };
        let cb = self.callback.read().unwrap().clone();
        if let Some(cb) = cb {
            cb(self, kind, path);
        }
        let yields = {
            let mut s = self.sched.lock().unwrap();
            s.as_mut().map(|(r, m)| r.below(*m as usize + 1))
        };
        if let Some(y) = yields {
            for _ in 0..y {
                tokio::task::yield_now().await;
            }
        }
        let d = {
            let mut s = self.delay_us.lock().unwrap();
            s.as_mut().map(|(r, m)| r.below(*m as usize + 1) as u64)
        };
        if let Some(d) = d {
            if d > 0 {
                tokio::time::sleep(std::time::Duration::from_micros(d)).await;
            } else {
                tokio::task::yield_now().await;
            }
        }
        // order in which operations complete, folded into one number: distinct interleavings
        let h = crate::rng::hash_str(path) ^ (kind as u64);
        let old = self.trace_hash.load(Ordering::SeqCst);
        self.trace_hash.store(crate::rng::mix(old ^ h), Ordering::SeqCst);
        let rel = seq.wrapping_sub(self.fault_base.load(Ordering::SeqCst));
        let mut fault = self.faults.lock().unwrap().get(&rel).copied();
        if fault.is_none() {
            if let Some((r, pct)) = self.fault_pct.lock().unwrap().as_mut() {
                if r.chance(*pct) {
                    fault = Some(*r.pick(&[
                        Fault::NotFound,
                        Fault::Generic,
                        Fault::Permission,
                        Fault::ShortBody,
                        Fault::BrokenBody,
                    ]));
                }
            }
        }
        if fault.is_some() {
            self.faults_hit.fetch_add(1, Ordering::SeqCst);
        }
        (idx, fault, leave)
    }
}

struct Leave<'a> {
    ctl: &'a Ctl,
    kind: OpKind,
}
impl Drop for Leave<'_> {
    fn drop(&mut self) {
        self.ctl.inflight.fetch_sub(1, Ordering::SeqCst);
        if self.kind == OpKind::ListDelim {
            self.ctl.inflight_list.fetch_sub(1, Ordering::SeqCst);
        }
    }
}

pub fn fault_error(f: Fault, path: &str) -> Error {
    match f {
        Fault::NotFound => Error::NotFound {
            path: path.to_string(),
            source: "injected".into(),
        },
        Fault::Permission => Error::PermissionDenied {
            path: path.to_string(),
            source: "injected".into(),
        },
        _ => Error::Generic { store: "verif", source: format!("injected at {path}").into() },
    }
}

#[derive(Debug)]
pub struct MonStore {
    pub ctl: Arc<Ctl>,
    pub inner: Arc<dyn ObjectStore>,
}

impl fmt::Display for MonStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "MonStore({})", self.inner)
    }
}

impl MonStore {
    fn done(&self, idx: usize, ok: bool) {
        if idx != usize::MAX {
            if let Some(r) = self.ctl.log.lock().unwrap().get_mut(idx) {
                r.ok = Some(ok);
            }
        }
    }
}

#[async_trait]
impl ObjectStore for MonStore {
    async fn put_opts(&self, location: &Path, payload: PutPayload, opts: PutOptions) -> Result<PutResult> {
        let (idx, f, _l) = self.ctl.enter(OpKind::Put, location.as_ref(), 0).await;
        if let Some(f) = f {
            return Err(fault_error(f, location.as_ref()));
        }
        self.done(idx, true);
        self.inner.put_opts(location, payload, opts).await
    }
    async fn put_multipart_opts(&self, location: &Path, opts: PutMultipartOpts) -> Result<Box<dyn MultipartUpload>> {
        let (idx, _f, _l) = self.ctl.enter(OpKind::Put, location.as_ref(), 0).await;
        self.done(idx, true);
        self.inner.put_multipart_opts(location, opts).await
    }
    async fn get_opts(&self, location: &Path, options: GetOptions) -> Result<GetResult> {
        let kind = if options.head { OpKind::Head } else { OpKind::Get };
        let (idx, f, _l) = self.ctl.enter(kind, location.as_ref(), 1).await;
        if let Some(f) = f {
            self.done(idx, false);
            if kind == OpKind::Get && matches!(f, Fault::ShortBody | Fault::BrokenBody) {
                let r = self.inner.get_opts(location, options).await?;
                let meta = r.meta.clone();
                let range = r.range.clone();
                let attributes = r.attributes.clone();
                let b = r.bytes().await?;
                // half of a log file may end at a block boundary, which nothing can tell from a shorter file
                let half = if location.as_ref().contains(".log.") { b.len().saturating_sub(1) } else { b.len() / 2 };
                let cut = b.slice(0..half);
                let loc = location.to_string();
                let items: Vec<Result<Bytes>> = if f == Fault::ShortBody {
                    vec![Ok(cut)]
                } else {
                    vec![Ok(cut), Err(fault_error(Fault::Generic, &loc))]
                };
                return Ok(GetResult {
                    payload: GetResultPayload::Stream(futures::stream::iter(items).boxed()),
                    meta,
                    range,
                    attributes,
                });
            }
            return Err(fault_error(f, location.as_ref()));
        }
        let r = self.inner.get_opts(location, options).await;
        self.done(idx, r.is_ok());
        r
    }
    async fn get_range(&self, location: &Path, range: Range<usize>) -> Result<Bytes> {
        let (idx, f, _l) = self.ctl.enter(OpKind::Get, location.as_ref(), 1).await;
        if let Some(f) = f {
            self.done(idx, false);
            return Err(fault_error(f, location.as_ref()));
        }
        let r = self.inner.get_range(location, range).await;
        self.done(idx, r.is_ok());
        r
    }
    async fn get_ranges(&self, location: &Path, ranges: &[Range<usize>]) -> Result<Vec<Bytes>> {
        let (idx, f, _l) = self.ctl.enter(OpKind::Get, location.as_ref(), ranges.len()).await;
        if let Some(f) = f {
            self.done(idx, false);
            return Err(fault_error(f, location.as_ref()));
        }
        let r = self.inner.get_ranges(location, ranges).await;
        self.done(idx, r.is_ok());
        r
    }
    async fn head(&self, location: &Path) -> Result<ObjectMeta> {
        let (idx, f, _l) = self.ctl.enter(OpKind::Head, location.as_ref(), 0).await;
        if let Some(f) = f {
            self.done(idx, false);
            return Err(fault_error(f, location.as_ref()));
        }
        let r = self.inner.head(location).await;
        self.done(idx, r.is_ok());
        r
    }
    async fn delete(&self, location: &Path) -> Result<()> {
        let (idx, _, _l) = self.ctl.enter(OpKind::Delete, location.as_ref(), 0).await;
        self.done(idx, true);
        self.inner.delete(location).await
    }
    fn list(&self, prefix: Option<&Path>) -> BoxStream<'_, Result<ObjectMeta>> {
        let p = prefix.cloned();
        futures::stream::once(async move {
            let ps = p.as_ref().map(|x| x.to_string()).unwrap_or_default();
            let (idx, f, _l) = self.ctl.enter(OpKind::List, &ps, 0).await;
            if let Some(f) = f {
                self.done(idx, false);
                return futures::stream::iter(vec![Err(fault_error(f, &ps))]).boxed();
            }
            let v: Vec<Result<ObjectMeta>> = self.inner.list(p.as_ref()).collect().await;
            self.done(idx, true);
            futures::stream::iter(v).boxed()
        })
        .flatten()
        .boxed()
    }
    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        let ps = prefix.map(|x| x.to_string()).unwrap_or_default();
        let (idx, f, _l) = self.ctl.enter(OpKind::ListDelim, &ps, 0).await;
        if let Some(f) = f {
            self.done(idx, false);
            return Err(fault_error(f, &ps));
        }
        let r = self.inner.list_with_delimiter(prefix).await;
        self.done(idx, r.is_ok());
        let mut r = r?;
        if let Some(g) = self.ctl.shuffle.lock().unwrap().as_mut() {
            g.shuffle(&mut r.objects);
            g.shuffle(&mut r.common_prefixes);
        }
        Ok(r)
    }
    async fn copy(&self, from: &Path, to: &Path) -> Result<()> {
        let (idx, _, _l) = self.ctl.enter(OpKind::Copy, from.as_ref(), 0).await;
        self.done(idx, true);
        self.inner.copy(from, to).await
    }
    async fn copy_if_not_exists(&self, from: &Path, to: &Path) -> Result<()> {
        let (idx, _, _l) = self.ctl.enter(OpKind::Copy, from.as_ref(), 0).await;
        self.done(idx, true);
        self.inner.copy_if_not_exists(from, to).await
    }
}

// ---------- registry: base URL prefix -> store ----------
#[derive(Clone)]
pub struct Entry {
    pub ctl: Arc<Ctl>,
    /// None: wrap the store the library created
    pub mem: Option<Arc<InMemory>>,
}

static REG: RwLock<Option<HashMap<String, Entry>>> = RwLock::new(None);

/// Tables under `file:///hv/<id>/...` live in memory; `id` selects the store and its controls.
pub fn register(id: &str, e: Entry) {
    REG.write().unwrap().get_or_insert_with(HashMap::new).insert(id.to_string(), e);
}
pub fn unregister(id: &str) {
    if let Some(m) = REG.write().unwrap().as_mut() {
        m.remove(id);
    }
}

#[cfg(hudi_verif)]
pub fn install() {
    hudi_core::storage::verif_hook::set_store_wrapper(Some(Arc::new(|url, store| {
        let path = url.path();
        let g = REG.read().unwrap();
        let Some(m) = g.as_ref() else { return store };
        for seg in path.split('/') {
            if let Some(e) = m.get(seg) {
                let inner: Arc<dyn ObjectStore> = match &e.mem {
                    Some(x) => x.clone(),
                    None => store,
                };
                return Arc::new(MonStore { ctl: e.ctl.clone(), inner });
            }
        }
        store
    })));
}
