//! C29: calls that are cancelled (their future dropped) leave no trace.
use super::avail::*;
use super::read::fresh;
use super::*;
use crate::sim::Sim;
use hudi_core::error::CoreError;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::Poll;

pub static PROPS: &[Prop] = &[Prop { id: "C29", run: c29, quick: 5000, thorough: 60000, level: "exploration", threads: 4, stall_s: 25, alloc_limit: NOLIM,
    rule: "random calls on one table object dropped after a random number of polls, alone or next to others, on a cold or a warm object, and tasks aborted on several threads; every call that is not dropped against the same call run alone, no storage operation by a dropped call, plus a hang watchdog; distinct = (call, storage operation it was dropped at) and plans of concurrent calls" }];

/// Polls the future at most n times, then drops it: None if it had not finished by then.
async fn at_most<T>(f: impl Future<Output = T>, n: u64) -> Option<T> {
    let mut f: Pin<Box<dyn Future<Output = T>>> = Box::pin(f);
    let mut left = n;
    let r = futures::future::poll_fn(|cx| {
        if left == 0 {
            return Poll::Ready(None);
        }
        left -= 1;
        match f.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending if left == 0 => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    })
    .await;
    drop(f);
    r
}

fn kind(q: &Q) -> String {
    format!("{q:?}").split('(').next().unwrap_or("").to_string()
}

fn c29(e: &mut Env) {
    let mor = e.r.chance(55);
    let mut sim = fresh(e, mor, |s, _| s.big = false);
    if e.r.chance(40) && !sim.spec.part.is_empty() {
        let mut r = e.r.fork();
        let spec = sim.spec.clone();
        let np = 3 + r.below(6);
        sim = Sim::new(spec, r, true, np);
    }
    let t = e.table(&mut sim);
    let n = 1 + e.r.below(5);
    sim.grow(n, false);
    let par = *e.r.pick(&[1usize, 2, 10]);
    let o = vec![opt("hoodie.read.listing.parallelism", &par.to_string())];
    let nq = 3 + e.r.below(5);
    let qs: Vec<Q> = (0..nq).map(|_| gen_q(&mut e.r, &sim)).collect();
    e.detail = format!("{qs:?} | {}", context(&sim));
    let mut alone = vec![];
    for q in &qs {
        alone.push(e.call("alone", async { ask(&open(&t.url, &o).await?, q).await }));
    }
    let check = |e: &mut Env, what: &str, i: usize, got: Res<Vec<String>>| match (&alone[i], &got) {
        (Res::Ok(a), Res::Ok(b)) if a == b => e.count("answers_compared", 1),
        (Res::Err(_), Res::Err(_)) => e.count("errors_compared", 1),
        (Res::Ok(a), Res::Ok(b)) => e.viol("differs", format!("{what}: {:?}: {}", qs[i], diff(b, a))),
        (a, b) => e.viol("differs", format!("{what}: {:?}: alone {}, now {}", qs[i], a.why(), b.why())),
    };
    let sched = |e: &mut Env, most: u32| {
        *t.ctl.shuffle.lock().unwrap() = Some(e.r.fork());
        *t.ctl.sched.lock().unwrap() = Some((e.r.fork(), most));
    };
    let tb = match e.call("open", open(&t.url, &o)) {
        Res::Ok(t) => Arc::new(t),
        x => {
            e.viol("failed", x.why());
            return;
        }
    };
    // one call cancelled at a time, then others on the same object
    for round in 0..4 {
        sched(e, 3);
        let i = e.r.below(nq);
        let k = *e.r.pick(&[1u64, 2, 3, 5, 8, 13, 21, 34, 55]) + e.r.below(4) as u64;
        let first = e.r.chance(20);
        let ctl = t.ctl.clone();
        let from = ctl.count();
        let r = e.call("cancelled call", async {
            let done = if first {
                at_most(async { ask(&open(&t.url, &o).await?, &qs[i]).await }, k).await.is_some()
            } else {
                at_most(ask(&tb, &qs[i]), k).await.is_some()
            };
            let at = ctl.count();
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            Ok::<_, CoreError>((done, at, ctl.count()))
        });
        *t.ctl.sched.lock().unwrap() = None;
        let what = match r {
            Res::Ok((done, at, after)) => {
                e.count(if done { "finished_before_cancelled" } else { "cancelled" }, 1);
                if after != at && !done {
                    e.viol("goes-on", format!("{:?} cancelled after {k} polls starts {} more storage operations", qs[i], after - at));
                }
                if !done {
                    e.sig_s(&format!("{}@{}", kind(&qs[i]), at - from));
                }
                format!("after {:?} was cancelled at storage operation {} (round {round})", qs[i], at - from)
            }
            x => {
                e.viol("failed", format!("{:?}: {}", qs[i], x.why()));
                return;
            }
        };
        for _ in 0..2 {
            let j = if e.r.chance(35) { i } else { e.r.below(nq) };
            e.eval();
            let got = e.call("call after a cancelled one", ask(&tb, &qs[j]));
            check(e, &what, j, got);
        }
    }
    // some of several concurrent calls cancelled
    for _ in 0..2 {
        sched(e, 4);
        let plan: Vec<(usize, Option<u64>)> = (0..3 + e.r.below(5)).map(|_| (e.r.below(nq), if e.r.chance(50) { Some(1 + e.r.below(40) as u64) } else { None })).collect();
        let warm = e.r.chance(50);
        e.eval();
        let r = e.call("concurrent calls, some cancelled", async {
            let tb2 = if warm { tb.clone() } else { Arc::new(open(&t.url, &o).await?) };
            let fs = plan.iter().map(|(i, k)| {
                let (q, tb2) = (&qs[*i], &tb2);
                async move {
                    match k {
                        Some(k) => at_most(ask(tb2, q), *k).await,
                        None => Some(ask(tb2, q).await),
                    }
                }
            });
            let v = futures::future::join_all(fs).await;
            Ok::<_, CoreError>(v.into_iter().map(|x| x.map(|r| r.map_err(|e| e.to_string()))).collect::<Vec<_>>())
        });
        *t.ctl.sched.lock().unwrap() = None;
        match r {
            Res::Ok(v) => {
                for ((i, k), got) in plan.iter().zip(v) {
                    let got = match got {
                        Some(Ok(v)) => Res::Ok(v),
                        Some(Err(x)) => Res::Err(x),
                        None => {
                            e.count("cancelled", 1);
                            continue;
                        }
                    };
                    check(e, &format!("next to cancelled calls {plan:?} (polls {k:?})"), *i, got);
                }
                e.sig_s(&format!("{:?}", plan.iter().map(|(i, k)| (kind(&qs[*i]), k.map(|k| k / 8))).collect::<Vec<_>>()));
            }
            x => e.viol("failed", format!("{plan:?}: {}", x.why())),
        }
        let j = e.r.below(nq);
        e.eval();
        let got = e.call("call after cancelled ones", ask(&tb, &qs[j]));
        check(e, "after concurrent calls were cancelled", j, got);
    }
    // tasks aborted on several threads
    if e.case % 4 == 0 {
        sched(e, 3);
        *t.ctl.delay_us.lock().unwrap() = Some((e.r.fork(), 200));
        let plan: Vec<(usize, Option<u64>)> = (0..3 + e.r.below(5)).map(|_| (e.r.below(nq), if e.r.chance(50) { Some(e.r.below(1500) as u64) } else { None })).collect();
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2 + e.r.below(2)).enable_all().build().unwrap();
        e.eval();
        let (tb2, qs2, plan2) = (tb.clone(), qs.clone(), plan.clone());
        let ctl = t.ctl.clone();
        let r = call_sync("tasks, some aborted", || {
            rt.block_on(async {
                let hs: Vec<_> = plan2
                    .iter()
                    .map(|(i, k)| {
                        let (q, tb) = (qs2[*i].clone(), tb2.clone());
                        let h = tokio::spawn(async move { ask(&tb, &q).await.map_err(|e| e.to_string()) });
                        if let Some(us) = k {
                            let (a, us) = (h.abort_handle(), *us);
                            tokio::spawn(async move {
                                tokio::time::sleep(std::time::Duration::from_micros(us)).await;
                                a.abort();
                            });
                        }
                        h
                    })
                    .collect();
                let mut out = vec![];
                for h in hs {
                    out.push(match h.await {
                        Ok(Ok(v)) => Some(Res::Ok(v)),
                        Ok(Err(x)) => Some(Res::Err(x)),
                        Err(x) if x.is_cancelled() => None,
                        Err(x) => Some(Res::Panic(x.to_string())),
                    });
                }
                let at = ctl.count();
                tokio::time::sleep(std::time::Duration::from_millis(2)).await;
                Ok::<_, CoreError>((out, ctl.count() - at))
            })
        });
        drop(rt);
        *t.ctl.sched.lock().unwrap() = None;
        *t.ctl.delay_us.lock().unwrap() = None;
        match r {
            Res::Ok((v, more)) => {
                if more > 0 {
                    e.viol("goes-on", format!("{more} storage operations after all calls finished or were aborted"));
                }
                for ((i, _), got) in plan.iter().zip(v) {
                    match got {
                        Some(g) => check(e, &format!("next to aborted tasks {plan:?}"), *i, g),
                        None => e.count("tasks_aborted", 1),
                    }
                }
            }
            x => e.viol("failed", format!("{plan:?}: {}", x.why())),
        }
        let j = e.r.below(nq);
        e.eval();
        let got = e.call("call after aborted tasks", ask(&tb, &qs[j]));
        check(e, "after tasks were aborted", j, got);
    }
    e.sample(format!("case {}: {} calls {qs:?}", e.case, sim.describe()));
}
