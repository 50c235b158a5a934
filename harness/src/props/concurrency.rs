//! Concurrent clients under a generated schedule: C06.

use super::*;
use crate::db::{block_on, poll_once, Fault, YieldOnce, FAULTS};
use crate::engine::MB;
use crate::model::{by_keyword, reach};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

pub static C06: Prop = Prop {
    id: "C06",
    level: "exploration",
    rule: "2-4 clients, each with a program of 1-3 add/delete/search calls (through one shared instance or one each; in a third of the cases some requests fail or some calls are abandoned half-way, and then count as done entirely or not at all) over 1-4 keywords and 1-4 data, on an index with some prior content; the schedule is generated: one choice of client per database request (uniform, bursty, or round-robin). Afterwards, for each keyword, the final associations must be those of some sequential order of the calls on it that respects real time (all orders are enumerated), and every search must lie between the associations settled before it and those that could exist. Non-trivial: two updates of the same keyword overlap in time and at least one upsert was rejected (a compare-and-swap conflict), or a search overlaps an update of a keyword it reads",
    quick: 54_000,
    thorough: 4_500_000,
    run: c06,
    scenarios: &[
        ("real threads sharing one instance or not", c06_threads),
        ("an update that loses hundreds of races", c06_losing),
        ("dozens of clients updating the same keywords", c06_crowd),
    ],
    budget: 128 * MB,
    assumptions: &["each database request is atomic (DbInterface contract); clients interleave between requests"],
    stack: 2 << 20,
};

#[derive(Clone, Debug)]
enum Op {
    Update(bool, Assoc),
    Search(BTreeSet<Bytes>),
}

enum Out {
    Updated,
    Found(world::Res),
}

struct Done {
    op: Op,
    start: u64,
    end: u64,
    found: Option<world::Res>,
    /// The call failed or was abandoned: it may have had its effect or not.
    maybe: bool,
}

/// An update seen from one keyword: start, end, addition, values, uncertain.
type Upd = (u64, u64, bool, BTreeSet<Val>, bool);

fn show_op(o: &Op) -> String {
    match o {
        Op::Update(true, a) => format!("add {}", show_assoc(a)),
        Op::Update(false, a) => format!("delete {}", show_assoc(a)),
        Op::Search(k) => format!("search {}", show_set(k)),
    }
}

fn c06(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = Pool::simple(c, 4, 4);
    let cr = Creds::new(c);
    let first = w.client();
    let mut m = Model::default();
    build(c, &w, &first, &cr, &mut m, &pool, 0, 3)?;
    let k = c.range(2, 4) as usize;
    // All calls through the same instance, or one instance each.
    let shared = c.chance(1, 3);
    let clients: Vec<Fx> = (0..if shared { 1 } else { k }).map(|_| w.client()).collect();
    // Some calls fail or are abandoned half-way.
    let faulty = c.chance(1, 3);
    let faults: Vec<(u64, Fault)> = if faulty {
        (0..c.range(1, 2)).map(|_| (c.below(24), FAULTS[c.idx(2)])).collect()
    } else {
        vec![]
    };
    let mut abandon: BTreeSet<u64> =
        if faulty && c.chance(1, 2) { (0..c.range(1, 2)).map(|_| c.range(2, 30)).collect() } else { BTreeSet::new() };
    if faulty {
        c.note(|| format!("faults at requests {faults:?}, calls abandoned at steps {abandon:?}"));
    }
    let mut programs: Vec<Vec<Op>> = (0..k)
        .map(|_| {
            let n = c.range(1, 3);
            (0..n)
                .map(|_| match c.weighted(&[5, 3, 3]) {
                    0 => Op::Update(true, pool.assoc(c)),
                    1 => Op::Update(false, gen_deletion(c, &pool, &m)),
                    _ => Op::Search(pool.some_kws(c)),
                })
                .collect()
        })
        .collect();
    for (i, p) in programs.iter().enumerate() {
        c.note(|| format!("client {i}: {}", p.iter().map(show_op).collect::<Vec<_>>().join(" ; ")));
    }
    let mode = c.below(3);
    w.ctl.arm(&faults);
    w.ctl.set_budget(CALL_BUDGET);
    w.ctl.logging.set(true);
    w.ctl.take_log();
    w.ctl.yields.set(true);

    type Fut<'a> = Pin<Box<dyn Future<Output = Result<Out, FErr>> + 'a>>;
    struct Running<'a> {
        fut: Fut<'a>,
        op: Op,
        start: u64,
    }
    let mut running: Vec<Option<Running<'_>>> = (0..k).map(|_| None).collect();
    let mut done: Vec<Done> = Vec::new();
    let mut clock = 0u64;
    let mut order = Vec::new();
    let mut last = 0usize;
    let mut rr = 0usize;
    loop {
        let alive: Vec<usize> =
            (0..k).filter(|i| running[*i].is_some() || !programs[*i].is_empty()).collect();
        if alive.is_empty() {
            break;
        }
        let i = match mode {
            0 => alive[c.idx(alive.len())],
            1 => {
                // Bursts: mostly the same client.
                if alive.contains(&last) && !c.chance(1, 4) {
                    last
                } else {
                    alive[c.idx(alive.len())]
                }
            }
            _ => {
                rr += 1;
                if c.chance(1, 6) {
                    alive[c.idx(alive.len())]
                } else {
                    alive[rr % alive.len()]
                }
            }
        };
        last = i;
        order.push(i);
        clock += 1;
        if clock > 30_000 {
            return Err("concurrent calls do not terminate".into());
        }
        if running[i].is_none() {
            let op = programs[i].remove(0);
            let (fx, cr) = (&clients[i % clients.len()], &cr);
            let o = op.clone();
            let fut: Fut<'_> = Box::pin(async move {
                YieldOnce(false).await;
                match o {
                    Op::Update(add, a) => world::update(fx, cr, add, &a).await.map(|_| Out::Updated),
                    Op::Search(ks) => world::search(fx, cr, &ks).await.map(Out::Found),
                }
            });
            running[i] = Some(Running { fut, op, start: clock });
        }
        w.ctl.task.set(i);
        if abandon.remove(&clock) {
            let x = running[i].take().unwrap();
            c.label("abandoned call");
            order.push(usize::MAX);
            done.push(Done { op: x.op, start: x.start, end: clock, found: None, maybe: true });
            continue;
        }
        let r = poll_once(&mut running[i].as_mut().unwrap().fut);
        if let Poll::Ready(r) = r {
            let x = running[i].take().unwrap();
            let r = match r {
                Err(cosmian_findex::Error::DbInterface(e)) if faulty && e.0.starts_with("injected") => {
                    c.label("failed call");
                    done.push(Done { op: x.op, start: x.start, end: clock, found: None, maybe: true });
                    continue;
                }
                r => world::err(r, &format!("concurrent {}", show_op(&x.op)))?,
            };
            let found = match r {
                Out::Updated => None,
                Out::Found(f) => Some(f),
            };
            done.push(Done { op: x.op, start: x.start, end: clock, found, maybe: false });
        }
    }
    w.ctl.yields.set(false);
    let over = w.ctl.over_budget();
    w.ctl.disarm();
    if over {
        return Err(format!("more than {CALL_BUDGET} requests for a few concurrent calls"));
    }
    let conflicts = w
        .ctl
        .take_log()
        .iter()
        .filter(|x| x.kind == crate::db::Kind::Upsert && x.returned > 0)
        .count();
    w.ctl.logging.set(false);
    c.count("rejected upserts", conflicts as u64);
    c.note(|| format!("schedule {order:?}"));

    // Final content: per keyword, some real-time-respecting order explains it.
    let finald = direct(&w, &first, &cr, &pool.kws)?;
    let updates: Vec<&Done> = done.iter().filter(|d| matches!(d.op, Op::Update(..))).collect();
    let mut overlap = false;
    for kw in &pool.kws {
        let mine: Vec<Upd> = updates
            .iter()
            .filter_map(|d| match &d.op {
                Op::Update(add, a) => {
                    by_keyword(a).remove(kw).map(|vs| (d.start, d.end, *add, vs, d.maybe))
                }
                Op::Search(_) => None,
            })
            .collect();
        for (i, a) in mine.iter().enumerate() {
            for b in &mine[i + 1..] {
                if a.0 <= b.1 && b.0 <= a.1 {
                    overlap = true;
                }
            }
        }
        let init = m.kws.get(kw).cloned().unwrap_or_default();
        let got = finald.get(kw).cloned().unwrap_or_default();
        let mut used = vec![false; mine.len()];
        if !explain(&mine, &mut used, &init, &got) {
            return Err(format!(
                "keyword {}: final associations [{}] are not explained by any order of the {} calls on it (before: [{}])",
                show(kw),
                got.iter().map(crate::model::show_val).collect::<Vec<_>>().join(","),
                mine.len(),
                init.iter().map(crate::model::show_val).collect::<Vec<_>>().join(",")
            ));
        }
    }
    // Searches: bounds.
    let mut search_overlap = false;
    for s in done.iter().filter(|d| d.found.is_some()) {
        let mut lower: BTreeMap<Bytes, BTreeSet<Val>> = BTreeMap::new();
        let mut upper: BTreeMap<Bytes, BTreeSet<Val>> = BTreeMap::new();
        for kw in &pool.kws {
            let init = m.kws.get(kw).cloned().unwrap_or_default();
            let mut vals: BTreeSet<Val> = init.clone();
            for u in &updates {
                if let Op::Update(_, a) = &u.op {
                    vals.extend(by_keyword(a).remove(kw).unwrap_or_default());
                }
            }
            for v in vals {
                // Calls on this very association started before the search ended.
                let touching: Vec<(u64, u64, bool, bool)> = updates
                    .iter()
                    .filter_map(|u| match &u.op {
                        Op::Update(add, a) if u.start <= s.end && a.get(&v).is_some_and(|ks| ks.contains(kw)) => {
                            Some((u.start, u.end, *add, u.maybe))
                        }
                        _ => None,
                    })
                    .collect();
                let concurrent = touching.iter().any(|t| t.1 >= s.start || t.3);
                if concurrent {
                    search_overlap = true;
                }
                let present_init = init.contains(&v);
                // Last writers among the completed calls: those with no other
                // completed call strictly after them.
                let before: Vec<&(u64, u64, bool, bool)> = touching.iter().filter(|t| t.1 < s.start).collect();
                let last: Vec<bool> = before
                    .iter()
                    .filter(|t| !before.iter().any(|o| o.0 > t.1))
                    .map(|t| t.2)
                    .collect();
                let may_be_present = if last.is_empty() { present_init } else { last.iter().any(|x| *x) };
                let surely_present = if last.is_empty() { present_init } else { last.iter().all(|x| *x) };
                // While calls on the association are in flight, some of them may
                // be visible and not others.
                let can = may_be_present
                    || (concurrent && (present_init || touching.iter().any(|t| t.2)));
                let must = surely_present && !concurrent;
                if can {
                    upper.entry(kw.clone()).or_default().insert(v.clone());
                }
                if must {
                    lower.entry(kw.clone()).or_default().insert(v);
                }
            }
        }
        let Op::Search(ks) = &s.op else { continue };
        let found = s.found.as_ref().unwrap();
        if found.keys().cloned().collect::<BTreeSet<_>>() != *ks {
            return Err("a concurrent search does not answer for the searched keywords".into());
        }
        for kw in ks {
            let (lo, hi) = (reach(&lower, kw), reach(&upper, kw));
            let got = &found[kw];
            if !lo.is_subset(got) {
                return Err(format!(
                    "a search of {} concurrent with updates misses settled data: found {}, settled {}",
                    show(kw), show_set(got), show_set(&lo)
                ));
            }
            if !got.is_subset(&hi) {
                return Err(format!(
                    "a search of {} concurrent with updates returns data nobody could have put there: found {}, possible {}",
                    show(kw), show_set(got), show_set(&hi)
                ));
            }
        }
    }
    if overlap {
        c.label("overlapping updates of one keyword");
    }
    if search_overlap {
        c.label("search overlapping an update it may read");
    }
    if (overlap && conflicts > 0) || search_overlap {
        c.nontrivial();
    }
    // The index still works sequentially.
    let a = Assoc::from([(Val::D(b"after".to_vec()), pool.kws.iter().cloned().collect())]);
    go(&w, world::update(&first, &cr, true, &a), "add")?;
    let end = direct(&w, &first, &cr, &pool.kws)?;
    for kw in &pool.kws {
        let mut want = finald.get(kw).cloned().unwrap_or_default();
        want.insert(Val::D(b"after".to_vec()));
        if end.get(kw) != Some(&want) {
            return Err(format!("after the concurrent phase an addition to {} gives a wrong result", show(kw)));
        }
    }
    Ok(())
}

/// Is there an order of the calls, compatible with real time, leading from
/// `state` to `goal`?
fn explain(
    ops: &[Upd],
    used: &mut [bool],
    state: &BTreeSet<Val>,
    goal: &BTreeSet<Val>,
) -> bool {
    if used.iter().all(|u| *u) {
        return state == goal;
    }
    for i in 0..ops.len() {
        if used[i] {
            continue;
        }
        // No unused call may have completed before this one started.
        if (0..ops.len()).any(|j| !used[j] && j != i && ops[j].1 < ops[i].0) {
            continue;
        }
        let mut s = state.clone();
        for v in &ops[i].3 {
            if ops[i].2 {
                s.insert(v.clone());
            } else {
                s.remove(v);
            }
        }
        used[i] = true;
        if explain(ops, used, &s, goal) || (ops[i].4 && explain(ops, used, state, goal)) {
            used[i] = false;
            return true;
        }
        used[i] = false;
    }
    false
}

/// Every upsert of an update comes too late, many times in a row.
fn c06_losing(c: &mut Case) -> Check {
    for (n, known, add) in [(1usize, false, true), (4, true, true), (15, false, true), (60, true, false), (1_500, false, true)] {
        let w = World::new(n % 2 == 0);
        let cr = Creds { key: [3; 16], label: b"losing".to_vec() };
        let (fx, rival) = (w.client(), w.client());
        let kws: Vec<Bytes> = (0..3).map(|i| format!("k{i}").into_bytes()).collect();
        let mine = |s: &str| -> Assoc {
            kws.iter().map(|k| (Val::D([s.as_bytes(), k].concat()), BTreeSet::from([k.clone()]))).collect()
        };
        let mut m = Model::default();
        if known {
            let a = mine("mine ");
            go(&w, world::update(&fx, &cr, true, &a), "add")?;
            m.apply(true, &a);
        }
        let a = mine("mine ");
        w.ctl.disarm();
        w.ctl.set_budget(20_000);
        let mut fut: Pin<Box<dyn Future<Output = Result<BTreeSet<Bytes>, FErr>> + '_>> =
            Box::pin(world::update(&fx, &cr, add, &a));
        let mut step = 0;
        let r = loop {
            w.ctl.yields.set(true);
            if let Poll::Ready(r) = poll_once(&mut fut) {
                break r;
            }
            w.ctl.yields.set(false);
            // The first request reads; the next ones commit.
            if (1..=n).contains(&step) {
                let b = Assoc::from([(
                    Val::D(format!("other {step}").into_bytes()),
                    if step % 5 == 0 { kws.iter().cloned().collect() } else { BTreeSet::from([kws[0].clone()]) },
                )]);
                let r = block_on(&w.ctl, world::update(&rival, &cr, true, &b)).expect("no crash");
                world::err(r, "a concurrent update")?;
                m.apply(true, &b);
            }
            step += 1;
            if w.ctl.over_budget() || step > 5_000 {
                return Err(format!("an update that loses {n} races does not terminate"));
            }
        };
        w.ctl.yields.set(false);
        world::err(r, &format!("an update that loses {n} races"))?;
        m.apply(add, &a);
        expect_direct(&w, &fx, &cr, &m, &kws, &format!("after an update that lost {n} races"))?;
    }
    c.nontrivial();
    Ok(())
}

/// Many clients at once on the same keywords, in several orders: what each
/// reported as new.
pub fn crowd(w: &World, cr: &Creds, n: usize, kws: &[Bytes], order: usize) -> Result<Vec<BTreeSet<Bytes>>, String> {
    let clients: Vec<Fx> = (0..n).map(|_| w.client()).collect();
    let all: BTreeSet<Bytes> = kws.iter().cloned().collect();
    let calls: Vec<Assoc> =
        (0..n).map(|i| Assoc::from([(Val::D(format!("client {i}").into_bytes()), all.clone())])).collect();
    w.ctl.disarm();
    w.ctl.set_budget(200_000);
    w.ctl.yields.set(true);
    type Fut<'a> = Pin<Box<dyn Future<Output = Result<BTreeSet<Bytes>, FErr>> + 'a>>;
    let mut futs: Vec<Option<Fut<'_>>> = clients
        .iter()
        .zip(&calls)
        .map(|(fx, a)| Some(Box::pin(world::update(fx, cr, true, a)) as Fut<'_>))
        .collect();
    let mut out: Vec<BTreeSet<Bytes>> = vec![BTreeSet::new(); n];
    let mut step = 0usize;
    while futs.iter().any(Option::is_some) {
        let i = match order {
            // In turn, forwards or backwards, or with strides.
            0 => step % n,
            1 => n - 1 - step % n,
            _ => step.wrapping_mul(2_654_435_761) / 7 % n,
        };
        step += 1;
        if let Some(f) = &mut futs[i] {
            if let Poll::Ready(r) = poll_once(f) {
                out[i] = world::err(r, "a concurrent update")?;
                futs[i] = None;
            }
        }
        if w.ctl.over_budget() || step > 2_000_000 {
            return Err(format!("{n} concurrent updates do not terminate"));
        }
    }
    w.ctl.yields.set(false);
    Ok(out)
}

fn c06_crowd(c: &mut Case) -> Check {
    for (n, k) in [(10usize, 1usize), (40, 2), (25, 30)] {
        for order in 0..3 {
            let w = World::new(order == 1);
            let cr = Creds { key: [4; 16], label: b"crowd".to_vec() };
            let kws: Vec<Bytes> = (0..k).map(|i| format!("k{i}").into_bytes()).collect();
            crowd(&w, &cr, n, &kws, order)?;
            let fx = w.client();
            let got = direct(&w, &fx, &cr, &kws)?;
            let want: BTreeSet<Val> = (0..n).map(|i| Val::D(format!("client {i}").into_bytes())).collect();
            for kw in &kws {
                let found = got.get(kw).cloned().unwrap_or_default();
                if found != want {
                    return Err(format!(
                        "{n} clients added a value to {} at the same time: {} of them are found",
                        show(kw),
                        found.len()
                    ));
                }
            }
        }
    }
    c.nontrivial();
    Ok(())
}

/// Real threads over the in-memory tables: every addition is found, every
/// keyword is reported once. The outcome must not depend on the schedule.
fn c06_threads(c: &mut Case) -> Check {
    use cosmian_findex::{
        ChainTable, Data, DxEnc, EntryTable, Findex, InMemoryDb, Index, IndexedValue,
        IndexedValueToKeywordsMap, Keyword, Keywords, ENTRY_LENGTH, LINK_LENGTH,
    };
    use std::collections::HashSet;
    use crate::db::{DbErr, SharedMem};
    use std::sync::Arc;
    type F = Findex<
        DbErr,
        EntryTable<ENTRY_LENGTH, SharedMem<ENTRY_LENGTH>>,
        ChainTable<LINK_LENGTH, SharedMem<LINK_LENGTH>>,
    >;
    for round in 0..24usize {
        let (threads, calls, n_kw) = (2 + round % 5, 6, 1 + round % 4);
        let et = SharedMem(Arc::new(InMemoryDb::default()));
        let ct = SharedMem(Arc::new(InMemoryDb::default()));
        let new = || -> F { Findex::new(EntryTable::setup(et.clone()), ChainTable::setup(ct.clone())) };
        let shared = new();
        let cr = Creds { key: [round as u8; 16], label: b"threads".to_vec() };
        let kws: Vec<Keyword> = (0..n_kw).map(|i| Keyword::from(format!("k{i}").as_str())).collect();
        let datum = |t: usize, i: usize| Data::from(format!("thread {t} call {i}").as_bytes());
        let reported: Vec<Result<Vec<Keyword>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (shared, kws, cr, new) = (&shared, &kws, &cr, &new);
                    s.spawn(move || {
                        let own = new();
                        let fx = if round % 2 == 0 { shared } else { &own };
                        let mut out = Vec::new();
                        for i in 0..calls {
                            let add = |i: usize| -> IndexedValueToKeywordsMap {
                                [(IndexedValue::Data(datum(t, i)), kws.iter().cloned().collect::<HashSet<_>>())]
                                    .into_iter()
                                    .collect()
                            };
                            let r = crate::db::now(fx.add(&cr.user_key(), &cr.lab(), add(i)));
                            out.extend(r.map_err(|e| format!("add failed: {e:?}"))?);
                            if i % 3 == 2 {
                                let r = crate::db::now(fx.delete(&cr.user_key(), &cr.lab(), add(i - 1)));
                                out.extend(r.map_err(|e| format!("delete failed: {e:?}"))?);
                            }
                            let ks: Keywords = kws.iter().cloned().collect();
                            let r = crate::db::now(fx.search(&cr.user_key(), &cr.lab(), ks, &|_| async { Ok(false) }))
                                .map_err(|e| format!("search failed: {e:?}"))?;
                            for k in kws {
                                if !r.get(k).is_some_and(|d| d.contains(&datum(t, i))) {
                                    return Err(format!("thread {t} does not find what it just added (call {i})"));
                                }
                            }
                        }
                        Ok(out)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
        });
        let mut count: BTreeMap<Bytes, usize> = BTreeMap::new();
        for r in reported {
            for k in r? {
                *count.entry(k.to_vec()).or_default() += 1;
            }
        }
        let ks: Keywords = kws.iter().cloned().collect();
        let found = crate::db::now(new().search(&cr.user_key(), &cr.lab(), ks, &|_| async { Ok(false) }))
            .map_err(|e| format!("search failed: {e:?}"))?;
        let want: HashSet<Data> =
            (0..threads).flat_map(|t| (0..calls).filter(|i| i % 3 != 1).map(move |i| (t, i))).map(|(t, i)| datum(t, i)).collect();
        for k in &kws {
            if found.get(k) != Some(&want) {
                return Err(format!(
                    "{threads} threads added {} data to a keyword, {} are found",
                    want.len(),
                    found.get(k).map_or(0, HashSet::len)
                ));
            }
            let n = count.get(&k.to_vec()).copied().unwrap_or(0);
            if n != 1 {
                return Err(format!("a keyword created by {threads} threads is reported as new {n} times"));
            }
        }
    }
    c.nontrivial();
    Ok(())
}
