//! The library as a guest: C25 (user code called by the library may use it
//! again, or panic), C26 (traffic and memory follow what is handled), C27
//! (traces and messages).

use super::*;
use crate::db::{block_on, poll_once, Call, Fault, Kind, Tbl, Tok, YieldOnce};
use crate::engine::MB;
use crate::model::{by_keyword, distances, lines, reach};
use crate::refimpl;
use crate::rt;
use cosmian_findex::{Error, Index};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::Poll;

pub static C25: Prop = Prop {
    id: "C25",
    level: "exploration",
    rule: "one instance is used all along. Re-entrance: during a search the interrupt callback, and during a compaction the data filter, run 1-4 generated operations on the same instance (searches, some of them stopped or failed by their own callback, additions, deletions, key generation, a compaction; under the new credentials additions of other keywords), before or after a suspension: each gives the result the model says, and so does the outer call. Panics and abandoned calls: the callback, the filter or the database panics, or the call is abandoned, at every callback call or database request of a generated search, update or compaction; the same instance is then used again and the index is what C07 and C11 allow. Non-trivial: a nested operation ran, or a panic or an abandoned call was followed by reuse of the instance",
    quick: 40_000,
    thorough: 3_000_000,
    run: c25,
    scenarios: &[("hundreds of failed, abandoned or panicking calls on one instance", c25_worn)],
    budget: 128 * MB,
    assumptions: &["a panic in user code is caught by the caller (panics are unwound)"],
    stack: 2 << 20,
};

#[derive(Clone, Debug)]
enum Nested {
    Search(BTreeSet<Bytes>),
    /// A search whose own callback stops it at once.
    Stopped(BTreeSet<Bytes>),
    /// A search whose own callback fails.
    Failing(BTreeSet<Bytes>),
    /// A compaction that keeps both key and label.
    Refused,
    Update(bool, Assoc),
    Keygen,
    Compact(Creds, f64),
}

fn c25(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = if c.chance(1, 4) { Pool::new(c, 6, 5) } else { Pool::simple(c, 6, 5) };
    let cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    build(c, &w, &fx, &cr, &mut m, &pool, 1, 4)?;
    match c.weighted(&[3, 2, 4]) {
        0 => nested_in_search(c, &w, &fx, &cr, m, &pool),
        1 => nested_in_filter(c, &w, &fx, &cr, m, &pool),
        _ => interrupted(c, &w, &fx, &cr, m, &pool),
    }
}

fn nested_in_search(c: &mut Case, w: &World, fx: &Fx, cr: &Creds, m: Model, pool: &Pool) -> Check {
    c.label("operations inside the interrupt callback");
    let roots = pool.some_kws(c);
    let n_calls = c.range(1, 3) as usize;
    let mut shadow = m.clone();
    let mut plan: Vec<Vec<Nested>> = Vec::new();
    for _ in 0..n_calls {
        let n = c.range(1, 2);
        let mut ops = Vec::new();
        for _ in 0..n {
            ops.push(match c.weighted(&[4, 4, 1, 1, 2, 1, 1]) {
                0 => Nested::Search(pool.some_kws(c)),
                1 => {
                    let (add, a) = gen_update(c, pool, &shadow);
                    shadow.apply(add, &a);
                    Nested::Update(add, a)
                }
                2 => Nested::Keygen,
                4 => Nested::Stopped(pool.some_kws(c)),
                5 => Nested::Failing(pool.some_kws(c)),
                6 => Nested::Refused,
                _ => Nested::Compact(cr.rotate(c), *c.pick(&[1.0, 0.0])),
            });
        }
        plan.push(ops);
    }
    let later = c.chance(1, 2);
    c.note(|| format!("search {} while its callback does {plan:?}", show_set(&roots)));
    let call = Cell::new(0usize);
    let ran = Cell::new(0u64);
    let compacted = Cell::new(false);
    let cur = RefCell::new(cr.clone());
    let model = RefCell::new(m.clone());
    let states = RefCell::new(vec![m]);
    let wrong: RefCell<Option<String>> = RefCell::default();
    let (call, ran, compacted, cur, model, states, wrong, plan) =
        (&call, &ran, &compacted, &cur, &model, &states, &wrong, &plan);
    let r = go_raw(
        w,
        fx.search(&cr.user_key(), &cr.lab(), world::kw_set(&roots), &move |map| {
            let shown = world::graph_of(&map);
            for (k, v) in &shown {
                let known = states
                    .borrow()
                    .iter()
                    .any(|s| s.kws.get(k).cloned().unwrap_or_default() == *v);
                if !known {
                    wrong.borrow_mut().get_or_insert(format!(
                        "the callback is shown associations of {} that the index never held",
                        show(k)
                    ));
                }
            }
            let i = call.get();
            call.set(i + 1);
            let ops = plan.get(i).cloned().unwrap_or_default();
            async move {
                if later {
                    YieldOnce(false).await;
                }
                for op in ops {
                    ran.set(ran.get() + 1);
                    let cr = cur.borrow().clone();
                    let res = match &op {
                        Nested::Search(ks) => world::search(fx, &cr, ks).await.map(|got| {
                            let want = model.borrow().search(ks);
                            (got != want).then(|| format!("gives {} instead of {}", show_res(&got), show_res(&want)))
                        }),
                        Nested::Update(add, a) => world::update(fx, &cr, *add, a).await.map(|got| {
                            let want = model.borrow_mut().apply(*add, a);
                            let now = model.borrow().clone();
                            states.borrow_mut().push(now);
                            (got != want).then(|| {
                                format!("reports new keywords {} instead of {}", show_set(&got), show_set(&want))
                            })
                        }),
                        Nested::Stopped(ks) => {
                            let r = fx
                                .search(&cr.user_key(), &cr.lab(), world::kw_set(ks), &|_| async { Ok(true) })
                                .await;
                            r.map(|got| {
                                let got = world::res_of(got);
                                let mut seen = model.borrow().kws.clone();
                                seen.retain(|k, _| ks.contains(k));
                                let want = ks.iter().map(|k| (k.clone(), reach(&seen, k))).collect();
                                (got != want)
                                    .then(|| format!("gives {} instead of {}", show_res(&got), show_res(&want)))
                            })
                        }
                        Nested::Failing(ks) => {
                            // It need not be called when nothing is found.
                            let called = &Cell::new(false);
                            let r = fx
                                .search(&cr.user_key(), &cr.lab(), world::kw_set(ks), &move |_| {
                                    called.set(true);
                                    async { Err("nested".to_string()) }
                                })
                                .await;
                            match r {
                                Err(Error::Interrupt(e)) if e == "nested" => Ok(None),
                                Ok(_) if !called.get() => Ok(None),
                                r => Ok(Some(format!("gives {:?}", r.map(|_| ())))),
                            }
                        }
                        Nested::Refused => match world::compact(fx, &cr, &cr, 1.0).await {
                            Err(_) => Ok(None),
                            Ok(()) => Ok(Some("is accepted".to_string())),
                        },
                        Nested::Keygen => {
                            let (a, b) = (fx.keygen(), fx.keygen());
                            Ok((a == b).then(|| "generates twice the same key".to_string()))
                        }
                        Nested::Compact(new, rate) => {
                            if *new == cr {
                                continue;
                            }
                            compacted.set(true);
                            let r = world::compact(fx, &cr, new, *rate).await;
                            *cur.borrow_mut() = new.clone();
                            if *rate == 1.0 {
                                model.borrow_mut().compact(|_| true);
                            }
                            r.map(|()| None)
                        }
                    };
                    match res {
                        Ok(None) => {}
                        Ok(Some(e)) => {
                            wrong.borrow_mut().get_or_insert(format!("inside the callback, {op:?} {e}"));
                        }
                        Err(e) => {
                            wrong.borrow_mut().get_or_insert(format!("inside the callback, {op:?} failed: {e:?}"));
                        }
                    }
                }
                Ok(false)
            }
        }),
    )?;
    if let Some(e) = wrong.borrow_mut().take() {
        return Err(e);
    }
    c.count("nested operations", ran.get());
    if ran.get() > 0 {
        c.nontrivial();
    }
    let got = world::res_of(world::err(r, "search")?);
    if got.keys().cloned().collect::<BTreeSet<_>>() != roots {
        return Err("the search does not answer for the searched keywords".into());
    }
    // Between what all the states have in common and what any of them holds.
    let states = states.borrow();
    let mut upper: BTreeMap<Bytes, BTreeSet<Val>> = BTreeMap::new();
    let mut lower: BTreeMap<Bytes, BTreeSet<Val>> = states[0].kws.clone();
    for s in states.iter() {
        for (k, v) in &s.kws {
            upper.entry(k.clone()).or_default().extend(v.iter().cloned());
        }
        for (k, v) in &mut lower {
            let now = s.kws.get(k).cloned().unwrap_or_default();
            v.retain(|x| now.contains(x));
        }
    }
    for r in &roots {
        let (lo, hi) = (reach(&lower, r), reach(&upper, r));
        if !got[r].is_subset(&hi) || (!compacted.get() && !lo.is_subset(&got[r])) {
            return Err(format!(
                "a search whose callback updates the index gives {} for {}, but it held at least {} and at most {}",
                show_set(&got[r]),
                show(r),
                show_set(&lo),
                show_set(&hi)
            ));
        }
    }
    let (m, cr) = (model.borrow().clone(), cur.borrow().clone());
    expect_all(c, w, fx, &cr, &m, &pool.kws, "after a search whose callback used the index")?;
    expect_direct(w, fx, &cr, &m, &pool.kws, "after a search whose callback used the index")
}

/// Each keyword must be complete under one of the two credentials, and complete
/// or absent under both.
fn whole(m: &Model, old: &Direct, new: &Direct, what: &str) -> Check {
    for (k, want) in m.kws.iter().filter(|(_, v)| !v.is_empty()) {
        for (d, which) in [(old, "old"), (new, "new")] {
            if let Some(g) = d.get(k) {
                if g != want {
                    return Err(format!("{what}: under the {which} credentials {} is incomplete", show(k)));
                }
            }
        }
        if !old.contains_key(k) && !new.contains_key(k) {
            return Err(format!("{what}: {} is found under neither credentials", show(k)));
        }
    }
    Ok(())
}

fn nested_in_filter(c: &mut Case, w: &World, fx: &Fx, cr: &Creds, m: Model, pool: &Pool) -> Check {
    c.label("operations inside the data filter");
    let new = cr.rotate(c);
    let rate = *c.pick(&[1.0, 0.5, 0.2]);
    let later = c.chance(1, 2);
    let adds: Vec<bool> = (0..3).map(|_| c.chance(1, 2)).collect();
    c.note(|| format!("compact at rate {rate} while its filter searches and adds {adds:?}"));
    let call = Cell::new(0usize);
    let wrong: RefCell<Option<String>> = RefCell::default();
    let fresh: RefCell<Assoc> = RefCell::default();
    let all: BTreeSet<Bytes> = pool.kws.iter().cloned().collect();
    let r = {
        let (call, wrong, fresh, all, m, cr, new, adds) = (&call, &wrong, &fresh, &all, &m, cr, &new, &adds);
        go_raw(
            w,
            world::compact_with(fx, cr, new, rate, &move |data| async move {
                if later {
                    YieldOnce(false).await;
                }
                let i = call.get();
                call.set(i + 1);
                let (o, n) = (world::direct(fx, cr, all).await, world::direct(fx, new, all).await);
                match (o, n) {
                    (Ok(mut o), Ok(mut n)) => {
                        o.retain(|_, v| !v.is_empty());
                        n.retain(|_, v| !v.is_empty());
                        if let Err(e) = whole(m, &o, &n, "inside the data filter") {
                            wrong.borrow_mut().get_or_insert(e);
                        }
                    }
                    (o, n) => {
                        wrong
                            .borrow_mut()
                            .get_or_insert(format!("a search inside the data filter failed: {:?}", o.and(n)));
                    }
                }
                if fx.keygen() == fx.keygen() {
                    wrong.borrow_mut().get_or_insert("the same key is generated twice".into());
                }
                if adds.get(i).copied().unwrap_or(false) {
                    // A keyword the old index does not know.
                    let a = Assoc::from([(
                        Val::D(format!("fresh data {i}").into_bytes()),
                        BTreeSet::from([format!("a fresh keyword {i}").into_bytes()]),
                    )]);
                    match world::update(fx, new, true, &a).await {
                        Ok(got) if got == a.values().next().cloned().unwrap_or_default() => {
                            fresh.borrow_mut().extend(a);
                        }
                        r => {
                            wrong.borrow_mut().get_or_insert(format!(
                                "an addition under the new credentials, inside the data filter, gives {r:?}"
                            ));
                        }
                    }
                }
                Ok(data)
            }),
        )?
    };
    if let Some(e) = wrong.into_inner() {
        return Err(e);
    }
    world::err(r, "compact")?;
    c.count("data filter calls with nested operations", call.get() as u64);
    if call.get() > 0 {
        c.nontrivial();
    }
    let mut m = m;
    let fresh = fresh.into_inner();
    m.apply(true, &fresh);
    let mut kws = pool.kws.clone();
    kws.extend(by_keyword(&fresh).into_keys());
    expect_direct(w, fx, &new, &m, &kws, "after a compaction whose filter used the index")?;
    expect_all(c, w, fx, &new, &m, &kws, "after a compaction whose filter used the index")
}

#[derive(Clone, Debug)]
enum Victim {
    Search(BTreeSet<Bytes>),
    Update(bool, Assoc),
    Compact(Creds, f64),
}

enum End<T> {
    Done(T),
    Panicked,
    Abandoned,
}

fn attempt<T>(w: &World, fut: impl Future<Output = T>) -> Result<End<T>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| block_on(&w.ctl, fut)));
    if w.ctl.over_budget() {
        return Err("the interrupted call does not terminate".into());
    }
    match r {
        Ok(Some(v)) => Ok(End::Done(v)),
        Ok(None) => Ok(End::Abandoned),
        Err(_) => {
            let p = rt::take_panic().unwrap_or_default();
            if p.starts_with("injected panic") {
                Ok(End::Panicked)
            } else {
                Err(format!("the library panicked: {p}"))
            }
        }
    }
}

/// A panic or an abandoned call, then the same instance again.
fn interrupted(c: &mut Case, w: &World, fx: &Fx, cr: &Creds, m: Model, pool: &Pool) -> Check {
    let victim = match c.weighted(&[3, 4, 3]) {
        0 => Victim::Search(pool.some_kws(c)),
        1 => {
            let (add, a) = gen_update(c, pool, &m);
            Victim::Update(add, a)
        }
        _ => Victim::Compact(cr.rotate(c), *c.pick(&[1.0, 0.5])),
    };
    let in_user_code = !matches!(victim, Victim::Update(..)) && c.chance(1, 2);
    let kinds: &[Fault] = if in_user_code {
        &[Fault::PanicBefore, Fault::PanicAfter]
    } else {
        &[Fault::PanicBefore, Fault::PanicAfter, Fault::CrashBefore, Fault::CrashAfter]
    };
    c.label(if in_user_code { "panic of the callback or filter" } else { "panic or abandon at a request" });
    c.note(|| {
        format!(
            "{victim:?} interrupted in {}",
            if in_user_code { "the callback" } else { "the database" }
        )
    });
    let s0 = w.snapshot();
    let fresh = Assoc::from([(
        Val::D(b"later data".to_vec()),
        BTreeSet::from([b"a later keyword".to_vec(), pool.kws[0].clone()]),
    )]);
    let mut at = 0u64;
    loop {
        let mut fired_any = false;
        for kind in kinds {
            w.restore(&s0);
            let faults: &[(u64, Fault)] = if in_user_code { &[] } else { &[(at, *kind)] };
            w.ctl.arm(faults);
            w.ctl.set_budget(call_budget(w));
            let calls = Cell::new(0u64);
            let fired = Cell::new(false);
            let early = *kind == Fault::PanicBefore;
            let (calls_, fired_) = (&calls, &fired);
            // Called at each callback or filter call.
            let hit = move || {
                let i = calls_.get();
                calls_.set(i + 1);
                if in_user_code && i == at {
                    fired_.set(true);
                    true
                } else {
                    false
                }
            };
            let hit = &hit;
            let what = format!("{victim:?} cut by {kind:?} at {at}");
            let end = match &victim {
                Victim::Search(ks) => attempt(
                    w,
                    fx.search(&cr.user_key(), &cr.lab(), world::kw_set(ks), &move |_| {
                        let h = hit();
                        assert!(!(h && early), "injected panic");
                        async move {
                            YieldOnce(false).await;
                            assert!(!h, "injected panic");
                            Ok(false)
                        }
                    }),
                )
                .map(|e| end_map(e, |r| r.map(|_| ()))),
                Victim::Update(add, a) => {
                    attempt(w, world::update(fx, cr, *add, a)).map(|e| end_map(e, |r| r.map(|_| ())))
                }
                Victim::Compact(new, rate) => attempt(
                    w,
                    world::compact_with(fx, cr, new, *rate, &move |data| {
                        let h = hit();
                        assert!(!(h && early), "injected panic");
                        async move {
                            YieldOnce(false).await;
                            assert!(!h, "injected panic");
                            Ok(data)
                        }
                    }),
                ),
            }
            .map_err(|e| format!("{what}: {e}"))?;
            let fired = if in_user_code { fired.get() } else { w.ctl.fired() > 0 };
            w.ctl.disarm();
            match end {
                End::Done(r) => {
                    if fired {
                        return Err(format!("{what}: the call returned {r:?}"));
                    }
                    continue;
                }
                End::Panicked | End::Abandoned => {}
            }
            fired_any = true;
            c.nontrivial();
            c.count("interrupted calls", 1);
            // The same instance goes on.
            if fx.keygen() == fx.keygen() {
                return Err(format!("{what}: then the same key is generated twice"));
            }
            match &victim {
                Victim::Search(_) => {
                    if w.snapshot() != s0 {
                        return Err(format!("{what}: the tables changed"));
                    }
                    expect_direct(w, fx, cr, &m, &pool.kws, &format!("after {what}"))?;
                    let mut m2 = m.clone();
                    do_update(c, w, fx, cr, &mut m2, true, &fresh, true)?;
                    expect_direct(w, fx, cr, &m2, &pool.kws, &format!("after {what} and an addition"))?;
                    let mut end = cr.clone();
                    end.label.push(b'!');
                    go(w, world::compact(fx, cr, &end, 1.0), "compact on the same instance")?;
                    expect_direct(w, fx, &end, &m2, &pool.kws, &format!("after {what} and a compaction"))?;
                }
                Victim::Update(add, a) => {
                    let mut after = m.clone();
                    after.apply(*add, a);
                    let mut seen = faults::observe(w, fx, cr, &m, &after, &pool.kws, &what)?;
                    go(w, world::update(fx, cr, *add, a), "retry on the same instance")?;
                    go(w, world::update(fx, cr, true, &fresh), "addition on the same instance")?;
                    seen.apply(*add, a);
                    seen.apply(true, &fresh);
                    expect_direct(w, fx, cr, &seen, &pool.kws, &format!("after {what} and a retry"))?;
                    let mut end = cr.clone();
                    end.label.push(b'!');
                    go(w, world::compact(fx, cr, &end, 1.0), "compact on the same instance")?;
                    expect_direct(w, fx, &end, &seen, &pool.kws, &format!("after {what}, a retry and a compaction"))?;
                }
                Victim::Compact(new, _) => {
                    let (o, n) = (direct(w, fx, cr, &pool.kws)?, direct(w, fx, new, &pool.kws)?);
                    whole(&m, &o, &n, &what)?;
                    // Another compaction ends as it does with a new instance.
                    let mut end = cr.clone();
                    end.label.push(b'!');
                    let s1 = w.snapshot();
                    let with_new = go_raw(w, world::compact(&w.client(), cr, &end, 1.0))?;
                    w.restore(&s1);
                    let with_same = go_raw(w, world::compact(fx, cr, &end, 1.0))?;
                    if with_new.is_ok() != with_same.is_ok() {
                        return Err(format!(
                            "{what}: then a compaction gives {with_same:?} on the same instance, {with_new:?} on a new one"
                        ));
                    }
                    w.restore(&s1);
                    let a = Assoc::from([(
                        Val::D(b"later data".to_vec()),
                        BTreeSet::from([b"a later keyword".to_vec()]),
                    )]);
                    go(w, world::update(fx, new, true, &a), "addition on the same instance")?;
                    let ks = BTreeSet::from([b"a later keyword".to_vec()]);
                    let got = go(w, world::search(fx, new, &ks), "search on the same instance")?;
                    if got.values().any(|v| *v != BTreeSet::from([b"later data".to_vec()])) {
                        return Err(format!("{what}: then an addition is not found"));
                    }
                }
            }
        }
        at += 1;
        if !fired_any || at > 40 {
            return Ok(());
        }
    }
}

/// An instance goes on working however many of its calls ended badly.
fn c25_worn(c: &mut Case) -> Check {
    const TIMES: usize = 300;
    let w = World::new(false);
    let cr = Creds { key: [5; 16], label: b"worn".to_vec() };
    let new = Creds { key: [6; 16], label: b"worn too".to_vec() };
    let mut m = Model::default();
    let kws: Vec<Bytes> = (0..6).map(|i| format!("k{i}").into_bytes()).collect();
    let mut a: Assoc = (0..12).map(|i| (Val::D(format!("d{i}").into_bytes()), BTreeSet::from([kws[i % 6].clone()]))).collect();
    a.insert(Val::P(kws[1].clone()), BTreeSet::from([kws[0].clone()]));
    do_update(c, &w, &w.client(), &cr, &mut m, true, &a, true)?;
    let s0 = w.snapshot();
    let all: BTreeSet<Bytes> = kws.iter().cloned().collect();
    let more = Assoc::from([(Val::D(b"more".to_vec()), all.clone())]);
    let faults = [
        Fault::ErrBefore,
        Fault::ErrAfter,
        Fault::CrashBefore,
        Fault::CrashAfter,
        Fault::PanicBefore,
        Fault::PanicAfter,
    ];
    // Calls, then ways in which they end.
    for call in 0..4 {
        for way in 0..9 {
            let fx = w.client();
            let mut hurt = 0;
            for i in 0..TIMES {
                w.restore(&s0);
                w.ctl.set_budget(call_budget(&w));
                if way < 6 {
                    w.ctl.arm(&[((i % 3) as u64, faults[way])]);
                }
                // The callback fails, panics, or stops the search.
                let user = || async move {
                    assert!(way != 7, "injected panic");
                    if way == 6 {
                        Err("no".to_string())
                    } else {
                        Ok(way == 8)
                    }
                };
                let end = match call {
                    0 => attempt(&w, async {
                        fx.search(&cr.user_key(), &cr.lab(), world::kw_set(&all), &|_| user()).await.map(|_| ())
                    }),
                    1 => attempt(&w, async { world::update(&fx, &cr, i % 2 == 0, &more).await.map(|_| ()) }),
                    2 => attempt(&w, world::compact_with(&fx, &cr, &new, 1.0, &|d| async move { user().await.map(|_| d) })),
                    _ => attempt(&w, world::compact(&fx, &cr, if way == 8 { &cr } else { &new }, 0.5)),
                }
                .map_err(|e| format!("call {call} ending in way {way}, time {i}: {e}"))?;
                w.ctl.disarm();
                hurt += usize::from(!matches!(end, End::Done(Ok(()))));
            }
            c.count("calls that ended badly", hurt as u64);
            w.restore(&s0);
            let after = format!("after {hurt} failed calls (call {call}, way {way}) on the same instance");
            if fx.keygen() == fx.keygen() {
                return Err(format!("{after}, the same key is generated twice"));
            }
            expect_all(c, &w, &fx, &cr, &m, &kws, &after)?;
            let mut m2 = m.clone();
            do_update(c, &w, &fx, &cr, &mut m2, true, &more, true)?;
            go(&w, world::compact(&fx, &cr, &new, 1.0), "compact on the same instance")?;
            m2.compact(|_| true);
            expect_all(c, &w, &fx, &new, &m2, &kws, &after)?;
        }
    }
    c.nontrivial();
    Ok(())
}

fn end_map<T, U>(e: End<T>, f: impl FnOnce(T) -> U) -> End<U> {
    match e {
        End::Done(x) => End::Done(f(x)),
        End::Panicked => End::Panicked,
        End::Abandoned => End::Abandoned,
    }
}

pub static C26: Prop = Prop {
    id: "C26",
    level: "exploration",
    rule: "traffic: histories that leave long chains (up to 150 lines, several calls or one), then a generated addition or deletion, search (link graphs included) and compaction, with every request recorded: an update may exchange at most 8 entries per keyword and 4 lines per line it adds, whatever the chains hold, and a retry after a conflict (another client's update let in between) only what is in conflict; a search may read a line at most 3 times and only as many as the reached keywords have; a compaction may handle a line at most 3 times and reads only chains it removes. Memory (one case in 12): the same operation is run on an index and on one eight times larger, in nine shapes, and the most bytes held at once and the sum of all allocations may grow at most 20-fold for what is proportional, and not at all (the token list excepted) for an update of a longer chain or a compaction of more batches; in one case in 24 an instance makes 37 rounds of searches, updates, compactions and failing calls on tables restored after each, and the memory it keeps is measured (12 kB allowed). Non-trivial: the chains hold at least 4 times what an update may read, or a memory measure was made",
    quick: 24_000,
    thorough: 1_800_000,
    run: c26,
    scenarios: &[],
    budget: 256 * MB,
    assumptions: &["the memory measured includes that of the database given to the library, a plain map", "the verification hook makes a compaction batch 4 entries"],
    stack: 2 << 20,
};

#[derive(Default)]
struct Traffic {
    /// Lines named in requests plus lines returned, per table.
    et: usize,
    ct: usize,
    /// How often each line is named, per table and kind of request.
    times: BTreeMap<(Tbl, Kind, Tok), usize>,
}

/// `stored`: only lines that exist count.
fn traffic(log: &[Call], stored: Option<&BTreeSet<Tok>>) -> Traffic {
    let mut t = Traffic::default();
    for x in log {
        let named: Vec<&Tok> =
            x.tokens.union(&x.old).filter(|k| stored.map_or(true, |s| s.contains(*k))).collect();
        let n = named.len() + x.returned;
        match x.table {
            Tbl::Et => t.et += n,
            Tbl::Ct => t.ct += n,
        }
        for k in named {
            *t.times.entry((x.table, x.kind, *k)).or_default() += 1;
        }
    }
    t
}

fn recorded<T>(w: &World, f: impl FnOnce() -> Result<T, String>) -> Result<(T, Vec<Call>), String> {
    w.ctl.take_log();
    w.ctl.logging.set(true);
    let r = f();
    w.ctl.logging.set(false);
    let log = w.ctl.take_log();
    Ok((r?, log))
}

fn repeated(t: &Traffic, what: &str) -> Check {
    if let Some(((tbl, kind, _), n)) = t.times.iter().max_by_key(|x| x.1) {
        if *n > 3 {
            return Err(format!("{what}: the same line is named in {n} {kind:?} requests to {tbl:?}"));
        }
    }
    Ok(())
}

fn update_allowance(a: &Assoc) -> (usize, usize) {
    let per = by_keyword(a);
    let n_lines: usize = per.values().map(|v| lines(v.iter())).sum();
    (8 * per.len() + 8, 4 * n_lines + 8)
}

fn c26(c: &mut Case) -> Check {
    if c.chance(1, 12) {
        return memory(c);
    }
    if c.chance(1, 24) {
        return retained(c);
    }
    let w = World::draw(c);
    let pool = Pool::simple(c, 6, 5);
    let cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    build(c, &w, &fx, &cr, &mut m, &pool, 0, 4)?;
    // Long chains.
    let n_long = c.range(1, 2);
    for _ in 0..n_long {
        let k = c.pick(&pool.kws).clone();
        if c.chance(1, 2) {
            let n = c.range(10, 40);
            for i in 0..n {
                let v = Val::D(format!("x{}", i % 7).into_bytes());
                let a = Assoc::from([(v, BTreeSet::from([k.clone()]))]);
                do_update(c, &w, &fx, &cr, &mut m, i % 3 != 2, &a, false)?;
            }
        } else {
            let n = c.range(60, 300);
            let a: Assoc = (0..n)
                .map(|i| (Val::D(format!("bulk data {i}").into_bytes()), BTreeSet::from([k.clone()])))
                .collect();
            do_update(c, &w, &fx, &cr, &mut m, true, &a, false)?;
        }
    }
    let total = w.ct.len();
    // An update.
    let (add, a) = gen_update(c, &pool, &m);
    let (max_et, max_ct) = update_allowance(&a);
    if total >= 4 * max_ct {
        c.nontrivial();
    }
    let what = format!("{} {}", if add { "add" } else { "delete" }, show_assoc(&a));
    if c.chance(1, 3) {
        contended(c, &w, &fx, &cr, &mut m, &pool, add, &a)?;
    } else {
        let (_, log) = recorded(&w, || do_update(c, &w, &fx, &cr, &mut m, add, &a, true))?;
        let t = traffic(&log, None);
        c.note(|| format!("{what} exchanges {} entries and {} chain lines", t.et, t.ct));
        if t.et > max_et || t.ct > max_ct {
            return Err(format!(
                "{what} exchanges {} entries (at most {max_et} expected) and {} chain lines (at most {max_ct} expected) with an index of {} entries and {total} chain lines",
                t.et, t.ct, w.et.len()
            ));
        }
        repeated(&t, &what)?;
    }
    // A search.
    let ks = pool.some_kws(c);
    let (_, log) = recorded(&w, || expect_search(c, &w, &fx, &cr, &m, &ks, "after the history"))?;
    // Keywords that index nothing have no line: they may be asked for again.
    let (et, ct) = w.snapshot();
    let stored: BTreeSet<Tok> = et.into_keys().chain(ct.into_keys()).collect();
    let t = traffic(&log, Some(&stored));
    let reached: BTreeSet<Bytes> = distances(&m.kws, &ks).into_keys().collect();
    let mut named: BTreeSet<&Bytes> = ks.iter().collect();
    for k in &reached {
        named.extend(m.kws.get(k).into_iter().flatten().filter_map(|v| match v {
            Val::P(p) => Some(p),
            Val::D(_) => None,
        }));
    }
    let n_lines: usize = reached.iter().map(|k| m.lines.get(k).copied().unwrap_or(0)).sum();
    let (max_et, max_ct) = (6 * named.len() + 4, 6 * n_lines + 4);
    let what = format!("search {}", show_set(&ks));
    if t.et > max_et || t.ct > max_ct {
        return Err(format!(
            "{what} exchanges {} entries and {} chain lines although the {} keywords it involves have {n_lines} lines",
            t.et, t.ct, named.len()
        ));
    }
    repeated(&t, &what)?;
    // A compaction.
    let new = cr.rotate(c);
    let rate = *c.pick(&[1.0, 0.5, 0.1, 0.0]);
    let (_, log) = recorded(&w, || go(&w, world::compact(&fx, &cr, &new, rate), "compact"))?;
    let t = traffic(&log, None);
    let what = format!("compact at rate {rate}");
    repeated(&t, &what)?;
    let by = |kind: Kind| -> BTreeSet<Tok> {
        log.iter().filter(|x| x.table == Tbl::Ct && x.kind == kind).flat_map(|x| x.tokens.iter().copied()).collect()
    };
    let (read, removed) = (by(Kind::Fetch), by(Kind::Delete));
    c.note(|| format!("{what}: {} chain lines read, {} removed", read.len(), removed.len()));
    if !read.is_subset(&removed) {
        return Err(format!(
            "{what} reads {} chain lines that it does not compact",
            read.difference(&removed).count()
        ));
    }
    if rate == 0.0 && !read.is_empty() {
        return Err(format!("{what} reads {} chain lines", read.len()));
    }
    expect_direct(&w, &fx, &new, &m, &pool.kws, "after a compaction")
}

/// The update is stopped once it has read the entries; another client updates
/// some of its keywords; then it goes on.
#[allow(clippy::too_many_arguments)]
fn contended(
    c: &mut Case,
    w: &World,
    fx: &Fx,
    cr: &Creds,
    m: &mut Model,
    pool: &Pool,
    add: bool,
    a: &Assoc,
) -> Check {
    c.label("update in conflict with another");
    let rounds = c.range(1, 3);
    let others: Vec<(bool, Assoc)> = (0..rounds).map(|_| gen_update(c, pool, m)).collect();
    let mine: BTreeSet<Bytes> = by_keyword(a).into_keys().collect();
    let conflicts: usize =
        others.iter().map(|(_, b)| by_keyword(b).keys().filter(|k| mine.contains(*k)).count()).sum();
    let rival = w.client();
    w.ctl.disarm();
    w.ctl.set_budget(call_budget(w));
    w.ctl.take_log();
    w.ctl.logging.set(true);
    w.ctl.task.set(1);
    let mut sent = 0;
    let mut fut: Pin<Box<dyn Future<Output = Result<BTreeSet<Bytes>, FErr>> + '_>> =
        Box::pin(world::update(fx, cr, add, a));
    let mut rest = others.clone().into_iter();
    let r = loop {
        w.ctl.yields.set(true);
        w.ctl.task.set(1);
        if let Poll::Ready(r) = poll_once(&mut fut) {
            break r;
        }
        // It is now about to send its request number `sent`.
        sent += 1;
        if sent > 1 {
            if let Some((x, b)) = rest.next() {
                w.ctl.yields.set(false);
                w.ctl.task.set(2);
                let r = block_on(&w.ctl, world::update(&rival, cr, x, &b)).expect("no crash");
                world::err(r, "a concurrent update")?;
                m.apply(x, &b);
            }
        }
        if sent > 200 || w.ctl.over_budget() {
            return Err("an update in conflict with another does not terminate".into());
        }
    };
    w.ctl.yields.set(false);
    w.ctl.logging.set(false);
    w.ctl.task.set(0);
    world::err(r, "an update in conflict with another")?;
    // The rivals that came after its commit do not change the content: the
    // calls are compared as sets of associations below.
    let log: Vec<Call> = w.ctl.take_log().into_iter().filter(|x| x.task == 1).collect();
    let t = traffic(&log, None);
    let (max_et, max_ct) = update_allowance(a);
    let max_et = max_et + 6 * conflicts;
    if t.et > max_et || t.ct > max_ct {
        return Err(format!(
            "{} {} in conflict on {conflicts} keywords exchanges {} entries (at most {max_et} expected) and {} chain lines (at most {max_ct} expected)",
            if add { "add" } else { "delete" },
            show_assoc(a),
            t.et,
            t.ct
        ));
    }
    // Where its commit falls among the rivals does not matter here (C06): the
    // model follows what is observed.
    m.apply(add, a);
    let seen = direct(w, fx, cr, &pool.kws)?;
    for k in &pool.kws {
        if let Some(e) = m.kws.get_mut(k) {
            *e = seen.get(k).cloned().unwrap_or_default();
        }
    }
    Ok(())
}

/// One operation on a small index and on a larger one.
fn memory(c: &mut Case) -> Check {
    c.nontrivial();
    let n = c.range(40, 80) as usize;
    let shape = c.below(9);
    let (name, flat): (&'static str, bool) = match shape {
        0 => ("search of a long chain", false),
        1 => ("addition of many values to one keyword", false),
        2 => ("addition of one value to many keywords", false),
        3 => ("search of many keywords", false),
        4 => ("search of a long path of keywords", false),
        5 => ("search of a keyword linked to many", false),
        6 => ("full compaction of one long chain", false),
        7 => ("update of a long chain", true),
        _ => ("full compaction of many long chains", true),
    };
    c.label(name);
    let cr = Creds::new(c);
    let new = cr.rotate(c);
    let extra = c.range(10, 14) as usize;
    let (p1, t1) = footprint(shape, n, extra, &cr, &new)?;
    let (p8, t8) = footprint(shape, 8 * n, extra, &cr, &new)?;
    c.note(|| format!("{name}: {n} -> {p1} B held, {t1} B allocated; {} -> {p8} B held, {t8} B allocated", 8 * n));
    if std::env::var("PBT_DEBUG").is_ok() {
        eprintln!("{name} {n}: {p1} {t1} / {p8} {t8} = {:.1} {:.1}", p8 as f64 / p1 as f64, t8 as f64 / t1 as f64);
    }
    let bad = if flat {
        // The list of tokens grows (about 256 bytes for each, in the library and
        // the database, twice that where a hash table has just doubled), nothing
        // else.
        p8 > p1 + p1 / 4 + 8_192 + if shape == 8 { 7 * n as u64 * 704 } else { 0 }
    } else {
        p8 > 20 * p1 + 65_536
    };
    if bad {
        return Err(format!("{name}: {p1} bytes held for {n} but {p8} for {}", 8 * n));
    }
    if t8 > if shape == 7 { 2 * t1 + 16_384 } else { 20 * t1 + 65_536 } {
        return Err(format!("{name}: {t1} bytes allocated for {n} but {t8} for {}", 8 * n));
    }
    Ok(())
}

/// What an instance keeps once its calls are over.
fn retained(c: &mut Case) -> Check {
    c.nontrivial();
    c.label("memory kept by an instance");
    let w = World::draw(c);
    let fx = w.client();
    let cr = Creds::new(c);
    let n = c.range(20, 60) as usize;
    let kinds: Vec<usize> = (0..5).filter(|_| c.chance(1, 2)).collect();
    let kinds = if kinds.is_empty() { vec![0] } else { kinds };
    let kw = |i: usize| format!("keyword {i:06}").into_bytes();
    let mut a: Assoc = (0..n).map(|i| (Val::P(kw(i / 2)), BTreeSet::from([kw(i)]))).collect();
    a.insert(Val::D(b"data".to_vec()), (0..n).map(kw).collect());
    go(&w, world::update(&fx, &cr, true, &a), "add")?;
    let s = w.snapshot();
    let round = |r: usize| -> Check {
        for kind in &kinds {
            match kind {
                // Known and unknown keywords are searched.
                0 => {
                    let ks = (0..n).map(kw).collect();
                    go(&w, world::search(&fx, &cr, &ks), "search").map(|_| ())?;
                }
                1 => {
                    let ks = (0..n).map(|i| kw(1_000 * (r + 1) + i)).collect();
                    go(&w, world::search(&fx, &cr, &ks), "search").map(|_| ())?;
                }
                2 => {
                    let a = Assoc::from([(Val::D(vec![r as u8; 20]), (n / 2..n + n / 2).map(kw).collect())]);
                    go(&w, world::update(&fx, &cr, r % 2 == 0, &a), "update").map(|_| ())?;
                    w.restore(&s);
                }
                3 => {
                    let new = Creds { key: [r as u8; 16], label: format!("label {r}").into_bytes() };
                    go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
                    w.restore(&s);
                }
                _ => {
                    let ks: BTreeSet<Bytes> = (0..n).map(|i| kw(1_000_000 + 1_000 * r + i)).collect();
                    w.ctl.arm(&[(1, crate::db::Fault::ErrBefore)]);
                    let a = Assoc::from([(Val::D(vec![r as u8; 20]), ks)]);
                    let _ = block_on(&w.ctl, world::update(&fx, &cr, true, &a));
                    w.ctl.disarm();
                    w.restore(&s);
                }
            }
        }
        Ok(())
    };
    for r in 0..3 {
        round(r)?;
    }
    w.restore(&s);
    let before = rt::live();
    for r in 3..40 {
        round(r)?;
    }
    w.restore(&s);
    let kept = rt::live() - before;
    c.note(|| format!("{} bytes kept after 37 rounds of calls {kinds:?} on {n} keywords", kept));
    if std::env::var("PBT_DEBUG").is_ok() {
        eprintln!("kept {kept} {kinds:?}");
    }
    if kept > 12_288 {
        return Err(format!("an instance keeps {kept} bytes after 37 rounds of calls (kinds {kinds:?}) on {n} keywords"));
    }
    Ok(())
}

fn footprint(shape: u64, n: usize, extra: usize, cr: &Creds, new: &Creds) -> Result<(u64, u64), String> {
    let w = World::new(false);
    let fx = w.client();
    let kw = |i: usize| format!("keyword {i:06}").into_bytes();
    let one = |v: Val, k: Bytes| Assoc::from([(v, BTreeSet::from([k]))]);
    let data = |i: usize| Val::D(format!("data {i:06}").into_bytes());
    let add = |a: &Assoc| go(&w, world::update(&fx, cr, true, a), "add");
    let search = |ks: &BTreeSet<Bytes>| go(&w, world::search(&fx, cr, ks), "search").map(|_| ());
    let full = |n: usize| -> Assoc { (0..n).map(|i| (data(i), BTreeSet::from([kw(0)]))).collect() };
    let ((), peak, total) = match shape {
        0 => {
            for i in 0..n {
                add(&one(data(i), kw(0)))?;
            }
            let ks = BTreeSet::from([kw(0)]);
            spent(|| search(&ks))?
        }
        1 => {
            let a = full(4 * n);
            spent(|| add(&a).map(|_| ()))?
        }
        2 => {
            let a = Assoc::from([(data(0), (0..n).map(kw).collect())]);
            spent(|| add(&a).map(|_| ()))?
        }
        3 => {
            add(&Assoc::from([(data(0), (0..n).map(kw).collect())]))?;
            let ks = (0..n).map(kw).collect();
            spent(|| search(&ks))?
        }
        4 => {
            add(&(0..n).map(|i| (Val::P(kw(i + 1)), BTreeSet::from([kw(i)]))).collect())?;
            let ks = BTreeSet::from([kw(0)]);
            spent(|| search(&ks))?
        }
        5 => {
            add(&(1..=n).map(|i| (Val::P(kw(i)), BTreeSet::from([kw(0)]))).collect())?;
            add(&Assoc::from([(data(0), (1..=n).map(kw).collect())]))?;
            let ks = BTreeSet::from([kw(0)]);
            spent(|| search(&ks))?
        }
        6 => {
            add(&full(4 * n))?;
            spent(|| go(&w, world::compact(&fx, cr, new, 1.0), "compact"))?
        }
        7 => {
            add(&full(4 * n))?;
            let a = one(data(1_000_000), kw(0));
            spent(|| add(&a).map(|_| ()))?
        }
        _ => {
            add(&(0..5 * extra).map(|i| (data(i), (0..n).map(kw).collect())).collect())?;
            spent(|| go(&w, world::compact(&fx, cr, new, 1.0), "compact"))?
        }
    };
    Ok((peak, total))
}

fn spent(f: impl FnOnce() -> Check) -> Result<((), u64, u64), String> {
    let (r, peak, total) = rt::measure(f);
    r?;
    Ok(((), peak, total))
}

pub static C27: Prop = Prop {
    id: "C27",
    level: "exploration",
    rule: "random histories (additions, deletions, searches, compactions, key changes) over arbitrary byte strings, with failures mixed in (database errors, altered lines, a refused compaction, failing callbacks), run under a trace subscriber that formats every span and event at a drawn level (everything in most cases); every result is compared with the model, and the text of the traces, of the errors returned (Display and Debug) and of the instance itself (Debug) is searched for any 8-byte piece of the user keys, the seeds and the derived keys, as raw bytes, hexadecimal, base64 or lists of numbers, and for any 4-byte piece, which counts if one is found again in four runs of the same history with other keys. Non-trivial: at least 10 trace records were formatted and at least one error was returned",
    quick: 24_000,
    thorough: 1_800_000,
    run: c27,
    scenarios: &[],
    budget: 256 * MB,
    assumptions: &["the keys and seeds are recovered by the independent implementation of the storage format"],
    stack: 2 << 20,
};

/// Formats everything it is given.
struct Recorder {
    out: std::sync::Arc<std::sync::Mutex<(Vec<u8>, u64)>>,
    level: tracing::Level,
    next: std::sync::atomic::AtomicU64,
}

struct Fields<'a>(&'a mut Vec<u8>);

impl tracing::field::Visit for Fields<'_> {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        use std::io::Write;
        let _ = writeln!(self.0, "{}={value:?}", field.name());
    }
}

impl tracing::Subscriber for Recorder {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        *m.level() <= self.level
    }
    fn new_span(&self, span: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        // Formatted before the lock is taken: user types may panic.
        let mut b = Vec::new();
        span.record(&mut Fields(&mut b));
        let mut o = self.out.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        o.0.extend(b);
        o.1 += 1;
        let n = self.next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        tracing::span::Id::from_u64(n + 1)
    }
    fn record(&self, _: &tracing::span::Id, values: &tracing::span::Record<'_>) {
        let mut b = Vec::new();
        values.record(&mut Fields(&mut b));
        self.out.lock().unwrap_or_else(std::sync::PoisonError::into_inner).0.extend(b);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut b = Vec::new();
        e.record(&mut Fields(&mut b));
        let mut o = self.out.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        o.0.extend(b);
        o.1 += 1;
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

/// Pieces of secrets, to be looked for in text.
#[derive(Default)]
struct Secrets {
    names: BTreeMap<Vec<u8>, &'static str>,
}

impl Secrets {
    fn add(&mut self, name: &'static str, bytes: &[u8]) {
        self.names.insert(bytes.to_vec(), name);
    }

    /// The keys and seeds of everything readable under the given credentials.
    fn collect(&mut self, w: &World, cr: &Creds) {
        self.add("user key", &cr.key);
        let k = refimpl::et_keys(&cr.key);
        self.add("entry table token key", &k.mac);
        self.add("entry table encryption key", &k.dem);
        let (et, _) = w.snapshot();
        self.collect_from(et.values(), &k);
    }

    fn collect_from<'a>(
        &mut self,
        entries: impl Iterator<Item = &'a cosmian_findex::EncryptedValue<{ cosmian_findex::ENTRY_LENGTH }>>,
        k: &refimpl::Keys,
    ) {
        for v in entries {
            if let Some(b) = refimpl::open(k, v) {
                let e = refimpl::parse_entry(&b);
                self.add("chain seed", &e.seed);
                let ck = refimpl::ct_keys(&e.seed);
                self.add("chain token key", &ck.mac);
                self.add("chain encryption key", &ck.dem);
            }
        }
    }

    /// The first secret a piece of which occurs in the text. Pieces of 4 bytes are
    /// found by chance now and then: see `c27`.
    fn find<const PIECE: usize>(&self, text: &[u8]) -> Option<String> {
        let mut raw: HashSet<&[u8]> = HashSet::new();
        let mut hex: HashSet<Vec<u8>> = HashSet::new();
        let mut b64: HashSet<Vec<u8>> = HashSet::new();
        for s in self.names.keys() {
            for x in s.windows(PIECE) {
                raw.insert(x);
                hex.insert(x.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect());
            }
            if PIECE < 8 {
                b64.extend(s.windows(PIECE).map(base64_end));
            } else {
                b64.extend(s.windows(PIECE + 1).map(base64));
            }
        }
        let name = |piece: &[u8]| {
            let s = self.names.iter().find(|(s, _)| s.windows(piece.len()).any(|x| x == piece));
            s.map_or("secret", |s| *s.1)
        };
        for x in text.windows(PIECE) {
            if raw.contains(x) {
                return Some(format!("{} (raw bytes)", name(x)));
            }
        }
        // Without spaces and line breaks.
        let dense: Vec<u8> = text.iter().copied().filter(|b| !b.is_ascii_whitespace()).collect();
        let low: Vec<u8> = dense.iter().map(u8::to_ascii_lowercase).collect();
        // Hexadecimal, also with separators between the bytes.
        let mut bare = low.clone();
        bare.retain(|b| !matches!(b, b':' | b'-' | b',' | b'_' | b'\\'));
        let bare0x: Vec<u8> = String::from_utf8_lossy(&bare).replace("0x", "").replace('x', "").into_bytes();
        for t in [&low, &bare, &bare0x] {
            for x in t.windows(2 * PIECE) {
                if hex.contains(x) {
                    return Some("secret in hexadecimal".into());
                }
            }
        }
        let std64: Vec<u8> = dense
            .iter()
            .map(|b| match b {
                b'-' => b'+',
                b'_' => b'/',
                b => *b,
            })
            .collect();
        for x in std64.windows(if PIECE < 8 { 8 } else { 12 }) {
            if b64.contains(x) {
                return Some("secret in base64".into());
            }
        }
        // Lists of numbers.
        let mut run: Vec<u8> = Vec::new();
        for part in dense.split(|b| matches!(b, b',' | b';')) {
            let digits: Vec<u8> = part.iter().rev().take_while(|b| b.is_ascii_digit()).copied().collect();
            let lead: Vec<u8> = part.iter().take_while(|b| b.is_ascii_digit()).copied().collect();
            let num = |d: &[u8]| std::str::from_utf8(d).ok().and_then(|s| s.parse::<u8>().ok());
            let last: Vec<u8> = digits.iter().rev().copied().collect();
            if lead.len() == part.len() {
                match num(&lead) {
                    Some(n) => run.push(n),
                    None => run.clear(),
                }
            } else {
                // "12]" ends a list, "[12" starts one.
                if let Some(n) = num(&lead) {
                    run.push(n);
                }
                if run.windows(PIECE).any(|x| raw.contains(x)) {
                    return Some("secret as a list of numbers".into());
                }
                run.clear();
                if let Some(n) = num(&last) {
                    run.push(n);
                }
            }
            if run.len() >= PIECE && raw.contains(&run[run.len() - PIECE..]) {
                return Some("secret as a list of numbers".into());
            }
        }
        None
    }
}

fn base64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks_exact(3)
        .flat_map(|x| {
            let n = u32::from(x[0]) << 16 | u32::from(x[1]) << 8 | u32::from(x[2]);
            [18, 12, 6, 0].map(|s| A[(n >> s) as usize & 63])
        })
        .collect()
}

/// Four bytes, encoded alone.
fn base64_end(b: &[u8]) -> Vec<u8> {
    let mut r = base64(&[b[0], b[1], b[2], b[3], 0, 0]);
    r.truncate(6);
    r.extend(b"==");
    r
}

fn c27(c: &mut Case) -> Check {
    // Looked for in the text: they must not look like anything else.
    c.plain_keys = true;
    let level = match c.weighted(&[6, 1, 1, 1]) {
        0 => tracing::Level::TRACE,
        1 => tracing::Level::DEBUG,
        2 => tracing::Level::INFO,
        _ => tracing::Level::ERROR,
    };
    let (r, secrets, text, records, said) = with_traces(c, level);
    c.count("trace records", records);
    c.count("bytes of trace", text.len() as u64);
    c.count("errors returned", said.len() as u64);
    c.count("secrets looked for", secrets.names.len() as u64);
    r?;
    if records >= 10 && !said.is_empty() {
        c.nontrivial();
    }
    if let Some(x) = secrets.find::<8>(&text) {
        return Err(format!("the traces contain a {x}"));
    }
    for s in &said {
        if let Some(x) = secrets.find::<8>(s.as_bytes()) {
            return Err(format!("an error or a debug text contains a {x}: {}", s.chars().take(300).collect::<String>()));
        }
    }
    // Shorter pieces occur by chance in a text of this size: they count if they
    // do for other keys too.
    let short = |secrets: &Secrets, text: &[u8], said: &[String]| {
        secrets.find::<4>(text).or_else(|| said.iter().find_map(|s| secrets.find::<4>(s.as_bytes())))
    };
    if let Some(x) = short(&secrets, &text, &said) {
        c.label("four bytes of a secret found: tried with other keys");
        for salt in 1..=4 {
            let mut c = c.again(salt);
            let _ = c.weighted(&[6, 1, 1, 1]);
            let (_, secrets, text, _, said) = with_traces(&mut c, level);
            if short(&secrets, &text, &said).is_none() {
                return Ok(());
            }
        }
        return Err(format!("four bytes of a {x} are found in the traces or the errors, whatever the keys"));
    }
    Ok(())
}

fn with_traces(c: &mut Case, level: tracing::Level) -> (Check, Secrets, Vec<u8>, u64, Vec<String>) {
    let out = std::sync::Arc::new(std::sync::Mutex::new((Vec::new(), 0)));
    let rec = Recorder { out: out.clone(), level, next: Default::default() };
    let mut secrets = Secrets::default();
    let mut said = Vec::new();
    let r = tracing::subscriber::with_default(rec, || traced(c, &mut secrets, &mut said));
    let (text, records) = std::mem::take(&mut *out.lock().unwrap_or_else(std::sync::PoisonError::into_inner));
    (r, secrets, text, records, said)
}

fn traced(c: &mut Case, secrets: &mut Secrets, said: &mut Vec<String>) -> Check {
    let w = World::draw(c);
    let pool = Pool::new(c, 5, 4);
    let mut cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    secrets.collect(&w, &cr);
    let say = |e: FErr, said: &mut Vec<String>| {
        said.push(format!("{e} {e:?} {e:#?}"));
    };
    let n = c.range(2, 6);
    for _ in 0..n {
        match c.weighted(&[6, 3, 2, 2, 2, 1, 1]) {
            0 => {
                let (add, a) = gen_update(c, &pool, &m);
                do_update(c, &w, &fx, &cr, &mut m, add, &a, true)?;
            }
            1 => {
                let ks = pool.some_kws(c);
                expect_search(c, &w, &fx, &cr, &m, &ks, "with traces enabled")?;
            }
            2 => {
                let new = cr.rotate(c);
                let rate = *c.pick(&[1.0, 0.0]);
                secrets.collect(&w, &new);
                go(&w, world::compact(&fx, &cr, &new, rate), "compact")?;
                if rate == 1.0 {
                    m.compact(|_| true);
                }
                cr = new;
                c.note(|| format!("compact at rate {rate}"));
            }
            3 => {
                // A database error.
                let (add, a) = gen_update(c, &pool, &m);
                let (k, f) = (c.below(3), *c.pick(&[Fault::ErrBefore, Fault::ErrAfter]));
                let new = cr.rotate(c);
                secrets.collect(&w, &new);
                let which = c.below(3);
                let ks = pool.some_kws(c);
                let s0 = w.snapshot();
                w.ctl.arm(&[(k, f)]);
                w.ctl.set_budget(call_budget(&w));
                let r = block_on(&w.ctl, async {
                    match which {
                        0 => world::update(&fx, &cr, add, &a).await.map(|_| ()),
                        1 => world::search(&fx, &cr, &ks).await.map(|_| ()),
                        _ => world::compact(&fx, &cr, &new, 1.0).await,
                    }
                })
                .expect("no crash");
                w.ctl.disarm();
                secrets.collect(&w, &cr);
                secrets.collect(&w, &new);
                if let Err(e) = r {
                    c.note(|| format!("error at request {k}"));
                    say(e, said);
                }
                w.restore(&s0);
            }
            4 => {
                // An altered line.
                let s0 = w.snapshot();
                let bit = c.below(8);
                let new = cr.rotate(c);
                secrets.collect(&w, &new);
                let (mut et, mut ct) = s0.clone();
                if c.chance(1, 2) && !ct.is_empty() {
                    let i = c.idx(ct.len());
                    let v = ct.values_mut().nth(i).expect("a line");
                    v.ciphertext[0] ^= 1 << bit;
                } else if !et.is_empty() {
                    let i = c.idx(et.len());
                    let v = et.values_mut().nth(i).expect("an entry");
                    v.tag[0] ^= 1 << bit;
                }
                w.restore(&(et, ct));
                let ks: BTreeSet<Bytes> = pool.kws.iter().cloned().collect();
                if let Err(e) = go_raw(&w, world::search(&fx, &cr, &ks))? {
                    say(e, said);
                }
                if let Err(e) = go_raw(&w, world::compact(&fx, &cr, &new, 1.0))? {
                    say(e, said);
                }
                secrets.collect(&w, &new);
                w.restore(&s0);
            }
            5 => {
                // A refused compaction.
                if let Err(e) = go_raw(&w, world::compact(&fx, &cr, &cr, 1.0))? {
                    say(e, said);
                }
            }
            _ => {
                // Failing callbacks.
                let ks = pool.some_kws(c);
                let r = go_raw(
                    &w,
                    fx.search(&cr.user_key(), &cr.lab(), world::kw_set(&ks), &|_| async { Err("no".to_string()) }),
                )?;
                match r {
                    Err(Error::Interrupt(e)) => said.push(e),
                    Err(e) => say(e, said),
                    Ok(_) => {}
                }
                let new = cr.rotate(c);
                if let Err(e) =
                    go_raw(&w, world::compact_with(&fx, &cr, &new, 1.0, &|_| async { Err("no".to_string()) }))?
                {
                    say(e, said);
                }
            }
        }
        secrets.collect(&w, &cr);
    }
    expect_all(c, &w, &fx, &cr, &m, &pool.kws, "with traces enabled")?;
    if c.chance(1, 4) {
        said.push(instance_debug(c, &w, &cr, &pool, secrets)?);
    }
    Ok(())
}

/// The `Debug` text of an instance over the library's own tables.
fn instance_debug(c: &mut Case, w: &World, cr: &Creds, pool: &Pool, secrets: &mut Secrets) -> Result<String, String> {
    use cosmian_findex::{ChainTable, DxEnc, EntryTable, Findex, InMemoryDb, Token, TokenToEncryptedValueMap};
    let (et, ct) = w.snapshot();
    let (mut e, mut k) = (InMemoryDb::default(), InMemoryDb::default());
    e.load(TokenToEncryptedValueMap::from(
        et.into_iter().map(|(t, v)| (Token::from(t), v)).collect::<std::collections::HashMap<_, _>>(),
    ));
    k.load(TokenToEncryptedValueMap::from(
        ct.into_iter().map(|(t, v)| (Token::from(t), v)).collect::<std::collections::HashMap<_, _>>(),
    ));
    let entries = std::sync::Arc::clone(&e);
    let fx: Findex<_, _, _> = Findex::new(EntryTable::setup(e), ChainTable::setup(k));
    let mut cr = cr.clone();
    for _ in 0..c.range(1, 4) {
        let ks = world::kw_set(&pool.some_kws(c));
        let (key, lab) = (cr.user_key(), cr.lab());
        let a = pool.assoc(c);
        let what = c.below(5);
        match what {
            0 => crate::db::now(fx.search(&key, &lab, ks, &|_| async { Ok(false) })).map(|_| ()),
            1 => crate::db::now(fx.add(&key, &lab, world::assoc_map(&a))).map(|_| ()),
            2 => crate::db::now(fx.delete(&key, &lab, world::assoc_map(&a))).map(|_| ()),
            3 => {
                let new = cr.rotate(c);
                let r = crate::db::now(fx.compact(&key, &new.user_key(), &lab, &new.lab(), 1.0, &|d| async { Ok(d) }));
                cr = new;
                r
            }
            _ => {
                let generated = fx.keygen();
                secrets.add("generated key", &generated);
                Ok(())
            }
        }
        .map_err(|e| format!("operation {what} failed: {e:?}"))?;
        // What this instance handles is secret too.
        secrets.add("user key", &cr.key);
        let keys = refimpl::et_keys(&cr.key);
        secrets.add("entry table token key", &keys.mac);
        secrets.add("entry table encryption key", &keys.dem);
        let et = entries.lock().expect("table").clone();
        secrets.collect_from(et.values(), &keys);
    }
    Ok(format!("{fx:?} {fx:#?}"))
}
