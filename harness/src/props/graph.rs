//! Graph search: C02 (reachability, termination) and C03 (interrupt callback).

use super::*;
use crate::db::{Kind, YieldOnce};
use crate::engine::MB;
use crate::model::{distances, reach};
use cosmian_findex::Index;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

pub(super) fn node(i: usize) -> Bytes {
    format!("k{i}").into_bytes()
}

/// A graph of keywords: shape families plus random edges.
pub(super) fn gen_graph(c: &mut Case, max: u64) -> (usize, Assoc) {
    let n = c.range(1, max) as usize;
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    match c.below(8) {
        0 => {}
        1 => {
            c.label("graph: long path");
            edges.extend((0..n - 1).map(|i| (i, i + 1)));
        }
        2 => {
            c.label("graph: cycle");
            edges.extend((0..n).map(|i| (i, (i + 1) % n)));
        }
        3 => {
            c.label("graph: layered diamonds");
            let width = c.range(2, 3) as usize;
            for i in 0..n {
                for j in 0..n {
                    if i / width + 1 == j / width {
                        edges.insert((i, j));
                    }
                }
            }
        }
        4 => {
            c.label("graph: star");
            edges.extend((1..n).map(|i| (0, i)));
        }
        5 => {
            c.label("graph: tree");
            edges.extend((1..n).map(|i| ((i - 1) / 2, i)));
        }
        6 => {
            c.label("graph: complete");
            for i in 0..n.min(6) {
                for j in 0..n.min(6) {
                    edges.insert((i, j));
                }
            }
        }
        _ => {
            c.label("graph: self references");
            edges.extend((0..n).map(|i| (i, i)));
        }
    }
    let extra = c.below(2 * n as u64 + 1);
    for _ in 0..extra {
        // Nodes n and n+1 index nothing: dangling links.
        let (a, b) = (c.idx(n), c.idx(n + 2));
        edges.insert((a, b));
    }
    let mut a = Assoc::new();
    for (x, y) in edges {
        a.entry(Val::P(node(y))).or_default().insert(node(x));
    }
    for i in 0..n {
        let d = c.weighted(&[2, 4, 1]);
        for j in 0..d {
            // Some data are shared between keywords.
            let name = if c.chance(1, 4) { format!("shared{}", c.below(3)) } else { format!("d{i}.{j}") };
            a.entry(Val::D(name.into_bytes())).or_default().insert(node(i));
        }
    }
    (n, a)
}

/// Splits associations into a few calls.
fn split(c: &mut Case, a: &Assoc) -> Vec<Assoc> {
    let n = c.range(1, 3) as usize;
    let mut parts = vec![Assoc::new(); n];
    for (v, ks) in a {
        for k in ks {
            parts[c.idx(n)].entry(v.clone()).or_default().insert(k.clone());
        }
    }
    parts
}

pub(super) fn load(c: &mut Case, w: &World, fx: &Fx, cr: &Creds, m: &mut Model, a: &Assoc) -> Check {
    for p in split(c, a) {
        do_update(c, w, fx, cr, m, true, &p, false)?;
    }
    // Some links are removed again.
    if c.chance(1, 4) {
        let pool = Pool { kws: m.kws.keys().cloned().collect(), data: vec![b"none".to_vec()] };
        if !pool.kws.is_empty() {
            let d = gen_deletion(c, &pool, m);
            do_update(c, w, fx, cr, m, false, &d, false)?;
        }
    }
    Ok(())
}

pub(super) fn roots(c: &mut Case, n: usize) -> BTreeSet<Bytes> {
    let k = c.range(1, 3.min(n as u64 + 1));
    (0..k).map(|_| node(c.idx(n + 2))).collect()
}

pub static C02: Prop = Prop {
    id: "C02",
    level: "exploration",
    rule: "graphs of 1-14 keywords (paths, cycles, layered diamonds, stars, trees, complete, self references, random and dangling edges) with private and shared data, loaded in 1-3 calls, some links deleted again; every root alone and random sets of roots are searched and compared with model reachability, and the number of database rounds is compared with the breadth-first depth. Scenarios search paths of 30000 keywords and wide graphs on a thread with the default 2 MiB stack. Non-trivial: some searched keyword reaches data at distance 2 or more, or through a cycle",
    quick: 36_000,
    thorough: 3_000_000,
    run: c02,
    scenarios: &[
        ("path of 30000 keywords", c02_deep),
        ("cycle of 5000 keywords, searched from three points", c02_big_cycle),
        ("300 keywords all linked to a hub linked to all of them", c02_wide),
        ("20000 keywords at one level, then 20000 at the next one", c02_broad),
    ],
    budget: 512 * MB,
    assumptions: &["searching threads have the default stack size of 2 MiB"],
    stack: 2 << 20,
};

fn check_rounds(w: &World, m: &Model, ks: &BTreeSet<Bytes>) -> Check {
    let depth = distances(&m.kws, ks).values().max().copied().unwrap_or(0) as u64;
    let calls = w.ctl.calls();
    // Two requests per level; links to keywords of the last level, or indexing
    // nothing, may cost one more level.
    if calls > 2 * (depth + 3) {
        return Err(format!("{calls} requests for a search of depth {depth}"));
    }
    Ok(())
}

fn c02(c: &mut Case) -> Check {
    let w = World::draw(c);
    let fx = w.client();
    let cr = Creds::new(c);
    let mut m = Model::default();
    let (n, a) = gen_graph(c, 14);
    load(c, &w, &fx, &cr, &mut m, &a)?;
    for i in 0..n + 2 {
        let ks = BTreeSet::from([node(i)]);
        expect_search(c, &w, &fx, &cr, &m, &ks, "from one keyword")?;
        check_rounds(&w, &m, &ks)?;
        let d = distances(&m.kws, &ks);
        if d.iter().any(|(k, x)| *x >= 2 && m.kws[k].iter().any(|v| matches!(v, Val::D(_)))) {
            c.nontrivial();
        }
    }
    for _ in 0..3 {
        let ks = roots(c, n);
        expect_search(c, &w, &fx, &cr, &m, &ks, "from several keywords")?;
        check_rounds(&w, &m, &ks)?;
    }
    Ok(())
}

fn path(n: usize, close: bool) -> Assoc {
    let mut a = Assoc::new();
    for i in 0..n {
        if i + 1 < n || close {
            a.entry(Val::P(node((i + 1) % n))).or_default().insert(node(i));
        }
        a.entry(Val::D(format!("d{i}").into_bytes())).or_default().insert(node(i));
    }
    a
}

fn big_search(w: &World, fx: &Fx, cr: &Creds, m: &Model, ks: &BTreeSet<Bytes>) -> Check {
    w.ctl.disarm();
    w.ctl.set_budget(200_000);
    let got = crate::db::block_on(&w.ctl, world::search(fx, cr, ks)).expect("no crash");
    let got = world::err(got, "search")?;
    let want = m.search(ks);
    if got != want {
        return Err("the search of a large graph does not return what is reachable".into());
    }
    check_rounds(w, m, ks)
}

fn c02_deep(_: &mut Case) -> Check {
    let w = World::new(false);
    let fx = w.client();
    let cr = Creds { key: [1; 16], label: b"deep".to_vec() };
    let mut m = Model::default();
    let a = path(30_000, false);
    go(&w, world::update(&fx, &cr, true, &a), "add")?;
    m.apply(true, &a);
    big_search(&w, &fx, &cr, &m, &BTreeSet::from([node(0)]))
}

fn c02_big_cycle(_: &mut Case) -> Check {
    let w = World::new(true);
    let fx = w.client();
    let cr = Creds { key: [1; 16], label: b"cycle".to_vec() };
    let mut m = Model::default();
    let a = path(5000, true);
    go(&w, world::update(&fx, &cr, true, &a), "add")?;
    m.apply(true, &a);
    big_search(&w, &fx, &cr, &m, &BTreeSet::from([node(0), node(1700), node(3400)]))
}

fn c02_wide(_: &mut Case) -> Check {
    let w = World::new(true);
    let fx = w.client();
    let cr = Creds { key: [1; 16], label: b"wide".to_vec() };
    let mut m = Model::default();
    let mut a = Assoc::new();
    for i in 1..=300 {
        a.entry(Val::P(node(0))).or_default().insert(node(i));
        a.entry(Val::P(node(i))).or_default().insert(node(0));
        a.entry(Val::D(format!("d{i}").into_bytes())).or_default().insert(node(i));
    }
    go(&w, world::update(&fx, &cr, true, &a), "add")?;
    m.apply(true, &a);
    big_search(&w, &fx, &cr, &m, &BTreeSet::from([node(0), node(7)]))
}

fn c02_broad(_: &mut Case) -> Check {
    let w = World::new(false);
    let fx = w.client();
    let cr = Creds { key: [1; 16], label: b"broad".to_vec() };
    let mut m = Model::default();
    let mut a = Assoc::new();
    let n = 20_000;
    for i in 1..=n {
        a.entry(Val::P(node(i))).or_default().insert(node(0));
        a.entry(Val::P(node(n + i))).or_default().insert(node(i));
        a.entry(Val::D(format!("d{i}").into_bytes())).or_default().insert(node(i));
        a.entry(Val::D(format!("e{i}").into_bytes())).or_default().insert(node(n + i));
    }
    go(&w, world::update(&fx, &cr, true, &a), "add")?;
    m.apply(true, &a);
    big_search(&w, &fx, &cr, &m, &BTreeSet::from([node(0)]))?;
    big_search(&w, &fx, &cr, &m, &(1..=n).map(node).collect())
}

pub static C03: Prop = Prop {
    id: "C03",
    level: "exploration",
    rule: "the graphs of C02; the interrupt callback (answering immediately or after a suspension) records what it is shown and, at a generated call, answers true, fails with a generated message, or never; the shown associations are compared with the model and breadth-first distances, the requests sent after the answer are counted, and the result is compared with reachability inside what was shown. Every stopping point of the search is enumerated for each case. Non-trivial: the uninterrupted search makes at least 3 callback calls",
    quick: 21_000,
    thorough: 1_750_000,
    run: c03,
    scenarios: &[("thousands of levels, and thousands of keywords at one level", c03_large)],
    budget: 128 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

#[derive(Clone, Debug)]
enum Answer {
    Never,
    StopAt(usize),
    FailAt(usize, String),
}

fn c03(c: &mut Case) -> Check {
    let w = World::draw(c);
    let fx = w.client();
    let cr = Creds::new(c);
    let mut m = Model::default();
    let (n, a) = gen_graph(c, 10);
    load(c, &w, &fx, &cr, &mut m, &a)?;
    let ks = roots(c, n);
    let later = c.chance(1, 2);
    let full = one_interrupt(c, &w, &fx, &cr, &m, &ks, Answer::Never, later)?;
    if full >= 3 {
        c.nontrivial();
    }
    c.label(match full {
        0 => "0 callback calls",
        1 => "1 callback call",
        2 => "2 callback calls",
        3 => "3 callback calls",
        4 => "4 callback calls",
        _ => "5 or more callback calls",
    });
    for stop in 0..=full {
        one_interrupt(c, &w, &fx, &cr, &m, &ks, Answer::StopAt(stop), later)?;
        let msg = match c.below(3) {
            0 => String::new(),
            1 => "stop".to_string(),
            _ => format!("failure {}", c.below(1000)),
        };
        one_interrupt(c, &w, &fx, &cr, &m, &ks, Answer::FailAt(stop, msg), later)?;
        c.count("stopping points tried", 2);
    }
    Ok(())
}

fn c03_large(c: &mut Case) -> Check {
    let cr = Creds { key: [1; 16], label: b"large".to_vec() };
    let w = World::new(false);
    let fx = w.client();
    let mut m = Model::default();
    let a = path(2_000, false);
    go(&w, world::update(&fx, &cr, true, &a), "add")?;
    m.apply(true, &a);
    let ks = BTreeSet::from([node(0)]);
    for answer in [
        Answer::Never,
        Answer::StopAt(99),
        Answer::StopAt(1_000),
        Answer::FailAt(1_998, "far".into()),
        Answer::StopAt(1_999),
    ] {
        one_interrupt(c, &w, &fx, &cr, &m, &ks, answer, false)?;
    }
    let w = World::new(true);
    let fx = w.client();
    let mut m = Model::default();
    let mut a = Assoc::new();
    for i in 1..=4_000 {
        a.entry(Val::P(node(i))).or_default().insert(node(0));
        a.entry(Val::D(format!("d{i}").into_bytes())).or_default().insert(node(i));
    }
    a.entry(Val::P(node(5_000))).or_default().insert(node(4_000));
    a.entry(Val::D(b"end".to_vec())).or_default().insert(node(5_000));
    go(&w, world::update(&fx, &cr, true, &a), "add")?;
    m.apply(true, &a);
    for answer in [Answer::Never, Answer::StopAt(0), Answer::StopAt(1), Answer::FailAt(1, "wide".into())] {
        one_interrupt(c, &w, &fx, &cr, &m, &ks, answer, true)?;
    }
    let many: BTreeSet<Bytes> = (1..=3_000).map(node).collect();
    one_interrupt(c, &w, &fx, &cr, &m, &many, Answer::StopAt(0), false)?;
    c.nontrivial();
    Ok(())
}

/// Runs one search; returns the number of callback calls.
#[allow(clippy::too_many_arguments)]
fn one_interrupt(
    c: &mut Case,
    w: &World,
    fx: &Fx,
    cr: &Creds,
    m: &Model,
    ks: &BTreeSet<Bytes>,
    answer: Answer,
    later: bool,
) -> Result<usize, String> {
    let shown: RefCell<Vec<world::Direct>> = RefCell::default();
    let at_stop: Cell<Option<u64>> = Cell::new(None);
    let r = {
        let (shown, at_stop, ctl, answer) = (&shown, &at_stop, &w.ctl, &answer);
        go_raw(
            w,
            fx.search(&cr.user_key(), &cr.lab(), world::kw_set(ks), &move |map| {
                let i = shown.borrow().len();
                shown.borrow_mut().push(world::graph_of(&map));
                let res = match answer {
                    Answer::StopAt(k) if *k == i => {
                        at_stop.set(Some(ctl.calls()));
                        Ok(true)
                    }
                    Answer::FailAt(k, msg) if *k == i => {
                        at_stop.set(Some(ctl.calls()));
                        Err(msg.clone())
                    }
                    _ => Ok(false),
                };
                async move {
                    if later {
                        YieldOnce(false).await;
                        YieldOnce(false).await;
                    }
                    res
                }
            }),
        )?
    };
    let shown = shown.into_inner();
    let calls = shown.len();
    c.note(|| format!("search {} with {answer:?}: {calls} callback calls", show_set(ks)));
    let what = format!("search of {} with callback {answer:?}", show_set(ks));
    // What is shown is true, complete, and in breadth-first order.
    let dist = distances(&m.kws, ks);
    let mut first: BTreeMap<Bytes, usize> = BTreeMap::new();
    for (i, map) in shown.iter().enumerate() {
        for (k, vals) in map {
            match m.kws.get(k) {
                Some(v) if v == vals => {}
                Some(_) => return Err(format!("{what}: call {i} shows {} with wrong associations", show(k))),
                None if vals.is_empty() => {}
                None => return Err(format!("{what}: call {i} shows {} which indexes nothing", show(k))),
            }
            first.entry(k.clone()).or_insert(i);
            if m.kws.get(k).is_some() && !dist.contains_key(k) {
                return Err(format!("{what}: call {i} shows {} which is not reachable", show(k)));
            }
        }
    }
    let stopped_at = match &answer {
        Answer::Never => None,
        Answer::StopAt(k) | Answer::FailAt(k, _) => (*k < calls).then_some(*k),
    };
    for (k, d) in &dist {
        let want = match stopped_at {
            Some(s) if *d > s => None,
            _ => Some(*d),
        };
        if first.get(k).copied() != want {
            return Err(format!(
                "{what}: {} is at distance {d} but first shown at call {:?}",
                show(k),
                first.get(k)
            ));
        }
    }
    if let Some(s) = stopped_at {
        if calls != s + 1 {
            return Err(format!("{what}: the callback was called again after it stopped the search"));
        }
        if at_stop.get() != Some(w.ctl.calls()) {
            return Err(format!("{what}: requests were sent after the callback stopped the search"));
        }
    }
    match (&answer, stopped_at, r) {
        (Answer::FailAt(_, msg), Some(_), Err(cosmian_findex::Error::Interrupt(e))) if e == *msg => {}
        (Answer::FailAt(_, msg), Some(_), other) => {
            return Err(format!("{what}: expected the interrupt error '{msg}', got {:?}", other.map(world::res_of)))
        }
        (_, _, Err(e)) => return Err(format!("{what}: failed with {e:?}")),
        (_, _, Ok(res)) => {
            let got = world::res_of(res);
            let mut fed: world::Direct = BTreeMap::new();
            for map in &shown {
                for (k, v) in map {
                    fed.entry(k.clone()).or_default().extend(v.iter().cloned());
                }
            }
            let want: world::Res = ks.iter().map(|k| (k.clone(), reach(&fed, k))).collect();
            if got != want {
                return Err(format!(
                    "{what}: result {} but what was shown gives {}",
                    show_res(&got),
                    show_res(&want)
                ));
            }
            if stopped_at.is_none() && got != m.search(ks) {
                return Err(format!("{what}: the uninterrupted result is not complete"));
            }
        }
    }
    let _ = Kind::Fetch;
    Ok(calls)
}
