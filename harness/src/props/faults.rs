//! Injected faults and crashes: C07 (additions, deletions) and C11 (compaction).

use super::*;
use crate::db::{block_on, poll_once, Fault, FAULTS};
use crate::engine::MB;
use crate::model::by_keyword;
use cosmian_findex::Error;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::task::Poll;

pub static C07: Prop = Prop {
    id: "C07",
    level: "fault_enumeration",
    rule: "each case generates an index content, one addition or deletion (a third of them raced by another client between its requests) and a follow-up (another client's update, a compaction, a search, or nothing; then a retry of the failed call, possibly itself faulted once more); every request the call sends is then failed or cut (error before/after effect, crash before/after effect) in a separate run from the same state, and the follow-up is run. Checked after each: the error reported, untouched keywords, all-or-nothing per keyword, exact results after follow-up and retry. Non-trivial: the call touches at least one already indexed keyword and the content has at least two keywords",
    quick: 15_600,
    thorough: 1_300_000,
    run: c07,
    scenarios: &[],
    budget: 128 * MB,
    assumptions: &["each database request is atomic: a failed one took effect entirely or not at all"],
    stack: 2 << 20,
};

#[derive(Clone, Debug)]
enum Follow {
    Nothing,
    Update(bool, Assoc),
    Compact(Creds, f64),
    Search,
}

/// Runs an update with faults armed. `None`: crashed.
fn faulted_update(
    w: &World,
    fx: &Fx,
    cr: &Creds,
    add: bool,
    a: &Assoc,
    faults: &[(u64, Fault)],
) -> Result<Option<Result<BTreeSet<Bytes>, FErr>>, String> {
    w.ctl.arm(faults);
    w.ctl.set_budget(call_budget(w));
    let r = block_on(&w.ctl, world::update(fx, cr, add, a));
    if w.ctl.over_budget() {
        return Err("the update does not terminate after a fault".into());
    }
    Ok(r)
}

/// The same, another client adding values of its own (`races`) at given steps
/// of the call. Returns the additions that took place.
#[allow(clippy::type_complexity)]
fn raced_update(
    w: &World,
    fx: &Fx,
    cr: &Creds,
    add: bool,
    a: &Assoc,
    faults: &[(u64, Fault)],
    races: &[(u64, Assoc)],
) -> Result<(Option<Result<BTreeSet<Bytes>, FErr>>, Vec<Assoc>), String> {
    if races.is_empty() {
        return faulted_update(w, fx, cr, add, a, faults).map(|r| (r, vec![]));
    }
    let rival = w.client();
    let mut done = Vec::new();
    w.ctl.arm(faults);
    w.ctl.set_budget(call_budget(w) * (2 + races.len() as u64));
    w.ctl.yields.set(true);
    let mut fut: Pin<Box<dyn std::future::Future<Output = Result<BTreeSet<Bytes>, FErr>> + '_>> =
        Box::pin(world::update(fx, cr, add, a));
    let mut step = 0;
    let r = loop {
        if let Poll::Ready(r) = poll_once(&mut fut) {
            break Some(r);
        }
        if w.ctl.crashed() {
            break None;
        }
        step += 1;
        for (at, b) in races {
            if *at == step {
                let r = w.ctl.aside(|| block_on(&w.ctl, world::update(&rival, cr, true, b)).expect("no crash"));
                world::err(r, "update of another client")?;
                done.push(b.clone());
            }
        }
        if step > 100_000 {
            return Err("the update does not terminate".into());
        }
    };
    drop(fut);
    w.ctl.yields.set(false);
    if w.ctl.over_budget() {
        return Err("the update does not terminate after a fault".into());
    }
    Ok((r, done))
}

/// The model in which each keyword has its state after the call if the index
/// shows it, and its state before otherwise; anything else is a violation.
pub(super) fn observe(
    w: &World,
    fx: &Fx,
    cr: &Creds,
    before: &Model,
    after: &Model,
    kws: &[Bytes],
    what: &str,
) -> Result<Model, String> {
    let got = direct(w, fx, cr, kws)?;
    let mut m = before.clone();
    for k in kws {
        let g = got.get(k).cloned().unwrap_or_default();
        let b = before.kws.get(k).cloned().unwrap_or_default();
        let a = after.kws.get(k).cloned().unwrap_or_default();
        if g == b {
            continue;
        }
        if g != a {
            let d: world::Direct = BTreeMap::from([(k.clone(), g)]);
            let e: world::Direct = BTreeMap::from([(k.clone(), b)]);
            let f: world::Direct = BTreeMap::from([(k.clone(), a)]);
            return Err(format!(
                "{what}: the index holds {} but before the call it held {} and the call leads to {}",
                show_direct(&d),
                show_direct(&e),
                show_direct(&f)
            ));
        }
        m.kws.insert(k.clone(), g);
    }
    // Searches agree with what is observed.
    let all: BTreeSet<Bytes> = kws.iter().cloned().collect();
    let res = go(w, world::search(fx, cr, &all), "search after a fault")?;
    if res != m.search(&all) {
        return Err(format!("{what}: search returns {} instead of {}", show_res(&res), show_res(&m.search(&all))));
    }
    Ok(m)
}

fn c07(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = if c.chance(1, 3) { Pool::new(c, 5, 4) } else { Pool::simple(c, 5, 4) };
    let cr = Creds::new(c);
    let fx = w.client();
    let mut before = Model::default();
    build(c, &w, &fx, &cr, &mut before, &pool, 0, 4)?;
    let (add, a) = gen_update(c, &pool, &before);
    let touched = by_keyword(&a);
    if touched.keys().any(|k| before.kws.get(k).is_some_and(|v| !v.is_empty())) && before.kws.len() >= 2 {
        c.nontrivial();
    }
    let follow = match c.below(4) {
        0 => Follow::Nothing,
        1 => {
            let (add, a) = gen_update(c, &pool, &before);
            Follow::Update(add, a)
        }
        2 => Follow::Compact(cr.rotate(c), *c.pick(&[1.0, 0.5])),
        _ => Follow::Search,
    };
    let second = c.chance(1, 3).then(|| (c.below(4), FAULTS[c.idx(4)]));
    let same_client = c.chance(1, 2);
    // Another client races the call: it adds values of its own, so that the
    // order does not matter.
    let races: Vec<(u64, Assoc)> = if c.chance(1, 3) && !touched.is_empty() {
        let ks: Vec<Bytes> = touched.keys().cloned().collect();
        (0..c.range(1, 3))
            .map(|i| {
                let mut on = BTreeSet::from([c.pick(&ks).clone()]);
                if c.chance(1, 2) {
                    on.insert(c.pick(&ks).clone());
                }
                (c.range(1, 4), Assoc::from([(Val::D(format!("of another client {i}").into_bytes()), on)]))
            })
            .collect()
    } else {
        vec![]
    };
    let s0 = w.snapshot();
    let before0 = before;
    let states = |done: &[Assoc]| {
        let mut before = before0.clone();
        for b in done {
            before.apply(true, b);
        }
        let mut after = before.clone();
        after.apply(add, &a);
        (before, after)
    };
    c.note(|| {
        format!(
            "faulted call: {} {}; raced at steps {}; then {}; retry faulted at {second:?}",
            if add { "add" } else { "delete" },
            show_assoc(&a),
            races.iter().map(|(s, b)| format!("{s} (add {})", show_assoc(b))).collect::<Vec<_>>().join(", "),
            match &follow {
                Follow::Nothing => "nothing".into(),
                Follow::Search => "search".into(),
                Follow::Update(x, a) => format!("{} {}", if *x { "add" } else { "delete" }, show_assoc(a)),
                Follow::Compact(n, r) => format!("compact at rate {r} to key {} label {}", show(&n.key), show(&n.label)),
            }
        )
    });
    // Fault-free run: number of requests.
    let (r, done) = raced_update(&w, &fx, &cr, add, &a, &[], &races)?;
    world::err(r.expect("no crash"), "update")?;
    let n = w.ctl.calls();
    w.ctl.disarm();
    let (_, after) = states(&done);
    if !done.is_empty() {
        c.label("raced");
    }
    expect_direct(&w, &fx, &cr, &after, &pool.kws, "after the fault-free call")?;

    for k in 0..n {
        for f in FAULTS {
            w.restore(&s0);
            c.label(match f {
                Fault::ErrBefore => "error before effect",
                Fault::ErrAfter => "error after effect",
                Fault::CrashBefore => "crash before effect",
                Fault::CrashAfter => "crash after effect",
                Fault::PanicBefore | Fault::PanicAfter => unreachable!(),
            });
            let what = format!(
                "{} {} with {f:?} at request {k}",
                if add { "add" } else { "delete" },
                show_assoc(&a)
            );
            let victim = w.client();
            let (r, done) = raced_update(&w, &victim, &cr, add, &a, &[(k, f)], &races)?;
            let (before, after) = states(&done);
            let fired = w.ctl.fired();
            let crashed = w.ctl.crashed();
            let last = w.ctl.calls() - 1;
            w.ctl.disarm();
            if fired == 0 {
                // The schedule of requests may depend on randomness.
                continue;
            }
            match (f, r) {
                (Fault::ErrBefore | Fault::ErrAfter, Some(Err(Error::DbInterface(e)))) => {
                    let side = if f == Fault::ErrBefore { "before" } else { "after" };
                    if e.0 != format!("injected {side} request {k}") {
                        return Err(format!("{what}: another error is reported: {e:?}"));
                    }
                    if last != k {
                        return Err(format!("{what}: requests are still sent after the failure"));
                    }
                }
                (Fault::CrashBefore | Fault::CrashAfter, None) if crashed => {}
                (_, r) => {
                    return Err(format!("{what}: the call returned {r:?}"));
                }
            }
            let fx2 = if same_client && !crashed { victim } else { w.client() };
            let mut seen = observe(&w, &fx2, &cr, &before, &after, &pool.kws, &what)?;
            let mut cur = cr.clone();
            match &follow {
                Follow::Nothing => {}
                Follow::Search => {
                    let ks = pool.kws.iter().cloned().collect();
                    go(&w, world::search(&fx2, &cur, &ks), "search after a fault")?;
                }
                Follow::Update(x, b) => {
                    go(&w, world::update(&fx2, &cur, *x, b), "another update after a fault")?;
                    seen.apply(*x, b);
                    expect_direct(&w, &fx2, &cur, &seen, &pool.kws, &format!("after {what} and another update"))?;
                }
                Follow::Compact(new, rate) => {
                    go(&w, world::compact(&fx2, &cur, new, *rate), "compact after a fault")?;
                    cur = new.clone();
                    expect_direct(&w, &fx2, &cur, &seen, &pool.kws, &format!("after {what} and a compaction"))?;
                }
            }
            // Retry of the failed call, possibly faulted too, then for good.
            if let Some((k2, f2)) = second {
                let mut target = seen.clone();
                target.apply(add, &a);
                let r = faulted_update(&w, &fx2, &cur, add, &a, &[(k2, f2)])?;
                w.ctl.disarm();
                if let Some(Ok(_)) = r {
                    seen = target;
                } else {
                    seen = observe(&w, &w.client(), &cur, &seen, &target, &pool.kws, &format!("{what}, faulted retry"))?;
                }
            }
            let fx3 = w.client();
            go(&w, world::update(&fx3, &cur, add, &a), "retry of the failed call")?;
            seen.apply(add, &a);
            expect_direct(&w, &fx3, &cur, &seen, &pool.kws, &format!("after {what} and a retry"))?;
            let ks: BTreeSet<Bytes> = pool.kws.iter().cloned().collect();
            let res = go(&w, world::search(&fx3, &cur, &ks), "search")?;
            if res != seen.search(&ks) {
                return Err(format!("after {what} and a retry: search returns {}", show_res(&res)));
            }
            // A last full compaction: nothing dangling may prevent it, and no
            // association may be lost.
            let mut end = cur.clone();
            end.label.push(b'!');
            go(&w, world::compact(&fx3, &cur, &end, 1.0), "final compact")?;
            expect_direct(&w, &fx3, &end, &seen, &pool.kws, &format!("after {what}, a retry and a full compaction"))?;
            seen.compact(|_| true);
            if w.ct.len() != seen.total_lines() || w.et.len() != seen.kws.len() {
                return Err(format!(
                    "after {what}, a retry and a full compaction: {} entries and {} chain lines instead of {} and {}",
                    w.et.len(),
                    w.ct.len(),
                    seen.kws.len(),
                    seen.total_lines()
                ));
            }
        }
    }
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11",
    level: "fault_enumeration",
    rule: "each case generates an index of 1-9 keywords (the verification hook makes a compaction batch 4 entries), a compaction (rate 1, 0.5, 0.3 or 0; key and/or label rotated) and a situation: plain, target label already holding content under the same key, another label in the same tables, or a mistaken old label. Every request of the compaction is failed or cut (4 ways), alone and followed by a second fault on the next one or two requests, in separate runs from the same state; each run is followed by 0-2 further compactions (to the same or other credentials, possibly faulted). After every step each keyword must be complete under some credentials used so far, every credentials used must give it complete or not at all, and a compaction that returned Ok must have moved everything. Non-trivial: at least two non-empty keywords and a plain situation, or at least one keyword in conflict",
    quick: 2_520,
    thorough: 210_000,
    run: c11,
    scenarios: &[
        ("compaction towards a label in use loses nothing", c11_label_in_use),
        ("mistaken old label", c11_mistaken_label),
        ("crash between removals, then another compaction", c11_dangling),
    ],
    budget: 256 * MB,
    assumptions: &["each database request is atomic: a failed one took effect entirely or not at all", "a single client compacts at a time"],
    stack: 2 << 20,
};

/// One index: its credentials and content.
#[derive(Clone)]
struct Source {
    cr: Creds,
    content: Model,
}

struct Books {
    /// What must be preserved.
    sources: Vec<Source>,
    /// Every credentials used so far.
    used: Vec<Creds>,
    kws: Vec<Bytes>,
}

impl Books {
    fn content(&self, i: usize, k: &Bytes) -> BTreeSet<Val> {
        self.sources[i].content.kws.get(k).cloned().unwrap_or_default()
    }

    /// The invariant; `moved_to` adds: everything is there.
    fn check(&self, w: &World, what: &str, moved_to: Option<&Creds>) -> Check {
        let fx = w.client();
        let mut seen: Vec<world::Direct> = Vec::new();
        for cr in &self.used {
            seen.push(direct(w, &fx, cr, &self.kws).map_err(|e| format!("{what}: {e}"))?);
        }
        for k in &self.kws {
            let legit: Vec<BTreeSet<Val>> =
                (0..self.sources.len()).map(|i| self.content(i, k)).filter(|s| !s.is_empty()).collect();
            for (cr, d) in self.used.iter().zip(&seen) {
                if let Some(g) = d.get(k) {
                    if !legit.contains(g) {
                        return Err(format!(
                            "{what}: under key {} label {} keyword {} gives [{}], which is neither everything nor nothing",
                            show(&cr.key), show(&cr.label), show(k),
                            g.iter().map(crate::model::show_val).collect::<Vec<_>>().join(",")
                        ));
                    }
                }
            }
            for i in 0..self.sources.len() {
                let want = self.content(i, k);
                if want.is_empty() {
                    continue;
                }
                if !seen.iter().any(|d| d.get(k) == Some(&want)) {
                    return Err(format!(
                        "{what}: the associations of keyword {} [{}] are lost under all {} credentials",
                        show(k),
                        want.iter().map(crate::model::show_val).collect::<Vec<_>>().join(","),
                        self.used.len()
                    ));
                }
                if let Some(t) = moved_to {
                    let j = self.used.iter().position(|u| u == t).expect("used");
                    if seen[j].get(k) != Some(&want) {
                        return Err(format!(
                            "{what}: the compaction succeeded but keyword {} is not complete under the new credentials",
                            show(k)
                        ));
                    }
                }
            }
        }
        Ok(())
    }
}

/// Whether a keyword is indexed is told by the next addition. Under any
/// credentials used, an indexed keyword holds everything.
fn probe(w: &World, books: &Books, what: &str) -> Check {
    let fx = w.client();
    let p = Val::D(b"probe data".to_vec());
    let a = Assoc::from([(p.clone(), books.kws.iter().cloned().collect())]);
    let s0 = w.snapshot();
    for cr in &books.used {
        w.restore(&s0);
        let new = match go_raw(w, world::update(&fx, cr, true, &a))? {
            Ok(new) => new,
            Err(e) => return Err(format!("{what}: an addition under label {} fails: {e:?}", show(&cr.label))),
        };
        let mut d = direct(w, &fx, cr, &books.kws)?;
        for k in &books.kws {
            let mut g = d.remove(k).unwrap_or_default();
            if !g.remove(&p) {
                return Err(format!("{what}: an addition to keyword {} under label {} is not found", show(k), show(&cr.label)));
            }
            let ok = if new.contains(k) {
                g.is_empty()
            } else {
                books.sources.iter().any(|s| s.content.kws.get(k) == Some(&g))
            };
            if !ok {
                return Err(format!(
                    "{what}: under key {} label {} keyword {} was {} and now holds [{}] besides what was just added",
                    show(&cr.key), show(&cr.label), show(k),
                    if new.contains(k) { "not indexed" } else { "indexed" },
                    g.iter().map(crate::model::show_val).collect::<Vec<_>>().join(",")
                ));
            }
        }
    }
    w.restore(&s0);
    Ok(())
}

fn faulted_compact(
    w: &World,
    old: &Creds,
    new: &Creds,
    rate: f64,
    faults: &[(u64, Fault)],
) -> Result<Option<Result<(), FErr>>, String> {
    let fx = w.client();
    w.ctl.arm(faults);
    w.ctl.set_budget(call_budget(w));
    let r = block_on(&w.ctl, world::compact(&fx, old, new, rate));
    if w.ctl.over_budget() {
        return Err("the compaction does not terminate after a fault".into());
    }
    Ok(r)
}

fn c11(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = if c.chance(1, 4) { Pool::new(c, 6, 4) } else { Pool::simple(c, 9, 4) };
    let cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    build(c, &w, &fx, &cr, &mut m, &pool, 1, 5)?;
    let rate = *c.pick(&[1.0, 0.5, 0.3, 0.0]);
    let mut new = cr.rotate(c);
    let mut old = cr.clone();
    let mut sources = vec![Source { cr: cr.clone(), content: m.clone() }];
    let mut used = vec![cr.clone()];
    let filled = m.kws.values().filter(|v| !v.is_empty()).count();
    match c.weighted(&[6, 2, 2, 1]) {
        0 => {
            if filled >= 2 {
                c.nontrivial();
            }
        }
        mode @ (1 | 2) => {
            // Another index under the same key (or the new one) and another
            // label: either the target of the compaction, or a third one.
            let mut other = cr.clone();
            other.label = b"other label".to_vec();
            if other.label == cr.label {
                other.label.push(b'2');
            }
            if mode == 1 {
                c.label("target label in use");
                new = other.clone();
            } else {
                c.label("third label in the same tables");
                if c.chance(1, 2) {
                    new.key = cr.key;
                    if new.label == cr.label {
                        new.label.push(b'3');
                    }
                }
            }
            let mut mo = Model::default();
            build(c, &w, &fx, &other, &mut mo, &pool, 1, 3)?;
            if mo.kws.iter().any(|(k, v)| !v.is_empty() && m.kws.get(k).is_some_and(|x| !x.is_empty())) {
                c.label("keyword in conflict");
                c.nontrivial();
            }
            used.push(other.clone());
            sources.push(Source { cr: other, content: mo });
        }
        _ => {
            c.label("mistaken old label");
            old.label.push(b'?');
            new = cr.clone();
            if filled >= 2 {
                c.nontrivial();
            }
        }
    }
    if !used.contains(&new) {
        used.push(new.clone());
    }
    if !used.contains(&old) {
        used.push(old.clone());
    }
    let books = Books { sources, used, kws: pool.kws.clone() };
    books.check(&w, "before the compaction", None)?;
    // Follow-up compactions.
    let nf = c.below(3);
    let third = cr.rotate(c);
    let follow: Vec<(Creds, Creds, f64, Option<(u64, Fault)>)> = (0..nf)
        .map(|_| {
            let all = [cr.clone(), new.clone(), third.clone()];
            let a = c.pick(&all).clone();
            let b = c.pick(&all).clone();
            let r = *c.pick(&[1.0, 0.5]);
            let f = c.chance(1, 3).then(|| (c.below(12), FAULTS[c.idx(4)]));
            (a, b, r, f)
        })
        .collect();
    let s0 = w.snapshot();
    c.note(|| {
        format!(
            "compact key {} label {} -> key {} label {} at rate {rate}, {} sources, {} follow-ups",
            show(&old.key), show(&old.label), show(&new.key), show(&new.label), books.sources.len(), follow.len()
        )
    });

    let mut plans: Vec<Vec<(u64, Fault)>> = vec![vec![]];
    let r = faulted_compact(&w, &old, &new, rate, &[])?.expect("no crash");
    let n = w.ctl.calls();
    w.ctl.disarm();
    books.check(&w, "after the compaction without fault", r.is_ok().then_some(&new))?;
    c.label(if r.is_ok() { "fault-free compaction succeeds" } else { "fault-free compaction is refused" });
    for k in 0..n {
        for f in FAULTS {
            plans.push(vec![(k, f)]);
        }
        // Faults while the failure is being handled.
        for f in [Fault::ErrBefore, Fault::ErrAfter] {
            for g in FAULTS {
                let d = 1 + c.below(2);
                plans.push(vec![(k, f), (k + d, g)]);
            }
        }
    }
    if n > 5 {
        c.label("several batches");
    }
    for plan in plans {
        w.restore(&s0);
        let what = format!("compaction with faults {plan:?}");
        let r = faulted_compact(&w, &old, &new, rate, &plan)?;
        w.ctl.disarm();
        c.count("fault plans", 1);
        let ok = matches!(r, Some(Ok(())));
        // The first error must not be swallowed.
        if ok && w.ctl.fired() > 0 {
            return Err(format!("{what}: the compaction reports success although a request failed"));
        }
        books.check(&w, &what, ok.then_some(&new))?;
        if plan.len() == 1 {
            probe(&w, &books, &what)?;
        }
        let mut used = books.used.clone();
        used.push(third.clone());
        let b2 = Books { sources: books.sources.clone(), used, kws: books.kws.clone() };
        for (i, (a, b, rate, f)) in follow.iter().enumerate() {
            let fs: Vec<(u64, Fault)> = f.iter().copied().collect();
            let r = faulted_compact(&w, a, b, *rate, &fs)?;
            w.ctl.disarm();
            let ok = matches!(r, Some(Ok(())));
            if ok {
                c.label("follow-up compaction succeeds");
            }
            b2.check(
                &w,
                &format!("{what}, then compaction {i} from key {} label {} to key {} label {} faults {fs:?} -> {}",
                    show(&a.key), show(&a.label), show(&b.key), show(&b.label), if ok { "Ok" } else { "failed" }),
                ok.then_some(b),
            )?;
        }
    }
    let _ = books.sources.iter().map(|s| &s.cr).count();
    Ok(())
}

fn simple_content(w: &World, cr: &Creds, n: usize, tag: &str) -> Result<Model, String> {
    let fx = w.client();
    let mut m = Model::default();
    let mut a = Assoc::new();
    for i in 0..n {
        a.entry(Val::D(format!("{tag}{i}").into_bytes())).or_default().insert(format!("k{i}").into_bytes());
    }
    go(w, world::update(&fx, cr, true, &a), "add")?;
    m.apply(true, &a);
    Ok(m)
}

fn kws(n: usize) -> Vec<Bytes> {
    (0..n).map(|i| format!("k{i}").into_bytes()).collect()
}

fn c11_label_in_use(c: &mut Case) -> Check {
    for (na, nb) in [(1, 1), (2, 1), (1, 3), (6, 6)] {
        let w = World::new(na == 1);
        let a = Creds { key: [5; 16], label: b"a".to_vec() };
        let b = Creds { key: [5; 16], label: b"b".to_vec() };
        let ma = simple_content(&w, &a, na, "da")?;
        let mb = simple_content(&w, &b, nb, "db")?;
        let books = Books {
            sources: vec![
                Source { cr: a.clone(), content: ma },
                Source { cr: b.clone(), content: mb },
            ],
            used: vec![a.clone(), b.clone()],
            kws: kws(6),
        };
        let r = go_raw(&w, world::compact(&w.client(), &a, &b, 1.0))?;
        if r.is_ok() {
            return Err("a compaction towards a label already in use under the same key succeeded".into());
        }
        books.check(&w, "after compacting towards a label in use", None)?;
    }
    c.nontrivial();
    Ok(())
}

fn c11_mistaken_label(c: &mut Case) -> Check {
    for n in [1, 3, 4, 9] {
        for rate in [0.0, 0.5, 1.0] {
            let w = World::new(n == 3);
            let a = Creds { key: [5; 16], label: b"a".to_vec() };
            let wrong = Creds { key: [5; 16], label: b"oops".to_vec() };
            let m = simple_content(&w, &a, n, "d")?;
            let r = go_raw(&w, world::compact(&w.client(), &wrong, &a, rate))?;
            let books = Books {
                sources: vec![Source { cr: a.clone(), content: m }],
                used: vec![a.clone()],
                kws: kws(n),
            };
            books.check(&w, "after a compaction with a mistaken old label", r.is_ok().then_some(&a))?;
        }
    }
    c.nontrivial();
    Ok(())
}

fn c11_dangling(c: &mut Case) -> Check {
    // A label rotation cut at each request, then every possible continuation.
    let a = Creds { key: [5; 16], label: b"a".to_vec() };
    let b = Creds { key: [5; 16], label: b"b".to_vec() };
    let d = Creds { key: [5; 16], label: b"c".to_vec() };
    for k in 0..8 {
        for f in FAULTS {
            for next in [(&a, &b), (&a, &d), (&b, &d)] {
                let w = World::new(k % 2 == 0);
                let m = simple_content(&w, &a, 3, "d")?;
                let books = Books {
                    sources: vec![Source { cr: a.clone(), content: m }],
                    used: vec![a.clone(), b.clone(), d.clone()],
                    kws: kws(3),
                };
                faulted_compact(&w, &a, &b, 1.0, &[(k, f)])?;
                w.ctl.disarm();
                books.check(&w, &format!("label rotation with {f:?} at request {k}"), None)?;
                let r = go_raw(&w, world::compact(&w.client(), next.0, next.1, 1.0))?;
                books.check(
                    &w,
                    &format!("label rotation with {f:?} at request {k}, then another compaction"),
                    r.is_ok().then_some(next.1),
                )?;
            }
        }
    }
    c.nontrivial();
    Ok(())
}
