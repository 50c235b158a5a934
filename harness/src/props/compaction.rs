//! Compaction: C08 (results preserved), C10 (filter), C12 (re-encryption),
//! C22 (repeated partial compactions).

use super::*;
use crate::engine::MB;
use crate::refimpl;
use crate::world::{CtMap, EtMap};
use cosmian_findex::{Data, Error};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// Rates met in practice and at the edges.
pub fn rate(c: &mut Case) -> f64 {
    *c.pick(&[1.0, 0.5, 0.2, 0.1, 0.9, 0.34, 0.0, 2.0, 100.0, 0.001])
}

/// Pools small enough to stay in one batch and large enough to span several
/// (the verification hook makes a batch 4 entries).
pub fn pool_for_compaction(c: &mut Case) -> Pool {
    match c.weighted(&[4, 4, 1]) {
        0 => Pool::new(c, 4, 5),
        1 => Pool::new(c, 13, 5),
        _ => Pool::simple(c, 40, 6),
    }
}

pub static C08: Prop = Prop {
    id: "C08",
    level: "exploration",
    rule: "stateful: 2-14 calls (additions, deletions, compactions at rates 0 to 100 rotating key, label or both, sometimes back to credentials used earlier) over 1-40 keywords and 2 clients; the verification hook makes a compaction batch 4 entries, so that indexes span up to 10 batches. After each compaction and at the end the direct associations and the searches of every keyword under the current credentials are compared with the reference model. Non-trivial: a compaction ran on at least two non-empty keywords holding a deleted or duplicated association, or spanned several batches",
    quick: 54_000,
    thorough: 4_500_000,
    run: c08,
    scenarios: &[("batch boundaries", c08_batches), ("indexes of hundreds of keywords and lines", c08_large)],
    budget: 128 * MB,
    assumptions: &["a single client compacts at a time and nothing else runs meanwhile"],
    stack: 2 << 20,
};

fn c08(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = pool_for_compaction(c);
    let mut used = vec![Creds::new(c)];
    let mut cr = used[0].clone();
    let clients: Vec<Fx> = (0..2).map(|_| w.client()).collect();
    let mut m = Model::default();
    // Start from some content.
    for k in 0..pool.kws.len() {
        if c.chance(3, 4) {
            let v = pool.val(c);
            let a = Assoc::from([(v, BTreeSet::from([pool.kws[k].clone()]))]);
            do_update(c, &w, &clients[0], &cr, &mut m, true, &a, false)?;
        }
    }
    let n = c.range(2, 14);
    let mut stale = false;
    let mut compacted = false;
    for step in 0..n {
        let fx = &clients[c.idx(2)];
        match c.weighted(&[3, 3, 1]) {
            0 => {
                let (add, a) = gen_update(c, &pool, &m);
                if !add || by_keyword_dup(&m, &a) {
                    stale = true;
                }
                do_update(c, &w, fx, &cr, &mut m, add, &a, false)?;
            }
            1 => {
                let new = if used.len() > 1 && c.chance(1, 6) {
                    c.pick(&used).clone()
                } else {
                    cr.rotate(c)
                };
                if new == cr {
                    continue;
                }
                let r = rate(c);
                let entries = w.et.len();
                go(&w, world::compact(fx, &cr, &new, r), "compact")?;
                c.note(|| format!("compact {entries} entries at rate {r} to key {} label {}", show(&new.key), show(&new.label)));
                let non_empty = m.kws.values().filter(|v| !v.is_empty()).count();
                if non_empty >= 2 && (stale || entries > 4) {
                    c.nontrivial();
                }
                if entries > 4 {
                    c.label("compaction of several batches");
                }
                if compacted {
                    c.label("compaction of an index already compacted");
                }
                c.label(if r >= 1.0 { "full compaction" } else { "partial compaction" });
                compacted = true;
                cr = new;
                if !used.contains(&cr) {
                    used.push(cr.clone());
                }
                expect_direct(&w, fx, &cr, &m, &pool.kws, &format!("after the compaction of step {step}"))?;
            }
            _ => {
                let ks = pool.some_kws(c);
                expect_search(c, &w, fx, &cr, &m, &ks, "during the history")?;
            }
        }
    }
    expect_direct(&w, &clients[0], &cr, &m, &pool.kws, "at the end")?;
    expect_search(c, &w, &clients[1], &cr, &m, &pool.kws.iter().cloned().collect(), "at the end")?;
    Ok(())
}

fn by_keyword_dup(m: &Model, a: &Assoc) -> bool {
    a.iter().any(|(v, ks)| ks.iter().any(|k| m.kws.get(k).is_some_and(|s| s.contains(v))))
}

/// Every index size around the batch boundaries, every rate.
fn c08_batches(c: &mut Case) -> Check {
    for n in 0..14usize {
        for r in [1.0, 0.5, 0.0] {
            let w = World::new(n % 2 == 0);
            let fx = w.client();
            let cr = Creds { key: [1; 16], label: b"a".to_vec() };
            let mut m = Model::default();
            let kws: Vec<Bytes> = (0..n).map(|i| format!("k{i}").into_bytes()).collect();
            for (i, k) in kws.iter().enumerate() {
                let mut a = Assoc::from([
                    (Val::D(format!("d{i}").into_bytes()), BTreeSet::from([k.clone()])),
                    (Val::P(kws[(i + 1) % n].clone()), BTreeSet::from([k.clone()])),
                ]);
                do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
                a.retain(|v, _| matches!(v, Val::P(_)));
                if i % 3 == 0 {
                    do_update(c, &w, &fx, &cr, &mut m, false, &a, true)?;
                }
            }
            let new = Creds { key: [2; 16], label: b"b".to_vec() };
            go(&w, world::compact(&fx, &cr, &new, r), "compact")?;
            expect_direct(&w, &fx, &new, &m, &kws, &format!("after compacting {n} entries at rate {r}"))?;
        }
    }
    c.nontrivial();
    Ok(())
}

fn c08_large(c: &mut Case) -> Check {
    for (n, lines) in [(300usize, 3usize), (1500, 1), (5, 400)] {
        let w = World::new(n == 300);
        let fx = w.client();
        let mut cr = Creds { key: [1; 16], label: b"a".to_vec() };
        let mut m = Model::default();
        let kws: Vec<Bytes> = (0..n).map(|i| format!("k{i}").into_bytes()).collect();
        for l in 0..lines {
            // Every value is added, some are deleted or repeated later.
            let a: Assoc = kws
                .iter()
                .enumerate()
                .map(|(i, k)| (Val::D(format!("d{i} {}", l - l % 3).into_bytes()), BTreeSet::from([k.clone()])))
                .collect();
            do_update(c, &w, &fx, &cr, &mut m, l % 7 != 6, &a, false)?;
        }
        for (i, r) in [0.3, 1.0, 0.05, 2.0].into_iter().enumerate() {
            let new = Creds { key: [2 + i as u8; 16], label: format!("b{i}").into_bytes() };
            go(&w, world::compact(&fx, &cr, &new, r), "compact")?;
            cr = new;
            expect_direct(&w, &fx, &cr, &m, &kws, &format!("after compacting {n} keywords at rate {r}"))?;
        }
    }
    c.nontrivial();
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    level: "exploration",
    rule: "an index of 1-13 keywords (up to 4 batches), each holding at most one data of its own and shared data, pointers and deleted associations, then 1-2 compactions whose filter draws, for each batch it is given, which data it keeps, which foreign data it invents (absent data, data of other keywords, a data spelled like an indexed keyword), or that it fails. What the filter was shown is compared with the model; each keyword must hold exactly its data filtered by one call that was shown all its data, or be unchanged if its chain is untouched; invented data never appear; a failing filter gives back its own error with every keyword either moved and filtered by an earlier call, or intact under the old credentials. Non-trivial: the filter dropped some data shared by keywords or failed after a completed batch",
    quick: 48_000,
    thorough: 4_000_000,
    run: c10,
    scenarios: &[],
    budget: 128 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

/// Tokens of the chain of each keyword, read with the reference implementation.
pub fn chains_of(
    et: &EtMap,
    ct: &CtMap,
    cr: &Creds,
    kws: &[Bytes],
) -> Result<BTreeMap<Bytes, Vec<crate::db::Tok>>, String> {
    let mut out = BTreeMap::new();
    let k = refimpl::et_keys(&cr.key);
    for kw in kws {
        let Some(v) = et.get(&refimpl::et_token(&k, kw, &cr.label)) else { continue };
        let e = refimpl::parse_entry(&refimpl::open(&k, v).ok_or("an entry cannot be decrypted")?);
        let mut toks = refimpl::chain(&e, ct.len() + 64).ok_or("a chain does not reach its last token")?;
        toks.retain(|t| ct.contains_key(t));
        out.insert(kw.clone(), toks);
    }
    Ok(out)
}

fn c10(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = if c.chance(1, 2) { Pool::new(c, 13, 5) } else { Pool::simple(c, 13, 5) };
    let mut cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    let own = |k: &Bytes| {
        let mut d = b"own ".to_vec();
        d.extend_from_slice(k);
        d
    };
    for k in &pool.kws {
        let mut a = Assoc::new();
        if c.chance(4, 5) {
            a.insert(Val::D(own(k)), BTreeSet::from([k.clone()]));
        }
        if c.chance(2, 3) {
            let v = pool.val(c);
            a.entry(v).or_default().insert(k.clone());
        }
        if !a.is_empty() {
            do_update(c, &w, &fx, &cr, &mut m, true, &a, false)?;
        }
    }
    build(c, &w, &fx, &cr, &mut m, &pool, 0, 3)?;
    let rounds = c.range(1, 2);
    for _ in 0..rounds {
        let new = cr.rotate(c);
        let r = *c.pick(&[1.0, 1.0, 0.5, 0.2, 3.0, 0.0]);
        let all_data: BTreeSet<Bytes> = m
            .kws
            .values()
            .flatten()
            .filter_map(|v| if let Val::D(d) = v { Some(d.clone()) } else { None })
            .collect();
        // Decisions of each call, drawn in advance.
        let universe: Vec<Bytes> = {
            let mut u: BTreeSet<Bytes> = all_data.clone();
            u.extend(pool.data.iter().cloned());
            u.extend(pool.kws.iter().map(own));
            u.extend(pool.kws.iter().cloned());
            u.insert(b"invented".to_vec());
            u.into_iter().collect()
        };
        let fail_at = c.chance(1, 3).then(|| c.idx(4));
        let uniform = c.chance(1, 2);
        let mut decisions: Vec<BTreeSet<Bytes>> = Vec::new();
        for i in 0..16 {
            if uniform && i > 0 {
                decisions.push(decisions[0].clone());
                continue;
            }
            let mode = c.weighted(&[3, 1, 1]);
            decisions.push(match mode {
                0 => {
                    let keep = c.subset(universe.len(), 1, 2);
                    keep.into_iter().map(|i| universe[i].clone()).collect()
                }
                1 => universe.iter().cloned().collect(),
                _ => BTreeSet::new(),
            });
        }
        // A filter that returns only what it is shown, or a superset.
        let invents = c.chance(1, 2);
        let fed: RefCell<Vec<BTreeSet<Bytes>>> = RefCell::default();
        let msg = format!("filter says no {}", c.below(1000));
        let before = w.snapshot();
        let chains = chains_of(&before.0, &before.1, &cr, &pool.kws)?;
        let filter = |d: HashSet<Data>| {
            let seen: BTreeSet<Bytes> = d.iter().map(|x| x.to_vec()).collect();
            let i = fed.borrow().len();
            fed.borrow_mut().push(seen.clone());
            let res = if fail_at == Some(i) {
                Err(msg.clone())
            } else {
                let keep = &decisions[i.min(decisions.len() - 1)];
                Ok(keep
                    .iter()
                    .filter(|x| invents || seen.contains(*x))
                    .map(|x| Data::from(x.as_slice()))
                    .collect::<HashSet<Data>>())
            };
            async move { res }
        };
        let res = go_raw(&w, world::compact_with(&fx, &cr, &new, r, &filter))?;
        let fed = fed.into_inner();
        let failed = fail_at.is_some_and(|i| i < fed.len());
        c.note(|| {
            format!(
                "index [{}]; compact at rate {r}; filter shown {}; keeps {}; fails at {fail_at:?}; result {res:?}",
                show_direct(&m.kws),
                fed.iter().map(show_set).collect::<Vec<_>>().join(" "),
                decisions.iter().take(fed.len()).map(show_set).collect::<Vec<_>>().join(" ")
            )
        });
        match (&res, failed) {
            (Ok(()), false) => {}
            (Err(Error::Filter(e)), true) if *e == msg => {}
            _ => {
                return Err(format!(
                    "the filter {} but the compaction returned {res:?}",
                    if failed { format!("failed with '{msg}'") } else { "never failed".into() }
                ))
            }
        }
        if failed && fed.len() != fail_at.unwrap() + 1 {
            return Err("the filter was called again after its failure".into());
        }
        // What the filter was shown.
        let shown: BTreeSet<Bytes> = fed.iter().flatten().cloned().collect();
        if let Some(x) = shown.iter().find(|x| !all_data.contains(*x)) {
            return Err(format!("the filter was shown {} which is not an indexed data", show(x)));
        }
        if r >= 1.0 && !failed {
            if let Some(x) = all_data.iter().find(|x| !shown.contains(*x)) {
                return Err(format!("everything is compacted but the filter was not shown {}", show(x)));
            }
        }
        // What the index holds now.
        let after = w.snapshot();
        let now_old = direct(&w, &fx, &cr, &pool.kws)?;
        let now_new = direct(&w, &fx, &new, &pool.kws)?;
        let chains_new = chains_of(&after.0, &after.1, &new, &pool.kws)?;
        for k in &pool.kws {
            let had = m.kws.get(k).cloned().unwrap_or_default();
            let o = now_old.get(k).cloned().unwrap_or_default();
            let n = now_new.get(k).cloned().unwrap_or_default();
            let data: BTreeSet<Bytes> = had
                .iter()
                .filter_map(|v| if let Val::D(d) = v { Some(d.clone()) } else { None })
                .collect();
            let filtered = |i: usize| -> BTreeSet<Val> {
                had.iter()
                    .filter(|v| match v {
                        Val::D(d) => decisions[i.min(decisions.len() - 1)].contains(d),
                        Val::P(_) => true,
                    })
                    .cloned()
                    .collect()
            };
            let state = |what: &str| {
                format!(
                    "keyword {} held {}, now {} under the old credentials and {} under the new ones: {what}",
                    show(k),
                    show_vals(&had),
                    show_vals(&o),
                    show_vals(&n)
                )
            };
            if !o.is_empty() {
                // Not moved: only if the compaction failed, and intact.
                if !failed {
                    return Err(state("the old credentials should not find anything"));
                }
                if o != had || !n.is_empty() {
                    return Err(state("a keyword not compacted yet must be unchanged"));
                }
                continue;
            }
            if had.is_empty() && n.is_empty() {
                continue;
            }
            let untouched = match (chains.get(k), chains_new.get(k)) {
                (Some(a), Some(b)) => a == b,
                (None, None) => true,
                _ => false,
            };
            if untouched {
                if n != had {
                    return Err(state("the chain was not compacted, so nothing may change"));
                }
                if r >= 1.0 && !had.is_empty() {
                    return Err(state("everything is compacted but this chain is untouched"));
                }
                continue;
            }
            // Compacted by one of the completed calls that was shown its data.
            let done = if failed { fed.len() - 1 } else { fed.len() };
            let ok = (0..done).any(|i| data.is_subset(&fed[i]) && filtered(i) == n);
            if !ok {
                return Err(state("this is not what any call of the filter kept"));
            }
            if n != had {
                c.label("keyword with filtered-out data");
            }
            if n.is_empty() && after.0.contains_key(&refimpl::et_token(&refimpl::et_keys(&new.key), k, &new.label)) {
                return Err(state("an emptied keyword keeps an entry"));
            }
        }
        if failed {
            c.label("filter failure");
            if fed.len() > 1 {
                c.label("filter failure after a completed batch");
                c.nontrivial();
            }
            return Ok(());
        }
        if all_data.iter().any(|d| {
            m.kws.values().filter(|v| v.contains(&Val::D(d.clone()))).count() > 1
                && !decisions.iter().take(fed.len()).all(|k| k.contains(d))
        }) {
            c.nontrivial();
        }
        // Go on from there.
        m.kws = now_new;
        m.lines.clear();
        cr = new;
    }
    Ok(())
}

fn show_vals(v: &BTreeSet<Val>) -> String {
    format!("[{}]", v.iter().map(crate::model::show_val).collect::<Vec<_>>().join(","))
}

pub static C12: Prop = Prop {
    id: "C12",
    level: "exploration",
    rule: "an index of 1-12 keywords, then 1-4 compactions at any rate rotating the key, the label or both, with updates in between; after each one the entry tokens and values are compared with those before (no token in common, no encrypted value ever seen before), every chain located with the reference implementation must be fully replaced (fresh seed, tokens and values) or fully untouched, and the old credentials must find nothing. Refused calls (same key and label; wrong old key, one bit away or unrelated) must report an error and leave both tables identical. Non-trivial: at least two keywords and a compaction with both replaced and untouched chains, or a refused call on a non-empty index",
    quick: 54_000,
    thorough: 4_500_000,
    run: c12,
    scenarios: &[],
    budget: 128 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

fn c12(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = if c.chance(1, 2) { Pool::new(c, 12, 4) } else { Pool::simple(c, 12, 4) };
    let mut cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    build(c, &w, &fx, &cr, &mut m, &pool, 1, 6)?;
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let rounds = c.range(1, 4);
    for _ in 0..rounds {
        let before = w.snapshot();
        for (_, v) in refimpl::all_value_bytes(&before.0, &before.1) {
            seen.insert(v);
        }
        // A refused call.
        if c.chance(1, 3) {
            let r = rate(c);
            let (res, what) = if c.chance(1, 2) {
                (go_raw(&w, world::compact(&fx, &cr, &cr, r))?, "with the same key and label")
            } else {
                let mut wrong = cr.clone();
                while wrong.key == cr.key {
                    if c.chance(1, 2) {
                        let b = c.idx(128);
                        wrong.key[b / 8] ^= 1 << (b % 8);
                    } else {
                        wrong.key = crate::gen::key(c);
                        wrong.key[0] ^= u8::from(wrong.key == cr.key);
                    }
                }
                let new = if c.chance(1, 3) { cr.clone() } else { wrong.rotate(c) };
                (go_raw(&w, world::compact(&fx, &wrong, &new, r))?, "with a wrong old key")
            };
            c.note(|| format!("compact {what} at rate {r} -> {res:?}"));
            if res.is_ok() && !(what.ends_with("key") && before.0.is_empty()) {
                return Err(format!("a compaction {what} was accepted"));
            }
            if w.snapshot() != before {
                return Err(format!("a refused compaction ({what}) changed the tables"));
            }
            c.label("refused compaction");
            if !before.0.is_empty() {
                c.nontrivial();
            }
        }
        let chains = chains_of(&before.0, &before.1, &cr, &pool.kws)?;
        let new = cr.rotate(c);
        let r = rate(c);
        go(&w, world::compact(&fx, &cr, &new, r), "compact")?;
        let after = w.snapshot();
        c.note(|| {
            format!(
                "compact {} entries {} lines at rate {r} (key {}, label {}) -> {} entries {} lines",
                before.0.len(), before.1.len(),
                if new.key == cr.key { "kept" } else { "changed" },
                if new.label == cr.label { "kept" } else { "changed" },
                after.0.len(), after.1.len()
            )
        });
        for (t, v) in &after.0 {
            if before.0.contains_key(t) {
                return Err(format!("entry token {} was there before the compaction", show(t)));
            }
            if seen.contains(&crate::db::value_bytes(v)) {
                return Err("an encrypted entry value was there before the compaction".into());
            }
        }
        let old_seeds: BTreeSet<[u8; 16]> = entries(&before.0, &cr, &pool.kws);
        let chains_new = chains_of(&after.0, &after.1, &new, &pool.kws)?;
        let (mut replaced, mut untouched) = (0, 0);
        let full = r >= 1.0;
        for (k, toks) in &chains {
            let kept = toks.iter().filter(|t| after.1.contains_key(*t)).count();
            if kept == toks.len() && !toks.is_empty() {
                untouched += 1;
                if full {
                    return Err(format!("at rate {r} the {} lines of keyword {} are left as they were", toks.len(), show(k)));
                }
                if chains_new.get(k) != Some(toks) {
                    return Err(format!("the lines of keyword {} are left but its chain differs", show(k)));
                }
                if toks.iter().any(|t| before.1[t] != after.1[t]) {
                    return Err(format!("lines of keyword {} changed under the same token", show(k)));
                }
                continue;
            }
            if kept > 0 {
                return Err(format!("{kept} of the {} lines of keyword {} were replaced only", toks.len(), show(k)));
            }
            replaced += 1;
        }
        for (k, toks) in &chains_new {
            let same = chains.get(k) == Some(toks) && !toks.is_empty();
            for t in toks {
                let v = crate::db::value_bytes(&after.1[t]);
                if !same && (before.1.contains_key(t) || seen.contains(&v)) {
                    return Err(format!("a rewritten chain of keyword {} holds an old line", show(k)));
                }
            }
            if !same && !toks.is_empty() {
                let s = entries(&after.0, &new, &[k.clone()]);
                if s.iter().any(|x| old_seeds.contains(x)) {
                    return Err(format!("the rewritten chain of keyword {} keeps an old seed", show(k)));
                }
            }
        }
        if replaced > 0 && untouched > 0 {
            c.label("compaction with replaced and untouched chains");
            c.nontrivial();
        }
        let found = direct(&w, &fx, &cr, &pool.kws)?;
        if !found.is_empty() {
            return Err(format!("the old credentials still find {}", show_direct(&found)));
        }
        let res = go(&w, world::search(&fx, &cr, &pool.kws.iter().cloned().collect()), "search")?;
        if res.values().any(|v| !v.is_empty()) {
            return Err(format!("the old credentials still find {}", show_res(&res)));
        }
        cr = new;
        expect_direct(&w, &fx, &cr, &m, &pool.kws, "after the compaction")?;
        build(c, &w, &fx, &cr, &mut m, &pool, 0, 2)?;
    }
    Ok(())
}

fn entries(et: &EtMap, cr: &Creds, kws: &[Bytes]) -> BTreeSet<[u8; 16]> {
    let k = refimpl::et_keys(&cr.key);
    kws.iter()
        .filter_map(|kw| et.get(&refimpl::et_token(&k, kw, &cr.label)))
        .filter_map(|v| refimpl::open(&k, v))
        .map(|b| refimpl::parse_entry(&b).seed)
        .collect()
}

pub static C22: Prop = Prop {
    id: "C22",
    level: "exploration",
    rule: "an index of N keywords (1-60), T repetitions of: n compactions (n in 2..12) at rate 1/n with alternating labels; the chains whose lines survived all n are counted. The documented guarantee (coupon collector) predicts at most 0.56*N^(1-log2 e) missed chains per repetition; the check fails above a threshold exceeded with probability below 1e-12 by code honouring it. Rates of one or more must replace every chain in one call and a rate of zero none. Non-trivial: N >= 2",
    quick: 4_200,
    thorough: 350_000,
    run: c22,
    scenarios: &[
        ("every small index size and number of calls", c22_small),
        ("indexes of thousands of keywords", c22_large),
        ("numbers of draws around the multiples of 2^16", c22_widths),
        ("chains of several lines at rate one and zero", c22_long_chains),
    ],
    budget: 256 * MB,
    assumptions: &["the statistical guarantee is the coupon collector bound quoted by the code; the threshold has a false alarm probability below 1e-12 per case"],
    stack: 2 << 20,
};

/// Builds N one-line keywords.
fn populate(w: &World, fx: &Fx, cr: &Creds, n: usize) -> Check {
    let a: Assoc = (0..n)
        .map(|i| (Val::D(format!("data {i}").into_bytes()), BTreeSet::from([format!("kw {i}").into_bytes()])))
        .collect();
    go(w, world::update(fx, cr, true, &a), "add")?;
    Ok(())
}

/// Number of chains left untouched by `calls` compactions at the given rate.
fn missed(w: &World, fx: &Fx, cr: &mut Creds, calls: usize, rate: f64) -> Result<usize, String> {
    let before = w.ct.snapshot();
    for i in 0..calls {
        let mut new = cr.clone();
        new.label = format!("{}{}", cr.label.len(), i).into_bytes();
        if new.label == cr.label {
            new.label.push(b'+');
        }
        go(w, world::compact(fx, cr, &new, rate), "compact")?;
        *cr = new;
    }
    let after = w.ct.snapshot();
    if before.len() != after.len() {
        return Err(format!("{} chain lines before the compactions, {} after", before.len(), after.len()));
    }
    Ok(before.keys().filter(|t| after.contains_key(*t)).count())
}

/// Smallest count whose probability to be reached is below 1e-13 for a Poisson
/// law of the given mean (the negative dependence of the draws only helps).
fn threshold(mean: f64) -> usize {
    let mut k = 0usize;
    let mut term = (-mean).exp();
    let mut cdf = term;
    // Chernoff bound for the tail.
    loop {
        k += 1;
        term *= mean / k as f64;
        cdf += term;
        let x = k as f64;
        let chernoff = if x > mean { (-(mean) + x - x * (x / mean).ln()).exp() } else { 1.0 };
        if chernoff < 1e-13 && cdf > 0.5 {
            return k;
        }
    }
}

fn expected_missed(n: usize) -> f64 {
    let len = n as f64;
    let draws = len.mul_add(len.log2() + 0.5772, 0.5);
    // Each draw misses a given entry with probability 1 - 1/N.
    if n == 1 {
        0.0
    } else {
        len * (draws * (1.0 - 1.0 / len).ln()).exp()
    }
}

fn c22_check(c: &mut Case, n: usize, calls: usize, trials: usize) -> Check {
    let w = World::new(false);
    let fx = w.client();
    let mut cr = Creds::new(c);
    populate(&w, &fx, &cr, n)?;
    let mut total = 0;
    for _ in 0..trials {
        total += missed(&w, &fx, &mut cr, calls, 1.0 / calls as f64)?;
    }
    // Rounding each call's number of draws down would cost up to one draw per
    // call; the documented total is not affected by rounding, hence the bound.
    let mean = expected_missed(n) * trials as f64;
    let limit = if mean == 0.0 { 1 } else { threshold(mean) };
    c.count("chains observed", (n * trials) as u64);
    c.count("chains missed by n compactions at rate 1/n", total as u64);
    c.note(|| format!("N={n} n={calls}: {total} chains missed in {trials} repetitions (expected {mean:.1}, limit {limit})"));
    if total >= limit {
        return Err(format!(
            "index of {n} keywords: after {calls} compactions at rate 1/{calls}, repeated {trials} times, {total} of {} chains were never compacted (at most {mean:.1} expected)",
            n * trials
        ));
    }
    Ok(())
}

fn c22(c: &mut Case) -> Check {
    let n = match c.weighted(&[3, 2]) {
        0 => c.range(1, 12),
        _ => c.range(1, 60),
    } as usize;
    if n >= 2 {
        c.nontrivial();
    }
    match c.weighted(&[4, 1, 1]) {
        0 => {
            let calls = c.range(2, 12) as usize;
            // Enough repetitions to tell the guarantee from half of it.
            let trials = (1500 / (n * calls)).clamp(4, 60);
            c22_check(c, n, calls, trials)
        }
        1 => {
            let w = World::new(false);
            let fx = w.client();
            let mut cr = Creds::new(c);
            populate(&w, &fx, &cr, n)?;
            let r = *c.pick(&[1.0, 1.5, 10.0, 1e9, f64::INFINITY]);
            let m = missed(&w, &fx, &mut cr, 1, r)?;
            if m != 0 {
                return Err(format!("a compaction of {n} keywords at rate {r} left {m} chains untouched"));
            }
            Ok(())
        }
        _ => {
            let w = World::new(false);
            let fx = w.client();
            let mut cr = Creds::new(c);
            populate(&w, &fx, &cr, n)?;
            let before = w.ct.snapshot();
            let m = missed(&w, &fx, &mut cr, 2, 0.0)?;
            if m != n || w.ct.snapshot() != before {
                return Err(format!("a compaction at rate 0 rewrote {} chains", n - m));
            }
            Ok(())
        }
    }
}

fn c22_small(c: &mut Case) -> Check {
    for n in 1..6 {
        for calls in 2..8 {
            c22_check(c, n, calls, 60)?;
        }
    }
    c.nontrivial();
    Ok(())
}

fn c22_large(c: &mut Case) -> Check {
    for (n, calls) in [(300, 5), (1000, 10), (2500, 25), (1500, 100)] {
        c22_check(c, n, calls, 1)?;
    }
    // Everything at once, however large.
    let w = World::new(false);
    let fx = w.client();
    let mut cr = Creds::new(c);
    let n = 12_000;
    populate(&w, &fx, &cr, n)?;
    let m = missed(&w, &fx, &mut cr, 1, 1.0)?;
    if m != 0 {
        return Err(format!("a compaction of {n} keywords at rate 1 left {m} chains untouched"));
    }
    c.nontrivial();
    Ok(())
}

/// Sizes at which the number of draws crosses a multiple of 2^16: the smallest
/// ones at which a count kept in a narrow integer would start again from zero.
fn c22_widths(c: &mut Case) -> Check {
    let mut n = 1usize;
    for k in 1..=4 {
        while (n as f64).mul_add((n as f64).log2() + 0.5772, 0.5) < k as f64 * 65_536.0 {
            n += 1;
        }
        let w = World::new(false);
        let fx = w.client();
        let mut cr = Creds::new(c);
        populate(&w, &fx, &cr, n + 3)?;
        let m = missed(&w, &fx, &mut cr, 1, 1.0)?;
        if m != 0 {
            return Err(format!("a compaction of {} keywords at rate 1 left {m} chains untouched", n + 3));
        }
    }
    c.nontrivial();
    Ok(())
}

/// Every line is rewritten at rate one and more, none at rate zero, whatever
/// the chains hold: full or partial lines, duplicates, deleted associations.
fn c22_long_chains(c: &mut Case) -> Check {
    for n in [1usize, 2, 5, 30] {
        for r in [1.0, 2.0, 1e6, 0.0] {
            let w = World::new(n == 2);
            let fx = w.client();
            let mut cr = Creds::new(c);
            let mut m = Model::default();
            for i in 0..n {
                for round in 0..1 + i % 3 {
                    let a: Assoc = (0..1 + 5 * (i % 4) + round)
                        .map(|j| (Val::D(format!("d{j}").into_bytes()), BTreeSet::from([format!("k{i}").into_bytes()])))
                        .collect();
                    do_update(c, &w, &fx, &cr, &mut m, round != 1, &a, false)?;
                }
            }
            for round in 0..3 {
                let before = w.ct.snapshot();
                let mut new = cr.clone();
                new.label.push(b'x');
                go(&w, world::compact(&fx, &cr, &new, r), "compact")?;
                cr = new;
                let after = w.ct.snapshot();
                let kept = before.keys().filter(|t| after.contains_key(*t)).count();
                if r >= 1.0 && kept > 0 {
                    return Err(format!("compaction {round} of {n} keywords at rate {r} left {kept} of {} lines", before.len()));
                }
                if r == 0.0 && before != after {
                    return Err("a compaction at rate 0 changed chains".into());
                }
            }
        }
    }
    c.nontrivial();
    Ok(())
}
