//! Sequential histories against the reference model: C01, C04, C05, C13.

use super::*;
use crate::db::{poll_once, YieldOnce};
use crate::engine::MB;
use crate::gen;
use crate::model::by_keyword;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

pub static C01: Prop = Prop {
    id: "C01",
    level: "exploration",
    rule: "stateful: 1-24 add/delete/search calls over 1-6 keywords and 1-6 data with adversarial byte strings, 1-3 client instances, random key/label, either backend; after each search and at the end (every keyword alone, all together, an unknown one) results are compared with a reference model. Non-trivial: some call deleted a present association or re-added a deleted one, and the final content is not empty",
    quick: 54_000,
    thorough: 4_500_000,
    run: c01,
    scenarios: &[("thousands of keywords, of values and of calls", c01_large), ("more than 65536 keywords in a call, values under a keyword and lines in a chain", c01_huge)],
    budget: 1500 * MB,
    assumptions: &["the database honours the DbInterface contract (the in-memory one is checked by C17)"],
    stack: 2 << 20,
};

fn c01(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = Pool::new(c, 6, 6);
    let cr = Creds::new(c);
    let n_clients = c.range(1, 3) as usize;
    let clients: Vec<Fx> = (0..n_clients).map(|_| w.client()).collect();
    let mut m = Model::default();
    let n = c.range(1, 24);
    let mut interesting = false;
    let mut removed: BTreeSet<(Bytes, Val)> = BTreeSet::new();
    for _ in 0..n {
        let fx = &clients[c.idx(n_clients)];
        match c.weighted(&[5, 4, 3]) {
            0 => {
                let a = pool.assoc(c);
                for (k, vs) in by_keyword(&a) {
                    for v in vs {
                        let present = m.kws.get(&k).is_some_and(|s| s.contains(&v));
                        if present {
                            c.label("re-added a present association");
                        } else if removed.remove(&(k.clone(), v)) {
                            c.label("re-added a deleted association");
                            interesting = true;
                        }
                    }
                }
                do_update(c, &w, fx, &cr, &mut m, true, &a, false)?;
            }
            1 => {
                let a = gen_deletion(c, &pool, &m);
                for (k, vs) in by_keyword(&a) {
                    for v in vs {
                        if m.kws.get(&k).is_some_and(|s| s.contains(&v)) {
                            c.label("deleted a present association");
                            removed.insert((k.clone(), v));
                            interesting = true;
                        } else {
                            c.label("deleted an absent association");
                        }
                    }
                }
                do_update(c, &w, fx, &cr, &mut m, false, &a, false)?;
            }
            _ => {
                let ks = pool.some_kws(c);
                expect_search(c, &w, fx, &cr, &m, &ks, "during the history")?;
            }
        }
    }
    let mut all = pool.kws.clone();
    let mut unknown = b"unknown".to_vec();
    while all.contains(&unknown) {
        unknown.push(0);
    }
    all.push(unknown);
    // Half of the time the verdict is given by a new client.
    let fresh = w.client();
    let fx = if c.chance(1, 2) { &fresh } else { &clients[0] };
    expect_all(c, &w, fx, &cr, &m, &all, "at the end")?;
    expect_direct(&w, fx, &cr, &m, &all, "at the end")?;
    // No keyword at all: an empty answer.
    let empty = go(&w, world::search(fx, &cr, &BTreeSet::new()), "empty search")?;
    if !empty.is_empty() {
        return Err("a search for no keyword returned something".into());
    }
    if interesting && m.kws.values().any(|v| !v.is_empty()) {
        c.nontrivial();
    }
    if m.kws.values().flatten().any(|v| matches!(v, Val::P(_))) {
        c.label("history with keyword links");
    }
    Ok(())
}

pub static C04: Prop = Prop {
    id: "C04",
    level: "exploration",
    rule: "sets of 2-8 adversarial byte strings (siblings differing by one byte, bit, trailing zero or prefix; lengths around 16-byte blocks, 80-byte lines and 255; empty; data equal to keywords) associated as data and as keyword links under adversarial keywords and labels, grouped in random calls, with random deletions; then one compaction, with or without credentials change. After each step the direct associations must equal the model's, byte for byte. One scenario enumerates every length 0..=330 for data, links and keywords. Non-trivial: two values of the same keyword are siblings (one a prefix of, or one byte away from, the other) or a value of at least 16 bytes is deleted",
    quick: 42_000,
    thorough: 3_500_000,
    run: c04,
    scenarios: &[
        ("every length 0..=330 for data, links and keywords", c04_lengths),
        ("long strings, 254 bytes to 1 MB", c04_long),
        ("the empty string as data, keyword link, keyword and label", c04_empty),
    ],
    budget: 256 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

fn sibling(a: &[u8], b: &[u8]) -> bool {
    a.starts_with(b) || b.starts_with(a) || (a.len() == b.len() && a.iter().zip(b).filter(|(x, y)| x != y).count() == 1)
}

/// Sizes past any small limit: keywords in one call, values under one keyword,
/// calls on one keyword.
fn c01_large(c: &mut Case) -> Check {
    let num = |p: &str, i: usize| format!("{p}{i}").into_bytes();
    for n in [100usize, 257, 1025, 5000] {
        let w = World::new(n == 257);
        let fx = w.client();
        let cr = Creds { key: [9; 16], label: b"large".to_vec() };
        let mut m = Model::default();
        // Many keywords in one call.
        let a: Assoc = (0..n).map(|i| (Val::D(num("d", i)), BTreeSet::from([num("k", i), num("k", (i * 7 + 1) % n)]))).collect();
        do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
        let all: BTreeSet<Bytes> = (0..n).map(|i| num("k", i)).collect();
        expect_search(c, &w, &fx, &cr, &m, &all, "after one large addition")?;
        let a: Assoc = (0..n).step_by(2).map(|i| (Val::D(num("d", i)), BTreeSet::from([num("k", i)]))).collect();
        do_update(c, &w, &fx, &cr, &mut m, false, &a, true)?;
        expect_search(c, &w, &fx, &cr, &m, &all, "after one large deletion")?;
        // Many values under one keyword, and one keyword pointing to all the others.
        let hub = b"hub".to_vec();
        let mut a: Assoc = (0..n).map(|i| (Val::D(num("v", i)), BTreeSet::from([hub.clone()]))).collect();
        a.extend((0..n).map(|i| (Val::P(num("k", i)), BTreeSet::from([hub.clone()]))));
        do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
        expect_search(c, &w, &fx, &cr, &m, &BTreeSet::from([hub.clone()]), "of a keyword with many values")?;
        a.retain(|v, _| matches!(v, Val::D(d) if d.len() % 2 == 0));
        do_update(c, &w, &fx, &cr, &mut m, false, &a, true)?;
        expect_search(c, &w, &fx, &cr, &m, &BTreeSet::from([hub]), "of a keyword with many deletions")?;
        // Many calls on one keyword.
        let k = b"k0".to_vec();
        for i in 0..n.min(1000) {
            let add = i % 5 != 4;
            let v = Val::D(num("c", if add { i } else { i - 2 }));
            do_update(c, &w, &fx, &cr, &mut m, add, &Assoc::from([(v, BTreeSet::from([k.clone()]))]), true)?;
        }
        expect_search(c, &w, &w.client(), &cr, &m, &BTreeSet::from([k]), "after many calls on one keyword")?;
        expect_search(c, &w, &w.client(), &cr, &m, &all, "at the end")?;
    }
    c.nontrivial();
    Ok(())
}

/// Past the capacity of two-byte counters.
fn c01_huge(c: &mut Case) -> Check {
    let n = 66_000usize;
    let cr = Creds { key: [9; 16], label: b"huge".to_vec() };
    let num = |p: &str, i: usize| format!("{p}{i}").into_bytes();
    {
        let w = World::new(false);
        let fx = w.client();
        let mut m = Model::default();
        let a: Assoc = (0..3).map(|j| (Val::D(num("d", j)), (0..n).filter(|i| i % 3 != j).map(|i| num("k", i)).collect())).collect();
        do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
        let a = Assoc::from([(Val::D(num("d", 1)), (0..n).filter(|i| i % 5 == 0).map(|i| num("k", i)).collect())]);
        do_update(c, &w, &fx, &cr, &mut m, false, &a, true)?;
        let all: BTreeSet<Bytes> = (0..n + 1).map(|i| num("k", i)).collect();
        expect_search(c, &w, &fx, &cr, &m, &all, "of 66000 keywords written in one call")?;
    }
    let w = World::new(true);
    let fx = w.client();
    let mut m = Model::default();
    let k = BTreeSet::from([b"k".to_vec()]);
    // Three blocks each: 71280 lines in one call.
    let long = |i: usize| Val::D(format!("{i:0>40}").into_bytes());
    let a: Assoc = (0..118_800).map(|i| (long(i), k.clone())).collect();
    do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
    let a: Assoc = (0..118_800).step_by(7).map(|i| (long(i), k.clone())).collect();
    do_update(c, &w, &fx, &cr, &mut m, false, &a, true)?;
    let a: Assoc = (0..n).map(|i| (Val::D(num("v", i)), k.clone())).collect();
    do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
    expect_search(c, &w, &w.client(), &cr, &m, &k, "of a chain of more than 65536 lines")?;
    let new = Creds { key: [10; 16], label: b"huge2".to_vec() };
    go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
    m.compact(|_| true);
    expect_search(c, &w, &w.client(), &new, &m, &k, "of a compacted chain of more than 65536 lines")?;
    c.nontrivial();
    Ok(())
}

fn c05_large(c: &mut Case) -> Check {
    for n in [100usize, 300, 1100, 5000] {
        let w = World::new(n == 300);
        let fx = w.client();
        let mut cr = Creds { key: [9; 16], label: b"large".to_vec() };
        let mut m = Model::default();
        for (lo, hi) in [(0, n), (n / 2, n + n / 2), (0, 2 * n), (0, 2 * n)] {
            let a = Assoc::from([(Val::D(b"d".to_vec()), (lo..hi).map(|i| format!("k{i}").into_bytes()).collect())]);
            do_update(c, &w, &fx, &cr, &mut m, lo == 0, &a, true)?;
        }
        // Half of them is emptied, and dropped by a compaction.
        let a = Assoc::from([(Val::D(b"d".to_vec()), (0..n).map(|i| format!("k{i}").into_bytes()).collect())]);
        do_update(c, &w, &fx, &cr, &mut m, false, &a, true)?;
        let new = Creds { key: [10; 16], label: b"large2".to_vec() };
        go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
        m.compact(|_| true);
        cr = new;
        let a = Assoc::from([(Val::D(b"e".to_vec()), (0..2 * n).map(|i| format!("k{i}").into_bytes()).collect())]);
        do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
    }
    c.nontrivial();
    Ok(())
}

fn c04(c: &mut Case) -> Check {
    let w = World::draw(c);
    let fx = w.client();
    let nv = c.range(2, 8) as usize;
    let strings = gen::distinct(c, nv, &[]);
    let nk = c.range(1, 3) as usize;
    let kws = if c.chance(1, 3) {
        strings[..nk.min(strings.len())].to_vec()
    } else {
        gen::distinct(c, nk, &strings)
    };
    let mut cr = Creds::new(c);
    if c.chance(1, 3) {
        cr.label = gen::bytes(c, &strings);
    }
    let mut m = Model::default();
    let mut nontrivial = false;
    for phase in 0..3 {
        let calls = c.range(1, 3);
        for _ in 0..calls {
            let mut a = Assoc::new();
            let n = c.range(1, 5);
            for _ in 0..n {
                let s = c.pick(&strings).clone();
                let v = if c.chance(1, 3) { Val::P(s) } else { Val::D(s) };
                let k = c.pick(&kws).clone();
                a.entry(v).or_default().insert(k);
            }
            let add = phase == 0 || c.chance(1, 3);
            if !add && a.keys().any(|v| v.blocks() > 1) {
                nontrivial = true;
                c.label("deleted a multi-block value");
            }
            do_update(c, &w, &fx, &cr, &mut m, add, &a, true)?;
            for v in a.keys() {
                let (Val::D(b) | Val::P(b)) = v;
                if b.is_empty() {
                    c.label("empty string");
                }
                if (b.len() + 1) % 16 == 0 {
                    c.label("value filling its blocks exactly");
                }
            }
        }
        expect_direct(&w, &fx, &cr, &m, &kws, "after the calls")?;
        // Searching the strings themselves: as keywords they index nothing
        // unless they are one.
        let probe = strings.iter().chain(&kws).cloned().collect::<Vec<_>>();
        expect_direct(&w, &fx, &cr, &m, &probe, "of the probed strings")?;
        for vals in m.kws.values() {
            let vs: Vec<&Bytes> = vals.iter().map(|v| match v { Val::D(b) | Val::P(b) => b }).collect();
            for (i, x) in vs.iter().enumerate() {
                if vs[i + 1..].iter().any(|y| sibling(x, y)) {
                    nontrivial = true;
                    c.label("sibling values under one keyword");
                }
            }
        }
        if phase == 1 {
            let new = cr.rotate(c);
            go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
            c.note(|| "compact everything".into());
            cr = new;
            m.compact(|_| true);
            expect_direct(&w, &fx, &cr, &m, &probe, "after compaction")?;
        }
    }
    let ks: BTreeSet<Bytes> = kws.iter().cloned().collect();
    expect_search(c, &w, &fx, &cr, &m, &ks, "at the end")?;
    if nontrivial {
        c.nontrivial();
    }
    Ok(())
}

/// Every length: the value is added with its neighbours, found, deleted alone.
fn c04_lengths(c: &mut Case) -> Check {
    for kind in 0..3u8 {
        for fillb in [0u8, b'w', 0xff] {
            let w = World::new(fillb == 0);
            let fx = w.client();
            let cr = Creds { key: [7; 16], label: b"lengths".to_vec() };
            let mut m = Model::default();
            let mk = |n: usize| vec![fillb; n];
            let mut kws: Vec<Bytes> = Vec::new();
            for n in 0..=330usize {
                let kw = if kind == 2 { mk(n) } else { format!("kw {n}").into_bytes() };
                kws.push(kw.clone());
                let wrap = |b: Vec<u8>| if kind == 1 { Val::P(b) } else { Val::D(b) };
                let mut a = Assoc::new();
                for len in [n, n + 1, n.saturating_sub(1), n + 16, n + 80] {
                    a.entry(wrap(mk(len))).or_default().insert(kw.clone());
                }
                do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
                expect_direct(&w, &fx, &cr, &m, &[kw.clone()], &format!("after adding lengths around {n}"))?;
                let d = Assoc::from([(wrap(mk(n)), BTreeSet::from([kw.clone()]))]);
                do_update(c, &w, &fx, &cr, &mut m, false, &d, true)?;
                expect_direct(&w, &fx, &cr, &m, &[kw], &format!("after deleting length {n}"))?;
            }
            let new = Creds { key: [8; 16], label: cr.label.clone() };
            go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
            m.compact(|_| true);
            expect_direct(&w, &fx, &new, &m, &kws, "after compaction")?;
        }
    }
    c.nontrivial();
    Ok(())
}

/// Long strings as data, pointers and keywords.
fn c04_long(c: &mut Case) -> Check {
    for base in [254usize, 510, 1023, 1279, 2047, 4079, 4095, 8191, 16_383, 20_399, 32_767, 65_535, 131_071, 300_000, 1_048_574] {
        for kind in 0..3u8 {
            let w = World::new(kind == 1);
            let fx = w.client();
            let cr = Creds { key: [7; 16], label: if kind == 2 { vec![b'z'; base] } else { b"long".to_vec() } };
            let mut m = Model::default();
            let mk = |n: usize| -> Bytes { (0..n).map(|i| (i % 251) as u8).collect() };
            let wrap = |b: Vec<u8>| if kind == 1 { Val::P(b) } else { Val::D(b) };
            let mut kws: Vec<Bytes> = Vec::new();
            for n in [base, base + 1, base + 2] {
                let kw = if kind == 2 { mk(n) } else { b"kw".to_vec() };
                if !kws.contains(&kw) {
                    kws.push(kw.clone());
                }
                let v = wrap(mk(if kind == 2 { 20 } else { n }));
                let a = Assoc::from([(v, BTreeSet::from([kw])), (Val::D(b"x".to_vec()), BTreeSet::from([kws[0].clone()]))]);
                do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
                expect_direct(&w, &fx, &cr, &m, &kws, &format!("after adding strings of length {n}"))?;
            }
            if kind != 2 {
                let d = Assoc::from([(wrap(mk(base + 1)), BTreeSet::from([b"kw".to_vec()]))]);
                do_update(c, &w, &fx, &cr, &mut m, false, &d, true)?;
                expect_direct(&w, &fx, &cr, &m, &kws, &format!("after deleting the string of length {}", base + 1))?;
            }
            let new = Creds { key: [8; 16], label: cr.label.clone() };
            go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
            m.compact(|_| true);
            expect_direct(&w, &fx, &new, &m, &kws, "after compaction")?;
        }
    }
    c.nontrivial();
    Ok(())
}

fn c04_empty(c: &mut Case) -> Check {
    for mask in 1u8..16 {
        let w = World::new(mask & 1 == 0);
        let fx = w.client();
        let cr = Creds { key: [3; 16], label: if mask & 8 != 0 { vec![] } else { b"l".to_vec() } };
        let kw: Bytes = if mask & 4 != 0 { vec![] } else { b"k".to_vec() };
        let mut m = Model::default();
        let mut a = Assoc::from([(Val::D(b"x".to_vec()), BTreeSet::from([kw.clone()]))]);
        if mask & 1 != 0 {
            a.insert(Val::D(vec![]), BTreeSet::from([kw.clone()]));
        }
        if mask & 2 != 0 {
            a.insert(Val::P(vec![]), BTreeSet::from([kw.clone()]));
        }
        do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
        let kws = [kw.clone(), vec![], b"k".to_vec()];
        expect_all(c, &w, &fx, &cr, &m, &kws, "with empty strings")?;
        let new = Creds { key: [4; 16], label: cr.label.clone() };
        go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
        m.compact(|_| true);
        expect_all(c, &w, &fx, &new, &m, &kws, "with empty strings, after compaction")?;
        let d = Assoc::from([(Val::D(vec![]), BTreeSet::from([kw.clone()]))]);
        do_update(c, &w, &fx, &new, &mut m, false, &d, true)?;
        expect_all(c, &w, &fx, &new, &m, &kws, "after deleting the empty data")?;
    }
    c.nontrivial();
    Ok(())
}

pub static C05: Prop = Prop {
    id: "C05",
    level: "exploration",
    rule: "two kinds of cases: (a) sequential histories of add/delete/search/compact calls, every call's reported new keywords compared with the model; (b) 2-4 concurrent calls over 1-3 keywords under a generated schedule (one choice per database request): over all calls each keyword absent at the start is reported by exactly one call that uses it, keywords present at the start by none. Non-trivial: (a) a keyword dropped by a compaction is used again, or a call mixes new and known keywords; (b) at least two calls create the same keyword and their requests interleave",
    quick: 72_000,
    thorough: 6_000_000,
    run: c05,
    scenarios: &[
        ("thousands of keywords in one call", c05_large),
        ("dozens of clients creating the same keywords", c05_crowd),
    ],
    budget: 128 * MB,
    assumptions: &["each database request is atomic (DbInterface contract)"],
    stack: 2 << 20,
};

fn c05(c: &mut Case) -> Check {
    if c.chance(1, 2) {
        return c05_concurrent(c);
    }
    let w = World::draw(c);
    let pool = Pool::new(c, 6, 4);
    let mut cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    let mut dropped: BTreeSet<Bytes> = BTreeSet::new();
    let n = c.range(1, 14);
    let mut nontrivial = false;
    for _ in 0..n {
        match c.weighted(&[5, 4, 1, 3]) {
            0 | 1 => {
                let (add, a) = gen_update(c, &pool, &m);
                let kws = by_keyword(&a);
                let known = kws.keys().filter(|k| m.kws.contains_key(*k)).count();
                if known > 0 && known < kws.len() {
                    nontrivial = true;
                    c.label("call mixing new and known keywords");
                }
                if kws.keys().any(|k| dropped.remove(k)) {
                    nontrivial = true;
                    c.label("keyword re-created after a compaction dropped it");
                }
                do_update(c, &w, &fx, &cr, &mut m, add, &a, true)?;
            }
            2 => {
                let ks = pool.some_kws(c);
                go(&w, world::search(&fx, &cr, &ks), "search")?;
            }
            _ => {
                let new = cr.rotate(c);
                go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
                c.note(|| "compact everything".into());
                cr = new;
                let before: BTreeSet<Bytes> = m.kws.keys().cloned().collect();
                m.compact(|_| true);
                dropped.extend(before.into_iter().filter(|k| !m.kws.contains_key(k)));
            }
        }
    }
    if nontrivial {
        c.nontrivial();
    }
    Ok(())
}

fn c05_crowd(c: &mut Case) -> Check {
    for (n, k) in [(10usize, 1usize), (40, 2), (25, 30)] {
        for order in 0..3 {
            let w = World::new(order == 1);
            let cr = Creds { key: [4; 16], label: b"crowd".to_vec() };
            let kws: Vec<Bytes> = (0..k).map(|i| format!("k{i}").into_bytes()).collect();
            let reported = super::concurrency::crowd(&w, &cr, n, &kws, order)?;
            for kw in &kws {
                let times = reported.iter().filter(|r| r.contains(kw)).count();
                if times != 1 {
                    return Err(format!("{n} clients create {} at the same time: {times} of them report it", show(kw)));
                }
            }
        }
    }
    c.nontrivial();
    Ok(())
}

fn c05_concurrent(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = Pool::simple(c, 3, 3);
    let cr = Creds::new(c);
    let first = w.client();
    let mut m = Model::default();
    build(c, &w, &first, &cr, &mut m, &pool, 0, 1)?;
    let k = c.range(2, 4) as usize;
    let one = w.client();
    let own: Vec<Fx> = (0..k).map(|_| w.client()).collect();
    let clients: Vec<&Fx> = if c.chance(1, 3) { vec![&one; k] } else { own.iter().collect() };
    let ops: Vec<(bool, Assoc)> =
        (0..k).map(|_| (c.chance(3, 4), pool.assoc(c))).collect();
    w.ctl.disarm();
    w.ctl.set_budget(CALL_BUDGET);
    w.ctl.yields.set(true);
    type Fut<'a> = Pin<Box<dyn Future<Output = Result<BTreeSet<Bytes>, FErr>> + 'a>>;
    let mut futs: Vec<Option<Fut<'_>>> = ops
        .iter()
        .zip(&clients)
        .map(|((add, a), fx)| {
            let cr = &cr;
            Some(Box::pin(async move {
                YieldOnce(false).await;
                world::update(fx, cr, *add, a).await
            }) as Fut<'_>)
        })
        .collect();
    let mut reported: Vec<BTreeSet<Bytes>> = vec![BTreeSet::new(); k];
    let mut order = Vec::new();
    let mut steps = 0;
    loop {
        let alive: Vec<usize> = (0..k).filter(|i| futs[*i].is_some()).collect();
        if alive.is_empty() {
            break;
        }
        let i = alive[c.idx(alive.len())];
        order.push(i);
        steps += 1;
        if steps > 20_000 {
            return Err("concurrent calls do not terminate".into());
        }
        w.ctl.task.set(i);
        if let Poll::Ready(r) = poll_once(futs[i].as_mut().unwrap()) {
            futs[i] = None;
            reported[i] = world::err(r, "concurrent update")?;
        }
    }
    w.ctl.yields.set(false);
    c.note(|| {
        format!(
            "concurrent {} under schedule {order:?} -> {}",
            ops.iter().map(|(a, x)| format!("[{} {}]", if *a { "add" } else { "delete" }, show_assoc(x))).collect::<Vec<_>>().join(" "),
            reported.iter().map(show_set).collect::<Vec<_>>().join(" ")
        )
    });
    let mut users: BTreeMap<Bytes, Vec<usize>> = BTreeMap::new();
    for (i, (_, a)) in ops.iter().enumerate() {
        for k in by_keyword(a).into_keys() {
            users.entry(k).or_default().push(i);
        }
    }
    for (i, r) in reported.iter().enumerate() {
        for k in r {
            if !users.get(k).is_some_and(|u| u.contains(&i)) {
                return Err(format!("call {i} reports {} as new but does not use it", show(k)));
            }
        }
    }
    for (k, u) in &users {
        let n = reported.iter().filter(|r| r.contains(k)).count();
        let want = usize::from(!m.kws.contains_key(k));
        if n != want {
            return Err(format!(
                "keyword {} {} before {} concurrent calls, but reported as new by {n} of them",
                show(k),
                if want == 0 { "was indexed" } else { "was not indexed" },
                u.len()
            ));
        }
        if want == 1 && u.len() > 1 {
            c.label("keyword created by several concurrent calls");
            let interleaved = order.windows(2).filter(|p| p[0] != p[1]).count() >= ops.len();
            if interleaved {
                c.nontrivial();
            }
        }
    }
    Ok(())
}

pub static C13: Prop = Prop {
    id: "C13",
    level: "exploration",
    rule: "2-4 pairs (key, label) sharing the same tables: keys equal, one bit apart or unrelated, labels equal, empty, prefixes, or shifted against the keywords (keyword+suffix / suffix+label); histories of adds, deletes and searches interleaved over the pairs, one model per pair, all pairs checked at the end. Non-trivial: at least two pairs hold different values under the same keyword",
    quick: 42_000,
    thorough: 3_500_000,
    run: c13,
    scenarios: &[],
    budget: 128 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

fn c13(c: &mut Case) -> Check {
    let w = World::draw(c);
    let mut pool = Pool::new(c, 4, 4);
    let base = Creds::new(c);
    let mut creds = vec![base.clone()];
    let n = c.range(2, 4);
    while (creds.len() as u64) < n {
        let from = c.pick(&creds).clone();
        let mut x = from.clone();
        match c.below(9) {
            0 => x.label.push(*c.pick(&[0u8, b'a', 0xff])),
            1 => {
                x.label.pop();
            }
            2 => x.label = Vec::new(),
            3 => {
                // Shift a byte between keyword and label.
                let mut k = c.pick(&pool.kws).clone();
                if let Some(b) = k.pop() {
                    x.label.insert(0, b);
                    if !pool.kws.contains(&k) {
                        pool.kws.push(k);
                    }
                }
            }
            4 => {
                let i = c.idx(16);
                let b = c.below(8);
                x.key[i] ^= 1 << b;
                c.label("keys one bit apart");
            }
            6 => {
                x.key = gen::near_key(c, &x.key);
                c.label("keys alike");
            }
            7 => x.label = gen::alike(c, &x.label),
            5 => x.label = gen::bytes(c, &pool.kws),
            _ => x = Creds::new(c),
        }
        if !creds.contains(&x) {
            creds.push(x);
        } else {
            // Keep the construction finite whatever the tape says.
            x.key[15] = x.key[15].wrapping_add(creds.len() as u8);
            if !creds.contains(&x) {
                creds.push(x);
            } else {
                break;
            }
        }
    }
    let clients: Vec<Fx> = (0..2).map(|_| w.client()).collect();
    let mut models = vec![Model::default(); creds.len()];
    let n = c.range(2, 16);
    for _ in 0..n {
        let i = c.idx(creds.len());
        let fx = &clients[c.idx(2)];
        c.note(|| format!("with key {} label {}", show(&creds[i].key), show(&creds[i].label)));
        if c.chance(1, 4) {
            let ks = pool.some_kws(c);
            expect_search(c, &w, fx, &creds[i], &models[i], &ks, "during the history")?;
        } else {
            let (add, a) = gen_update(c, &pool, &models[i]);
            do_update(c, &w, fx, &creds[i], &mut models[i], add, &a, true)?;
        }
    }
    for (cr, m) in creds.iter().zip(&models) {
        expect_direct(&w, &clients[0], cr, m, &pool.kws, "under one pair of credentials")?;
        let ks = pool.kws.iter().cloned().collect();
        expect_search(c, &w, &clients[1], cr, m, &ks, "under one pair of credentials")?;
    }
    let differ = pool.kws.iter().any(|k| {
        let vs: BTreeSet<_> = models.iter().filter_map(|m| m.kws.get(k)).filter(|s| !s.is_empty()).collect();
        vs.len() > 1
    });
    if differ {
        c.nontrivial();
    }
    Ok(())
}
