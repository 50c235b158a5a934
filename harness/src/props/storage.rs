//! Storage: C09 (sizes), C16 (format, both directions).

use super::compaction::{chains_of, pool_for_compaction, rate};
use super::*;
use crate::engine::MB;
use crate::gen;
use crate::model::{by_keyword, lines};
use crate::refimpl::{self, Nonces};
use cosmian_crypto_core::bytes_ser_de::Deserializer;
use cosmian_findex::{
    Data, InMemoryDb, TokenToEncryptedValueMap, ENTRY_LENGTH, LINK_LENGTH,
};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub static C09: Prop = Prop {
    id: "C09",
    level: "exploration",
    rule: "stateful: 1-12 additions, deletions, searches, compactions (full ones with a random filter, partial ones) over 1-40 keywords with values straddling the block and line boundaries; after every call the number of lines of both tables is compared with the documented count (one entry per keyword; per call and keyword ceil(blocks/5) lines of 16-byte blocks; after a full compaction the minimum, no orphan; after a partial one the minimum for the rewritten chains, located with the reference implementation, and no change for the others), and with the length, size and emptiness the in-memory table reports. Non-trivial: a full compaction dropped lines or a keyword, or a call packed a value over several lines",
    quick: 54_000,
    thorough: 4_500_000,
    run: c09,
    scenarios: &[],
    budget: 128 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

fn sizes(w: &World, m: &Model, when: &str) -> Check {
    let (et, ct) = (w.et.len(), w.ct.len());
    if et != m.kws.len() {
        return Err(format!("{when}: {et} entry lines for {} keywords", m.kws.len()));
    }
    if ct != m.total_lines() {
        return Err(format!("{when}: {ct} chain lines instead of {}", m.total_lines()));
    }
    for (r, n, line) in [(w.et.reported(), et, 140), (w.ct.reported(), ct, 146)] {
        if let Some(r) = r {
            if r != (n, n * line, n == 0) {
                return Err(format!("{when}: a table of {n} lines of {line} bytes reports (len, size, is_empty) = {r:?}"));
            }
        }
    }
    Ok(())
}

fn c09(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = pool_for_compaction(c);
    let mut cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    sizes(&w, &m, "on an empty index")?;
    let n = c.range(1, 12);
    for _ in 0..n {
        match c.weighted(&[5, 2, 1, 2, 1]) {
            0 => {
                let (add, a) = gen_update(c, &pool, &m);
                if by_keyword(&a).values().any(|v| lines(v.iter()) > 1) {
                    c.label("call writing several lines for a keyword");
                    c.nontrivial();
                }
                do_update(c, &w, &fx, &cr, &mut m, add, &a, false)?;
                sizes(&w, &m, "after an update")?;
            }
            1 => {
                // Several values for the same keyword in one call.
                let k = c.pick(&pool.kws).clone();
                let cnt = c.range(1, 8);
                let mut a = Assoc::new();
                for _ in 0..cnt {
                    let v = gen::bytes(c, &pool.data);
                    a.entry(Val::D(v)).or_default().insert(k.clone());
                }
                if by_keyword(&a).values().any(|v| lines(v.iter()) > 1) {
                    c.nontrivial();
                }
                let add = c.chance(4, 5);
                do_update(c, &w, &fx, &cr, &mut m, add, &a, false)?;
                sizes(&w, &m, "after an update")?;
            }
            2 => {
                let ks = pool.some_kws(c);
                expect_search(c, &w, &fx, &cr, &m, &ks, "during the history")?;
                sizes(&w, &m, "after a search")?;
            }
            3 => {
                let new = cr.rotate(c);
                let drop: BTreeSet<Bytes> = if c.chance(1, 2) {
                    pool.data.iter().filter(|_| c.chance(1, 2)).cloned().collect()
                } else {
                    BTreeSet::new()
                };
                let filter = |d: HashSet<Data>| {
                    let keep: HashSet<Data> = d.into_iter().filter(|x| !drop.contains(&x.to_vec())).collect();
                    async move { Ok(keep) }
                };
                let before = (m.kws.len(), m.total_lines());
                go(&w, world::compact_with(&fx, &cr, &new, 1.0, &filter), "compact")?;
                m.compact(|d| !drop.contains(d));
                c.note(|| format!("full compaction dropping {}: {} lines -> {}", show_set(&drop), before.1, m.total_lines()));
                cr = new;
                sizes(&w, &m, "after a full compaction")?;
                if before != (m.kws.len(), m.total_lines()) {
                    c.label("full compaction that shrinks the tables");
                    c.nontrivial();
                }
                expect_direct(&w, &fx, &cr, &m, &pool.kws, "after a full compaction")?;
            }
            _ => {
                let new = cr.rotate(c);
                let r = rate(c);
                let s0 = w.snapshot();
                let before = chains_of(&s0.0, &s0.1, &cr, &pool.kws)?;
                go(&w, world::compact(&fx, &cr, &new, r), "compact")?;
                c.note(|| format!("compaction at rate {r}"));
                let s1 = w.snapshot();
                let after = chains_of(&s1.0, &s1.1, &new, &pool.kws)?;
                for k in before.keys() {
                    let vals = m.kws.get(k).cloned().unwrap_or_default();
                    let untouched = after.get(k) == before.get(k) && !before[k].is_empty();
                    if untouched {
                        continue;
                    }
                    if vals.is_empty() {
                        m.kws.remove(k);
                        m.lines.remove(k);
                    } else {
                        m.lines.insert(k.clone(), lines(vals.iter()));
                    }
                }
                cr = new;
                sizes(&w, &m, "after a partial compaction")?;
            }
        }
    }
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    level: "exploration",
    rule: "stateful and differential: 1-10 steps, each an addition or deletion written either by the library or by an independent implementation of the documented format (written from the documentation, own KMAC/SHA3/SHAKE/AES-GCM calls), or a library compaction, over the same tables; after every step the reference implementation reads every keyword back (tokens, entry layout, packing, padding, operations in order, no other line in the tables) and the library's search must give what the history implies. The reference writer also produces layouts earlier versions could write: additions and deletions mixed in one line, repeated values, lines not full. Scenarios: the committed dataset written by an earlier version, read, searched, extended and compacted. Non-trivial: both writers contributed to a keyword",
    quick: 36_000,
    thorough: 3_000_000,
    run: c16,
    scenarios: &[
        ("dataset written by an earlier version", c16_dataset),
        ("entry without chain", c16_no_chain),
    ],
    budget: 256 * MB,
    assumptions: &["the reference implementation in refimpl.rs states the documented format; it shares no code with the library"],
    stack: 2 << 20,
};

pub fn ser(v: &Val) -> Vec<u8> {
    let (p, b) = match v {
        Val::D(b) => (b'l', b),
        Val::P(b) => (b'w', b),
    };
    let mut out = vec![p];
    out.extend_from_slice(b);
    out
}

/// Groups of operations a keyword's chain must hold, in order; the order
/// inside a group is free when the library wrote it.
type Groups = BTreeMap<Bytes, Vec<Vec<(bool, Vec<u8>)>>>;

fn check_format(w: &World, cr: &Creds, groups: &Groups, when: &str) -> Check {
    let (et, ct) = w.snapshot();
    let mut et_left: BTreeSet<_> = et.keys().copied().collect();
    let mut ct_left: BTreeSet<_> = ct.keys().copied().collect();
    let keys = refimpl::et_keys(&cr.key);
    for (k, gs) in groups {
        let read = refimpl::read_keyword(&et, &ct, &cr.key, &cr.label, k)
            .map_err(|e| format!("{when}: keyword {}: {e}", show(k)))?;
        let Some((_, toks, ops)) = read else {
            return Err(format!("{when}: no entry under the documented token of keyword {}", show(k)));
        };
        et_left.remove(&refimpl::et_token(&keys, k, &cr.label));
        let mut at = 0;
        for g in gs {
            let end = at + g.len();
            let Some(got) = ops.get(at..end) else {
                return Err(format!("{when}: the chain of keyword {} misses operations", show(k)));
            };
            let mut a = got.to_vec();
            let mut b = g.clone();
            a.sort();
            b.sort();
            if a != b {
                return Err(format!(
                    "{when}: the chain of keyword {} holds {:?} where the history implies {:?}",
                    show(k),
                    a.iter().map(|(o, v)| format!("{}{}", if *o { "+" } else { "-" }, show(v))).collect::<Vec<_>>(),
                    b.iter().map(|(o, v)| format!("{}{}", if *o { "+" } else { "-" }, show(v))).collect::<Vec<_>>()
                ));
            }
            at = end;
        }
        if at != ops.len() {
            return Err(format!("{when}: the chain of keyword {} holds {} extra operations", show(k), ops.len() - at));
        }
        for t in toks {
            ct_left.remove(&t);
        }
    }
    if !et_left.is_empty() || !ct_left.is_empty() {
        return Err(format!(
            "{when}: {} entry lines and {} chain lines are not where the documented format puts them",
            et_left.len(),
            ct_left.len()
        ));
    }
    Ok(())
}

fn c16(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = Pool::new(c, 5, 5);
    let mut cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    let mut groups = Groups::new();
    let mut rnd = Nonces(c.below(1 << 32));
    let mut by: BTreeMap<Bytes, u8> = BTreeMap::new();
    let n = c.range(1, 10);
    for _ in 0..n {
        match c.weighted(&[4, 4, 1]) {
            0 => {
                let (add, a) = gen_update(c, &pool, &m);
                do_update(c, &w, &fx, &cr, &mut m, add, &a, true)?;
                for (k, vals) in by_keyword(&a) {
                    *by.entry(k.clone()).or_default() |= 1;
                    groups.entry(k).or_default().push(vals.iter().map(|v| (add, ser(v))).collect());
                }
                check_format(&w, &cr, &groups, "after a library update")?;
            }
            1 => {
                // The other writer, free of the library's habits.
                let k = c.pick(&pool.kws).clone();
                let cnt = c.range(1, 5);
                let mut ops: Vec<(bool, Val)> = Vec::new();
                for _ in 0..cnt {
                    let v = if c.chance(1, 5) && !ops.is_empty() {
                        c.pick(&ops).1.clone()
                    } else {
                        pool.val(c)
                    };
                    ops.push((c.chance(2, 3), v));
                }
                let mods: Vec<(bool, Vec<u8>)> = ops.iter().map(|(a, v)| (*a, ser(v))).collect();
                c.note(|| {
                    format!(
                        "reference writer, keyword {}: {}",
                        show(&k),
                        ops.iter().map(|(a, v)| format!("{}{}", if *a { "+" } else { "-" }, crate::model::show_val(v))).collect::<Vec<_>>().join(" ")
                    )
                });
                // A full last block instead of an empty one, as earlier versions did.
                let earlier = c.chance(1, 3);
                if earlier && mods.iter().any(|(_, v)| v.len() % 16 == 0) {
                    c.label("full last block");
                }
                let (mut et, mut ct) = w.snapshot();
                refimpl::write_keyword(&mut et, &mut ct, &cr.key, &cr.label, &k, &mods, earlier, &mut rnd);
                w.restore(&(et, ct));
                let e = m.kws.entry(k.clone()).or_default();
                for (a, v) in ops {
                    if a {
                        e.insert(v);
                    } else {
                        e.remove(&v);
                    }
                }
                let g = groups.entry(k.clone()).or_default();
                for op in mods {
                    // In order: groups of one.
                    g.push(vec![op]);
                }
                *by.entry(k).or_default() |= 2;
            }
            _ => {
                let new = cr.rotate(c);
                go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
                c.note(|| "full compaction".into());
                cr = new;
                m.compact(|_| true);
                groups = m
                    .kws
                    .iter()
                    .map(|(k, v)| (k.clone(), vec![v.iter().map(|v| (true, ser(v))).collect()]))
                    .collect();
                check_format(&w, &cr, &groups, "after a compaction")?;
            }
        }
        expect_direct(&w, &fx, &cr, &m, &pool.kws, "read by the library")?;
    }
    expect_search(c, &w, &fx, &cr, &m, &pool.kws.iter().cloned().collect(), "at the end")?;
    if by.values().any(|b| *b == 3) {
        c.nontrivial();
    }
    Ok(())
}

/// An entry whose chain is empty is a keyword with no value.
fn c16_no_chain(c: &mut Case) -> Check {
    for mode in 0..4 {
        let w = World::new(mode % 2 == 0);
        let fx = w.client();
        let cr = Creds { key: [5; 16], label: b"label".to_vec() };
        let k = b"keyword".to_vec();
        let (mut et, mut ct) = w.snapshot();
        refimpl::write_keyword(&mut et, &mut ct, &cr.key, &cr.label, &k, &[], false, &mut Nonces(7));
        w.restore(&(et, ct));
        let mut m = Model::default();
        m.kws.insert(k.clone(), BTreeSet::new());
        expect_all(c, &w, &fx, &cr, &m, &[k.clone()], "on an entry without chain")?;
        if mode < 2 {
            let a = Assoc::from([(Val::D(b"x".to_vec()), BTreeSet::from([k.clone()]))]);
            do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
            expect_all(c, &w, &fx, &cr, &m, &[k.clone()], "after extending an entry without chain")?;
            let groups = Groups::from([(k.clone(), vec![vec![(true, b"lx".to_vec())]])]);
            check_format(&w, &cr, &groups, "after extending an entry without chain")?;
        }
        let new = Creds { key: [6; 16], label: b"label".to_vec() };
        go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
        m.compact(|_| true);
        expect_all(c, &w, &fx, &new, &m, &[k.clone()], "after compacting an entry without chain")?;
        if w.et.len() != m.kws.len() {
            return Err("an entry without chain survives a full compaction".into());
        }
    }
    c.nontrivial();
    Ok(())
}

/// The index committed with the sources, written by an earlier version.
fn c16_dataset(c: &mut Case) -> Check {
    crate::rt::set_alloc_budget(1 << 30);
    let dir = "/repo/datasets/";
    let read = |f: &str| std::fs::read(format!("{dir}{f}")).map_err(|e| format!("cannot read {dir}{f}: {e}"));
    let bytes = read("serialized_index")?;
    let mut de = Deserializer::new(&bytes);
    let et = de.read::<InMemoryDb<ENTRY_LENGTH>>().map_err(|e| format!("legacy entry table: {e:?}"))?;
    let ct = de.read::<InMemoryDb<LINK_LENGTH>>().map_err(|e| format!("legacy chain table: {e:?}"))?;
    let conv = |t: &TokenToEncryptedValueMap<ENTRY_LENGTH>| {
        t.iter().map(|(k, v)| (crate::db::tok(k), v.clone())).collect::<world::EtMap>()
    };
    let conv2 = |t: &TokenToEncryptedValueMap<LINK_LENGTH>| {
        t.iter().map(|(k, v)| (crate::db::tok(k), v.clone())).collect::<world::CtMap>()
    };
    let et = conv(&et.lock().expect("lock"));
    let ct = conv2(&ct.lock().expect("lock"));
    let key: [u8; 16] = read("key")?.try_into().map_err(|_| "key length")?;
    let cr = Creds { key, label: read("label")? };
    let want: BTreeSet<Bytes> =
        read("test_vector.txt")?.split(|b| *b == b'\n').filter(|l| !l.is_empty()).map(<[u8]>::to_vec).collect();
    // Every keyword of the dataset: prefixes of the first names.
    let names = read("first_names.txt")?;
    let mut kws: BTreeSet<Bytes> = BTreeSet::new();
    for l in names.split(|b| *b == b'\n').take(1000) {
        let l = l.strip_suffix(b"\r").unwrap_or(l);
        if l.is_empty() {
            continue;
        }
        for n in 2..=l.len() {
            kws.insert(l[..n].to_vec());
        }
    }
    // What the reference implementation reads.
    let mut m = Model::default();
    let mut lines_seen = 0;
    for k in &kws {
        if let Some((_, toks, ops)) = refimpl::read_keyword(&et, &ct, &cr.key, &cr.label, k)? {
            lines_seen += toks.len();
            let e = m.kws.entry(k.clone()).or_default();
            for (add, v) in ops {
                let v = match v.first() {
                    Some(b'l') => Val::D(v[1..].to_vec()),
                    Some(b'w') => Val::P(v[1..].to_vec()),
                    _ => return Err("unknown value type in the dataset".into()),
                };
                if add {
                    e.insert(v);
                } else {
                    e.remove(&v);
                }
            }
        }
    }
    if m.kws.len() != et.len() || lines_seen != ct.len() {
        return Err(format!(
            "the reference implementation finds {} keywords and {lines_seen} lines in a dataset of {} and {}",
            m.kws.len(),
            et.len(),
            ct.len()
        ));
    }
    let all: Vec<Bytes> = kws.into_iter().collect();
    for in_memory in [true, false] {
        let w = World::new(in_memory);
        w.restore(&(et.clone(), ct.clone()));
        let fx = w.client();
        let got = expect_search(c, &w, &fx, &cr, &m, &BTreeSet::from([b"Abd".to_vec()]), "in the dataset")?;
        if got[&b"Abd".to_vec()] != want {
            return Err("the dataset's test vector is not found".into());
        }
        expect_direct(&w, &fx, &cr, &m, &all, "in the dataset")?;
        let mut m = m.clone();
        let a = Assoc::from([(Val::D(b"new".to_vec()), BTreeSet::from([b"Abd".to_vec(), b"other".to_vec()]))]);
        do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
        let d: Assoc = m.kws[&b"Abd".to_vec()]
            .iter()
            .take(2)
            .map(|v| (v.clone(), BTreeSet::from([b"Abd".to_vec()])))
            .collect();
        do_update(c, &w, &fx, &cr, &mut m, false, &d, true)?;
        expect_search(c, &w, &fx, &cr, &m, &BTreeSet::from([b"Abd".to_vec()]), "in the extended dataset")?;
        let new = Creds { key: [9; 16], label: b"new".to_vec() };
        go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
        m.compact(|_| true);
        expect_direct(&w, &fx, &new, &m, &all, "in the compacted dataset")?;
    }
    c.nontrivial();
    Ok(())
}
