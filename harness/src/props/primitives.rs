//! The building blocks: C17 (in-memory backend), C18 (its serialization), C19
//! (dictionary encryption and conversions).

use super::*;
use crate::db::{now, tok, value_bytes, Tok};
use crate::engine::MB;
use crate::rt::{self, splitmix};
use cosmian_crypto_core::bytes_ser_de::{Deserializer, Serializable, Serializer};
use cosmian_crypto_core::{reexport::rand_core::SeedableRng, CsRng, FixedSizeCBytes};
use cosmian_findex::{
    ChainTable, Data, DbInterface, DxEnc, EncryptedValue, EntryTable, InMemoryDb, IndexedValue,
    IndexedValueToKeywordsMap, Keyword, KeywordToDataMap, Keywords, Label, Token,
    TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens, UserKey, ENTRY_LENGTH,
    LINK_LENGTH,
};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ops::Deref;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

type Map = BTreeMap<Tok, Vec<u8>>;

fn value<const L: usize>(id: u64) -> EncryptedValue<L> {
    let mut b = Vec::with_capacity(L + 28);
    let mut s = id;
    while b.len() < L + 28 {
        s = splitmix(s);
        b.extend_from_slice(&s.to_le_bytes());
    }
    b.truncate(L + 28);
    EncryptedValue::<L>::try_from(b.as_slice()).expect("right length")
}

fn token(i: usize) -> Token {
    let mut t = [0u8; 32];
    let mut s = i as u64 / 2;
    for ch in t.chunks_mut(8) {
        s = splitmix(s);
        ch.copy_from_slice(&s.to_le_bytes());
    }
    // Tokens come in pairs that differ by a single bit.
    t[31] = (t[31] & 0xfe) | (i as u8 & 1);
    Token::from(t)
}

fn map_of<const L: usize>(m: &[(usize, u64)]) -> TokenToEncryptedValueMap<L> {
    m.iter().map(|(t, v)| (token(*t), value::<L>(*v))).collect()
}

fn content<const L: usize>(db: &InMemoryDb<L>) -> Map {
    db.lock().expect("lock").iter().map(|(t, v)| (tok(t), value_bytes(v))).collect()
}

pub static C17: Prop = Prop {
    id: "C17",
    level: "exploration",
    rule: "half of the cases are histories of 1-40 calls (dump, fetch, conditional upsert with absent, matching, stale and foreign expected values, insert, delete, flush, load, serialization) over 1-10 tokens, some differing by one bit, each compared with a map model; the other half run 2-4 real threads released together, each issuing 1-3 of these calls over 1-3 tokens, 40 times over, and search a linearization of the observed results against the same model. Scenarios stress group atomicity: several tokens inserted, fetched and deleted together, compare-and-swap counters, racing insertions of the same tokens. Non-trivial: a history with an applied and a rejected (or failed) write, or a run where calls of several threads overlapped in time",
    quick: 36_000,
    thorough: 3_000_000,
    run: c17,
    scenarios: &[
        ("lines written together are read together", c17_pairs),
        ("compare-and-swap counters lose no update", c17_counters),
        ("racing insertions of the same tokens", c17_insert_race),
        ("deletions are seen as a whole", c17_delete_whole),
        ("calls about thousands of tokens", c17_large),
    ],
    budget: 128 * MB,
    assumptions: &["threads really interleave: the scheduler of the machine chooses the interleavings, so a race is found with high probability rather than enumerated"],
    stack: 2 << 20,
};

#[derive(Debug, Clone)]
enum Op {
    Dump,
    Fetch(Vec<usize>),
    Upsert(Vec<(usize, u64)>, Vec<(usize, u64)>),
    Insert(Vec<(usize, u64)>),
    Delete(Vec<usize>),
    Len,
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Out {
    Tokens(BTreeSet<Tok>),
    Values(Vec<(Tok, Vec<u8>)>),
    Rejected(Map),
    Done,
    Refused,
    Size(usize),
}

fn call<const L: usize>(db: &InMemoryDb<L>, op: &Op) -> Out {
    match op {
        Op::Dump => match now(db.dump_tokens()) {
            Ok(t) => Out::Tokens(t.iter().map(tok).collect()),
            Err(_) => Out::Refused,
        },
        Op::Fetch(ts) => match now(db.fetch(ts.iter().map(|t| token(*t)).collect::<Tokens>())) {
            Ok(l) => {
                let mut v: Vec<_> = l.into_iter().map(|(t, v)| (tok(&t), value_bytes(&v))).collect();
                v.sort();
                Out::Values(v)
            }
            Err(_) => Out::Refused,
        },
        Op::Upsert(old, new) => match now(db.upsert(map_of::<L>(old), map_of::<L>(new))) {
            Ok(m) => Out::Rejected(m.into_iter().map(|(t, v)| (tok(&t), value_bytes(&v))).collect()),
            Err(_) => Out::Refused,
        },
        Op::Insert(m) => match now(db.insert(map_of::<L>(m))) {
            Ok(()) => Out::Done,
            Err(_) => Out::Refused,
        },
        Op::Delete(ts) => match now(db.delete(ts.iter().map(|t| token(*t)).collect::<Tokens>())) {
            Ok(()) => Out::Done,
            Err(_) => Out::Refused,
        },
        Op::Len => Out::Size(db.len()),
    }
}

fn model<const L: usize>(m: &mut Map, op: &Op) -> Out {
    let t = |i: &usize| tok(&token(*i));
    let v = |i: &u64| value_bytes(&value::<L>(*i));
    match op {
        Op::Dump => Out::Tokens(m.keys().copied().collect()),
        Op::Fetch(ts) => {
            let want: BTreeSet<Tok> = ts.iter().map(t).collect();
            Out::Values(want.into_iter().filter_map(|x| m.get(&x).map(|b| (x, b.clone()))).collect())
        }
        Op::Upsert(old, new) => {
            if old.iter().any(|(i, _)| !m.contains_key(&t(i))) {
                return Out::Refused;
            }
            let expected: Map = old.iter().map(|(i, x)| (t(i), v(x))).collect();
            let mut rejected = Map::new();
            for (i, x) in new {
                let stored = m.get(&t(i)).cloned();
                if stored.as_ref() == expected.get(&t(i)) {
                    m.insert(t(i), v(x));
                } else if let Some(s) = stored {
                    rejected.insert(t(i), s);
                }
            }
            Out::Rejected(rejected)
        }
        Op::Insert(new) => {
            if new.iter().any(|(i, _)| m.contains_key(&t(i))) {
                return Out::Refused;
            }
            m.extend(new.iter().map(|(i, x)| (t(i), v(x))));
            Out::Done
        }
        Op::Delete(ts) => {
            for i in ts {
                m.remove(&t(i));
            }
            Out::Done
        }
        Op::Len => Out::Size(m.len()),
    }
}

fn some(c: &mut Case, n: usize) -> Vec<usize> {
    let k = c.range(0, n.min(4) as u64 + 1) as usize;
    let s: BTreeSet<usize> = (0..k).map(|_| c.idx(n)).collect();
    s.into_iter().collect()
}

/// `known` gives the value identifier believed to be stored for each token.
fn gen_op(c: &mut Case, n: usize, known: &mut BTreeMap<usize, u64>, fresh: &mut u64) -> Op {
    match c.weighted(&[5, 3, 3, 2, 1, 1]) {
        0 => {
            let ts = some(c, n);
            let mut old = Vec::new();
            let mut new = Vec::new();
            for t in ts {
                match c.weighted(&[5, 2, 1]) {
                    0 => {
                        if let Some(v) = known.get(&t) {
                            old.push((t, *v));
                        }
                    }
                    1 => {}
                    _ => old.push((t, c.below(*fresh + 1))),
                }
                *fresh += 1;
                new.push((t, *fresh));
            }
            // Sometimes, the value already there.
            if c.chance(1, 6) {
                for (t, v) in &mut new {
                    if let Some(k) = known.get(t) {
                        *v = *k;
                    }
                }
            }
            for (t, v) in &new {
                if c.chance(3, 4) {
                    known.insert(*t, *v);
                }
            }
            Op::Upsert(old, new)
        }
        1 => Op::Fetch(some(c, n)),
        2 => {
            let m: Vec<(usize, u64)> = some(c, n)
                .into_iter()
                .map(|t| match known.get(&t) {
                    // The value already there.
                    Some(v) if c.chance(1, 3) => (t, *v),
                    _ => {
                        *fresh += 1;
                        (t, *fresh)
                    }
                })
                .collect();
            for (t, v) in &m {
                known.entry(*t).or_insert(*v);
            }
            Op::Insert(m)
        }
        3 => {
            let ts = some(c, n);
            for t in &ts {
                known.remove(t);
            }
            Op::Delete(ts)
        }
        4 => Op::Dump,
        _ => Op::Len,
    }
}

fn c17(c: &mut Case) -> Check {
    if c.chance(1, 2) {
        c17_threads::<8>(c)
    } else {
        match c.below(3) {
            0 => c17_history::<8>(c),
            1 => c17_history::<ENTRY_LENGTH>(c),
            _ => c17_history::<LINK_LENGTH>(c),
        }
    }
}

fn agree<const L: usize>(db: &InMemoryDb<L>, m: &Map, when: &str) -> Check {
    if content(db) != *m {
        return Err(format!("{when}: the table holds {} lines that are not those of the history ({})", content(db).len(), m.len()));
    }
    if db.len() != m.len() || db.is_empty() != m.is_empty() || db.size() != m.len() * (32 + L + 28) {
        return Err(format!(
            "{when}: {} lines are stored but the backend reports length {}, size {}, empty {}",
            m.len(),
            db.len(),
            db.size(),
            db.is_empty()
        ));
    }
    Ok(())
}

fn c17_history<const L: usize>(c: &mut Case) -> Check {
    let n = c.range(1, 10) as usize;
    let mut db: InMemoryDb<L> = InMemoryDb::default();
    let mut m = Map::new();
    let mut known = BTreeMap::new();
    let mut fresh = 0;
    let (mut applied, mut refused) = (false, false);
    agree(&db, &m, "a new table")?;
    let steps = c.range(1, 40);
    for _ in 0..steps {
        match c.weighted(&[30, 1, 1, 1]) {
            0 => {
                // What is believed to be stored is corrected from time to time.
                let op = gen_op(c, n, &mut known, &mut fresh);
                let before = m.clone();
                let want = model::<L>(&mut m, &op);
                let got = call(&db, &op);
                c.note(|| format!("{op:?} -> {}", short(&got)));
                if got != want {
                    return Err(format!("{op:?} returned {} instead of {}", short(&got), short(&want)));
                }
                match &got {
                    Out::Refused => refused = true,
                    Out::Rejected(r) if !r.is_empty() => refused = true,
                    _ => {}
                }
                if before != m {
                    applied = true;
                }
            }
            1 => {
                db.flush();
                m.clear();
                known.clear();
                c.note(|| "flush".into());
            }
            2 => {
                let items: Vec<(usize, u64)> = some(c, n)
                    .into_iter()
                    .map(|t| {
                        fresh += 1;
                        (t, fresh)
                    })
                    .collect();
                let t = map_of::<L>(&items);
                m = t.iter().map(|(t, v)| (tok(t), value_bytes(v))).collect();
                known = items.into_iter().collect();
                db.load(t);
                c.note(|| "load".into());
            }
            _ => {
                let b = db.serialize().map_err(|e| format!("serialize: {e:?}"))?;
                db = InMemoryDb::deserialize(&b).map_err(|e| format!("deserialize: {e:?}"))?;
                c.note(|| "serialized and read back".into());
            }
        }
        agree(&db, &m, "after a call")?;
    }
    if applied && refused {
        c.nontrivial();
        c.label("history with applied and refused writes");
    }
    Ok(())
}

/// Every call takes as many tokens as it is given.
fn c17_large(c: &mut Case) -> Check {
    for n in [1_000usize, 4_097, 20_000] {
        let db: InMemoryDb<8> = InMemoryDb::default();
        let mut m = Map::new();
        let all: Vec<usize> = (0..n).collect();
        let id = |t: &usize, round: u64| (*t, *t as u64 * 16 + round);
        let third = |r: usize| all.iter().filter(move |t| *t % 3 == r);
        let ops = [
            Op::Insert(third(0).chain(third(1)).map(|t| id(t, 0)).collect()),
            Op::Fetch(all.clone()),
            Op::Dump,
            // One token in use: nothing is inserted.
            Op::Insert(third(2).chain(third(1).take(1)).map(|t| id(t, 1)).collect()),
            // A third applies to stored values, a third is rejected, a third is new.
            Op::Upsert(third(0).map(|t| id(t, 0)).collect(), all.iter().map(|t| id(t, 2)).collect()),
            Op::Fetch(all.clone()),
            Op::Upsert(all.iter().map(|t| id(t, if t % 3 == 1 { 0 } else { 2 })).collect(), all.iter().map(|t| id(t, 3)).collect()),
            Op::Fetch(third(1).copied().collect()),
            Op::Delete(all.iter().filter(|t| *t % 5 != 0).copied().collect()),
            Op::Len,
            Op::Dump,
            Op::Fetch(all.clone()),
            // An expected value where none is stored: refused.
            Op::Upsert(all.iter().map(|t| id(t, 3)).collect(), all.iter().map(|t| id(t, 4)).collect()),
            Op::Delete(all.clone()),
            Op::Dump,
        ];
        for (i, op) in ops.iter().enumerate() {
            let want = model::<8>(&mut m, op);
            let got = call(&db, op);
            if got != want {
                return Err(format!("call {i} about {n} tokens returned {} instead of {}", short(&got), short(&want)));
            }
            agree(&db, &m, &format!("after call {i} about {n} tokens"))?;
        }
    }
    c.nontrivial();
    Ok(())
}

fn short(o: &Out) -> String {
    match o {
        Out::Tokens(t) => format!("{} tokens", t.len()),
        Out::Values(v) => format!(
            "{:?}",
            v.iter().map(|(t, b)| format!("{}={}", show(&t[..2]), show(&b[..2]))).collect::<Vec<_>>()
        ),
        Out::Rejected(v) => format!(
            "rejected {:?}",
            v.iter().map(|(t, b)| format!("{}={}", show(&t[..2]), show(&b[..2]))).collect::<Vec<_>>()
        ),
        o => format!("{o:?}"),
    }
}

struct Event {
    thread: usize,
    start: u64,
    end: u64,
    op: Op,
    out: Out,
}

/// Is there an order of the calls, compatible with real time, that the model
/// accepts with the observed results?
fn linearizable<const L: usize>(events: &[Event], done: &mut Vec<bool>, m: &Map, last: &Map, seen: &mut HashSet<(Vec<bool>, Map)>) -> bool {
    if done.iter().all(|d| *d) {
        return m == last;
    }
    if !seen.insert((done.clone(), m.clone())) {
        return false;
    }
    let horizon = events.iter().zip(done.iter()).filter(|(_, d)| !**d).map(|(e, _)| e.end).min().unwrap_or(0);
    for i in 0..events.len() {
        if done[i] || events[i].start > horizon {
            continue;
        }
        let mut next = m.clone();
        if model::<L>(&mut next, &events[i].op) == events[i].out {
            done[i] = true;
            if linearizable::<L>(events, done, &next, last, seen) {
                return true;
            }
            done[i] = false;
        }
    }
    false
}

fn c17_threads<const L: usize>(c: &mut Case) -> Check {
    let n = c.range(1, 3) as usize;
    let threads = c.range(2, 4) as usize;
    let mut fresh = 0;
    let mut init: BTreeMap<usize, u64> = BTreeMap::new();
    for t in 0..n {
        if c.chance(1, 2) {
            fresh += 1;
            init.insert(t, fresh);
        }
    }
    let mut progs: Vec<Vec<Op>> = Vec::new();
    for _ in 0..threads {
        let mut known = init.clone();
        let k = c.range(1, 3);
        progs.push((0..k).map(|_| gen_op(c, n, &mut known, &mut fresh)).collect());
    }
    c.note(|| format!("initially {init:?}; programs {progs:?}"));
    let rounds = if c.thorough { 80 } else { 40 };
    let items: Vec<(usize, u64)> = init.into_iter().collect();
    let first: Map = map_of::<L>(&items).iter().map(|(t, v)| (tok(t), value_bytes(v))).collect();
    let mut dbs: Vec<InMemoryDb<L>> = Vec::new();
    for _ in 0..rounds {
        let mut db = InMemoryDb::default();
        db.load(map_of::<L>(&items));
        dbs.push(db);
    }
    let clock = AtomicU64::new(1);
    let at: Vec<AtomicUsize> = (0..rounds).map(|_| AtomicUsize::new(0)).collect();
    let mut all: Vec<Vec<Event>> = (0..rounds).map(|_| Vec::new()).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = progs
            .iter()
            .enumerate()
            .map(|(id, prog)| {
                let (clock, at, dbs) = (&clock, &at, &dbs);
                s.spawn(move || {
                    let mut evs = Vec::new();
                    for r in 0..rounds {
                        // Released together, round after round.
                        at[r].fetch_add(1, Ordering::SeqCst);
                        let mut spins = 0u32;
                        while at[r].load(Ordering::SeqCst) < threads {
                            spins += 1;
                            if spins % 256 == 0 {
                                std::thread::yield_now();
                            } else {
                                std::hint::spin_loop();
                            }
                        }
                        for op in prog {
                            let start = clock.fetch_add(1, Ordering::SeqCst);
                            let out = call(&dbs[r], op);
                            let end = clock.fetch_add(1, Ordering::SeqCst);
                            evs.push((r, Event { thread: id, start, end, op: op.clone(), out }));
                        }
                    }
                    evs
                })
            })
            .collect();
        for h in hs {
            for (r, e) in h.join().expect("a thread of the backend panicked") {
                all[r].push(e);
            }
        }
    });
    let mut overlapped = 0;
    for (r, evs) in all.iter().enumerate() {
        if evs.iter().any(|a| evs.iter().any(|b| a.thread != b.thread && a.start < b.end && b.start < a.end)) {
            overlapped += 1;
        }
        let last = content(&dbs[r]);
        if !linearizable::<L>(evs, &mut vec![false; evs.len()], &first, &last, &mut HashSet::new()) {
            let mut h: Vec<_> = evs.iter().collect();
            h.sort_by_key(|e| e.start);
            let text: Vec<String> = h
                .iter()
                .map(|e| format!("[{}..{}] thread {}: {:?} -> {}", e.start, e.end, e.thread, e.op, short(&e.out)))
                .collect();
            return Err(format!(
                "no order of these calls explains their results and the final content ({} lines): {}",
                last.len(),
                text.join(" ; ")
            ));
        }
    }
    c.count("rounds where calls overlapped", overlapped);
    if overlapped > 0 {
        c.nontrivial();
    }
    Ok(())
}

const GROUP: usize = 24;

fn group(base: usize) -> Vec<usize> {
    (base..base + GROUP).collect()
}

/// One writer inserts and deletes a group of lines as a whole while readers
/// fetch it: they see all of it or nothing.
fn c17_pairs(c: &mut Case) -> Check {
    let db: InMemoryDb<8> = InMemoryDb::default();
    let all: Tokens = group(0).into_iter().map(token).collect();
    let stop = AtomicBool::new(false);
    let bad = AtomicUsize::new(usize::MAX);
    let rounds = if c.thorough { 200_000 } else { 20_000 };
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| {
                while !stop.load(Ordering::Relaxed) {
                    let n = now(db.fetch(all.clone())).expect("fetch").len();
                    if n != 0 && n != GROUP {
                        bad.store(n, Ordering::SeqCst);
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            });
        }
        for i in 0..rounds {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let m: Vec<(usize, u64)> = group(0).into_iter().map(|t| (t, i)).collect();
            now(db.insert(map_of::<8>(&m))).expect("insert");
            std::hint::spin_loop();
            now(db.delete(all.clone())).expect("delete");
        }
        stop.store(true, Ordering::SeqCst);
    });
    c.nontrivial();
    match bad.load(Ordering::SeqCst) {
        usize::MAX => Ok(()),
        n => Err(format!(
            "{GROUP} lines are only ever inserted and deleted all at once, but a fetch of all of them returned {n}"
        )),
    }
}

/// Dump, length and upsert agree with whole deletions and insertions.
fn c17_delete_whole(c: &mut Case) -> Check {
    let db: InMemoryDb<8> = InMemoryDb::default();
    let all: Tokens = group(0).into_iter().map(token).collect();
    let stop = AtomicBool::new(false);
    let bad = AtomicUsize::new(usize::MAX);
    let rounds = if c.thorough { 200_000 } else { 20_000 };
    std::thread::scope(|s| {
        for id in 0..3u8 {
            let (db, stop, bad) = (&db, &stop, &bad);
            s.spawn(move || {
                while !stop.load(Ordering::Relaxed) {
                    let n = match id {
                        0 => db.len(),
                        1 => now(db.dump_tokens()).expect("dump").len(),
                        _ => db.size() / (32 + 8 + 28),
                    };
                    if n != 0 && n != GROUP {
                        bad.store(n, Ordering::SeqCst);
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            });
        }
        for i in 0..rounds {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let m: Vec<(usize, u64)> = group(0).into_iter().map(|t| (t, i)).collect();
            if i % 2 == 0 {
                now(db.insert(map_of::<8>(&m))).expect("insert");
            } else {
                now(db.upsert(TokenToEncryptedValueMap::default(), map_of::<8>(&m))).expect("upsert");
            }
            std::hint::spin_loop();
            now(db.delete(all.clone())).expect("delete");
        }
        stop.store(true, Ordering::SeqCst);
    });
    c.nontrivial();
    match bad.load(Ordering::SeqCst) {
        usize::MAX => Ok(()),
        n => Err(format!("{GROUP} lines are only ever written and deleted all at once, but {n} were counted")),
    }
}

/// Threads increment counters with fetch and conditional upsert: every applied
/// increment must be in the final value.
fn c17_counters(c: &mut Case) -> Check {
    const N: usize = 3;
    let mut db: InMemoryDb<8> = InMemoryDb::default();
    let enc = |v: u64| {
        let mut b = [0u8; 36];
        b[12..20].copy_from_slice(&v.to_le_bytes());
        EncryptedValue::<8>::try_from(&b[..]).expect("length")
    };
    let dec = |v: &EncryptedValue<8>| u64::from_le_bytes(v.ciphertext);
    db.load((0..N).map(|t| (token(t), enc(0))).collect());
    let applied: Vec<AtomicU64> = (0..N).map(|_| AtomicU64::new(0)).collect();
    let wrong = AtomicBool::new(false);
    let rounds = if c.thorough { 60_000 } else { 8_000 };
    std::thread::scope(|s| {
        for id in 0..4usize {
            let (db, applied, wrong) = (&db, &applied, &wrong);
            s.spawn(move || {
                for i in 0..rounds {
                    let ts: Vec<usize> = if (i + id) % 3 == 0 { (0..N).collect() } else { vec![(i + id) % N] };
                    let cur = now(db.fetch(ts.iter().map(|t| token(*t)).collect())).expect("fetch");
                    let old: HashMap<Token, EncryptedValue<8>> = cur.into_iter().collect();
                    let new: HashMap<_, _> = old.iter().map(|(t, v)| (*t, enc(dec(v) + 1))).collect();
                    let rej = now(db.upsert(old.clone().into(), new.into())).expect("upsert");
                    for t in ts {
                        match rej.get(&token(t)) {
                            None => {
                                applied[t].fetch_add(1, Ordering::SeqCst);
                            }
                            Some(v) => {
                                if dec(v) <= dec(&old[&token(t)]) {
                                    wrong.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    c.nontrivial();
    if wrong.load(Ordering::SeqCst) {
        return Err("a conditional upsert was rejected with a value that is not newer".into());
    }
    for (t, v) in content(&db) {
        let i = (0..N).find(|i| tok(&token(*i)) == t).ok_or("a foreign token appeared")?;
        let got = u64::from_le_bytes(v[12..20].try_into().expect("8 bytes"));
        let want = applied[i].load(Ordering::SeqCst);
        if got != want {
            return Err(format!("{want} increments of a counter were reported applied but its value is {got}"));
        }
    }
    Ok(())
}

/// Threads insert overlapping groups: one wins each round, whole.
fn c17_insert_race(c: &mut Case) -> Check {
    const T: usize = 4;
    let rounds = if c.thorough { 40_000 } else { 3_000 };
    for r in 0..rounds / 50 {
        let dbs: Vec<InMemoryDb<8>> = (0..50).map(|_| InMemoryDb::default()).collect();
        let at: Vec<AtomicUsize> = (0..50).map(|_| AtomicUsize::new(0)).collect();
        let wins: Vec<AtomicUsize> = (0..50).map(|_| AtomicUsize::new(0)).collect();
        let winner: Vec<AtomicUsize> = (0..50).map(|_| AtomicUsize::new(0)).collect();
        std::thread::scope(|s| {
            for id in 0..T {
                let (dbs, at, wins, winner) = (&dbs, &at, &wins, &winner);
                s.spawn(move || {
                    // Every group shares token 1000.
                    let mut ts: Vec<(usize, u64)> = group(id * GROUP).into_iter().map(|t| (t, id as u64)).collect();
                    ts.push((1000, id as u64));
                    for r in 0..50 {
                        let m = map_of::<8>(&ts);
                        at[r].fetch_add(1, Ordering::SeqCst);
                        let mut spins = 0u32;
                        while at[r].load(Ordering::SeqCst) < T {
                            spins += 1;
                            if spins % 256 == 0 {
                                std::thread::yield_now();
                            } else {
                                std::hint::spin_loop();
                            }
                        }
                        if now(dbs[r].insert(m)).is_ok() {
                            wins[r].fetch_add(1, Ordering::SeqCst);
                            winner[r].store(id, Ordering::SeqCst);
                        }
                    }
                });
            }
        });
        for i in 0..50 {
            let n = wins[i].load(Ordering::SeqCst);
            if n != 1 {
                return Err(format!("round {}: {n} of {T} insertions sharing a token succeeded", r * 50 + i));
            }
            let id = winner[i].load(Ordering::SeqCst);
            let mut want: Vec<(usize, u64)> = group(id * GROUP).into_iter().map(|t| (t, id as u64)).collect();
            want.push((1000, id as u64));
            let want: Map = map_of::<8>(&want).iter().map(|(t, v)| (tok(t), value_bytes(v))).collect();
            if content(&dbs[i]) != want {
                return Err("the table does not hold exactly what the only successful insertion gave".into());
            }
        }
    }
    c.nontrivial();
    Ok(())
}

pub static C18: Prop = Prop {
    id: "C18",
    level: "exploration",
    rule: "tables of 0-400 lines and 7 value lengths are written and read back alone and in sequence, and compared with an independent encoder and decoder of the documented format; valid serializations are truncated, extended, bit-flipped, given wrong counts and lengths or non-canonical integers, and arbitrary bytes are read: the answer is a table equal to the independent decoder's or an error, under an allocation limit proportional to the input. Non-trivial: a non-empty table, or a rejected input",
    quick: 120_000,
    thorough: 10_000_000,
    run: c18,
    scenarios: &[
        ("every truncation and bit flip of a small table", c18_every),
        ("tables whose counts and lengths need up to three bytes", c18_large),
    ],
    budget: 64 * MB,
    assumptions: &["memory is measured on the thread that reads; the limit is 100 times the input plus 64 kB"],
    stack: 2 << 20,
};

fn leb(mut n: u64, out: &mut Vec<u8>) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

fn unleb(b: &[u8], at: &mut usize) -> Option<u64> {
    let mut v: u128 = 0;
    let mut sh = 0;
    loop {
        let x = *b.get(*at)?;
        *at += 1;
        if sh < 120 {
            v |= u128::from(x & 0x7f) << sh;
        }
        sh += 7;
        if x & 0x80 == 0 {
            return u64::try_from(v).ok();
        }
        if sh > 70 {
            return None;
        }
    }
}

fn encode<const L: usize>(items: &[(Tok, Vec<u8>)]) -> Vec<u8> {
    let mut out = Vec::new();
    leb(items.len() as u64, &mut out);
    for (t, v) in items {
        out.extend_from_slice(t);
        leb((L + 28) as u64, &mut out);
        out.extend_from_slice(v);
    }
    out
}

/// Independent reader: the table and the number of bytes consumed.
fn decode<const L: usize>(b: &[u8]) -> Option<(Vec<(Tok, Vec<u8>)>, usize)> {
    let mut at = 0;
    let n = unleb(b, &mut at)?;
    let mut out = Vec::new();
    for _ in 0..n {
        let t: Tok = b.get(at..at + 32)?.try_into().ok()?;
        at += 32;
        if unleb(b, &mut at)? != (L + 28) as u64 {
            return None;
        }
        let v = b.get(at..at + L + 28)?.to_vec();
        at += L + 28;
        out.push((t, v));
    }
    Some((out, at))
}

fn c18(c: &mut Case) -> Check {
    match c.below(7) {
        0 => c18_for::<ENTRY_LENGTH>(c),
        1 => c18_for::<LINK_LENGTH>(c),
        2 => c18_for::<1>(c),
        3 => c18_for::<32>(c),
        // Value lengths around the two-byte integer.
        4 => c18_for::<99>(c),
        5 => c18_for::<100>(c),
        _ => c18_for::<300>(c),
    }
}

fn limited<T>(len: usize, f: impl FnOnce() -> T) -> T {
    rt::set_alloc_budget((len as i64) * 100 + (64 << 10));
    let r = f();
    rt::set_alloc_budget(64 * MB);
    r
}

/// Reads bytes as a table: the library must agree with the independent reader.
fn read_any<const L: usize>(b: &[u8], what: &str) -> Result<bool, String> {
    let got = limited(b.len(), || {
        let mut de = Deserializer::new(b);
        let t = InMemoryDb::<L>::read(&mut de);
        t.map(|t| (t, de.finalize().len()))
    });
    let whole = limited(b.len(), || InMemoryDb::<L>::deserialize(b));
    match (got, decode::<L>(b)) {
        (Ok((t, left)), Some((items, used))) => {
            if left != b.len() - used {
                return Err(format!("{what}: {} bytes consumed instead of {used}", b.len() - left));
            }
            let have = content(&t);
            let toks: BTreeSet<Tok> = items.iter().map(|i| i.0).collect();
            if have.keys().copied().collect::<BTreeSet<_>>() != toks
                || have.iter().any(|(t, v)| !items.iter().any(|(a, b)| a == t && b == v))
            {
                return Err(format!("{what}: the table read is not the one serialized"));
            }
            match whole {
                Ok(w) if left == 0 => {
                    if content(&w) != have {
                        return Err(format!("{what}: reading twice gives two tables"));
                    }
                }
                Ok(_) => return Err(format!("{what}: {left} trailing bytes are accepted")),
                Err(e) if left == 0 => return Err(format!("{what}: a valid serialization is refused: {e:?}")),
                Err(_) => {}
            }
            // What was read can be written and read again.
            let again = t.serialize().map_err(|e| format!("{what}: {e:?}"))?;
            let back = InMemoryDb::<L>::deserialize(&again).map_err(|e| format!("{what}: {e:?}"))?;
            if content(&back) != have {
                return Err(format!("{what}: writing the table read gives another table"));
            }
            Ok(true)
        }
        (Err(_), None) => {
            if whole.is_ok() {
                return Err(format!("{what}: malformed bytes are accepted"));
            }
            Ok(false)
        }
        (Ok(_), None) => Err(format!("{what}: malformed bytes are accepted as a table")),
        (Err(e), Some(_)) => Err(format!("{what}: a valid serialization is refused: {e:?}")),
    }
}

fn c18_for<const L: usize>(c: &mut Case) -> Check {
    let n = match c.weighted(&[4, 4, 2, 1]) {
        0 => c.range(0, 3),
        1 => c.range(4, 20),
        2 => c.range(126, 130),
        _ => c.range(20, 400),
    } as usize;
    let off = c.idx(1000);
    let items: Vec<(usize, u64)> = (0..n).map(|i| (off + i, splitmix((off + i) as u64))).collect();
    let mut db = InMemoryDb::<L>::default();
    db.load(map_of::<L>(&items));
    let m = content(&db);
    let kv: Vec<(Tok, Vec<u8>)> = m.iter().map(|(t, v)| (*t, v.clone())).collect();
    c.note(|| format!("table of {n} lines, values of {L} bytes"));
    if n > 0 {
        c.nontrivial();
    }

    // Writing.
    let mut ser = Serializer::new();
    let written = db.write(&mut ser).map_err(|e| format!("write: {e:?}"))?;
    let bytes = ser.finalize().to_vec();
    if written != bytes.len() || db.length() != bytes.len() {
        return Err(format!(
            "{n} lines: {} bytes are written, {} announced by length() and {written} returned",
            bytes.len(),
            db.length()
        ));
    }
    match db.serialize() {
        Ok(b) if **b == *bytes => {}
        _ => return Err("serialize() and write() differ".into()),
    }
    match decode::<L>(&bytes) {
        Some((mut items, used)) if used == bytes.len() => {
            items.sort();
            if items != kv {
                return Err("the bytes written do not describe the table".into());
            }
        }
        _ => return Err("the bytes written are not in the documented format".into()),
    }
    // Reading.
    if !read_any::<L>(&bytes, "round trip")? {
        return Err("the bytes written are not readable".into());
    }
    let legacy = encode::<L>(&kv);
    if !read_any::<L>(&legacy, "documented format")? {
        return Err("a table in the documented format is not readable".into());
    }
    let back = InMemoryDb::<L>::deserialize(&legacy).map_err(|e| format!("{e:?}"))?;
    if content(&back) != m || back.len() != n {
        return Err("a table in the documented format is not read identically".into());
    }
    // Two tables in sequence, of different lengths of values.
    if c.chance(1, 3) {
        let mut other = InMemoryDb::<16>::default();
        let k = c.range(0, 4) as usize;
        other.load(map_of::<16>(&(0..k).map(|i| (i, i as u64)).collect::<Vec<_>>()));
        let mut ser = Serializer::new();
        let a = ser.write(&db).map_err(|e| format!("{e:?}"))?;
        let b = ser.write(&other).map_err(|e| format!("{e:?}"))?;
        let all = ser.finalize().to_vec();
        if a + b != all.len() {
            return Err("two tables written in sequence: wrong lengths".into());
        }
        let mut de = Deserializer::new(&all);
        let x = de.read::<InMemoryDb<L>>().map_err(|e| format!("first of two tables: {e:?}"))?;
        let y = de.read::<InMemoryDb<16>>().map_err(|e| format!("second of two tables: {e:?}"))?;
        if content(&x) != m || content(&y) != content(&other) || !de.finalize().is_empty() {
            return Err("two tables written in sequence do not read back identical".into());
        }
        c.label("two tables in sequence");
    }

    // Bad inputs.
    for _ in 0..4 {
        let mut b = bytes.clone();
        let what = match c.below(8) {
            0 => {
                b.truncate(c.idx(bytes.len()));
                "truncated"
            }
            1 => {
                let k = c.range(1, 40);
                for _ in 0..k {
                    b.push(c.below(256) as u8);
                }
                "extended"
            }
            2 => {
                let k = c.range(1, 8);
                for _ in 0..k {
                    let i = c.idx(b.len());
                    b[i] ^= 1 << c.below(8);
                }
                "bits flipped"
            }
            3 => {
                // Another count, possibly huge, possibly the same in the low bits.
                let mut at = 0;
                let count = unleb(&b, &mut at).unwrap_or(0);
                let mut h = Vec::new();
                let sh = c.below(64);
                if c.chance(1, 3) {
                    let low = *c.pick(&[8, 16, 31, 32, 48]);
                    leb(count.wrapping_add((1 + c.below(3)) << low), &mut h);
                } else {
                    leb(c.below(u64::MAX) >> sh, &mut h);
                }
                h.extend_from_slice(&b[at..]);
                b = h;
                "wrong count"
            }
            4 => {
                // Another value length.
                let mut at = 0;
                let _ = unleb(&b, &mut at);
                if n > 0 {
                    let per = 32 + if L + 28 < 128 { 1 } else { 2 } + L + 28;
                    let i = at + per * c.idx(n) + 32;
                    let mut v = Vec::new();
                    let sh = c.below(64);
                    let x = match c.below(3) {
                        0 => c.below(u64::MAX) >> sh,
                        1 => (L + 26) as u64 + c.below(5),
                        _ => {
                            let low = *c.pick(&[8, 16, 31, 32, 48]);
                            (L + 28) as u64 + ((1 + c.below(3)) << low)
                        }
                    };
                    leb(x, &mut v);
                    let skip = if L + 28 < 128 { 1 } else { 2 };
                    b.splice(i..i + skip, v);
                }
                "wrong value length"
            }
            5 => {
                // A non-canonical or overlong integer.
                let k = c.range(1, 12) as usize;
                let mut h = vec![b[0] | 0x80];
                h.extend(std::iter::repeat(0x80).take(k - 1));
                h.push(*c.pick(&[0u8, 0, 1, 0x7f]));
                h.extend_from_slice(&b[1..]);
                b = h;
                "overlong integer"
            }
            6 => {
                let k = c.idx(200);
                b = (0..k).map(|_| c.below(256) as u8).collect();
                "arbitrary bytes"
            }
            _ => {
                // Bytes removed from the middle.
                let i = c.idx(b.len());
                let k = c.range(1, 34) as usize;
                let e = (i + k).min(b.len());
                b.drain(i..e);
                "bytes removed"
            }
        };
        if what == "overlong integer" {
            // Whether such integers are accepted is not specified: only that
            // reading them neither crashes nor allocates.
            let _ = limited(b.len(), || InMemoryDb::<L>::deserialize(&b).map(|t| t.len()));
            c.label("overlong integer read");
            continue;
        }
        if wild(&b) {
            let _ = limited(b.len(), || InMemoryDb::<L>::deserialize(&b).map(|t| t.len()));
            continue;
        }
        c.note(|| format!("{what}: {} bytes", b.len()));
        if read_any::<L>(&b, what)? {
            c.label("mutated input accepted");
        } else {
            c.label("mutated input rejected");
            c.nontrivial();
        }
    }
    Ok(())
}

/// Integers on which readers of the format may legitimately differ.
fn wild(b: &[u8]) -> bool {
    b.iter().take_while(|x| **x & 0x80 != 0).count() >= 9
}

fn c18_every(c: &mut Case) -> Check {
    let mut db = InMemoryDb::<4>::default();
    db.load(map_of::<4>(&[(0, 1), (1, 2)]));
    let b = db.serialize().map_err(|e| format!("{e:?}"))?.to_vec();
    let mut n = 0;
    for cut in 0..b.len() {
        read_any::<4>(&b[..cut], "truncated")?;
        n += 1;
    }
    for i in 0..b.len() * 8 {
        let mut x = b.clone();
        x[i / 8] ^= 1 << (i % 8);
        read_any::<4>(&x, "one bit flipped")?;
        n += 1;
    }
    for x in 0..=255u8 {
        read_any::<4>(&[x], "one byte")?;
        read_any::<4>(&[x, x & 0x7f], "two bytes")?;
        n += 2;
    }
    c.count("inputs enumerated", n);
    c.nontrivial();
    Ok(())
}

/// Around each place where an integer of the format takes one more byte.
fn c18_large(c: &mut Case) -> Check {
    let mut sizes = vec![127, 128, 129, 255, 256, 16_383, 16_384, 16_385];
    sizes.push(c.range(16_386, 40_000) as usize);
    sizes.push(65_535 + c.below(3) as usize);
    for n in sizes {
        c18_size::<1>(n)?;
    }
    c18_size::<99>(3)?;
    c18_size::<100>(3)?;
    c18_size::<{ 16_383 - 28 }>(3)?;
    c18_size::<{ 16_384 - 28 }>(3)?;
    c18_size::<LINK_LENGTH>(16_384)?;
    c.count("tables", 15);
    c.nontrivial();
    Ok(())
}

fn c18_size<const L: usize>(n: usize) -> Check {
    let what = format!("{n} lines, values of {L} bytes");
    let mut db = InMemoryDb::<L>::default();
    db.load(map_of::<L>(&(0..n).map(|i| (i, splitmix(i as u64))).collect::<Vec<_>>()));
    let m = content(&db);
    let bytes = db.serialize().map_err(|e| format!("{what}: {e:?}"))?.to_vec();
    if db.length() != bytes.len() {
        return Err(format!("{what}: {} bytes are written, {} announced by length()", bytes.len(), db.length()));
    }
    let legacy = encode::<L>(&m.iter().map(|(t, v)| (*t, v.clone())).collect::<Vec<_>>());
    if legacy.len() != bytes.len() {
        return Err(format!("{what}: {} bytes are written instead of {}", bytes.len(), legacy.len()));
    }
    for (b, from) in [(&bytes, "written"), (&legacy, "documented format")] {
        match limited(b.len(), || InMemoryDb::<L>::deserialize(b)) {
            Ok(t) if content(&t) == m => {}
            Ok(_) => return Err(format!("{what}, {from}: another table is read")),
            Err(e) => return Err(format!("{what}, {from}: not readable: {e:?}")),
        }
        for cut in [1, b.len() / 2, b.len() - 1] {
            if limited(cut, || InMemoryDb::<L>::deserialize(&b[..cut])).is_ok() {
                return Err(format!("{what}, {from}: accepted when cut to {cut} bytes"));
            }
        }
        let mut long = b.clone();
        long.push(0);
        if limited(long.len(), || InMemoryDb::<L>::deserialize(&long)).is_ok() {
            return Err(format!("{what}, {from}: a trailing byte is accepted"));
        }
    }
    Ok(())
}

pub static C19: Prop = Prop {
    id: "C19",
    level: "exploration",
    rule: "for drawn seeds, bytes, labels and values of 4 lengths, both tables: prepare then resolve, with the same key (equality), another key, the other table's key of the same seed and altered values (error); tokens and keys derived twice (equality), compared with the independent implementation, and with one seed bit, byte, label or table changed (difference); every public conversion is applied forth and back on drawn byte strings and collections, and on malformed inputs. Non-trivial: non-empty bytes and label, value not all zeros",
    quick: 120_000,
    thorough: 10_000_000,
    run: c19,
    scenarios: &[("every bit of an encrypted value, every length of malformed bytes", c19_every)],
    budget: 64 * MB,
    assumptions: &["the independent derivations of refimpl.rs share no code with the library"],
    stack: 2 << 20,
};

fn c19(c: &mut Case) -> Check {
    match c.below(4) {
        0 => c19_edx::<ENTRY_LENGTH>(c)?,
        1 => c19_edx::<LINK_LENGTH>(c)?,
        2 => c19_edx::<1>(c)?,
        _ => c19_edx::<257>(c)?,
    }
    c19_conversions(c)
}

fn seed_of<const L: usize, T: DxEnc<L>>(b: &[u8; 16]) -> T::Seed {
    let mut s = T::Seed::default();
    s.as_mut().copy_from_slice(b);
    s
}

fn c19_edx<const L: usize>(c: &mut Case) -> Check {
    type Et<const L: usize> = EntryTable<L, InMemoryDb<L>>;
    type Ct<const L: usize> = ChainTable<L, InMemoryDb<L>>;
    let et = Et::<L>::setup(InMemoryDb::default());
    let ct = Ct::<L>::setup(InMemoryDb::default());
    let mut rng = CsRng::from_entropy();
    let sb = crate::gen::key(c);
    let mut sb2 = sb;
    if c.chance(1, 2) {
        sb2[c.idx(16)] ^= 1 << c.below(8);
    } else {
        sb2 = crate::gen::key(c);
        if sb2 == sb {
            sb2[3] ^= 1;
        }
    }
    let ek = et.derive_keys(&seed_of::<L, Et<L>>(&sb));
    let ek_again = Et::<L>::setup(InMemoryDb::default()).derive_keys(&seed_of::<L, Et<L>>(&sb));
    let ek2 = et.derive_keys(&seed_of::<L, Et<L>>(&sb2));
    let ck = ct.derive_keys(&seed_of::<L, Ct<L>>(&sb));
    let ck2 = ct.derive_keys(&seed_of::<L, Ct<L>>(&sb2));

    // Tokens.
    let bytes = crate::gen::bytes(c, &[]);
    let label = crate::gen::label(c);
    let lab = Label::from(label.as_slice());
    let t = et.tokenize(&ek, &bytes, Some(&lab));
    if t != et.tokenize(&ek_again, &bytes, Some(&lab)) {
        return Err("the same seed, bytes and label give two entry tokens".into());
    }
    let u = ct.tokenize(&ck, &bytes, None);
    if u != ct.tokenize(&ct.derive_keys(&seed_of::<L, Ct<L>>(&sb)), &bytes, None) {
        return Err("the same seed and bytes give two chain tokens".into());
    }
    if tok(&u) != crate::refimpl::ct_token(&crate::refimpl::ct_keys(&sb), &bytes) {
        return Err("the chain token is not the documented one".into());
    }
    let mut hashed = [0u8; 32];
    hashed.copy_from_slice(&crate::refimpl::hash(&bytes));
    if tok(&et.tokenize(&ek, &hashed, Some(&lab)))
        != crate::refimpl::et_token(&crate::refimpl::et_keys(&sb), &bytes, &label)
    {
        return Err("the entry token is not the documented one".into());
    }
    let mut seen: HashMap<Tok, &str> = HashMap::new();
    let mut put = |t: Token, what: &'static str| match seen.insert(tok(&t), what) {
        Some(o) => Err(format!("equal tokens: {what} and {o}")),
        None => Ok(()),
    };
    put(t, "entry token")?;
    put(u, "chain token")?;
    put(et.tokenize(&ek2, &bytes, Some(&lab)), "entry token of another seed")?;
    put(ct.tokenize(&ck2, &bytes, None), "chain token of another seed")?;
    put(et.tokenize(&ck, &bytes, Some(&lab)), "entry token under the chain key of the seed")?;
    if !bytes.is_empty() {
        let mut b = bytes.clone();
        let i = c.idx(b.len());
        b[i] ^= 1 << c.below(8);
        put(et.tokenize(&ek, &b, Some(&lab)), "entry token of bytes one bit away")?;
        put(ct.tokenize(&ck, &b, None), "chain token of bytes one bit away")?;
    }
    let mut longer = bytes.clone();
    longer.push(0);
    put(ct.tokenize(&ck, &longer, None), "chain token of bytes followed by a zero")?;
    let mut l2 = label.clone();
    if l2.is_empty() || c.chance(1, 3) {
        l2.push(*c.pick(&[0u8, 1, b'a', 255]));
    } else if c.chance(1, 2) {
        l2.pop();
    } else {
        let i = c.idx(l2.len());
        l2[i] ^= 1 << c.below(8);
    }
    put(et.tokenize(&ek, &bytes, Some(&Label::from(l2.as_slice()))), "entry token under another label")?;
    // Without a label.
    let bare = et.tokenize(&ek, &bytes, None);
    if bare != et.tokenize(&ek_again, &bytes, None) {
        return Err("the same seed and bytes without label give two entry tokens".into());
    }
    if !label.is_empty() && !l2.is_empty() {
        put(bare, "entry token without label")?;
    }
    if u != ct.tokenize(&ck, &bytes, Some(&lab)) {
        return Err("the label changes the chain token: chains depend on their seed only".into());
    }
    let direct: <Ct<L> as DxEnc<L>>::Seed = sb.into();
    if direct.as_ref() != &sb[..] || tok(&ct.tokenize(&ct.derive_keys(&direct), &bytes, None)) != tok(&u) {
        return Err("a seed made from bytes is not the seed of these bytes".into());
    }
    // Fixed-length inputs, as hashes are: no confusion between bytes and label.
    if bytes.len() >= 2 && !label.is_empty() {
        let mut b2 = bytes.clone();
        b2.rotate_left(1);
        if b2 != bytes {
            put(et.tokenize(&ek, &b2, Some(&lab)), "entry token of rotated bytes")?;
        }
    }

    // Values.
    let mut v = [0u8; L];
    let mode = c.below(3);
    let mut s = c.below(1 << 16);
    for b in &mut v {
        s = splitmix(s);
        *b = match mode {
            0 => s as u8,
            1 => 0,
            _ => 255,
        };
    }
    if mode == 0 && !bytes.is_empty() && !label.is_empty() {
        c.nontrivial();
    }
    let a = et.prepare(&mut rng, &ek, v).map_err(|e| format!("prepare: {e:?}"))?;
    let b = ct.prepare(&mut rng, &ck, v).map_err(|e| format!("prepare: {e:?}"))?;
    let a2 = et.prepare(&mut rng, &ek, v).map_err(|e| format!("prepare: {e:?}"))?;
    if a == a2 || a.nonce.0 == a2.nonce.0 {
        return Err("preparing the same value twice gives the same encrypted value or nonce".into());
    }
    if et.resolve(&ek_again, &a).ok() != Some(v) || et.resolve(&ek, &a2).ok() != Some(v) {
        return Err("an entry value does not resolve to what was prepared".into());
    }
    if ct.resolve(&ck, &b).ok() != Some(v) {
        return Err("a chain value does not resolve to what was prepared".into());
    }
    if crate::refimpl::open(&crate::refimpl::et_keys(&sb), &a) != Some(v)
        || crate::refimpl::open(&crate::refimpl::ct_keys(&sb), &b) != Some(v)
    {
        return Err("a prepared value is not in the documented format".into());
    }
    if et.resolve(&ek2, &a).is_ok() || ct.resolve(&ck2, &b).is_ok() {
        return Err("a value resolves under another key".into());
    }
    if et.resolve(&ck, &a).is_ok() || ct.resolve(&ek, &b).is_ok() {
        return Err("a value of one table resolves under the key the other derives from the same seed".into());
    }
    let raw = value_bytes(&a);
    let mut x = raw.clone();
    let k = c.range(1, 3);
    for _ in 0..k {
        let i = c.idx(x.len());
        x[i] ^= 1 << c.below(8);
    }
    if x != raw {
        let x = EncryptedValue::<L>::try_from(x.as_slice()).map_err(|e| format!("{e:?}"))?;
        if et.resolve(&ek, &x).is_ok() {
            return Err("an altered value resolves".into());
        }
    }

    // Bytes of an encrypted value.
    let bytes: Vec<u8> = (&a).into();
    if bytes != raw || bytes.len() != EncryptedValue::<L>::LENGTH || bytes.len() != L + 28 {
        return Err("an encrypted value is not written as nonce, ciphertext, tag".into());
    }
    match EncryptedValue::<L>::try_from(bytes.as_slice()) {
        Ok(y) if y == a => {}
        _ => return Err("an encrypted value does not read back from its bytes".into()),
    }
    let n = match c.below(3) {
        0 => bytes.len() - 1 - c.idx(bytes.len()),
        1 => bytes.len() + 1 + c.idx(40),
        _ => c.idx(2 * bytes.len()),
    };
    let mut y = bytes.clone();
    y.resize(n, 7);
    if n != bytes.len() && EncryptedValue::<L>::try_from(y.as_slice()).is_ok() {
        return Err(format!("an encrypted value is read from {n} bytes"));
    }
    // Seeds.
    let s1 = et.gen_seed(&mut rng);
    let s2 = ct.gen_seed(&mut rng);
    if s1.as_ref().len() != 16 || s1.as_ref() == s2.as_ref() {
        return Err("two generated seeds are equal".into());
    }
    // Collections of tokens and values.
    let n = c.idx(5);
    let m: HashMap<Token, EncryptedValue<L>> = (0..n).map(|i| (token(i), value::<L>(i as u64))).collect();
    let t = TokenToEncryptedValueMap::from(m.clone());
    let l: TokenWithEncryptedValueList<L> = t.clone().into_iter().collect();
    let as_vec: Vec<(Token, EncryptedValue<L>)> = l.into();
    let l2 = TokenWithEncryptedValueList::from(as_vec.clone());
    let back: HashMap<Token, EncryptedValue<L>> = l2.into_iter().collect();
    let direct: HashMap<Token, EncryptedValue<L>> = t.clone().into();
    let collected: TokenToEncryptedValueMap<L> = as_vec.into_iter().collect();
    if back != m || direct != m || collected != t || *t.deref() != m {
        return Err("a map of encrypted values does not convert back to itself".into());
    }
    let ts: HashSet<Token> = m.keys().copied().collect();
    let tk = Tokens::from(ts.clone());
    let tk2: Tokens = ts.iter().copied().collect();
    if tk != tk2 || *tk.deref() != ts || HashSet::<Token>::from(tk.clone()) != ts || tk.into_iter().collect::<HashSet<_>>() != ts {
        return Err("a set of tokens does not convert back to itself".into());
    }
    Ok(())
}

fn c19_conversions(c: &mut Case) -> Check {
    let pool = Pool::new(c, 5, 5);
    let mut ivs: HashSet<IndexedValue<Keyword, Data>> = HashSet::new();
    let mut encoded: HashSet<Vec<u8>> = HashSet::new();
    let all: BTreeSet<Bytes> = pool.kws.iter().chain(&pool.data).cloned().collect();
    for b in &all {
        let k = Keyword::from(b.clone());
        let d = Data::from(b.as_slice());
        let l = Label::from(b.as_slice());
        if *k != **b || *d != **b || *l != **b || k.as_ref() != &**b || d.as_ref() != &**b || l.as_ref() != &**b {
            return Err(format!("a keyword, data or label does not hold its bytes {}", show(b)));
        }
        if Vec::<u8>::from(k.clone()) != *b || Vec::<u8>::from(d.clone()) != *b || Vec::<u8>::from(l.clone()) != *b {
            return Err(format!("a keyword, data or label does not give back its bytes {}", show(b)));
        }
        if let Ok(s) = std::str::from_utf8(b) {
            if Keyword::from(s) != k || Data::from(s) != d || Label::from(s) != l || k.to_string() != s || d.to_string() != s {
                return Err(format!("text {s:?} is not converted losslessly"));
            }
        }
        for iv in [IndexedValue::Pointer(k.clone()), IndexedValue::Data(d.clone())] {
            let e: Vec<u8> = (&iv).into();
            match IndexedValue::<Keyword, Data>::try_from(e.as_slice()) {
                Ok(x) if x == iv => {}
                x => return Err(format!("an indexed value of bytes {} reads back as {x:?}", show(b))),
            }
            if iv.is_pointer() != iv.get_pointer().is_some() || iv.get_pointer().is_some() == iv.get_data().is_some() {
                return Err("an indexed value is both a pointer and data".into());
            }
            if iv.get_pointer().is_some_and(|p| p != &k) || iv.get_data().is_some_and(|x| x != &d) {
                return Err("an indexed value does not hold what it was given".into());
            }
            if !encoded.insert(e) || !ivs.insert(iv) {
                return Err(format!("two different indexed values are encoded identically ({})", show(b)));
            }
        }
        // Any other first byte is malformed.
        let mut e = vec![c.below(256) as u8];
        e.extend_from_slice(b);
        let ok = IndexedValue::<Keyword, Data>::try_from(e.as_slice());
        match (e[0], ok) {
            (b'w', Ok(IndexedValue::Pointer(p))) if *p == **b => {}
            (b'l', Ok(IndexedValue::Data(p))) if *p == **b => {}
            (b'w' | b'l', x) => return Err(format!("a valid indexed value reads back as {x:?}")),
            (_, Err(_)) => {}
            (x, Ok(_)) => return Err(format!("an indexed value with unknown type {x} is accepted")),
        }
    }
    // Collections.
    let ks: HashSet<Keyword> = pool.kws.iter().map(|k| Keyword::from(k.as_slice())).collect();
    let k1 = Keywords::from(ks.clone());
    let k2: Keywords = ks.iter().cloned().collect();
    if k1 != k2 || *k1.deref() != ks || HashSet::<Keyword>::from(k1.clone()) != ks || k1.clone().into_iter().collect::<HashSet<_>>() != ks {
        return Err("a set of keywords does not convert back to itself".into());
    }
    let mut k3 = Keywords::default();
    for k in &ks {
        let mut other = Keyword::from(vec![7u8; k.len()]);
        other.copy_from_slice(k);
        if !k3.insert(other) {
            return Err("a set of keywords takes two different keywords for the same".into());
        }
    }
    if k3 != k1 || ks.iter().any(|k| !k3.remove(k)) || !k3.is_empty() {
        return Err("a set of keywords filled by hand is not the set of these keywords".into());
    }
    const TEXTS: [&str; 6] = ["", "a", "a ", "A", "\u{e9}", "a\0"];
    let t = (0..c.idx(7)).map(|i| TEXTS[i % 6]).collect::<Vec<_>>();
    if Keywords::from_iter(t.iter().copied()).deref() != &t.iter().map(|s| Keyword::from(s.as_bytes())).collect::<HashSet<_>>() {
        return Err("keywords collected from texts are not the keywords of their bytes".into());
    }
    let m = pool.assoc(c);
    let want: HashMap<IndexedValue<Keyword, Data>, HashSet<Keyword>> = m
        .iter()
        .map(|(v, ks)| (world::iv(v), ks.iter().map(|k| Keyword::from(k.as_slice())).collect()))
        .collect();
    let a = IndexedValueToKeywordsMap::from(want.clone());
    let b: IndexedValueToKeywordsMap = want.clone().into_iter().collect();
    let d = IndexedValueToKeywordsMap::from(
        want.iter().map(|(k, v)| (k.clone(), Keywords::from(v.clone()))).collect::<HashMap<_, _>>(),
    );
    let e: IndexedValueToKeywordsMap =
        want.iter().map(|(k, v)| (k.clone(), Keywords::from(v.clone()))).collect();
    let back: HashMap<_, HashSet<Keyword>> = a.clone().into_iter().map(|(k, v)| (k, v.into())).collect();
    if a != b || a != d || a != e || back != want {
        return Err("a map of indexed values does not convert back to itself".into());
    }
    if let Some((k, v)) = want.iter().next() {
        let x = IndexedValueToKeywordsMap::from([(k.clone(), Keywords::from(v.clone()))]);
        if x.len() != 1 || x.get(k).map(|s| s.deref().clone()) != Some(v.clone()) {
            return Err("a map of one indexed value does not hold it".into());
        }
    }
    let r: HashMap<Keyword, HashSet<Data>> =
        ks.iter().map(|k| (k.clone(), pool.data.iter().map(|d| Data::from(d.as_slice())).collect())).collect();
    let x = KeywordToDataMap::from(r.clone());
    let y: KeywordToDataMap = r.clone().into_iter().collect();
    if x != y || *x.deref() != r || HashMap::from(x.clone()) != r || x.into_iter().collect::<HashMap<_, _>>() != r {
        return Err("a map of results does not convert back to itself".into());
    }
    // Tokens and user keys.
    let n = if c.chance(1, 2) { 32 } else { c.idx(70) };
    let b: Vec<u8> = (0..n).map(|i| splitmix(i as u64 ^ c.tape.len() as u64) as u8).collect();
    match (n, Token::try_from(b.as_slice())) {
        (32, Ok(t)) if *t == *b && tok(&t) == *b && Token::from(tok(&t)) == t => {}
        (32, _) => return Err("a token does not convert back to its bytes".into()),
        (_, Ok(_)) => return Err(format!("a token is read from {n} bytes")),
        (_, Err(_)) => {}
    }
    let kb = crate::gen::key(c);
    match UserKey::try_from_bytes(kb) {
        Ok(k) if k.to_bytes() == kb => {}
        _ => return Err("a user key does not convert back to its bytes".into()),
    }
    Ok(())
}

fn c19_every(c: &mut Case) -> Check {
    type Et = EntryTable<4, InMemoryDb<4>>;
    let et = Et::setup(InMemoryDb::default());
    let mut rng = CsRng::from_entropy();
    let seed = et.gen_seed(&mut rng);
    let key = et.derive_keys(&seed);
    let v = et.prepare(&mut rng, &key, [1, 2, 3, 4]).map_err(|e| format!("{e:?}"))?;
    let raw: Vec<u8> = (&v).into();
    let mut n = 0;
    for i in 0..raw.len() * 8 {
        let mut x = raw.clone();
        x[i / 8] ^= 1 << (i % 8);
        let x = EncryptedValue::<4>::try_from(x.as_slice()).map_err(|e| format!("{e:?}"))?;
        if et.resolve(&key, &x).is_ok() {
            return Err(format!("an encrypted value with bit {i} flipped resolves"));
        }
        n += 1;
    }
    for len in 0..100 {
        let b = vec![b'w'; len];
        if Token::try_from(b.as_slice()).is_ok() != (len == 32) {
            return Err(format!("a token from {len} bytes"));
        }
        if EncryptedValue::<4>::try_from(b.as_slice()).is_ok() != (len == 32) {
            return Err(format!("an encrypted value from {len} bytes"));
        }
        if IndexedValue::<Keyword, Data>::try_from(b.as_slice()).is_ok() != (len > 0) {
            return Err(format!("an indexed value from {len} bytes"));
        }
        n += 3;
    }
    for b in 0..=255u8 {
        let ok = IndexedValue::<Keyword, Data>::try_from(&[b][..]).is_ok();
        if ok != (b == b'w' || b == b'l') {
            return Err(format!("an indexed value of the single byte {b}"));
        }
        n += 1;
    }
    c.count("inputs enumerated", n);
    c.nontrivial();
    Ok(())
}

pub static C23: Prop = Prop {
    id: "C23",
    level: "exploration",
    rule: "secrets are built in every way the public types allow (seed set from drawn bytes or generated, keys of both tables derived from it, user key) and dropped in drawn ways: in place, inside a box, in a vector that is cleared or truncated, as values of a map, by a replacement, while a panic unwinds. The memory each value occupied, and every heap block freed by the drop, is then searched for 4 (in freed blocks, 8) consecutive bytes of the secret. Non-trivial: a drop in place of a non-zero secret",
    quick: 60_000,
    thorough: 5_000_000,
    run: c23,
    scenarios: &[],
    budget: 64 * MB,
    assumptions: &["only the memory of the dropped value is examined: copies the compiler made when moving it are out of reach"],
    stack: 2 << 20,
};

fn pieces(secret: &[u8]) -> Vec<[u8; 8]> {
    secret.chunks_exact(8).take(8).map(|c| c.try_into().unwrap()).collect()
}

/// Bytes of the value now, wherever they are read from.
fn raw<T>(p: *const T) -> Vec<u8> {
    let p = p.cast::<u8>();
    (0..std::mem::size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
}

/// Whether the memory of a dropped value holds 4 bytes of the secret (other than a
/// run of a single byte).
fn leaks(mem: &[u8], secret: &[u8]) -> bool {
    let told = |s: &[u8]| s.iter().any(|b| *b != s[0]);
    secret.windows(4).any(|s| told(s) && mem.windows(4).any(|m| m == s))
}

/// Drops values built by `make` and looks for the secret where they were.
fn dropped<T>(c: &mut Case, what: &'static str, secret: &[u8], make: &mut dyn FnMut() -> T) -> Check {
    use std::mem::MaybeUninit;
    let way = c.below(6);
    let n = c.range(1, 3) as usize;
    let pats = pieces(secret);
    let bad = |how: &str| Err(format!("{what} dropped {how}: its bytes are still in memory"));
    match way {
        0 => {
            let mut slot: Box<MaybeUninit<T>> = Box::new(MaybeUninit::uninit());
            slot.write(make());
            let hits = rt::watch_freed(&pats, || unsafe { std::ptr::drop_in_place(slot.as_mut_ptr()) });
            if hits > 0 || leaks(&raw(slot.as_ptr()), secret) {
                return bad("in place");
            }
            c.nontrivial();
        }
        1 => {
            let b = Box::new(make());
            if rt::watch_freed(&pats, || drop(b)) > 0 {
                return bad("inside a box");
            }
        }
        2 | 3 => {
            let mut v: Vec<T> = (0..n).map(|_| make()).collect();
            let (p, keep) = (v.as_ptr(), if way == 2 { 0 } else { n - 1 });
            let hits = rt::watch_freed(&pats, || v.truncate(keep));
            // The buffer still belongs to the vector.
            if hits > 0 || (keep..n).any(|i| leaks(&raw(unsafe { p.add(i) }), secret)) {
                return bad("in a vector");
            }
            c.nontrivial();
        }
        4 => {
            let m: BTreeMap<usize, T> = (0..n).map(|i| (i, make())).collect();
            if rt::watch_freed(&pats, || drop(m)) > 0 {
                return bad("in a map");
            }
        }
        _ => {
            let b = Box::new(make());
            let hits = rt::watch_freed(&pats, || {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _held = b;
                    std::panic::panic_any("on purpose");
                }));
                let _ = rt::take_panic();
            });
            if hits > 0 {
                return bad("by a panic");
            }
        }
    }
    c.label(match way {
        0 => "dropped in place",
        1 => "dropped in a box",
        2 | 3 => "dropped in a vector",
        4 => "dropped in a map",
        _ => "dropped by a panic",
    });
    Ok(())
}

fn c23(c: &mut Case) -> Check {
    type Et = EntryTable<ENTRY_LENGTH, InMemoryDb<ENTRY_LENGTH>>;
    type Ct = ChainTable<LINK_LENGTH, InMemoryDb<LINK_LENGTH>>;
    let et = Et::setup(InMemoryDb::default());
    let ct = Ct::setup(InMemoryDb::default());
    c.plain_keys = true;
    let mut sb = crate::gen::key(c);
    // Some bytes are zero, at places that look erased or unused.
    if c.chance(1, 3) {
        let i = c.idx(16);
        sb[i] = 0;
        if c.chance(1, 2) {
            let ends = [0, 15, 7, 8];
            sb[*c.pick(&ends)] = 0;
        }
    }
    c.note(|| format!("seed {}", show(&sb)));
    match c.below(6) {
        0 => dropped(c, "an entry table seed", &sb, &mut || seed_of::<ENTRY_LENGTH, Et>(&sb)),
        1 => dropped(c, "a chain table seed", &sb, &mut || seed_of::<LINK_LENGTH, Ct>(&sb)),
        2 => {
            // Generated seeds: the secret is whatever was generated.
            use std::mem::MaybeUninit;
            let mut rng = CsRng::from_entropy();
            let mut slot: Box<MaybeUninit<<Ct as DxEnc<LINK_LENGTH>>::Seed>> = Box::new(MaybeUninit::uninit());
            slot.write(ct.gen_seed(&mut rng));
            let secret = unsafe { slot.assume_init_ref() }.as_ref().to_vec();
            let hits = rt::watch_freed(&pieces(&secret), || unsafe { std::ptr::drop_in_place(slot.as_mut_ptr()) });
            if hits > 0 || leaks(&raw(slot.as_ptr()), &secret) {
                return Err("a generated seed dropped in place: its bytes are still in memory".into());
            }
            c.nontrivial();
            Ok(())
        }
        3 => {
            let k = et.derive_keys(&seed_of::<ENTRY_LENGTH, Et>(&sb));
            let secret = [&k.token[..], &k.value[..]].concat();
            dropped(c, "a pair of entry table keys", &secret, &mut || et.derive_keys(&seed_of::<ENTRY_LENGTH, Et>(&sb)))
        }
        4 => {
            let k = ct.derive_keys(&seed_of::<LINK_LENGTH, Ct>(&sb));
            let secret = [&k.token[..], &k.value[..]].concat();
            dropped(c, "a pair of chain keys", &secret, &mut || ct.derive_keys(&seed_of::<LINK_LENGTH, Ct>(&sb)))
        }
        _ => dropped(c, "a user key", &sb, &mut || cosmian_findex::UserKey::try_from_bytes(sb).expect("user key")),
    }
}
