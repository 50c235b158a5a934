//! C28 (failing searches), C29 (an index is its two tables), C30 (the
//! dictionary schemes under a plain-map model).

use super::graph::{gen_graph, load, node, roots};
use super::*;
use crate::db::{now, tok, Db, Fault, Tbl, Tok, FAULTS};
use crate::engine::MB;
use crate::gen;
use cosmian_crypto_core::{reexport::rand_core::SeedableRng, CsRng};
use cosmian_findex::{ChainTable, DxEnc, EncryptedValue, EntryTable, Error, Index, Label, Token, ENTRY_LENGTH, LINK_LENGTH};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub static C28: Prop = Prop {
    id: "C28",
    level: "fault_enumeration",
    rule: "each case generates a graph of 1-10 keywords, a set of roots; the search is run once without fault, recording its requests and what the interrupt callback is shown; then every request is made to fail or is cut (error before/after, client stopped before/after), one run each, on an instance kept for the whole case or on a fresh one. Checked each time: the very error injected is returned (never a partial or empty result), no request follows it, what was shown before agrees with the model level by level, both tables are unchanged, and the same search on the same instance and on another one then gives the exact result. In half of the cases the failing search is retried against a second failure. Non-trivial: a failure beyond the first level",
    quick: 12_000,
    thorough: 1_000_000,
    run: c28,
    scenarios: &[
        ("a failure far down a path of 3000 keywords", c28_deep),
        ("a failure while thousands of keywords are searched at once", c28_broad),
    ],
    budget: 128 * MB,
    assumptions: &["each database request is atomic: a failed one took effect entirely or not at all"],
    stack: 2 << 20,
};

type Shown = Vec<world::Direct>;

/// A search with faults armed; `None`: cut.
#[allow(clippy::type_complexity)]
fn faulted_search(
    w: &World,
    fx: &Fx,
    cr: &Creds,
    ks: &BTreeSet<Bytes>,
    faults: &[(u64, Fault)],
) -> Result<(Option<Result<Res, FErr>>, Shown), String> {
    let shown: RefCell<Shown> = RefCell::default();
    w.ctl.arm(faults);
    w.ctl.set_budget(call_budget(w));
    let r = crate::db::block_on(
        &w.ctl,
        fx.search(&cr.user_key(), &cr.lab(), world::kw_set(ks), &|m| {
            shown.borrow_mut().push(world::graph_of(&m));
            async { Ok(false) }
        }),
    );
    if w.ctl.over_budget() {
        return Err("a search does not terminate after a failed request".into());
    }
    Ok((r.map(|r| r.map(world::res_of)), shown.into_inner()))
}

fn check_failed_search(
    w: &World,
    fx: &Fx,
    cr: &Creds,
    m: &Model,
    ks: &BTreeSet<Bytes>,
    k: u64,
    f: Fault,
) -> Result<(), String> {
    let what = format!("search of {} with {f:?} at request {k}", show_set(ks));
    let (r, shown) = faulted_search(w, fx, cr, ks, &[(k, f)])?;
    let (fired, crashed, last) = (w.ctl.fired(), w.ctl.crashed(), w.ctl.calls() - 1);
    w.ctl.disarm();
    if fired == 0 {
        // The number of requests may depend on hash order.
        return match r {
            Some(Ok(got)) if got == m.search(ks) => Ok(()),
            r => Err(format!("{what}: no request failed but the search gives {r:?}")),
        };
    }
    match (f, r) {
        (Fault::ErrBefore | Fault::ErrAfter, Some(Err(Error::DbInterface(e)))) => {
            let side = if f == Fault::ErrBefore { "before" } else { "after" };
            if e.0 != format!("injected {side} request {k}") {
                return Err(format!("{what}: another error is reported: {e:?}"));
            }
            if last != k {
                return Err(format!("{what}: requests are still sent after the failure"));
            }
        }
        (Fault::CrashBefore | Fault::CrashAfter, None) if crashed => {}
        (_, Some(Ok(got))) => {
            return Err(format!("{what}: the search answers {} although a request failed", show_res(&got)))
        }
        (_, r) => return Err(format!("{what}: the search returned {r:?}")),
    }
    // What was shown until then is true.
    let dist = crate::model::distances(&m.kws, ks);
    for (i, map) in shown.iter().enumerate() {
        for (kw, vals) in map {
            if m.kws.get(kw).cloned().unwrap_or_default() != *vals {
                return Err(format!("{what}: the callback was shown {} with wrong associations", show(kw)));
            }
        }
        for (kw, d) in &dist {
            if *d == i && !map.contains_key(kw) && !shown[..i].iter().any(|s| s.contains_key(kw)) {
                return Err(format!("{what}: call {i} of the callback misses {}", show(kw)));
            }
        }
    }
    Ok(())
}

fn c28(c: &mut Case) -> Check {
    let w = World::draw(c);
    let fx = w.client();
    let cr = Creds::new(c);
    let mut m = Model::default();
    let (n, a) = gen_graph(c, 10);
    load(c, &w, &fx, &cr, &mut m, &a)?;
    let ks = roots(c, n);
    let keep = c.chance(1, 2);
    let twice = c.chance(1, 2);
    let second = (c.below(8), FAULTS[c.idx(4)]);
    let before = w.snapshot();
    let (r, _) = faulted_search(&w, &fx, &cr, &ks, &[])?;
    let total = w.ctl.calls();
    w.ctl.disarm();
    let want = m.search(&ks);
    match r {
        Some(Ok(got)) if got == want => {}
        r => return Err(format!("search of {} gives {r:?} instead of {}", show_set(&ks), show_res(&want))),
    }
    c.note(|| format!("search {}: {total} requests; same instance kept: {keep}; then failing again at {second:?}: {twice}", show_set(&ks)));
    if total > 2 {
        c.nontrivial();
    }
    let other = w.client();
    for k in 0..total {
        for f in FAULTS {
            let fresh;
            let used = if keep {
                &fx
            } else {
                fresh = w.client();
                &fresh
            };
            check_failed_search(&w, used, &cr, &m, &ks, k, f)?;
            c.count("failed searches", 1);
            if twice {
                check_failed_search(&w, used, &cr, &m, &ks, second.0, second.1)?;
            }
            let what = format!("search of {} with {f:?} at request {k}", show_set(&ks));
            if w.snapshot() != before {
                return Err(format!("{what}: the tables changed"));
            }
            for (i, who) in [(used, "the same instance"), (&other, "another instance")] {
                let got = go(&w, world::search(i, &cr, &ks), "search after a failed one")?;
                if got != want {
                    return Err(format!("{what}; then {who} finds {} instead of {}", show_res(&got), show_res(&want)));
                }
            }
        }
    }
    // The instance still updates.
    let pool = Pool { kws: (0..n + 2).map(node).collect(), data: vec![b"late".to_vec(), b"later".to_vec()] };
    let (add, a) = gen_update(c, &pool, &m);
    do_update(c, &w, &fx, &cr, &mut m, add, &a, true)?;
    expect_direct(&w, &fx, &cr, &m, &pool.kws, "after failed searches and an update")
}

fn c28_deep(c: &mut Case) -> Check {
    let w = World::new(false);
    let fx = w.client();
    let cr = Creds { key: [3; 16], label: b"deep".to_vec() };
    let mut m = Model::default();
    let mut a = Assoc::new();
    for i in 0..3_000 {
        a.entry(Val::P(node(i + 1))).or_default().insert(node(i));
        a.entry(Val::D(format!("d{i}").into_bytes())).or_default().insert(node(i));
    }
    go(&w, world::update(&fx, &cr, true, &a), "add")?;
    m.apply(true, &a);
    let ks = BTreeSet::from([node(0)]);
    for k in [1, 130, 1_001, 2_998, 5_000] {
        for f in FAULTS {
            check_failed_search(&w, &fx, &cr, &m, &ks, k, f)?;
        }
    }
    let got = go(&w, world::search(&fx, &cr, &ks), "search after failed ones")?;
    if got != m.search(&ks) {
        return Err("the search of a long path is wrong after failed searches".into());
    }
    c.nontrivial();
    Ok(())
}

/// Thousands of keywords in one level: each request of the search fails in turn.
fn c28_broad(c: &mut Case) -> Check {
    for memory in [false, true] {
        let w = World::new(memory);
        let fx = w.client();
        let cr = Creds { key: [3; 16], label: b"broad".to_vec() };
        let mut m = Model::default();
        let n = 3_000;
        let mut a = Assoc::new();
        for i in 0..n {
            a.entry(Val::P(node(n + i % 1_200))).or_default().insert(node(i));
            a.entry(Val::D(format!("d{i}").into_bytes())).or_default().insert(node(i));
        }
        for i in 0..1_200 {
            a.entry(Val::D(format!("e{i}").into_bytes())).or_default().insert(node(n + i));
        }
        go(&w, world::update(&fx, &cr, true, &a), "add")?;
        m.apply(true, &a);
        let ks: BTreeSet<Bytes> = (0..n).map(node).collect();
        w.ctl.arm(&[]);
        let got = go(&w, world::search(&fx, &cr, &ks), "search")?;
        let requests = w.ctl.calls();
        if got != m.search(&ks) {
            return Err("the search of thousands of keywords is wrong".into());
        }
        for k in 0..requests.min(8) {
            for f in FAULTS {
                check_failed_search(&w, &fx, &cr, &m, &ks, k, f)?;
            }
        }
        c.count("requests of a search of 3000 keywords", requests);
    }
    c.nontrivial();
    Ok(())
}

pub static C29: Prop = Prop {
    id: "C29",
    level: "exploration",
    rule: "stateful: 4-24 steps over one to three copies of an index, each with its two tables, its backend and one to three client instances that live as long as the case: updates (new keywords exact), searches, compactions (rate 1, credentials rotated), saving the two tables (as a snapshot or as serialized bytes), restoring a saved state under live instances (a backup), copying a saved state to new tables with another backend, emptying both tables. Each step by a drawn instance; the oracle is one model per copy, saved and restored with it. At the end every live instance of every copy searches everything. Non-trivial: an instance works on a state restored after it worked on a different one",
    quick: 36_000,
    thorough: 3_000_000,
    run: c29,
    scenarios: &[("an index restored under instances that had compacted it", c29_backup)],
    budget: 128 * MB,
    assumptions: &["no call is under way while tables are restored"],
    stack: 2 << 20,
};

#[derive(Clone)]
struct Saved {
    tables: (world::EtMap, world::CtMap),
    model: Model,
    cr: Creds,
}

struct Copy {
    w: World,
    fxs: Vec<Fx>,
    m: Model,
    cr: Creds,
    /// Instances that worked since the last restoration of another state.
    worked: BTreeSet<usize>,
    restored: bool,
}

impl Copy {
    fn new(c: &mut Case, m: Model, cr: Creds) -> Self {
        let w = World::draw(c);
        let n = c.range(1, 3);
        let fxs = (0..n).map(|_| w.client()).collect();
        Copy { w, fxs, m, cr, worked: BTreeSet::new(), restored: false }
    }
}

fn save(c: &mut Case, x: &Copy) -> Result<Saved, String> {
    let mut tables = x.w.snapshot();
    if c.chance(1, 2) {
        c.label("saved as bytes");
        tables = (through_bytes(&tables.0)?, through_bytes(&tables.1)?);
    }
    Ok(Saved { tables, model: x.m.clone(), cr: x.cr.clone() })
}

/// Serialization and back.
fn through_bytes<const L: usize>(
    t: &BTreeMap<Tok, EncryptedValue<L>>,
) -> Result<BTreeMap<Tok, EncryptedValue<L>>, String> {
    let db: Db<L> = Db::new(Tbl::Et, true, Rc::default());
    db.restore(t);
    let bytes = db.to_bytes().ok_or("no in-memory table")?;
    let back: Db<L> = Db::new(Tbl::Et, true, Rc::default());
    back.load_bytes(&bytes)?;
    Ok(back.snapshot())
}

fn c29(c: &mut Case) -> Check {
    let pool = if c.chance(1, 3) { Pool::new(c, 5, 4) } else { Pool::simple(c, 5, 4) };
    let cr = Creds::new(c);
    let mut copies = vec![Copy::new(c, Model::default(), cr)];
    let mut saved: Vec<Saved> = Vec::new();
    let steps = c.range(4, 24);
    for _ in 0..steps {
        let i = c.idx(copies.len());
        let op = c.weighted(&[8, 4, 2, 4, 4, 1, 1]);
        if op == 5 && copies.len() < 3 {
            // A copy of a saved state, on its own tables.
            if let Some(j) = (!saved.is_empty()).then(|| c.idx(saved.len())) {
                let s = saved[j].clone();
                let x = Copy::new(c, s.model.clone(), s.cr.clone());
                x.w.restore(&s.tables);
                c.note(|| format!("copy {} made from the state {j}", copies.len()));
                copies.push(x);
            }
            continue;
        }
        let x = &mut copies[i];
        let who = c.idx(x.fxs.len());
        if matches!(op, 0..=2) {
            if x.restored && x.worked.contains(&who) {
                c.nontrivial();
            }
            c.note(|| format!("copy {i}, instance {who}:"));
        }
        match op {
            0 => {
                x.worked.insert(who);
                let (add, a) = gen_update(c, &pool, &x.m);
                do_update(c, &x.w, &x.fxs[who], &x.cr, &mut x.m, add, &a, true)?;
            }
            1 => {
                x.worked.insert(who);
                let ks = pool.some_kws(c);
                expect_search(c, &x.w, &x.fxs[who], &x.cr, &x.m, &ks, "in an index saved and restored")?;
            }
            2 => {
                x.worked.insert(who);
                let new = x.cr.rotate(c);
                go(&x.w, world::compact(&x.fxs[who], &x.cr, &new, 1.0), "compact")?;
                c.note(|| format!("compact to key {} label {}", show(&new.key), show(&new.label)));
                x.cr = new;
                x.m.compact(|_| true);
            }
            3 => {
                if saved.len() < 4 {
                    let s = save(c, x)?;
                    c.note(|| format!("copy {i} saved as state {}", saved.len()));
                    saved.push(s);
                }
            }
            4 => {
                if let Some(j) = (!saved.is_empty()).then(|| c.idx(saved.len())) {
                    let s = saved[j].clone();
                    x.restored |= s.tables != x.w.snapshot();
                    x.w.restore(&s.tables);
                    x.m = s.model;
                    x.cr = s.cr;
                    c.note(|| format!("state {j} restored in copy {i}"));
                }
            }
            _ => {
                x.restored |= !x.m.kws.is_empty();
                x.w.restore(&Default::default());
                x.m = Model::default();
                c.note(|| format!("copy {i} emptied"));
            }
        }
    }
    for (i, x) in copies.iter().enumerate() {
        if x.w.et.len() != x.m.kws.len() {
            return Err(format!("copy {i} holds {} entries for {} keywords", x.w.et.len(), x.m.kws.len()));
        }
        for fx in x.fxs.iter().chain([&x.w.client()]) {
            expect_all(c, &x.w, fx, &x.cr, &x.m, &pool.kws, "at the end")?;
        }
    }
    Ok(())
}

fn c29_backup(c: &mut Case) -> Check {
    for in_memory in [true, false] {
        let w = World::new(in_memory);
        let fx = w.client();
        let kws: Vec<Bytes> = (0..12).map(node).collect();
        let mut m = Model::default();
        let mut crs = vec![Creds { key: [1; 16], label: b"0".to_vec() }];
        let mut states = Vec::new();
        for i in 0..6u8 {
            let cr = crs.last().expect("one").clone();
            let mut a = Assoc::new();
            for (j, k) in kws.iter().enumerate() {
                if j % (i as usize + 1) == 0 {
                    a.entry(Val::D(vec![i; 3 + i as usize])).or_default().insert(k.clone());
                }
            }
            go(&w, world::update(&fx, &cr, true, &a), "add")?;
            m.apply(true, &a);
            states.push((w.snapshot(), m.clone(), cr.clone()));
            let new = Creds { key: if i % 2 == 0 { cr.key } else { [i + 2; 16] }, label: vec![i + 1] };
            go(&w, world::compact(&fx, &cr, &new, 1.0), "compact")?;
            crs.push(new.clone());
            states.push((w.snapshot(), m.clone(), new));
        }
        for _ in 0..40 {
            let (s, m, cr) = c.pick(&states).clone();
            w.restore(&s);
            expect_all(c, &w, &fx, &cr, &m, &kws, "in a restored state")?;
            let mut m = m;
            let a = Assoc::from([(Val::D(b"after".to_vec()), BTreeSet::from([c.pick(&kws).clone(), b"fresh".to_vec()]))]);
            do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
            expect_all(c, &w, &fx, &cr, &m, &kws, "in a restored and extended state")?;
        }
    }
    c.nontrivial();
    Ok(())
}

pub static C30: Prop = Prop {
    id: "C30",
    level: "exploration",
    rule: "stateful: 3-20 calls of insert, get, conditional upsert (entry tables) and delete on an encrypted dictionary - EntryTable or ChainTable, values of 5 lengths, over the reference map or the in-memory table - by one to three instances sharing the backend, with one to three seeds (derived again at each use), names of equal length, with or without label, batches of 0 to 6 names; a quarter of the calls have their request fail before or after taking effect, and the backend returns several values for some tokens. Oracle: a plain map from (seed, name, label) to the plaintext and the stored ciphertext: what get returns, its decryption with the right seed and its refusal with the others, what upsert rejects, the errors (the backend's own), the number of requests (one per call, about exactly the tokens given) and the final content. Non-trivial: an upsert was partly rejected, an insertion was refused, or a request failed",
    quick: 60_000,
    thorough: 5_000_000,
    run: c30,
    scenarios: &[("calls about thousands of names", c30_large)],
    budget: 64 * MB,
    assumptions: &["the backend honours the contract of DbInterface"],
    stack: 2 << 20,
};

fn c30(c: &mut Case) -> Check {
    match c.below(10) {
        0 => dictionary::<1, EntryTable<1, Db<1>>>(c, true),
        1 => dictionary::<1, ChainTable<1, Db<1>>>(c, false),
        2 => dictionary::<16, EntryTable<16, Db<16>>>(c, true),
        3 => dictionary::<17, ChainTable<17, Db<17>>>(c, false),
        4 | 5 => dictionary::<ENTRY_LENGTH, EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>>>(c, true),
        6 | 7 => dictionary::<LINK_LENGTH, ChainTable<LINK_LENGTH, Db<LINK_LENGTH>>>(c, false),
        8 => dictionary::<300, EntryTable<300, Db<300>>>(c, true),
        _ => dictionary::<300, ChainTable<300, Db<300>>>(c, false),
    }
}

struct Known<const L: usize> {
    seed: usize,
    plain: [u8; L],
    value: EncryptedValue<L>,
}

/// The outcome of a call whose request may have been made to fail.
fn outcome<T: std::fmt::Debug>(
    r: Result<T, Error<crate::db::DbErr>>,
    fault: Option<Fault>,
    what: &str,
) -> Result<Option<T>, String> {
    match (r, fault) {
        (Ok(v), None) => Ok(Some(v)),
        (Err(Error::DbInterface(e)), Some(f)) => {
            let side = if f == Fault::ErrBefore { "before" } else { "after" };
            if e.0 == format!("injected {side} request 0") {
                Ok(None)
            } else {
                Err(format!("{what}: the backend's error became {e:?}"))
            }
        }
        (r, f) => Err(format!("{what}: returned {r:?} with fault {f:?}")),
    }
}

fn dictionary<const L: usize, T>(c: &mut Case, entry: bool) -> Check
where
    T: DxEnc<L, Database = Db<L>, EncryptedValue = EncryptedValue<L>, Error = Error<crate::db::DbErr>>,
{
    let ctl: Rc<crate::db::Ctl> = Rc::default();
    let db: Db<L> = Db::new(Tbl::Et, c.chance(1, 2), ctl.clone());
    ctl.logging.set(true);
    c.label(if entry { "entry table" } else { "chain table" });
    let n = c.range(1, 3);
    let tables: Vec<T> = (0..n).map(|_| T::setup(db.clone())).collect();
    let seeds: Vec<[u8; 16]> = {
        let mut s: Vec<[u8; 16]> = Vec::new();
        for _ in 0..c.range(1, 3) {
            let k = if s.is_empty() || c.chance(1, 2) { gen::key(c) } else { gen::near_key(c, &s[0]) };
            if !s.contains(&k) {
                s.push(k);
            }
        }
        s
    };
    let names: Vec<Vec<u8>> = {
        let len = *c.pick(&[1usize, 8, 32, 33]);
        let first: Vec<u8> = (0..len).map(|_| c.below(256) as u8).collect();
        let mut v = vec![first];
        for i in 0..3u8 {
            let mut x = gen::alike(c, &v[0]);
            x.truncate(len);
            while v.contains(&x) {
                x[0] = x[0].wrapping_add(1 + i);
            }
            v.push(x);
        }
        v
    };
    let labels: Vec<Option<Label>> =
        if entry { vec![None, Some(Label::from(gen::label(c).as_slice()))] } else { vec![None] };
    let key_of = |t: &T, i: usize| {
        let mut s = T::Seed::default();
        s.as_mut().copy_from_slice(&seeds[i]);
        t.derive_keys(&s)
    };
    let mut rng = CsRng::from_entropy();
    let mut model: BTreeMap<Tok, Known<L>> = BTreeMap::new();
    let mut ever: Vec<(Tok, EncryptedValue<L>)> = Vec::new();
    let mut extra: BTreeMap<Tok, Vec<(usize, [u8; L], EncryptedValue<L>)>> = BTreeMap::new();
    // The seed each token belongs to.
    let mut owner: BTreeMap<Tok, usize> = BTreeMap::new();
    let plain = |c: &mut Case| -> [u8; L] {
        let mut b = [*c.pick(&[0u8, 0xff, 7]); L];
        if c.chance(2, 3) {
            let mut s = c.below(1 << 16);
            for x in b.iter_mut() {
                s = crate::rt::splitmix(s);
                *x = s as u8;
            }
        }
        b
    };
    let steps = c.range(3, 20);
    for _ in 0..steps {
        let t = &tables[c.idx(tables.len())];
        // The tokens of the call.
        let size = c.weighted(&[1, 4, 3, 2, 1, 1, 1]);
        let mut toks: BTreeSet<Tok> = BTreeSet::new();
        for _ in 0..size {
            let (s, l) = (c.idx(seeds.len()), c.idx(labels.len()));
            let name = c.pick(&names).clone();
            let token = tok(&t.tokenize(&key_of(t, s), &name, labels[l].as_ref()));
            if let Some(o) = owner.insert(token, s) {
                if o != s {
                    return Err("two seeds give the same token".into());
                }
            }
            toks.insert(token);
        }
        // A call about nothing may send nothing.
        let fault = (!toks.is_empty() && c.chance(1, 4)).then(|| if c.chance(1, 2) { Fault::ErrBefore } else { Fault::ErrAfter });
        let arm = |f: Option<Fault>| ctl.arm(&f.map(|f| (0, f)).into_iter().collect::<Vec<_>>());
        let mut seal = |c: &mut Case, token: &Tok| -> Result<Known<L>, String> {
            let seed = owner[token];
            let plain = plain(c);
            let value = t
                .prepare(&mut rng, &key_of(t, seed), plain)
                .map_err(|e| format!("prepare: {e:?}"))?;
            Ok(Known { seed, plain, value })
        };
        let op = c.weighted(&[4, 4, if entry { 5 } else { 0 }, 2, 1]);
        let what = format!(
            "{} of {} tokens with fault {fault:?}",
            ["insertion", "get", "upsert", "deletion", "addition of values by the backend"][op],
            toks.len()
        );
        c.note(|| format!("{what}; {} stored", model.len()));
        let applies = fault != Some(Fault::ErrBefore);
        ctl.take_log();
        arm(fault);
        let hs: HashSet<Token> = toks.iter().map(|t| Token::from(*t)).collect();
        match op {
            0 => {
                let mut items = BTreeMap::new();
                for x in &toks {
                    items.insert(*x, seal(c, x)?);
                }
                let refused = toks.iter().any(|x| model.contains_key(x));
                let arg: HashMap<Token, EncryptedValue<L>> =
                    items.iter().map(|(k, v)| (Token::from(*k), v.value.clone())).collect();
                let r = now(t.insert(arg));
                if refused && applies {
                    c.nontrivial();
                    match r {
                        Err(Error::DbInterface(_)) => {}
                        r => return Err(format!("{what}: a token is in use but insert gives {r:?}")),
                    }
                } else {
                    outcome(r, fault, &what)?;
                    if applies {
                        for (k, v) in items {
                            ever.push((k, v.value.clone()));
                            model.insert(k, v);
                        }
                    }
                }
            }
            1 => {
                if let Some(got) = outcome(now(t.get(hs)), fault, &what)? {
                    let mut want: Vec<(Tok, usize, [u8; L], EncryptedValue<L>)> = Vec::new();
                    for x in &toks {
                        if let Some(k) = model.get(x) {
                            want.push((*x, k.seed, k.plain, k.value.clone()));
                        }
                        for (s, p, v) in extra.get(x).into_iter().flatten() {
                            want.push((*x, *s, *p, v.clone()));
                        }
                    }
                    if got.len() != want.len() {
                        return Err(format!("{what}: {} values instead of {}", got.len(), want.len()));
                    }
                    for (token, value) in &got {
                        let i = want
                            .iter()
                            .position(|w| w.0 == tok(token) && w.3 == *value)
                            .ok_or_else(|| format!("{what}: a value that is not stored for this token is returned"))?;
                        let (_, s, p, _) = want.swap_remove(i);
                        for (j, _) in seeds.iter().enumerate() {
                            match (t.resolve(&key_of(t, j), value), j == s) {
                                (Ok(x), true) if x == p => {}
                                (Err(_), false) => {}
                                (r, right) => {
                                    return Err(format!(
                                        "{what}: resolving with {} seed gives {:?}",
                                        if right { "its" } else { "another" },
                                        r.map(|x| show(&x))
                                    ))
                                }
                            }
                        }
                    }
                }
            }
            2 => {
                // Expected values: the one stored, an older or foreign one, or none.
                let mut old: BTreeMap<Tok, EncryptedValue<L>> = BTreeMap::new();
                let mut new = BTreeMap::new();
                for x in &toks {
                    new.insert(*x, seal(c, x)?);
                    match c.weighted(&[4, 2, 2]) {
                        0 => {
                            if let Some(k) = model.get(x) {
                                old.insert(*x, k.value.clone());
                            }
                        }
                        1 => {}
                        _ => {
                            if !ever.is_empty() {
                                old.insert(*x, c.pick(&ever).1.clone());
                            }
                        }
                    }
                }
                let missing = old.keys().any(|x| !model.contains_key(x));
                let argo = old.iter().map(|(k, v)| (Token::from(*k), v.clone())).collect();
                let argn = new.iter().map(|(k, v)| (Token::from(*k), v.value.clone())).collect();
                let r = now(t.upsert(argo, argn));
                if missing && applies {
                    match r {
                        Err(Error::DbInterface(_)) => {}
                        r => {
                            return Err(format!("{what}: an old value is given where none is stored but upsert gives {r:?}"))
                        }
                    }
                } else {
                    let got = outcome(r, fault, &what)?;
                    if applies {
                        let mut want: BTreeMap<Tok, EncryptedValue<L>> = BTreeMap::new();
                        for (x, k) in new {
                            let stored = model.get(&x).map(|k| &k.value);
                            if stored == old.get(&x) {
                                ever.push((x, k.value.clone()));
                                model.insert(x, k);
                            } else if let Some(s) = stored {
                                want.insert(x, s.clone());
                            }
                        }
                        if let Some(got) = got {
                            let got: BTreeMap<Tok, EncryptedValue<L>> =
                                got.into_iter().map(|(k, v)| (tok(&k), v)).collect();
                            if got != want {
                                return Err(format!("{what}: {} values rejected instead of {}", got.len(), want.len()));
                            }
                            if !want.is_empty() && want.len() < toks.len() {
                                c.nontrivial();
                            }
                        }
                    }
                }
            }
            3 => {
                outcome(now(t.delete(hs)), fault, &what)?;
                if applies {
                    for x in &toks {
                        model.remove(x);
                    }
                }
            }
            _ => {
                ctl.disarm();
                for x in &toks {
                    let k = seal(c, x)?;
                    db.extra.borrow_mut().entry(*x).or_default().push(k.value.clone());
                    extra.entry(*x).or_default().push((k.seed, k.plain, k.value));
                }
                continue;
            }
        }
        if fault.is_some() {
            c.nontrivial();
        }
        if ctl.calls() > 1 || (ctl.calls() == 0 && !toks.is_empty()) {
            return Err(format!("{what}: {} requests instead of one", ctl.calls()));
        }
        for call in ctl.take_log() {
            if call.tokens != toks {
                return Err(format!("{what}: the request is about {} other tokens", call.tokens.len()));
            }
        }
        ctl.disarm();
        // The content.
        let content = db.snapshot();
        if content.len() != model.len() {
            return Err(format!("{what}: {} values are stored instead of {}", content.len(), model.len()));
        }
        for (k, v) in &model {
            if content.get(k) != Some(&v.value) {
                return Err(format!("{what}: a stored value is not the one expected"));
            }
        }
    }
    Ok(())
}

/// Calls about thousands of names are one request each, all or nothing.
fn c30_large(c: &mut Case) -> Check {
    large::<16, EntryTable<16, Db<16>>>(true)?;
    large::<16, ChainTable<16, Db<16>>>(false)?;
    c.nontrivial();
    Ok(())
}

fn large<const L: usize, T>(entry: bool) -> Check
where
    T: DxEnc<L, Database = Db<L>, EncryptedValue = EncryptedValue<L>, Error = Error<crate::db::DbErr>>,
{
    for (n, memory) in [(700usize, false), (5_000, true)] {
        let ctl: Rc<crate::db::Ctl> = Rc::default();
        let db: Db<L> = Db::new(Tbl::Et, memory, ctl.clone());
        ctl.logging.set(true);
        let t = T::setup(db.clone());
        let mut seed = T::Seed::default();
        seed.as_mut().fill(5);
        let key = t.derive_keys(&seed);
        let mut rng = CsRng::from_entropy();
        let plain = |i: usize, round: u8| {
            let mut p = [round; L];
            p[..8].copy_from_slice(&(i as u64).to_le_bytes());
            p
        };
        let tokens: Vec<Token> = (0..n).map(|i| t.tokenize(&key, format!("name {i}").as_bytes(), None)).collect();
        let all: BTreeSet<Tok> = tokens.iter().map(tok).collect();
        if all.len() != n {
            return Err("two names have one token".into());
        }
        let seal = |rng: &mut CsRng, i: usize, round: u8| t.prepare(rng, &key, plain(i, round)).map_err(|e| format!("prepare: {e:?}"));
        // A request that failed before taking effect is not in the log.
        let one_request = |what: &str, about: &BTreeSet<Tok>, f: Fault| -> Check {
            let log = ctl.take_log();
            if log.len() != usize::from(f == Fault::ErrAfter) || log.iter().any(|l| l.tokens != *about) {
                return Err(format!("{what} of {n} names: {} requests, not one about these names", log.len()));
            }
            Ok(())
        };
        let mut first = HashMap::new();
        for (i, x) in tokens.iter().enumerate() {
            first.insert(x.clone(), seal(&mut rng, i, 1)?);
        }
        let fault = |f: Fault| ctl.arm(&[(0, f)]);
        // Failed insertions: nothing, then everything.
        for f in [Fault::ErrBefore, Fault::ErrAfter] {
            fault(f);
            outcome(now(t.insert(first.clone())), Some(f), "insertion")?;
            one_request("insertion", &all, f)?;
            let want = if f == Fault::ErrBefore { 0 } else { n };
            if db.snapshot().len() != want {
                return Err(format!("a failed insertion of {n} names stored {} of them", db.snapshot().len()));
            }
        }
        ctl.disarm();
        let check = |what: &str, want: &dyn Fn(usize) -> Option<u8>| -> Check {
            let got = now(t.get(tokens.iter().cloned().collect())).map_err(|e| format!("{what}: get: {e:?}"))?;
            one_request("get", &all, Fault::ErrAfter)?;
            let mut shown = BTreeMap::new();
            for (x, v) in got {
                let p = t.resolve(&key, &v).map_err(|e| format!("{what}: resolve: {e:?}"))?;
                if shown.insert(tok(&x), p).is_some() {
                    return Err(format!("{what}: a name is given two values"));
                }
            }
            for (i, x) in tokens.iter().enumerate() {
                if shown.get(&tok(x)) != want(i).map(|r| plain(i, r)).as_ref() {
                    return Err(format!("{what}: name {i} of {n} has not the value it was given"));
                }
            }
            Ok(())
        };
        check("after insertion", &|_| Some(1))?;
        // A single name in use makes the insertion fail as a whole.
        if now(t.insert(HashMap::from([(tokens[n / 2].clone(), seal(&mut rng, n / 2, 9)?)]))).is_ok() {
            return Err("a name is inserted twice".into());
        }
        ctl.take_log();
        let mut state: Vec<Option<u8>> = vec![Some(1); n];
        if entry {
            // One in three names expects another value than the stored one.
            let mut old = first.clone();
            let mut new = HashMap::new();
            for (i, x) in tokens.iter().enumerate() {
                new.insert(x.clone(), seal(&mut rng, i, 2)?);
                if i % 3 == 0 {
                    old.insert(x.clone(), first[&tokens[(i + 1) % n]].clone());
                } else {
                    state[i] = Some(2);
                }
            }
            let r = now(t.upsert(old, new)).map_err(|e| format!("upsert: {e:?}"))?;
            one_request("upsert", &all, Fault::ErrAfter)?;
            let want: BTreeSet<Tok> = tokens.iter().step_by(3).map(tok).collect();
            let got: BTreeSet<Tok> = r.iter().map(|(x, _)| tok(x)).collect();
            if got != want || r.iter().any(|(x, v)| first.get(x) != Some(v)) {
                return Err(format!("an upsert of {n} names rejected {} of them instead of {}", got.len(), want.len()));
            }
            check("after upsert", &|i| state[i])?;
        }
        // A failed deletion: nothing, then everything it was about.
        let half: HashSet<Token> = tokens.iter().step_by(2).cloned().collect();
        let about: BTreeSet<Tok> = half.iter().map(tok).collect();
        for f in [Fault::ErrBefore, Fault::ErrAfter] {
            fault(f);
            outcome(now(t.delete(half.clone())), Some(f), "deletion")?;
            if ctl.calls() != 1 {
                return Err(format!("the deletion of {} names sends {} requests", about.len(), ctl.calls()));
            }
            ctl.disarm();
            one_request("deletion", &about, f)?;
            if f == Fault::ErrAfter {
                state.iter_mut().step_by(2).for_each(|s| *s = None);
            }
            check("after a failed deletion", &|i| state[i])?;
        }
    }
    Ok(())
}
