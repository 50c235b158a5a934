//! What is stored and what the database sees: C14 (tampering), C15 (freshness),
//! C20 (requests), C21 (several values for one entry).

use super::compaction::rate;
use super::*;
use crate::db::{tok, value_bytes, Call, Kind, Tbl, Tok, FAULTS};
use crate::engine::MB;
use crate::model::{by_keyword, distances};
use crate::refimpl::{self, Nonces};
use cosmian_crypto_core::{reexport::rand_core::SeedableRng, CsRng};
use cosmian_findex::{DxEnc, EncryptedValue, Index, Label, ENTRY_LENGTH, LINK_LENGTH};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub static C14: Prop = Prop {
    id: "C14",
    level: "exploration",
    rule: "an index of 1-8 keywords with pointers and multi-line chains; one stored value is altered (one bit flipped anywhere in the nonce, ciphertext or tag, several bytes changed, whole parts erased by a repeated byte or taken from another value, the chain line of another keyword or index put in its place, an entry encrypted under another key) and searches, additions, deletions and compactions are run: those that read it must report an error, change nothing of it and move nothing derived from it; those that do not must be exact; putting the value back restores exact results. Non-trivial: the altered keyword holds data and some other keyword is searched exactly meanwhile",
    quick: 54_000,
    thorough: 4_500_000,
    run: c14,
    scenarios: &[("every bit of an entry and of a line", c14_every_bit)],
    budget: 128 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

fn altered<const L: usize>(v: &EncryptedValue<L>, bits: &[usize]) -> EncryptedValue<L> {
    let mut b = value_bytes(v);
    for i in bits {
        b[i / 8] ^= 1 << (i % 8);
    }
    EncryptedValue::<L>::try_from(b.as_slice()).expect("same length")
}

fn draw_bits(c: &mut Case, len: usize) -> Vec<usize> {
    let n = if c.chance(1, 4) { c.range(2, 6) } else { 1 };
    let mut bits: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..n {
        bits.insert(match c.below(3) {
            // Tag, nonce, anywhere.
            0 => (len - 16) * 8 + c.idx(128),
            1 => c.idx(96),
            _ => c.idx(len * 8),
        });
    }
    bits.into_iter().collect()
}

/// The parts of a value (bit 0: nonce, 1: ciphertext, 2: tag) taken from `from`.
fn mixed<const N: usize>(v: &EncryptedValue<N>, from: &EncryptedValue<N>, parts: u64) -> EncryptedValue<N> {
    let mut r = v.clone();
    if parts & 1 != 0 {
        r.nonce = from.nonce.clone();
    }
    if parts & 2 != 0 {
        r.ciphertext = from.ciphertext;
    }
    if parts & 4 != 0 {
        r.tag = from.tag;
    }
    r
}

/// A value of a single repeated byte.
fn filled<const N: usize>(byte: u8) -> EncryptedValue<N> {
    EncryptedValue::try_from(&vec![byte; N + 28][..]).expect("length of an encrypted value")
}

/// Overwrites whole parts of a value: erased, or taken from another value.
fn overwritten<const N: usize>(
    c: &mut Case,
    v: &EncryptedValue<N>,
    others: &[&EncryptedValue<N>],
) -> (&'static str, EncryptedValue<N>) {
    let parts = c.range(1, 7);
    let (how, r) = if others.is_empty() || c.chance(2, 3) {
        let byte = *c.pick(&[0, 0xff, b' ', b'0', 1]);
        ("overwritten by a repeated byte", mixed(v, &filled(byte), parts))
    } else {
        ("mixed with another value", mixed(v, *c.pick(others), if parts == 7 { 1 } else { parts }))
    };
    if r == *v {
        return ("altered", altered(v, &[100]));
    }
    (how, r)
}

fn c14(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = if c.chance(1, 2) { Pool::new(c, 8, 5) } else { Pool::simple(c, 8, 5) };
    let cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    build(c, &w, &fx, &cr, &mut m, &pool, 1, 7)?;
    let s0 = w.snapshot();
    if m.kws.is_empty() {
        return Ok(());
    }
    let names: Vec<Bytes> = m.kws.keys().cloned().collect();
    let k = c.pick(&names).clone();
    let keys = refimpl::et_keys(&cr.key);
    let et_tok = refimpl::et_token(&keys, &k, &cr.label);
    let (_, chain, _) = refimpl::read_keyword(&s0.0, &s0.1, &cr.key, &cr.label, &k)?.ok_or("no entry")?;
    let in_entry = chain.is_empty() || c.chance(1, 2);
    let mut s1 = s0.clone();
    let how;
    if in_entry {
        let v = &s0.0[&et_tok];
        let new = if c.chance(1, 6) {
            how = "encrypted under another key";
            let mut other = cr.clone();
            other.key[c.idx(16)] ^= 4;
            let plain = refimpl::open(&keys, v).ok_or("entry")?;
            refimpl::seal(&refimpl::et_keys(&other.key), plain, [7; 12])
        } else if c.chance(1, 4) {
            let others: Vec<_> = s0.0.values().filter(|x| *x != v).collect();
            let (h, new) = overwritten(c, v, &others);
            how = h;
            new
        } else {
            how = "altered";
            let bits = draw_bits(c, 12 + ENTRY_LENGTH + 16);
            altered(v, &bits)
        };
        s1.0.insert(et_tok, new);
    } else {
        let t = *c.pick(&chain);
        let v = &s0.1[&t];
        let others: Vec<Tok> = s0.1.keys().filter(|x| !chain.contains(x)).copied().collect();
        let new = if !others.is_empty() && c.chance(1, 3) {
            how = "replaced by a line of another keyword";
            s0.1[c.pick(&others)].clone()
        } else if c.chance(1, 4) {
            let others: Vec<_> = s0.1.values().filter(|x| *x != v).collect();
            let (h, new) = overwritten(c, v, &others);
            how = h;
            new
        } else {
            how = "altered";
            let bits = draw_bits(c, 12 + LINK_LENGTH + 16);
            altered(v, &bits)
        };
        s1.1.insert(t, new);
    }
    // An instance that read the values before they were altered.
    if c.chance(1, 2) {
        c.label("values read before");
        expect_direct(&w, &fx, &cr, &m, &pool.kws, "before a value is altered")?;
        for r in &pool.kws {
            expect_search(c, &w, &fx, &cr, &m, &BTreeSet::from([r.clone()]), "before a value is altered")?;
        }
        if c.chance(1, 4) {
            let new = cr.rotate(c);
            go(&w, world::compact(&fx, &cr, &new, 1.0), "compaction before a value is altered")?;
        }
    }
    w.restore(&s1);
    let place = if in_entry { "entry" } else { "chain line" };
    let what = format!("a {place} of keyword {} is {how}", show(&k));
    c.note(|| what.clone());
    c.label(if in_entry { "tampered entry" } else { "tampered chain line" });
    // Keywords whose search reads it.
    let involved: BTreeSet<Bytes> = names
        .iter()
        .chain(&pool.kws)
        .filter(|r| distances(&m.kws, &BTreeSet::from([(*r).clone()])).contains_key(&k))
        .cloned()
        .collect();
    let mut exact_other = false;
    for r in &pool.kws {
        let ks = BTreeSet::from([r.clone()]);
        let res = go_raw(&w, world::search(&fx, &cr, &ks))?;
        if involved.contains(r) {
            if let Ok(r) = res {
                return Err(format!("{what}: the search of {} returns {}", show_set(&ks), show_res(&r)));
            }
        } else {
            let got = world::err(res, "search of unaffected keywords")?;
            if got != m.search(&ks) {
                return Err(format!("{what}: the search of {} returns {}", show_set(&ks), show_res(&got)));
            }
            exact_other |= !got[r].is_empty();
        }
    }
    {
        let mut ks = pool.some_kws(c);
        ks.insert(k.clone());
        if go_raw(&w, world::search(&fx, &cr, &ks))?.is_ok() {
            return Err(format!("{what}: the search of {} succeeds", show_set(&ks)));
        }
    }
    if w.snapshot() != s1 {
        return Err(format!("{what}: a search changed the tables"));
    }
    if exact_other && m.kws[&k].iter().next().is_some() {
        c.nontrivial();
    }
    // Updates.
    let (add, mut a) = gen_update(c, &pool, &m);
    if c.chance(1, 2) {
        let v = pool.val(c);
        a.entry(v).or_default().insert(k.clone());
    }
    let touches = by_keyword(&a).contains_key(&k);
    let res = go_raw(&w, world::update(&fx, &cr, add, &a))?;
    let mut m2 = m.clone();
    if touches && in_entry {
        c.label("update reading the altered entry");
        if res.is_ok() {
            return Err(format!("{what}: {} {} succeeds", if add { "add" } else { "delete" }, show_assoc(&a)));
        }
        if w.snapshot() != s1 {
            return Err(format!("{what}: a failed update changed the tables"));
        }
    } else {
        world::err(res, "an update that does not read the altered value")?;
        m2.apply(add, &a);
        for r in &pool.kws {
            if distances(&m2.kws, &BTreeSet::from([r.clone()])).contains_key(&k) {
                continue;
            }
            let ks = BTreeSet::from([r.clone()]);
            expect_search(c, &w, &fx, &cr, &m2, &ks, "after an update, with an altered value elsewhere")?;
        }
    }
    // Compaction.
    let s2 = w.snapshot();
    let new = cr.rotate(c);
    let r = *c.pick(&[1.0, 0.5, 0.0]);
    let res = go_raw(&w, world::compact(&fx, &cr, &new, r))?;
    let s3 = w.snapshot();
    if res.is_ok() && (in_entry || r >= 1.0) {
        return Err(format!("{what}: a compaction at rate {r} succeeds"));
    }
    if res.is_err() {
        if s3.0.get(&et_tok) != s2.0.get(&et_tok) {
            return Err(format!("{what}: a failed compaction changed its entry"));
        }
        for t in &chain {
            if s3.1.get(t) != s2.1.get(t) {
                return Err(format!("{what}: a failed compaction changed its chain"));
            }
        }
        if s3.0.contains_key(&refimpl::et_token(&refimpl::et_keys(&new.key), &k, &new.label)) {
            return Err(format!("{what}: a failed compaction wrote a new entry for it"));
        }
    } else if go_raw(&w, world::search(&fx, &new, &BTreeSet::from([k.clone()])))?.is_ok() {
        return Err(format!("{what}: it is not detected any more after a compaction at rate {r}"));
    }
    for x in &pool.kws {
        let want = m2.kws.get(x).cloned().unwrap_or_default();
        if *x == k || want.is_empty() {
            continue;
        }
        let one = [x.clone()];
        let o = direct(&w, &fx, &cr, &one)?;
        let n = direct(&w, &fx, &new, &one)?;
        let ok = o.get(x) == Some(&want) || n.get(x) == Some(&want);
        let wrong = o.get(x).is_some_and(|v| *v != want) || n.get(x).is_some_and(|v| *v != want);
        if !ok || wrong {
            return Err(format!("{what}: after a compaction keyword {} is damaged", show(x)));
        }
    }
    // Back to normal.
    w.restore(&s0);
    expect_direct(&w, &fx, &cr, &m, &pool.kws, "once the altered value is put back")?;
    Ok(())
}

fn c14_every_bit(c: &mut Case) -> Check {
    let w = World::new(false);
    let fx = w.client();
    let cr = Creds { key: [1; 16], label: b"l".to_vec() };
    let mut m = Model::default();
    let k = b"k".to_vec();
    let a: Assoc = (0..7u8).map(|i| (Val::D(vec![i; 16]), BTreeSet::from([k.clone()]))).collect();
    do_update(c, &w, &fx, &cr, &mut m, true, &a, true)?;
    let s0 = w.snapshot();
    let ks = BTreeSet::from([k]);
    let tampered: Vec<(Tbl, Tok, usize)> = s0
        .0
        .keys()
        .map(|t| (Tbl::Et, *t, 12 + ENTRY_LENGTH + 16))
        .chain(s0.1.keys().map(|t| (Tbl::Ct, *t, 12 + LINK_LENGTH + 16)))
        .collect();
    for (tbl, t, len) in tampered {
        for byte in [0, 1, 9, b' ', b'0', 0x7f, 0x80, 0xff] {
            for parts in 1..8 {
                let mut s = s0.clone();
                match tbl {
                    Tbl::Et => s.0.insert(t, mixed(&s0.0[&t], &filled(byte), parts)).map(|_| ()),
                    Tbl::Ct => s.1.insert(t, mixed(&s0.1[&t], &filled(byte), parts)).map(|_| ()),
                };
                w.restore(&s);
                if go_raw(&w, world::search(&fx, &cr, &ks))?.is_ok() {
                    return Err(format!("a {tbl:?} value overwritten by {byte:02x} (parts {parts:03b}) is read by a search"));
                }
                let new = Creds { key: [2; 16], label: b"l".to_vec() };
                if go_raw(&w, world::compact(&fx, &cr, &new, 1.0))?.is_ok() || w.snapshot() != s {
                    return Err(format!("a {tbl:?} value overwritten by {byte:02x} (parts {parts:03b}) is read by a compaction"));
                }
                if tbl == Tbl::Et && (go_raw(&w, world::update(&fx, &cr, true, &a))?.is_ok() || w.snapshot() != s) {
                    return Err(format!("an entry overwritten by {byte:02x} (parts {parts:03b}) is read by an update"));
                }
            }
        }
        for bit in 0..len * 8 {
            let mut s = s0.clone();
            match tbl {
                Tbl::Et => s.0.insert(t, altered(&s0.0[&t], &[bit])).map(|_| ()),
                Tbl::Ct => s.1.insert(t, altered(&s0.1[&t], &[bit])).map(|_| ()),
            };
            if bit % 4 == 1 {
                w.restore(&s0);
                expect_search(c, &w, &fx, &cr, &m, &ks, "with no value altered")?;
            }
            w.restore(&s);
            if go_raw(&w, world::search(&fx, &cr, &ks))?.is_ok() {
                return Err(format!("flipping bit {bit} of a {tbl:?} value is not detected by a search"));
            }
            if tbl == Tbl::Et && bit % 8 == 0 {
                let add = bit % 16 == 0;
                if go_raw(&w, world::update(&fx, &cr, add, &a))?.is_ok() || w.snapshot() != s {
                    return Err(format!("flipping bit {bit} of an entry is not detected by an update"));
                }
            }
            if bit % 8 == 3 {
                let new = Creds { key: [2; 16], label: b"l".to_vec() };
                if go_raw(&w, world::compact(&fx, &cr, &new, 1.0))?.is_ok() || w.snapshot() != s {
                    return Err(format!("flipping bit {bit} of a {tbl:?} value is not detected by a compaction"));
                }
            }
        }
    }
    c.nontrivial();
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    level: "exploration",
    rule: "a history of 2-10 updates and compactions by 1-3 clients is run twice over, in two indexes, with the same contents and either the same or different credentials; every value written to the tables is recorded. No nonce, no encrypted value and no chain token may occur twice over the whole run, no written byte string may contain 8 consecutive bytes of a keyword, data, label, key, keyword hash, chain seed or (inside values) chain token, no byte of the nonces may be constant over 40 values, chain seeds are all distinct, entry tokens are shared exactly when key, label and keyword are; keys and labels generated by several instances are all distinct, 16 and 32 bytes long, with no constant byte. Non-trivial: at least 20 values written and one keyword written several times",
    quick: 36_000,
    thorough: 3_000_000,
    run: c15,
    scenarios: &[
        ("a few thousand writes", c15_many),
        ("hundreds of thousands of nonces, seeds, keys, labels and instances", c15_entropy),
    ],
    budget: 256 * MB,
    assumptions: &["the random source behind the library is replaced by a seeded one (the getrandom system call is intercepted), which is assumed to give the library what the system would: distinct unpredictable bytes"],
    stack: 2 << 20,
};

#[derive(Default)]
struct Seen {
    nonces: HashSet<Vec<u8>>,
    values: HashSet<Vec<u8>>,
    ct_tokens: HashSet<Tok>,
    /// Nonces in writing order, to look for constant bytes.
    all_nonces: Vec<Vec<u8>>,
    secrets: HashMap<[u8; 8], std::rc::Rc<str>>,
}

impl Seen {
    fn secret(&mut self, what: &str, b: &[u8]) {
        let name: std::rc::Rc<str> = format!("{what} {}", show(b)).into();
        for wdw in b.windows(8) {
            self.secrets.entry(wdw.try_into().unwrap()).or_insert_with(|| name.clone());
        }
    }

    fn absorb(&mut self, log: &[Call]) -> Check {
        for call in log {
            for (t, v) in &call.written {
                let nonce = v[..12].to_vec();
                if !self.nonces.insert(nonce.clone()) {
                    return Err(format!("nonce {} is used twice", show(&nonce)));
                }
                self.all_nonces.push(nonce);
                if !self.values.insert(v.clone()) {
                    return Err("the same encrypted value is written twice".into());
                }
                if call.table == Tbl::Ct && !self.ct_tokens.insert(*t) {
                    return Err(format!("chain token {} is used twice", show(t)));
                }
                for (place, b) in [("token", &t[..]), ("value", &v[..])] {
                    for wdw in b.windows(8) {
                        let w8: [u8; 8] = wdw.try_into().unwrap();
                        if let Some(s) = self.secrets.get(&w8) {
                            return Err(format!("a {place} written to the {:?} table contains bytes of the {s}", call.table));
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn finish(&self) -> Check {
        if self.all_nonces.len() >= 40 {
            constant_byte(&self.all_nonces, "nonces")?;
        }
        Ok(())
    }
}

fn constant_byte(all: &[Vec<u8>], what: &str) -> Check {
    for i in 0..all[0].len() {
        if all.iter().all(|n| n[i] == all[0][i]) {
            return Err(format!("byte {i} of {} {what} is always {:#04x}", all.len(), all[0][i]));
        }
    }
    Ok(())
}

fn c15(c: &mut Case) -> Check {
    let pool = Pool::new(c, 5, 5);
    let cr0 = Creds::new(c);
    let same = c.chance(1, 2);
    let cr1 = if same { cr0.clone() } else { cr0.rotate(c) };
    let worlds = [World::draw(c), World::new(false)];
    for w in &worlds {
        w.ctl.logging.set(true);
        w.ctl.keep_values.set(true);
    }
    let mut seen = Seen::default();
    for k in &pool.kws {
        seen.secret("keyword", k);
        seen.secret("hash of keyword", &refimpl::hash(k));
    }
    for d in &pool.data {
        seen.secret("data", d);
    }
    let n_clients = c.range(1, 3) as usize;
    let clients: Vec<Vec<Fx>> =
        worlds.iter().map(|w| (0..n_clients).map(|_| w.client()).collect()).collect();
    let mut creds = [cr0, cr1];
    let mut m = Model::default();
    let n = c.range(2, 10);
    let mut repeated = false;
    for step in 0..n {
        for cr in &creds {
            seen.secret("label", &cr.label);
            seen.secret("key", &cr.key);
            let k = refimpl::et_keys(&cr.key);
            seen.secret("token key", &k.mac);
            seen.secret("encryption key", &k.dem);
        }
        let j = c.idx(n_clients);
        if c.chance(1, 5) {
            let r = rate(c);
            let mut new = creds.clone();
            for cr in &mut new {
                // Never back to credentials used before.
                cr.label = format!("step {step} {}", show(&cr.label)).into_bytes();
                if c.chance(1, 2) {
                    cr.key = crate::gen::key(c);
                }
            }
            if same {
                new[1] = new[0].clone();
            }
            for i in 0..2 {
                seen.secret("label", &new[i].label);
                go(&worlds[i], world::compact(&clients[i][j], &creds[i], &new[i], r), "compact")?;
            }
            creds = new;
            c.note(|| format!("compact both indexes at rate {r}"));
        } else {
            let (add, a) = gen_update(c, &pool, &m);
            repeated |= by_keyword(&a).keys().any(|k| m.kws.contains_key(k));
            for i in 0..2 {
                go(&worlds[i], world::update(&clients[i][j], &creds[i], add, &a), "update")?;
            }
            c.note(|| format!("{} {} in both indexes", if add { "add" } else { "delete" }, show_assoc(&a)));
            m.apply(add, &a);
        }
        // Secrets created by the library.
        let mut seeds: Vec<[u8; 16]> = Vec::new();
        for (w, cr) in worlds.iter().zip(&creds) {
            let (et, _) = w.snapshot();
            let k = refimpl::et_keys(&cr.key);
            for v in et.values() {
                let e = refimpl::parse_entry(&refimpl::open(&k, v).ok_or("an entry cannot be decrypted")?);
                seeds.push(e.seed);
                seen.secret("chain seed", &e.seed);
                let b = value_bytes(v);
                if b.windows(8).any(|x| e.last.windows(8).any(|y| x == y)) {
                    return Err("an entry shows the token of its last chain line".into());
                }
            }
        }
        let distinct: BTreeSet<_> = seeds.iter().collect();
        if distinct.len() != seeds.len() {
            return Err("two chains share their seed".into());
        }
        for w in &worlds {
            let log = w.ctl.take_log();
            seen.absorb(&log)?;
        }
        // Deterministic tokens: shared exactly when the credentials are.
        let a: BTreeSet<Tok> = worlds[0].et.snapshot().into_keys().collect();
        let b: BTreeSet<Tok> = worlds[1].et.snapshot().into_keys().collect();
        let shared = a.intersection(&b).count();
        if creds[0] != creds[1] && shared > 0 {
            return Err(format!("indexes under different key or label share {shared} entry tokens"));
        }
    }
    seen.finish()?;
    if seen.values.len() >= 20 && repeated {
        c.nontrivial();
    }
    // Generated keys and labels.
    let mut rng = CsRng::from_entropy();
    let mut keys: Vec<Vec<u8>> = Vec::new();
    let mut labels: Vec<Vec<u8>> = Vec::new();
    for i in 0..40 {
        keys.push(clients[i % 2][0].keygen().to_vec());
        let l = Label::random(&mut rng);
        labels.push(l.as_ref().to_vec());
    }
    for (what, len, all) in [("generated keys", 16, &keys), ("generated labels", 32, &labels)] {
        if all.iter().any(|x| x.len() != len) {
            return Err(format!("{what} are not {len} bytes long"));
        }
        if all.iter().collect::<HashSet<_>>().len() != all.len() {
            return Err(format!("{what} repeat"));
        }
        constant_byte(all, what)?;
    }
    Ok(())
}

fn c15_many(c: &mut Case) -> Check {
    let w = World::new(false);
    w.ctl.logging.set(true);
    w.ctl.keep_values.set(true);
    let fx = w.client();
    let mut cr = Creds { key: [1; 16], label: b"0".to_vec() };
    let mut seen = Seen::default();
    let rounds = if c.thorough { 400 } else { 40 };
    for r in 0..rounds {
        let a: Assoc = (0..10u32)
            .map(|i| (Val::D(vec![i as u8; 100]), BTreeSet::from([format!("kw{i}").into_bytes()])))
            .collect();
        go(&w, world::update(&fx, &cr, r % 3 != 2, &a), "update")?;
        if r % 4 == 3 {
            let new = Creds { key: cr.key, label: format!("{r}").into_bytes() };
            go(&w, world::compact(&fx, &cr, &new, 0.5), "compact")?;
            cr = new;
        }
        let log = w.ctl.take_log();
        seen.absorb(&log)?;
    }
    seen.finish()?;
    c.count("values written", seen.values.len() as u64);
    c.nontrivial();
    Ok(())
}

/// Draws shortened to 32 bits or less repeat within some hundreds of thousands.
fn c15_entropy(c: &mut Case) -> Check {
    const N: usize = 400_000;
    fn distinct<const L: usize>(what: &str, mut all: Vec<[u8; L]>) -> Check {
        let n = all.len();
        for i in 0..L {
            let mut seen = [false; 256];
            for x in &all {
                seen[x[i] as usize] = true;
            }
            if seen.contains(&false) {
                return Err(format!("byte {i} of {n} {what} takes {} values only", seen.iter().filter(|x| **x).count()));
            }
        }
        all.sort_unstable();
        match all.windows(2).filter(|w| w[0] == w[1]).count() {
            0 => Ok(()),
            k => Err(format!("{k} of {n} {what} repeat")),
        }
    }
    let mut rng = CsRng::seed_from_u64(c.below(u64::MAX));
    let key = cosmian_crypto_core::SymmetricKey::default();
    let mut nonces = Vec::with_capacity(N);
    for _ in 0..N {
        let v = EncryptedValue::<1>::encrypt(&mut rng, &key, [0]).map_err(|e| format!("{e:?}"))?;
        nonces.push(v.nonce.0);
    }
    distinct("nonces", nonces)?;
    let w = World::new(false);
    let fx = w.client();
    let (et, ct) = (&fx.findex_graph.findex_mm.entry_table, &fx.findex_graph.findex_mm.chain_table);
    let bytes = |b: &[u8]| <[u8; 16]>::try_from(b).map_err(|_| "a seed is not 16 bytes long".to_string());
    let mut seeds = Vec::with_capacity(2 * N);
    for _ in 0..N {
        seeds.push(bytes(et.gen_seed(&mut rng).as_ref())?);
        seeds.push(bytes(ct.gen_seed(&mut rng).as_ref())?);
    }
    distinct("seeds", seeds)?;
    let mut keys = Vec::with_capacity(2 * N);
    for _ in 0..N {
        keys.push(bytes(&fx.keygen())?);
    }
    for _ in 0..N / 2 {
        keys.push(bytes(&w.client().keygen())?);
    }
    distinct("keys generated by one instance and by as many instances", keys)?;
    let labels: Result<Vec<[u8; 32]>, _> = (0..N).map(|_| Label::random(&mut rng).as_ref().try_into()).collect();
    distinct("labels", labels.map_err(|_| "a random label is not 32 bytes long".to_string())?)?;
    c.count("draws compared", 4 * N as u64 + N as u64 / 2);
    c.nontrivial();
    Ok(())
}

pub static C20: Prop = Prop {
    id: "C20",
    level: "exploration",
    rule: "2-10 calls (searches of 1-3 keywords with or without an interruption at a drawn level, additions, deletions, compactions) whose every database request is recorded; a search may only fetch, and only entry tokens of keywords reached within the levels it went through and their chain lines (all computed by the reference model and the reference implementation); an addition or deletion may only name the entry tokens of its own keywords and insert chain lines under unused tokens, exactly as many as its values need, never upsert, overwrite or delete a chain line, and from the same state an addition and a deletion of the same associations must send the same requests with the same entry tokens, numbers of tokens and sizes; only compactions list tokens or delete, and only lines stored before. A quarter of the updates is first made to fail at some request, under the same rules. Non-trivial: a search going through at least two levels or an update of both known and new keywords",
    quick: 54_000,
    thorough: 4_500_000,
    run: c20,
    scenarios: &[],
    budget: 128 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

fn logged<T>(w: &World, f: impl FnOnce() -> Result<T, String>) -> Result<(T, Vec<Call>), String> {
    w.ctl.take_log();
    w.ctl.logging.set(true);
    w.ctl.keep_values.set(true);
    let r = f();
    w.ctl.logging.set(false);
    Ok((r?, w.ctl.take_log()))
}

fn c20(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = if c.chance(1, 2) { Pool::new(c, 7, 4) } else { Pool::simple(c, 7, 4) };
    let mut cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    build(c, &w, &fx, &cr, &mut m, &pool, 1, 5)?;
    let n = c.range(2, 10);
    let (mut deep, mut mixed) = (false, false);
    for _ in 0..n {
        let keys = refimpl::et_keys(&cr.key);
        let et_of = |k: &Bytes| refimpl::et_token(&keys, k, &cr.label);
        let before = w.snapshot();
        match c.weighted(&[4, 4, 1]) {
            0 => {
                let ks = pool.some_kws(c);
                let stop = c.chance(1, 2).then(|| c.idx(3));
                let calls = std::cell::Cell::new(0usize);
                let (_, log) = logged(&w, || {
                    go(
                        &w,
                        async {
                            fx.search(&cr.user_key(), &cr.lab(), world::kw_set(&ks), &|_| {
                                let i = calls.get();
                                calls.set(i + 1);
                                async move { Ok(stop == Some(i)) }
                            })
                            .await
                        },
                        "search",
                    )
                })?;
                let dist = distances(&m.kws, &ks);
                let levels = calls.get();
                // Keywords that may be looked at: roots and children of the
                // keywords of the levels gone through.
                let mut allowed: BTreeSet<Bytes> = ks.clone();
                for (k, d) in &dist {
                    if stop.map_or(true, |s| *d < s) {
                        for v in &m.kws[k] {
                            if let Val::P(p) = v {
                                allowed.insert(p.clone());
                            }
                        }
                    }
                }
                let et_ok: BTreeSet<Tok> = allowed.iter().map(et_of).collect();
                let mut ct_ok: BTreeSet<Tok> = BTreeSet::new();
                for k in &allowed {
                    if let Some((_, toks, _)) = refimpl::read_keyword(&before.0, &before.1, &cr.key, &cr.label, k)? {
                        ct_ok.extend(toks);
                    }
                }
                for call in &log {
                    if call.kind != Kind::Fetch {
                        return Err(format!("a search sends a {:?} request to the {:?} table", call.kind, call.table));
                    }
                    let ok = if call.table == Tbl::Et { &et_ok } else { &ct_ok };
                    if let Some(t) = call.tokens.iter().find(|t| !ok.contains(*t)) {
                        return Err(format!(
                            "the search of {} (stopped at {stop:?}) asks the {:?} table for token {} it does not need",
                            show_set(&ks), call.table, show(t)
                        ));
                    }
                }
                if w.snapshot() != before {
                    return Err("a search changed the tables".into());
                }
                if levels >= 2 {
                    deep = true;
                    c.label("search through several levels");
                }
                if stop.is_some_and(|s| levels == s + 1) {
                    c.label("interrupted search");
                }
                c.note(|| format!("search {} stopped at {stop:?}: {} requests", show_set(&ks), log.len()));
            }
            1 => {
                let (add, a) = gen_update(c, &pool, &m);
                let per_kw = by_keyword(&a);
                let own: BTreeSet<Tok> = per_kw.keys().map(et_of).collect();
                let known = per_kw.keys().filter(|k| m.kws.contains_key(*k)).count();
                mixed |= known > 0 && known < per_kw.len();
                let run = |add: bool| {
                    w.restore(&before);
                    logged(&w, || go(&w, world::update(&fx, &cr, add, &a), "update"))
                };
                // The update may fail at some request: what it sent until then
                // is under the same rules.
                if c.chance(1, 4) {
                    let fault = (c.below(6), FAULTS[c.idx(4)]);
                    w.restore(&before);
                    let (fired, log) = logged(&w, || {
                        w.ctl.arm(&[fault]);
                        w.ctl.set_budget(CALL_BUDGET);
                        let _ = crate::db::block_on(&w.ctl, world::update(&fx, &cr, add, &a));
                        let fired = w.ctl.fired();
                        w.ctl.disarm();
                        Ok(fired)
                    })?;
                    if fired > 0 {
                        c.label("failed update");
                    }
                    for call in &log {
                        let bad = match (call.table, call.kind) {
                            (_, Kind::Dump | Kind::Delete) | (Tbl::Ct, Kind::Upsert) => true,
                            (Tbl::Et, _) => !call.tokens.is_subset(&own) || !call.old.is_subset(&own),
                            (Tbl::Ct, Kind::Insert) => call.tokens.iter().any(|t| before.1.contains_key(t)),
                            (Tbl::Ct, Kind::Fetch) => false,
                        };
                        if bad {
                            return Err(format!(
                                "an update of {} failing with {fault:?} sends a {:?} request to the {:?} table touching lines it has no use for",
                                show_assoc(&a), call.kind, call.table
                            ));
                        }
                    }
                    let now = w.snapshot();
                    if before.1.iter().any(|(t, v)| now.1.get(t) != Some(v)) {
                        return Err("a failed update changed or removed a chain line".into());
                    }
                    if before.0.iter().any(|(t, v)| !now.0.contains_key(t) || (now.0[t] != *v && !own.contains(t))) {
                        return Err("a failed update removed an entry or changed the one of another keyword".into());
                    }
                    w.restore(&before);
                }
                // The other operation first, then the real one.
                let (_, other) = run(!add)?;
                let (_, log) = run(add)?;
                let mut own_lines: BTreeSet<Tok> = BTreeSet::new();
                for k in per_kw.keys() {
                    if let Some((_, toks, _)) = refimpl::read_keyword(&before.0, &before.1, &cr.key, &cr.label, k)? {
                        own_lines.extend(toks);
                    }
                }
                let name = if add { "an addition" } else { "a deletion" };
                let mut inserted = 0;
                for call in &log {
                    let bad = match (call.table, call.kind) {
                        (_, Kind::Dump | Kind::Delete) | (Tbl::Ct, Kind::Upsert) => true,
                        (Tbl::Et, _) => {
                            !call.tokens.is_subset(&own) || !call.old.is_subset(&own)
                        }
                        (Tbl::Ct, Kind::Insert) => {
                            inserted += call.tokens.len();
                            call.tokens.iter().any(|t| before.1.contains_key(t))
                        }
                        (Tbl::Ct, Kind::Fetch) => !call.tokens.is_subset(&own_lines),
                    };
                    if bad {
                        return Err(format!(
                            "{name} of {} sends a {:?} request to the {:?} table touching lines it has no use for",
                            show_assoc(&a), call.kind, call.table
                        ));
                    }
                }
                let need: usize = per_kw.values().map(|v| crate::model::lines(v.iter())).sum();
                if inserted != need {
                    return Err(format!("{name} of {} inserts {inserted} chain lines instead of {need}", show_assoc(&a)));
                }
                let after = w.snapshot();
                for (t, v) in &before.1 {
                    if after.1.get(t) != Some(v) {
                        return Err(format!("{name} changed or removed a chain line"));
                    }
                }
                for (t, v) in &before.0 {
                    match after.0.get(t) {
                        None => return Err(format!("{name} removed an entry")),
                        Some(x) if x != v && !own.contains(t) => {
                            return Err(format!("{name} changed the entry of another keyword"))
                        }
                        _ => {}
                    }
                }
                let shape = |log: &[Call]| {
                    log.iter()
                        .map(|x| {
                            (
                                x.table,
                                x.kind,
                                if x.table == Tbl::Et { x.tokens.clone() } else { BTreeSet::new() },
                                x.tokens.len(),
                                x.old.len(),
                                x.returned,
                                x.written.iter().map(|(_, v)| v.len()).sum::<usize>(),
                            )
                        })
                        .collect::<Vec<_>>()
                };
                if shape(&log) != shape(&other) {
                    return Err(format!(
                        "an addition and a deletion of {} can be told apart from the requests: {:?} and {:?}",
                        show_assoc(&a),
                        shape(&log).iter().map(|s| (s.0, s.1, s.3, s.4, s.5, s.6)).collect::<Vec<_>>(),
                        shape(&other).iter().map(|s| (s.0, s.1, s.3, s.4, s.5, s.6)).collect::<Vec<_>>()
                    ));
                }
                m.apply(add, &a);
                c.note(|| format!("{name} of {}: {} requests", show_assoc(&a), log.len()));
            }
            _ => {
                let new = cr.rotate(c);
                let r = rate(c);
                let (_, log) = logged(&w, || go(&w, world::compact(&fx, &cr, &new, r), "compact"))?;
                for call in log.iter().filter(|x| x.kind == Kind::Delete) {
                    let stored: BTreeSet<Tok> = if call.table == Tbl::Et {
                        before.0.keys().copied().collect()
                    } else {
                        before.1.keys().copied().collect()
                    };
                    let foreign = call.tokens.iter().filter(|t| !stored.contains(*t)).count();
                    // Tokens of lines lost by an interrupted update may be
                    // deleted too, but there are none here.
                    if foreign > 0 {
                        return Err(format!("a compaction deletes {foreign} tokens that were not stored"));
                    }
                }
                // Emptied keywords may be dropped.
                let k2 = refimpl::et_keys(&new.key);
                let left = w.et.snapshot();
                m.kws.retain(|k, _| left.contains_key(&refimpl::et_token(&k2, k, &new.label)));
                cr = new;
            }
        }
    }
    if deep || mixed {
        c.nontrivial();
    }
    Ok(())
}

pub static C21: Prop = Prop {
    id: "C21",
    level: "exploration",
    rule: "an index of 1-6 keywords whose database returns, for 1-3 entry tokens, several values: entries with their own chain written by the reference implementation (other additions, deletions, pointers) or the same value twice, in addition to or in place of the stored one; searches must return the union of what each entry indexes, following all pointers; additions, deletions and (in single-batch indexes) compactions involving such a keyword must fail and change nothing, while updates of other keywords are exact. Non-trivial: the several values of a searched keyword index different associations",
    quick: 72_000,
    thorough: 6_000_000,
    run: c21,
    scenarios: &[],
    budget: 128 * MB,
    assumptions: &[],
    stack: 2 << 20,
};

fn c21(c: &mut Case) -> Check {
    let w = World::draw(c);
    let single_batch = c.chance(1, 2);
    let pool = if c.chance(1, 2) {
        Pool::new(c, if single_batch { 4 } else { 6 }, 5)
    } else {
        Pool::simple(c, if single_batch { 4 } else { 6 }, 5)
    };
    let cr = Creds::new(c);
    let fx = w.client();
    let mut m = Model::default();
    build(c, &w, &fx, &cr, &mut m, &pool, 1, 5)?;
    let keys = refimpl::et_keys(&cr.key);
    let mut rnd = Nonces(c.below(1 << 32));
    let (et, mut ct) = w.snapshot();
    let mut union = m.clone();
    let mut several: BTreeSet<Bytes> = BTreeSet::new();
    let n = c.range(1, 3);
    let mut differ = false;
    let mut extra: BTreeMap<Tok, Vec<EncryptedValue<ENTRY_LENGTH>>> = BTreeMap::new();
    for _ in 0..n {
        let k = c.pick(&pool.kws).clone();
        let t = refimpl::et_token(&keys, &k, &cr.label);
        if extra.contains_key(&t) {
            continue;
        }
        let stored = et.get(&t);
        let mut vals = Vec::new();
        let cnt = c.range(if stored.is_some() { 1 } else { 2 }, 3);
        for _ in 0..cnt {
            if let (Some(v), true) = (stored, c.chance(1, 5)) {
                vals.push(v.clone());
                c.label("same value returned twice");
                continue;
            }
            let mut et2 = world::EtMap::new();
            let groups = c.range(1, 2);
            let mut got: BTreeSet<Val> = BTreeSet::new();
            for _ in 0..groups {
                let mut mods = Vec::new();
                for _ in 0..c.range(1, 3) {
                    let v = pool.val(c);
                    let add = c.chance(3, 4);
                    if add {
                        got.insert(v.clone());
                    } else {
                        got.remove(&v);
                    }
                    mods.push((add, super::storage::ser(&v)));
                }
                refimpl::write_keyword(&mut et2, &mut ct, &cr.key, &cr.label, &k, &mods, false, &mut rnd);
            }
            let have = union.kws.entry(k.clone()).or_default();
            differ |= !have.is_empty() && got.iter().any(|v| !have.contains(v));
            have.extend(got);
            vals.push(et2.remove(&t).ok_or("entry")?);
        }
        several.insert(k.clone());
        extra.insert(t, vals);
    }
    w.restore(&(et.clone(), ct.clone()));
    *w.et.extra.borrow_mut() = extra;
    c.note(|| format!("several values for {}; union: {}", show_set(&several), show_direct(&union.kws)));
    let s0 = w.snapshot();
    // Searches.
    for k in &pool.kws {
        let ks = BTreeSet::from([k.clone()]);
        expect_search(c, &w, &fx, &cr, &union, &ks, "with several values for an entry")?;
    }
    expect_search(c, &w, &fx, &cr, &union, &pool.kws.iter().cloned().collect(), "with several values for an entry")?;
    expect_direct(&w, &fx, &cr, &union, &pool.kws, "with several values for an entry")?;
    if differ {
        c.nontrivial();
    }
    if w.snapshot() != s0 {
        return Err("a search changed the tables".into());
    }
    // Updates.
    for _ in 0..2 {
        let (add, mut a) = gen_update(c, &pool, &m);
        if c.chance(1, 2) {
            let v = pool.val(c);
            let names: Vec<Bytes> = several.iter().cloned().collect();
            let k = c.pick(&names).clone();
            a.entry(v).or_default().insert(k);
        }
        let involved = by_keyword(&a).keys().any(|k| several.contains(k));
        let before = w.snapshot();
        let res = go_raw(&w, world::update(&fx, &cr, add, &a))?;
        c.note(|| format!("{} {} -> {res:?}", if add { "add" } else { "delete" }, show_assoc(&a)));
        if involved {
            c.label("update refused");
            if let Ok(r) = res {
                return Err(format!("an update of a keyword with several entries is accepted and reports {}", show_set(&r)));
            }
            if w.snapshot() != before {
                return Err("a refused update changed the tables".into());
            }
        } else {
            world::err(res, "update of other keywords")?;
            m.apply(add, &a);
            union.apply(add, &a);
            expect_direct(&w, &fx, &cr, &union, &pool.kws, "after the update of other keywords")?;
        }
    }
    // Compaction: in a single batch, with several values for a listed token.
    let listed = w.et.snapshot();
    let hit = several.iter().any(|k| listed.contains_key(&refimpl::et_token(&keys, k, &cr.label)));
    if hit && listed.len() <= 4 {
        let before = w.snapshot();
        let new = cr.rotate(c);
        let r = rate(c);
        if go_raw(&w, world::compact(&fx, &cr, &new, r))?.is_ok() {
            return Err(format!("a compaction at rate {r} with several values for an entry is accepted"));
        }
        c.label("compaction refused");
        if w.snapshot() != before {
            return Err("a refused compaction changed the tables".into());
        }
        expect_direct(&w, &fx, &cr, &union, &pool.kws, "after a refused compaction")?;
    }
    let _ = tok;
    Ok(())
}

pub static C24: Prop = Prop {
    id: "C24",
    level: "exploration",
    rule: "a history of 2-10 calls is run twice, on two indexes: the second time every keyword, data, label and key is replaced by another one (an injective renaming that keeps lengths), and in write-only histories (half of the cases) additions and deletions, data and keyword links are also exchanged at will. The requests of each call must be the same in both runs: kinds, numbers of tokens of each, lines returned, sizes written, and which earlier requests each token appeared in (the requests of one kind made by a call are taken together). Compactions run in a single batch at rate 0 or 1. Non-trivial: at least three updates, one of an already indexed keyword",
    quick: 36_000,
    thorough: 3_000_000,
    run: c24,
    scenarios: &[],
    budget: 256 * MB,
    assumptions: &["indistinguishability is judged on the requests (kinds, recurrence of tokens, counts, sizes), not on timing nor on the strength of the ciphertexts (C15)"],
    stack: 2 << 20,
};

/// What the database can tell of one call of the history: its requests, each
/// token being known by the earlier requests that named it.
#[derive(Default)]
struct Observer {
    met: HashMap<(Tbl, Tok), Vec<(usize, Kind)>>,
}

/// The requests of one kind made to a table by a call: numbers of tokens of
/// each, then, all together (a large request may be cut anywhere, at random),
/// the histories of their tokens, the lines returned and the sizes written.
#[derive(Default, PartialEq)]
struct Requests {
    counts: Vec<usize>,
    tokens: Vec<Vec<(usize, Kind)>>,
    old: Vec<Vec<(usize, Kind)>>,
    returned: usize,
    sizes: Vec<usize>,
}

type View = BTreeMap<(Tbl, Kind), Requests>;

impl Observer {
    fn look(&mut self, step: usize, log: &[Call]) -> View {
        let mut view = View::new();
        for call in log {
            let known = |set: &BTreeSet<Tok>| -> Vec<_> {
                set.iter().map(|t| self.met.get(&(call.table, *t)).cloned().unwrap_or_default()).collect()
            };
            let seen = view.entry((call.table, call.kind)).or_default();
            seen.counts.push(call.tokens.len());
            seen.tokens.extend(known(&call.tokens));
            seen.old.extend(known(&call.old));
            seen.returned += call.returned;
            seen.sizes.extend(call.written.iter().map(|(_, v)| v.len()));
        }
        for seen in view.values_mut() {
            seen.counts.sort_unstable();
            seen.tokens.sort();
            seen.old.sort();
            seen.sizes.sort_unstable();
        }
        for call in log {
            for t in &call.tokens {
                self.met.entry((call.table, *t)).or_default().push((step, call.kind));
            }
        }
        for h in self.met.values_mut() {
            h.sort();
        }
        view
    }
}

/// Another string of the same length, never given twice.
struct Renaming {
    map: HashMap<Bytes, Bytes>,
    given: HashSet<Bytes>,
    state: u64,
}

impl Renaming {
    fn of(&mut self, b: &Bytes) -> Bytes {
        if let Some(x) = self.map.get(b) {
            return x.clone();
        }
        let mut x: Bytes = b
            .iter()
            .map(|_| {
                self.state = crate::rt::splitmix(self.state);
                self.state as u8
            })
            .collect();
        while self.given.contains(&x) {
            // The next one, as a little-endian counter.
            for d in &mut x {
                *d = d.wrapping_add(1);
                if *d != 0 {
                    break;
                }
            }
        }
        self.given.insert(x.clone());
        self.map.insert(b.clone(), x.clone());
        x
    }
}

fn c24(c: &mut Case) -> Check {
    let mem = c.chance(1, 2);
    let worlds = [World::new(mem), World::new(mem)];
    let clients: Vec<Fx> = worlds.iter().map(World::client).collect();
    // At most four keywords: a compaction is a single batch.
    let pool = Pool::new(c, 4, 5);
    let mut creds = [Creds::new(c), Creds::new(c)];
    creds[1].key[0] ^= u8::from(creds[0].key == creds[1].key);
    let mut names = Renaming { map: HashMap::new(), given: HashSet::new(), state: c.below(1 << 32) };
    let write_only = c.chance(1, 2);
    let mut observers = [Observer::default(), Observer::default()];
    let mut m = Model::default();
    let (mut updates, mut again) = (0, false);
    let n = c.range(2, 10);
    for step in 0..n as usize {
        let mut logs = Vec::new();
        let what;
        match if write_only { 0 } else { c.weighted(&[5, 3, 2]) } {
            0 => {
                let (add, a) = gen_update(c, &pool, &m);
                let (flip, swap) = (write_only && c.chance(1, 2), write_only && c.chance(1, 2));
                let mut b = Assoc::new();
                for (v, ks) in &a {
                    let x = match v {
                        Val::D(s) if swap => Val::P(names.of(s)),
                        Val::P(s) if swap => Val::D(names.of(s)),
                        Val::D(s) => Val::D(names.of(s)),
                        Val::P(s) => Val::P(names.of(s)),
                    };
                    b.entry(x).or_default().extend(ks.iter().map(|k| names.of(k)));
                }
                what = format!(
                    "{} {} / {} {}",
                    if add { "add" } else { "delete" },
                    show_assoc(&a),
                    if add ^ flip { "add" } else { "delete" },
                    show_assoc(&b)
                );
                updates += 1;
                again |= by_keyword(&a).keys().any(|k| m.kws.contains_key(k));
                m.apply(add, &a);
                for (i, (add, x)) in [(add, &a), (add ^ flip, &b)].into_iter().enumerate() {
                    let (_, log) = logged(&worlds[i], || {
                        go(&worlds[i], world::update(&clients[i], &creds[i], add, x), "update")
                    })?;
                    logs.push(log);
                }
            }
            1 => {
                let ks = pool.some_kws(c);
                let renamed: BTreeSet<Bytes> = ks.iter().map(|k| names.of(k)).collect();
                what = format!("search {} / {}", show_set(&ks), show_set(&renamed));
                for (i, ks) in [&ks, &renamed].into_iter().enumerate() {
                    let (_, log) = logged(&worlds[i], || {
                        go(&worlds[i], world::search(&clients[i], &creds[i], ks), "search")
                    })?;
                    logs.push(log);
                }
            }
            _ => {
                let r = *c.pick(&[1.0, 0.0]);
                what = format!("compact at rate {r}");
                for i in 0..2 {
                    let mut new = creds[i].clone();
                    new.label = format!("step {step} of {i}").into_bytes();
                    if c.chance(1, 2) {
                        new.key = crate::gen::key(c);
                    }
                    let (_, log) = logged(&worlds[i], || {
                        go(&worlds[i], world::compact(&clients[i], &creds[i], &new, r), "compact")
                    })?;
                    logs.push(log);
                    creds[i] = new;
                }
                if r >= 1.0 {
                    m.compact(|_| true);
                }
            }
        }
        c.note(|| what.clone());
        let a = observers[0].look(step, &logs[0]);
        let b = observers[1].look(step, &logs[1]);
        if a != b {
            let brief = |v: &View| {
                v.iter()
                    .map(|((t, k), x)| {
                        format!(
                            "{k:?} {t:?} of {:?} tokens, {} returned, {} bytes",
                            x.counts,
                            x.returned,
                            x.sizes.iter().sum::<usize>()
                        )
                    })
                    .collect::<Vec<_>>()
                    .join("; ")
            };
            return Err(format!(
                "step {step} ({what}): histories of the same shape are told apart by the requests: [{}] and [{}]",
                brief(&a),
                brief(&b)
            ));
        }
    }
    if updates >= 3 && again {
        c.nontrivial();
    }
    Ok(())
}
