//! The layers below the index: C31 (ordered modifications of the multi-map and
//! graph layers), C32 (compaction run step by step). Built with the feature
//! `layers` only: these layers are not part of the exported interface.

use super::*;
use crate::db::{tok, Kind, Tok};
use crate::engine::MB;
use crate::gen;
use crate::refimpl;
use cosmian_crypto_core::{reexport::rand_core::SeedableRng, CsRng};
use cosmian_findex::{Data, DxEnc, GxEnc, IndexedValue, Keyword, MmEnc, Operation, Token};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::{Arc, Mutex};

pub static C31: Prop = Prop {
    id: "C31",
    level: "exploration",
    rule: "stateful: 3-14 insertions, each by a drawn layer (multi-map, graph, index) and a drawn client, of ordered lists of 1-9 additions and deletions per tag drawn from few values so that the same value comes back several times in a list, some lists being repeated as a whole, over 1-6 tags whose type (bytes, boxed bytes, Keyword) is drawn; half of the cases use the multi-map layer alone with items that follow no format. Oracle: a map from tags to sets on which the lists are applied in order; new tags, the number of lines (the documented packing of the list), what each layer reads, the rounds of the graph layer and walks from a drawn set of visited tags are compared. Non-trivial: a list adds and deletes the same value",
    quick: 60_000,
    thorough: 4_000_000,
    run: c31,
    scenarios: &[("every short list over two values", c31_every), ("long lists", c31_long)],
    budget: 96 * MB,
    assumptions: &["items are at least one byte long, as those of the index are: padding reads as the deletion of the empty item"],
    stack: 2 << 20,
};

type Tags = BTreeMap<Bytes, BTreeSet<Bytes>>;
type Mods = BTreeMap<Bytes, Vec<(bool, Bytes)>>;
type Rng = Arc<Mutex<CsRng>>;

fn rng() -> Rng {
    Arc::new(Mutex::new(CsRng::from_entropy()))
}

fn op(add: bool) -> Operation {
    if add {
        Operation::Addition
    } else {
        Operation::Deletion
    }
}

fn seed_of(fx: &Fx, cr: &Creds) -> <cosmian_findex::EntryTable<{ cosmian_findex::ENTRY_LENGTH }, crate::db::Db<{ cosmian_findex::ENTRY_LENGTH }>> as DxEnc<{ cosmian_findex::ENTRY_LENGTH }>>::Seed {
    let _ = fx;
    let mut s = <cosmian_findex::EntryTable<{ cosmian_findex::ENTRY_LENGTH }, crate::db::Db<{ cosmian_findex::ENTRY_LENGTH }>> as DxEnc<{ cosmian_findex::ENTRY_LENGTH }>>::Seed::default();
    s.as_mut().copy_from_slice(&cr.key);
    s
}

fn mods_lines(list: &[(bool, Bytes)]) -> usize {
    let blocks: usize = list.iter().map(|(_, b)| b.len() / 16 + 1).sum();
    blocks.div_ceil(5)
}

fn apply(m: &mut Tags, mods: &Mods) -> BTreeSet<Bytes> {
    let mut new = BTreeSet::new();
    for (t, list) in mods {
        if !m.contains_key(t) {
            new.insert(t.clone());
        }
        let e = m.entry(t.clone()).or_default();
        for (add, v) in list {
            if *add {
                e.insert(v.clone());
            } else {
                e.remove(v);
            }
        }
    }
    new
}

fn show_mods(m: &Mods) -> String {
    m.iter()
        .map(|(t, l)| {
            let l: Vec<String> = l.iter().map(|(a, v)| format!("{}{}", if *a { "+" } else { "-" }, show(v))).collect();
            format!("{}:[{}]", show(t), l.join(" "))
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Item of a value, as the graph layer writes it.
fn item(v: &Val) -> Bytes {
    let (p, b) = match v {
        Val::P(b) => (b'w', b),
        Val::D(b) => (b'l', b),
    };
    let mut x = vec![p];
    x.extend(b);
    x
}

fn value(b: &[u8]) -> Val {
    if b[0] == b'w' {
        Val::P(b[1..].to_vec())
    } else {
        Val::D(b[1..].to_vec())
    }
}

trait Tag: Debug + Clone + Hash + Eq + AsRef<[u8]> + From<Vec<u8>> {}
impl<T: Debug + Clone + Hash + Eq + AsRef<[u8]> + From<Vec<u8>>> Tag for T {}

fn mm_insert<T: Tag>(w: &World, fx: &Fx, cr: &Creds, r: &Rng, mods: &Mods) -> Result<BTreeSet<Bytes>, String> {
    let mm = &fx.findex_graph.findex_mm;
    let key = MmEnc::derive_keys(mm, &seed_of(fx, cr));
    let arg: HashMap<T, Vec<(Operation, Vec<u8>)>> = mods
        .iter()
        .map(|(t, l)| (T::from(t.clone()), l.iter().map(|(a, v)| (op(*a), v.clone())).collect()))
        .collect();
    let new = go(w, MmEnc::insert(mm, r.clone(), &key, arg, &cr.lab()), "multi-map insertion")?;
    Ok(new.iter().map(|t| t.as_ref().to_vec()).collect())
}

fn mm_get<T: Tag>(w: &World, fx: &Fx, cr: &Creds, tags: &BTreeSet<Bytes>) -> Result<Tags, String> {
    let mm = &fx.findex_graph.findex_mm;
    let key = MmEnc::derive_keys(mm, &seed_of(fx, cr));
    let arg: HashSet<T> = tags.iter().map(|t| T::from(t.clone())).collect();
    let got = go(w, MmEnc::get(mm, &key, arg, &cr.lab()), "multi-map reading")?;
    Ok(got
        .into_iter()
        .map(|(t, v)| (t.as_ref().to_vec(), v.into_iter().collect::<BTreeSet<_>>()))
        .filter(|(_, v)| !v.is_empty())
        .collect())
}

fn gx_insert<T: Tag>(w: &World, fx: &Fx, cr: &Creds, r: &Rng, mods: &Mods) -> Result<BTreeSet<Bytes>, String> {
    let gx = &fx.findex_graph;
    let key = GxEnc::derive_keys(gx, &seed_of(fx, cr));
    let arg: HashMap<T, Vec<(Operation, IndexedValue<T, Vec<u8>>)>> = mods
        .iter()
        .map(|(t, l)| {
            let l = l
                .iter()
                .map(|(a, v)| {
                    let v = match value(v) {
                        Val::P(p) => IndexedValue::Pointer(T::from(p)),
                        Val::D(d) => IndexedValue::Data(d),
                    };
                    (op(*a), v)
                })
                .collect();
            (T::from(t.clone()), l)
        })
        .collect();
    let new = go(w, GxEnc::insert(gx, r.clone(), &key, arg, &cr.lab()), "graph insertion")?;
    Ok(new.iter().map(|t| t.as_ref().to_vec()).collect())
}

fn gx_check<T: Tag>(c: &mut Case, w: &World, fx: &Fx, cr: &Creds, m: &Tags, pool: &[Bytes], tags: &BTreeSet<Bytes>) -> Check {
    let gx = &fx.findex_graph;
    let key = GxEnc::derive_keys(gx, &seed_of(fx, cr));
    let arg: HashSet<T> = tags.iter().map(|t| T::from(t.clone())).collect();
    let rounds = std::cell::Cell::new(0usize);
    let graph: HashMap<T, HashSet<IndexedValue<T, Vec<u8>>>> = go(
        w,
        GxEnc::get(gx, &key, arg, &cr.lab(), &|_| {
            rounds.set(rounds.get() + 1);
            async { Ok(false) }
        }),
        "graph reading",
    )?;
    let kws: BTreeMap<Bytes, BTreeSet<Val>> =
        m.iter().map(|(t, v)| (t.clone(), v.iter().map(|b| value(b)).collect())).collect();
    let dist = crate::model::distances(&kws, tags);
    let got: Direct = graph
        .iter()
        .map(|(t, v)| {
            let v: BTreeSet<Val> = v
                .iter()
                .map(|x| match x {
                    IndexedValue::Pointer(p) => Val::P(p.as_ref().to_vec()),
                    IndexedValue::Data(d) => Val::D(d.clone()),
                })
                .collect();
            (t.as_ref().to_vec(), v)
        })
        .filter(|(_, v)| !v.is_empty())
        .collect();
    let want: Direct =
        kws.iter().filter(|(t, v)| dist.contains_key(*t) && !v.is_empty()).map(|(t, v)| (t.clone(), v.clone())).collect();
    if got != want {
        return Err(format!(
            "the graph layer reads {} from {} but the modifications imply {}",
            show_direct(&got),
            show_set(tags),
            show_direct(&want)
        ));
    }
    if rounds.get() == 0 && !want.is_empty() {
        return Err("the graph layer does not call the interrupt callback".into());
    }
    // A walk that starts with some tags already visited.
    let from = T::from(c.pick(pool).clone());
    let barred: Vec<T> = c.subset(pool.len(), 1, 4).into_iter().map(|i| T::from(pool[i].clone())).collect();
    let mut visited: HashSet<&T> = barred.iter().collect();
    let got: BTreeSet<Bytes> = gx.walk(&graph, &from, &mut visited).into_iter().collect();
    let open: BTreeMap<Bytes, BTreeSet<Val>> = want
        .iter()
        .filter(|(t, _)| !barred.iter().any(|b| b.as_ref() == t.as_slice()))
        .map(|(t, v)| (t.clone(), v.clone()))
        .collect();
    let reach = crate::model::reach(&open, &from.as_ref().to_vec());
    if got != reach {
        return Err(format!(
            "a walk from {} with {} tags visited gives {} instead of {}",
            show(from.as_ref()),
            barred.len(),
            show_set(&got),
            show_set(&reach)
        ));
    }
    Ok(())
}

fn c31(c: &mut Case) -> Check {
    match c.below(3) {
        0 => layered::<Vec<u8>>(c),
        1 => layered::<Keyword>(c),
        _ => layered::<Box<[u8]>>(c),
    }
}

fn layered<T: Tag>(c: &mut Case) -> Check {
    let w = World::draw(c);
    let cr = Creds::new(c);
    let fxs: Vec<Fx> = (0..2).map(|_| w.client()).collect();
    let r = rng();
    let raw = c.chance(1, 2);
    let nt = c.range(1, 6) as usize;
    let tags = gen::distinct(c, nt, &[]);
    let nv = c.range(1, 6) as usize;
    let items: Vec<Bytes> = gen::distinct(c, nv, &tags)
        .into_iter()
        .map(|b| {
            if raw {
                if b.is_empty() {
                    vec![0]
                } else {
                    b
                }
            } else if c.chance(1, 3) {
                item(&Val::P(c.pick(&tags).clone()))
            } else {
                item(&Val::D(b))
            }
        })
        .collect();
    c.label(if raw { "items without format" } else { "the three layers" });
    let mut m = Tags::new();
    let steps = c.range(3, 14);
    for step in 0..steps {
        let fx = &fxs[c.idx(2)];
        let mut mods = Mods::new();
        for t in 0..tags.len() {
            if c.chance(1, 2) {
                let n = if m.contains_key(&tags[t]) && c.chance(1, 10) { 0 } else { c.range(1, 9) };
                let mut list: Vec<(bool, Bytes)> = (0..n).map(|_| (!c.chance(2, 5), c.pick(&items).clone())).collect();
                if n > 0 && c.chance(1, 5) {
                    // The same modifications again and again: lines may be identical.
                    c.label("repeated modifications");
                    let times = c.range(2, 6) as usize;
                    list = std::iter::repeat_with(|| list.clone()).take(times).flatten().collect();
                }
                if list.iter().any(|(a, v)| *a && list.contains(&(false, v.clone()))) {
                    c.nontrivial();
                }
                mods.insert(tags[t].clone(), list);
            }
        }
        let layer = if raw { 0 } else { c.weighted(&[3, 3, 2]) };
        if layer == 2 {
            // The index gives one operation for all, each value once.
            let add = c.chance(2, 3);
            for l in mods.values_mut() {
                let s: BTreeSet<Bytes> = l.drain(..).map(|(_, v)| v).collect();
                l.extend(s.into_iter().map(|v| (add, v)));
            }
            mods.retain(|_, l| !l.is_empty());
        }
        let lines: usize = mods.values().map(|l| mods_lines(l)).sum();
        let before = w.ct.len();
        c.note(|| format!("{} {}", ["multi-map", "graph", "index"][layer], show_mods(&mods)));
        let got = match layer {
            0 => mm_insert::<T>(&w, fx, &cr, &r, &mods)?,
            1 => gx_insert::<T>(&w, fx, &cr, &r, &mods)?,
            _ => {
                let add = mods.values().flatten().next().is_none_or(|(a, _)| *a);
                let mut a = Assoc::new();
                for (t, l) in &mods {
                    for (_, v) in l {
                        a.entry(value(v)).or_default().insert(t.clone());
                    }
                }
                go(&w, world::update(fx, &cr, add, &a), "update")?
            }
        };
        let want = apply(&mut m, &mods);
        if got != want {
            return Err(format!("step {step}: {} reported as new instead of {}", show_set(&got), show_set(&want)));
        }
        if w.ct.len() != before + lines || w.et.len() != m.len() {
            return Err(format!(
                "step {step}: {} lines written instead of {lines}; {} entries instead of {}",
                w.ct.len() - before,
                w.et.len(),
                m.len()
            ));
        }
        // Read by another layer.
        let fx = &fxs[c.idx(2)];
        let some: BTreeSet<Bytes> = c.subset(tags.len(), 2, 3).into_iter().map(|i| tags[i].clone()).collect();
        match if raw { 0 } else { c.below(3) } {
            0 => mm_check::<T>(&w, fx, &cr, &m, &some, "after a step")?,
            1 => gx_check::<T>(c, &w, fx, &cr, &m, &tags, &some)?,
            _ => ix_check(&w, fx, &cr, &m, &some)?,
        }
    }
    let all: BTreeSet<Bytes> = tags.iter().cloned().collect();
    mm_check::<T>(&w, &fxs[0], &cr, &m, &all, "at the end")?;
    if !raw {
        gx_check::<T>(c, &w, &fxs[1], &cr, &m, &tags, &all)?;
        ix_check(&w, &fxs[0], &cr, &m, &all)?;
    }
    Ok(())
}

fn mm_check<T: Tag>(w: &World, fx: &Fx, cr: &Creds, m: &Tags, some: &BTreeSet<Bytes>, when: &str) -> Check {
    let got = mm_get::<T>(w, fx, cr, some)?;
    let want: Tags = m.iter().filter(|(t, v)| some.contains(*t) && !v.is_empty()).map(|(t, v)| (t.clone(), v.clone())).collect();
    if got != want {
        let s = |m: &Tags| m.iter().map(|(t, v)| format!("{}:{}", show(t), show_set(v))).collect::<Vec<_>>().join(" ");
        return Err(format!("{when} the multi-map holds {} but the modifications imply {}", s(&got), s(&want)));
    }
    Ok(())
}

fn ix_check(w: &World, fx: &Fx, cr: &Creds, m: &Tags, some: &BTreeSet<Bytes>) -> Check {
    let model = Model {
        kws: m.iter().map(|(t, v)| (t.clone(), v.iter().map(|b| value(b)).collect())).collect(),
        ..Model::default()
    };
    let got = go(w, world::search(fx, cr, some), "search")?;
    if got != model.search(some) {
        return Err(format!(
            "the index finds {} but the modifications imply {}",
            show_res(&got),
            show_res(&model.search(some))
        ));
    }
    Ok(())
}

/// All lists of up to 5 operations on two values, in one call or in two.
fn c31_every(c: &mut Case) -> Check {
    for long in [0usize, 16, 79] {
        let vals = [vec![b'l'; 1 + long], { let mut v = vec![b'l'; 1 + long]; v.push(0); v }];
        for n in 1..=5u32 {
            // All the lists of that length as the tags of one index.
            let w = World::new(n % 2 == 0);
            let fx = w.client();
            let cr = Creds { key: [9; 16], label: b"every".to_vec() };
            let r = rng();
            let mut m = Tags::new();
            let lists: Vec<Vec<(bool, Bytes)>> = (0..4usize.pow(n))
                .map(|x| {
                    (0..n)
                        .map(|i| {
                            let d = x >> (2 * i) & 3;
                            (d & 1 == 0, vals[d >> 1].clone())
                        })
                        .collect()
                })
                .collect();
            for cut in [n as usize, n as usize / 2] {
                let mut first = Mods::new();
                let mut second = Mods::new();
                for (i, l) in lists.iter().enumerate() {
                    let t = format!("{cut} {i}").into_bytes();
                    first.insert(t.clone(), l[..cut].to_vec());
                    if cut < l.len() {
                        second.insert(t, l[cut..].to_vec());
                    }
                }
                first.retain(|_, l| !l.is_empty());
                for mods in [first, second] {
                    let new = mm_insert::<Vec<u8>>(&w, &fx, &cr, &r, &mods)?;
                    if new != apply(&mut m, &mods) {
                        return Err("new tags are not those of the modifications".into());
                    }
                }
            }
            let all = m.keys().cloned().collect();
            mm_check::<Vec<u8>>(&w, &fx, &cr, &m, &all, &format!("after all lists of {n} operations"))?;
        }
    }
    c.nontrivial();
    Ok(())
}

/// Lists of thousands of modifications of few values.
fn c31_long(c: &mut Case) -> Check {
    for (n, vals, len) in [(5_000usize, 3usize, 10usize), (3_000, 50, 33), (700, 2, 300)] {
        let w = World::new(len == 33);
        let fx = w.client();
        let cr = Creds { key: [9; 16], label: b"long".to_vec() };
        let r = rng();
        let mut m = Tags::new();
        let mut s = n as u64;
        for round in 0..2 {
            let list: Vec<(bool, Bytes)> = (0..n)
                .map(|_| {
                    s = crate::rt::splitmix(s);
                    let mut v = vec![b'l'; len];
                    v[len - 1] = (s >> 8) as u8 % vals as u8;
                    (s & 1 == 0, v)
                })
                .collect();
            let mods = Mods::from([(b"long".to_vec(), list.clone()), (b"other".to_vec(), list[n / 2..].to_vec())]);
            mm_insert::<Vec<u8>>(&w, &fx, &cr, &r, &mods)?;
            apply(&mut m, &mods);
            let all = m.keys().cloned().collect();
            mm_check::<Vec<u8>>(&w, &fx, &cr, &m, &all, &format!("after {n} modifications, round {round}"))?;
        }
    }
    c.nontrivial();
    Ok(())
}

pub static C32: Prop = Prop {
    id: "C32",
    level: "exploration",
    rule: "an index of 1-10 keywords with deleted, duplicated and emptied associations, then 1-4 rounds of a compaction run by its own steps: the entry tokens are listed, 1-2 disjoint batches are prepared with drawn targets (some outside the batch or unknown), the associations to keep are drawn for each target (all, some, none, others), and the batches are completed in a drawn order under drawn credentials, or abandoned, or first completed with associations of a token they do not hold; updates and searches follow under each pair of credentials. Oracle: one model per pair of credentials with exact numbers of lines; what prepare returns; tables unchanged by prepare and by refused completions. Non-trivial: a completion removed an entry, changed the associations of a target, or left an entry of the batch untouched",
    quick: 45_000,
    thorough: 3_000_000,
    run: c32,
    scenarios: &[("a compaction by batches of every size", c32_sizes), ("tens of thousands of entries", c32_large)],
    budget: 512 * MB,
    assumptions: &["no other client works on the entries of a batch between its preparation and its completion", "the caller gives the associations to keep for each of the targets prepare returned"],
    stack: 2 << 20,
};

type Kept = HashMap<Token, HashSet<IndexedValue<Keyword, Data>>>;

/// Token of each keyword of a part.
fn tokens_of(cr: &Creds, m: &Model) -> BTreeMap<Tok, Bytes> {
    let k = refimpl::et_keys(&cr.key);
    m.kws.keys().map(|kw| (refimpl::et_token(&k, kw, &cr.label), kw.clone())).collect()
}

fn c32_state(w: &World, parts: &[(Creds, Model)], when: &str) -> Check {
    let lines: usize = parts.iter().map(|p| p.1.total_lines()).sum();
    let entries: BTreeSet<Tok> = parts.iter().flat_map(|(cr, m)| tokens_of(cr, m).into_keys()).collect();
    let et: BTreeSet<Tok> = w.et.snapshot().into_keys().collect();
    if et != entries {
        return Err(format!("{when}: {} entries are stored, not the {} expected ones", et.len(), entries.len()));
    }
    if w.ct.len() != lines {
        return Err(format!("{when}: {} lines are stored instead of {lines}", w.ct.len()));
    }
    Ok(())
}

fn c32(c: &mut Case) -> Check {
    let w = World::draw(c);
    let pool = Pool::new(c, 10, 5);
    let mut parts: Vec<(Creds, Model)> = vec![(Creds::new(c), Model::default())];
    let fxs: Vec<Fx> = (0..2).map(|_| w.client()).collect();
    let r = rng();
    {
        let (cr, m) = &mut parts[0];
        build(c, &w, &fxs[0], cr, m, &pool, 2, 8)?;
    }
    let rounds = c.range(1, 4);
    for _ in 0..rounds {
        let fx = &fxs[c.idx(2)];
        let gx = &fx.findex_graph;
        let listed = go(&w, gx.list_indexed_encrypted_tags(), "listing of the entries")?;
        let want: BTreeSet<Tok> = parts.iter().flat_map(|(cr, m)| tokens_of(cr, m).into_keys()).collect();
        let got: BTreeSet<Tok> = listed.iter().map(tok).collect();
        if got != want || got.len() != listed.len() {
            return Err(format!("{} entries are listed instead of {}", listed.len(), want.len()));
        }
        let from = c.idx(parts.len());
        let old = parts[from].0.clone();
        let mut new = old.rotate(c);
        while parts.iter().any(|p| p.0 == new) {
            new.label.push(b'+');
        }
        if c.chance(1, 5) && parts.len() > 1 {
            // Towards credentials already used by other keywords.
            let i = c.idx(parts.len());
            let clash = parts[i].1.kws.keys().any(|k| parts[from].1.kws.contains_key(k));
            if i != from && !clash {
                c.label("towards credentials in use");
                new = parts[i].0.clone();
            }
        }
        let owned = tokens_of(&old, &parts[from].1);
        let all: Vec<Tok> = owned.keys().copied().collect();
        let old_key = GxEnc::derive_keys(gx, &seed_of(fx, &old));
        let new_key = GxEnc::derive_keys(gx, &seed_of(fx, &new));
        // Disjoint batches prepared before any is completed.
        let batches = c.range(1, 2) as usize;
        let mut groups: Vec<BTreeSet<Tok>> = vec![BTreeSet::new(); batches];
        for t in &all {
            match c.idx(batches + 1) {
                0 => {}
                i => {
                    groups[i - 1].insert(*t);
                }
            }
        }
        let mut pending = Vec::new();
        for g in &groups {
            let mut targets: BTreeSet<Tok> = g.iter().filter(|_| c.chance(2, 3)).copied().collect();
            let mut given = targets.clone();
            if c.chance(1, 3) {
                given.extend(all.iter().filter(|t| !g.contains(*t)));
                given.insert([7; 32]);
            }
            let mut asked = g.clone();
            if c.chance(1, 5) {
                // A token without entry.
                asked.insert([7; 32]);
            }
            if c.chance(1, 12) {
                targets.clear();
                given.clear();
            }
            let snap = w.snapshot();
            w.ctl.logging.set(true);
            w.ctl.take_log();
            let (values, data) = go(
                &w,
                gx.prepare_compact::<Keyword, Data>(
                    &old_key,
                    asked.iter().map(|t| Token::from(*t)).collect(),
                    &given.iter().map(|t| Token::from(*t)).collect(),
                ),
                "preparation of a batch",
            )?;
            w.ctl.logging.set(false);
            let log = w.ctl.take_log();
            if log.iter().any(|l| l.kind != Kind::Fetch) || w.snapshot() != snap {
                return Err("preparing a batch changes the tables".into());
            }
            let got: BTreeMap<Tok, BTreeSet<Val>> =
                values.iter().map(|(t, v)| (tok(t), v.iter().map(world::val).collect())).collect();
            let want: BTreeMap<Tok, BTreeSet<Val>> =
                targets.iter().map(|t| (*t, parts[from].1.kws[&owned[t]].clone())).collect();
            if got != want {
                return Err(format!(
                    "preparing {} entries with {} targets gives the associations of {} entries, or not those the history implies",
                    asked.len(),
                    targets.len(),
                    got.len()
                ));
            }
            pending.push((g.clone(), got, data));
        }
        if c.chance(1, 3) {
            pending.reverse();
        }
        for (g, values, data) in pending {
            if c.chance(1, 8) {
                c.label("a prepared batch is abandoned");
                continue;
            }
            let mut kept: BTreeMap<Tok, BTreeSet<Val>> = BTreeMap::new();
            for (t, v) in values {
                let k = match c.weighted(&[3, 3, 2, 2]) {
                    0 => v,
                    1 => v.into_iter().filter(|_| c.chance(1, 2)).collect(),
                    2 => BTreeSet::new(),
                    _ => {
                        let mut v = v;
                        v.insert(pool.val(c));
                        let d = pool.val(c);
                        v.remove(&d);
                        v
                    }
                };
                kept.insert(t, k);
            }
            let mut arg: Kept = kept.iter().map(|(t, v)| (Token::from(*t), v.iter().map(world::iv).collect())).collect();
            if c.chance(1, 8) {
                // An entry the batch does not hold.
                let other = all.iter().find(|t| !g.contains(*t)).copied().unwrap_or([9; 32]);
                arg.insert(Token::from(other), HashSet::from([world::iv(&pool.val(c))]));
                let snap = w.snapshot();
                let res = go_raw(&w, gx.complete_compacting::<Keyword, Data>(r.clone(), &new_key, &new.lab(), arg, data))?;
                if res.is_ok() || w.snapshot() != snap {
                    return Err("associations are given for an entry that is not in the batch: this is accepted, or the tables are changed".into());
                }
                c.label("refused completion");
                continue;
            }
            c.note(|| format!("complete {} entries, {} targets", g.len(), kept.len()));
            go(
                &w,
                gx.complete_compacting::<Keyword, Data>(r.clone(), &new_key, &new.lab(), arg, data),
                "completion of a batch",
            )?;
            let to = match parts.iter().position(|p| p.0 == new) {
                Some(i) => i,
                None => {
                    parts.push((new.clone(), Model::default()));
                    parts.len() - 1
                }
            };
            for t in &g {
                let kw = owned[t].clone();
                let mut v = parts[from].1.kws.remove(&kw).expect("an entry of this part");
                let mut n = parts[from].1.lines.remove(&kw).unwrap_or(0);
                match kept.get(t) {
                    Some(k) => {
                        if *k != v {
                            c.nontrivial();
                        }
                        v = k.clone();
                        n = crate::model::lines(k.iter());
                        if k.is_empty() {
                            c.nontrivial();
                            continue;
                        }
                    }
                    None => c.nontrivial(),
                }
                parts[to].1.kws.insert(kw.clone(), v);
                parts[to].1.lines.insert(kw, n);
            }
            c32_state(&w, &parts, "after a completion")?;
        }
        // Everything is where it should be, and can be used.
        for i in 0..parts.len() {
            let (cr, m) = parts[i].clone();
            expect_direct(&w, fx, &cr, &m, &pool.kws, "after a compaction by steps")?;
        }
        let i = c.idx(parts.len());
        let (cr, m) = &mut parts[i];
        let (add, a) = gen_update(c, &pool, m);
        let cr = cr.clone();
        do_update(c, &w, fx, &cr, m, add, &a, true)?;
        c32_state(&w, &parts, "after an update")?;
    }
    for (cr, m) in &parts {
        expect_all(c, &w, &fxs[0], cr, m, &pool.kws, "at the end")?;
    }
    Ok(())
}

/// An index of 60 keywords compacted by hand in batches of every size.
fn c32_sizes(c: &mut Case) -> Check {
    for size in [1usize, 2, 3, 7, 59, 60, 61, 1000] {
        by_batches(c, 60, size)?;
    }
    c.nontrivial();
    Ok(())
}

/// An index of tens of thousands of keywords, in batches of thousands or all at once.
fn c32_large(c: &mut Case) -> Check {
    let n = c.range(17_000, 20_000) as usize;
    let size = c.range(4_200, 9_000) as usize;
    by_batches(c, n, size)?;
    by_batches(c, n, n)?;
    c.nontrivial();
    Ok(())
}

fn by_batches(c: &mut Case, n: usize, size: usize) -> Check {
    {
        let w = World::new(size % 2 == 0);
        let fx = w.client();
        let gx = &fx.findex_graph;
        let r = rng();
        let cr = Creds { key: [1; 16], label: b"a".to_vec() };
        let new = Creds { key: [2; 16], label: b"b".to_vec() };
        let mut m = Model::default();
        let kws: Vec<Bytes> = (0..n).map(|i| format!("k{i}").into_bytes()).collect();
        for round in 0..3 {
            let a: Assoc = kws
                .iter()
                .enumerate()
                .map(|(i, k)| (Val::D(format!("d{} {}", i % 20, round % 2).into_bytes()), k))
                .fold(Assoc::new(), |mut a, (v, k)| {
                    a.entry(v).or_default().insert(k.clone());
                    a
                });
            do_update(c, &w, &fx, &cr, &mut m, round != 1, &a, false)?;
        }
        let tokens = go(&w, gx.list_indexed_encrypted_tags(), "listing of the entries")?;
        let targets: HashSet<Token> = tokens.iter().copied().collect();
        let old_key = GxEnc::derive_keys(gx, &seed_of(&fx, &cr));
        let new_key = GxEnc::derive_keys(gx, &seed_of(&fx, &new));
        for chunk in tokens.chunks(size) {
            let (v, data) = go(
                &w,
                gx.prepare_compact::<Keyword, Data>(&old_key, chunk.iter().copied().collect(), &targets),
                "preparation of a batch",
            )?;
            go(&w, gx.complete_compacting(r.clone(), &new_key, &new.lab(), v, data), "completion of a batch")?;
        }
        m.compact(|_| true);
        c32_state(&w, &[(new.clone(), m.clone())], &format!("after batches of {size}"))?;
        expect_direct(&w, &fx, &new, &m, &kws, &format!("after batches of {size}"))?;
    }
    Ok(())
}
