use crate::db::block_on;
use crate::engine::{Case, Check, Prop};
use crate::gen::Pool;
use crate::model::{show, show_assoc, show_res, show_set, Assoc, Bytes, Model, Val};
use crate::world::{self, Creds, Direct, FErr, Fx, Res, World};
use std::collections::BTreeSet;

mod compaction;
mod concurrency;
mod faults;
mod graph;
mod history;
#[cfg(feature = "layers")]
mod layers;
mod primitives;
mod robust;
mod secrecy;
mod state;
mod storage;

pub static ALL: &[&Prop] = &[
    &history::C01,
    &graph::C02,
    &graph::C03,
    &history::C04,
    &history::C05,
    &concurrency::C06,
    &faults::C07,
    &compaction::C08,
    &storage::C09,
    &compaction::C10,
    &faults::C11,
    &compaction::C12,
    &history::C13,
    &secrecy::C14,
    &secrecy::C15,
    &storage::C16,
    &primitives::C17,
    &primitives::C18,
    &primitives::C19,
    &secrecy::C20,
    &secrecy::C21,
    &compaction::C22,
    &primitives::C23,
    &secrecy::C24,
    &robust::C25,
    &robust::C26,
    &robust::C27,
    &state::C28,
    &state::C29,
    &state::C30,
    #[cfg(feature = "layers")]
    &layers::C31,
    #[cfg(feature = "layers")]
    &layers::C32,
];

/// Requests a single operation may send to the database before it is declared
/// not to terminate.
pub const CALL_BUDGET: u64 = 5_000;

/// Same, for an index of any size.
pub fn call_budget(w: &World) -> u64 {
    CALL_BUDGET + 20 * (w.et.len() + w.ct.len()) as u64
}

/// Runs one operation with the request budget armed and no fault.
pub fn go<T>(w: &World, fut: impl std::future::Future<Output = Result<T, FErr>>, what: &str) -> Result<T, String> {
    w.ctl.disarm();
    let budget = call_budget(w);
    w.ctl.set_budget(budget);
    let r = block_on(&w.ctl, fut).expect("no crash is injected here");
    if w.ctl.over_budget() {
        return Err(format!("{what} does not terminate: more than {budget} requests sent"));
    }
    world::err(r, what)
}

/// Same, giving the library's own result.
pub fn go_raw<T>(w: &World, fut: impl std::future::Future<Output = Result<T, FErr>>) -> Result<Result<T, FErr>, String> {
    w.ctl.disarm();
    let budget = call_budget(w);
    w.ctl.set_budget(budget);
    let r = block_on(&w.ctl, fut).expect("no crash is injected here");
    if w.ctl.over_budget() {
        return Err(format!("the operation does not terminate: more than {budget} requests sent"));
    }
    Ok(r)
}

/// Search results must be exactly those of the model.
pub fn expect_search(
    c: &mut Case,
    w: &World,
    fx: &Fx,
    cr: &Creds,
    m: &Model,
    ks: &BTreeSet<Bytes>,
    when: &str,
) -> Result<Res, String> {
    let got = go(w, world::search(fx, cr, ks), "search")?;
    let want = m.search(ks);
    c.note(|| format!("search {} -> {}", show_set(ks), show_res(&got)));
    if got != want {
        return Err(format!(
            "search of {} {when}: got {} but the history implies {}",
            show_set(ks),
            show_res(&got),
            show_res(&want)
        ));
    }
    Ok(got)
}

/// Every keyword searched alone, then all together.
pub fn expect_all(c: &mut Case, w: &World, fx: &Fx, cr: &Creds, m: &Model, kws: &[Bytes], when: &str) -> Check {
    for k in kws {
        expect_search(c, w, fx, cr, m, &BTreeSet::from([k.clone()]), when)?;
    }
    expect_search(c, w, fx, cr, m, &kws.iter().cloned().collect(), when)?;
    Ok(())
}

pub fn direct(w: &World, fx: &Fx, cr: &Creds, kws: &[Bytes]) -> Result<Direct, String> {
    let mut d = go(w, world::direct(fx, cr, &kws.iter().cloned().collect()), "search")?;
    d.retain(|_, v| !v.is_empty());
    Ok(d)
}

pub fn show_direct(d: &Direct) -> String {
    d.iter()
        .map(|(k, v)| {
            format!("{}:[{}]", show(k), v.iter().map(crate::model::show_val).collect::<Vec<_>>().join(","))
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Direct associations must be exactly those of the model.
pub fn expect_direct(w: &World, fx: &Fx, cr: &Creds, m: &Model, kws: &[Bytes], when: &str) -> Check {
    let got = direct(w, fx, cr, kws)?;
    let want: Direct = m
        .kws
        .iter()
        .filter(|(k, v)| !v.is_empty() && kws.contains(k))
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect();
    if got != want {
        return Err(format!(
            "associations {when}: got {} but the history implies {}",
            show_direct(&got),
            show_direct(&want)
        ));
    }
    Ok(())
}

/// Applies an addition or a deletion to the index and the model, and checks the
/// reported new keywords.
pub fn do_update(
    c: &mut Case,
    w: &World,
    fx: &Fx,
    cr: &Creds,
    m: &mut Model,
    add: bool,
    a: &Assoc,
    check_new: bool,
) -> Check {
    let got = go(w, world::update(fx, cr, add, a), if add { "add" } else { "delete" })?;
    let want = m.apply(add, a);
    c.note(|| {
        format!("{} {} -> new {}", if add { "add" } else { "delete" }, show_assoc(a), show_set(&got))
    });
    if check_new && got != want {
        return Err(format!(
            "{} {}: reported new keywords {} instead of {}",
            if add { "add" } else { "delete" },
            show_assoc(a),
            show_set(&got),
            show_set(&want)
        ));
    }
    Ok(())
}

/// A deletion aimed, most of the time, at present associations.
pub fn gen_deletion(c: &mut Case, pool: &Pool, m: &Model) -> Assoc {
    let present: Vec<(Bytes, Val)> = m
        .kws
        .iter()
        .flat_map(|(k, vs)| vs.iter().map(move |v| (k.clone(), v.clone())))
        .collect();
    if present.is_empty() || c.chance(1, 4) {
        return pool.assoc(c);
    }
    let n = c.range(1, 3);
    let mut a = Assoc::new();
    for _ in 0..n {
        let (k, v) = c.pick(&present).clone();
        a.entry(v).or_default().insert(k);
    }
    a
}

/// Draws an update, mixing additions and deletions.
pub fn gen_update(c: &mut Case, pool: &Pool, m: &Model) -> (bool, Assoc) {
    if c.chance(2, 5) {
        (false, gen_deletion(c, pool, m))
    } else {
        (true, pool.assoc(c))
    }
}

/// Builds some content: a few updates.
pub fn build(
    c: &mut Case,
    w: &World,
    fx: &Fx,
    cr: &Creds,
    m: &mut Model,
    pool: &Pool,
    min: u64,
    max: u64,
) -> Check {
    let n = c.range(min, max);
    for _ in 0..n {
        let (add, a) = gen_update(c, pool, m);
        do_update(c, w, fx, cr, m, add, &a, false)?;
    }
    Ok(())
}
