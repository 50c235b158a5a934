//! The library under test over the instrumented tables, with an API in terms of
//! plain byte strings.

use crate::db::{Ctl, Db, DbErr, Tbl, Tok};
use crate::engine::Case;
use crate::model::{Assoc, Bytes, Val};
use cosmian_crypto_core::FixedSizeCBytes;
use cosmian_findex::{
    ChainTable, Data, DxEnc, EncryptedValue, EntryTable, Error, Findex, Index, IndexedValue,
    IndexedValueToKeywordsMap, Keyword, KeywordToDataMap, Keywords, Label, UserKey, ENTRY_LENGTH,
    LINK_LENGTH,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::future::Future;
use std::rc::Rc;

pub type Fx =
    Findex<DbErr, EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>>, ChainTable<LINK_LENGTH, Db<LINK_LENGTH>>>;
pub type FErr = Error<DbErr>;
pub type EtMap = BTreeMap<Tok, EncryptedValue<ENTRY_LENGTH>>;
pub type CtMap = BTreeMap<Tok, EncryptedValue<LINK_LENGTH>>;
pub type Res = BTreeMap<Bytes, BTreeSet<Bytes>>;
pub type Direct = BTreeMap<Bytes, BTreeSet<Val>>;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Creds {
    pub key: [u8; 16],
    pub label: Bytes,
}

impl Creds {
    pub fn new(c: &mut Case) -> Self {
        Creds { key: crate::gen::key(c), label: crate::gen::label(c) }
    }

    pub fn user_key(&self) -> UserKey {
        UserKey::try_from_bytes(self.key).expect("user key")
    }

    pub fn lab(&self) -> Label {
        Label::from(self.label.as_slice())
    }

    /// Other credentials: the key, the label, or both are changed.
    pub fn rotate(&self, c: &mut Case) -> Self {
        let mut n = self.clone();
        let mode = c.below(3);
        if mode != 1 {
            // Label.
            let l = crate::gen::label(c);
            n.label = if l == self.label {
                let mut l = l;
                l.push(b'+');
                l
            } else {
                l
            };
        }
        if mode != 0 {
            // Key.
            if c.chance(1, 6) {
                let i = c.idx(16);
                let b = c.below(8);
                n.key[i] ^= 1 << b;
            } else if c.chance(1, 6) {
                n.key = crate::gen::near_key(c, &n.key);
            } else {
                n.key = crate::gen::key(c);
                if n.key == self.key {
                    n.key[0] ^= 1;
                }
            }
        }
        n
    }
}

#[derive(Clone)]
pub struct World {
    pub et: Db<ENTRY_LENGTH>,
    pub ct: Db<LINK_LENGTH>,
    pub ctl: Rc<Ctl>,
}

impl World {
    pub fn new(in_memory: bool) -> Self {
        let ctl = Rc::new(Ctl::default());
        World {
            et: Db::new(Tbl::Et, in_memory, ctl.clone()),
            ct: Db::new(Tbl::Ct, in_memory, ctl.clone()),
            ctl,
        }
    }

    /// Backend drawn from the tape.
    pub fn draw(c: &mut Case) -> Self {
        let m = c.chance(1, 2);
        if m {
            c.label("backend: in-memory");
        } else {
            c.label("backend: reference map");
        }
        World::new(m)
    }

    /// A client instance: it shares nothing with the others but the tables.
    pub fn client(&self) -> Fx {
        Findex::new(EntryTable::setup(self.et.clone()), ChainTable::setup(self.ct.clone()))
    }

    pub fn snapshot(&self) -> (EtMap, CtMap) {
        (self.et.snapshot(), self.ct.snapshot())
    }

    pub fn restore(&self, s: &(EtMap, CtMap)) {
        self.et.restore(&s.0);
        self.ct.restore(&s.1);
    }
}

pub fn iv(v: &Val) -> IndexedValue<Keyword, Data> {
    match v {
        Val::D(d) => IndexedValue::Data(Data::from(d.as_slice())),
        Val::P(k) => IndexedValue::Pointer(Keyword::from(k.as_slice())),
    }
}

pub fn val(v: &IndexedValue<Keyword, Data>) -> Val {
    match v {
        IndexedValue::Data(d) => Val::D(d.to_vec()),
        IndexedValue::Pointer(k) => Val::P(k.to_vec()),
    }
}

pub fn assoc_map(a: &Assoc) -> IndexedValueToKeywordsMap {
    a.iter()
        .map(|(v, ks)| {
            (iv(v), ks.iter().map(|k| Keyword::from(k.as_slice())).collect::<HashSet<_>>())
        })
        .collect()
}

pub fn kw_set(ks: &BTreeSet<Bytes>) -> Keywords {
    ks.iter().map(|k| Keyword::from(k.as_slice())).collect()
}

pub fn res_of(r: KeywordToDataMap) -> Res {
    r.into_iter()
        .map(|(k, d)| (k.to_vec(), d.into_iter().map(|x| x.to_vec()).collect()))
        .collect()
}

pub fn graph_of(m: &HashMap<Keyword, HashSet<IndexedValue<Keyword, Data>>>) -> Direct {
    m.iter().map(|(k, vs)| (k.to_vec(), vs.iter().map(val).collect())).collect()
}

pub async fn search(fx: &Fx, cr: &Creds, ks: &BTreeSet<Bytes>) -> Result<Res, FErr> {
    fx.search(&cr.user_key(), &cr.lab(), kw_set(ks), &|_| async { Ok(false) })
        .await
        .map(res_of)
}

/// Direct associations of the given keywords, as shown to the interrupt
/// callback. Keywords without entry are absent.
pub async fn direct(fx: &Fx, cr: &Creds, ks: &BTreeSet<Bytes>) -> Result<Direct, FErr> {
    let seen: RefCell<Direct> = RefCell::default();
    fx.search(&cr.user_key(), &cr.lab(), kw_set(ks), &|m| {
        seen.borrow_mut().extend(graph_of(&m));
        async { Ok(true) }
    })
    .await?;
    Ok(seen.into_inner())
}

pub async fn update(fx: &Fx, cr: &Creds, add: bool, a: &Assoc) -> Result<BTreeSet<Bytes>, FErr> {
    let m = assoc_map(a);
    let r = if add {
        fx.add(&cr.user_key(), &cr.lab(), m).await?
    } else {
        fx.delete(&cr.user_key(), &cr.lab(), m).await?
    };
    Ok(r.into_iter().map(|k| k.to_vec()).collect())
}

pub async fn compact_with<F, G>(
    fx: &Fx,
    old: &Creds,
    new: &Creds,
    rate: f64,
    filter: &G,
) -> Result<(), FErr>
where
    F: Future<Output = Result<HashSet<Data>, String>>,
    G: Fn(HashSet<Data>) -> F,
{
    fx.compact(&old.user_key(), &new.user_key(), &old.lab(), &new.lab(), rate, filter).await
}

pub async fn compact(fx: &Fx, old: &Creds, new: &Creds, rate: f64) -> Result<(), FErr> {
    compact_with(fx, old, new, rate, &|d| async { Ok(d) }).await
}

pub fn err<T>(r: Result<T, FErr>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what} failed unexpectedly: {e:?}"))
}
