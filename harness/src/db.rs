//! The database given to the library: a map behind an instrumented
//! `DbInterface`. It owns the schedule (every request is a suspension point),
//! injects faults and crashes at chosen requests, and logs every request.

use async_trait::async_trait;
use cosmian_crypto_core::bytes_ser_de::Serializable;
use cosmian_findex::{
    DbInterface, DbInterfaceErrorTrait, EncryptedValue, InMemoryDb, Token,
    TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub type Tok = [u8; 32];

pub fn tok(t: &Token) -> Tok {
    (*t).into()
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DbErr(pub String);

impl fmt::Display for DbErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "database error {}", self.0)
    }
}
impl std::error::Error for DbErr {}
impl DbInterfaceErrorTrait for DbErr {}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tbl {
    Et,
    Ct,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Dump,
    Fetch,
    Upsert,
    Insert,
    Delete,
}

impl Kind {
    pub fn is_write(self) -> bool {
        matches!(self, Kind::Upsert | Kind::Insert | Kind::Delete)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    /// The request fails without effect.
    ErrBefore,
    /// The request takes effect, then an error is reported.
    ErrAfter,
    /// The client stops before the request takes effect.
    CrashBefore,
    /// The client stops after the request took effect.
    CrashAfter,
    /// The database code panics before the request takes effect.
    PanicBefore,
    /// The database code panics after the request took effect.
    PanicAfter,
}

pub const FAULTS: [Fault; 4] =
    [Fault::ErrBefore, Fault::ErrAfter, Fault::CrashBefore, Fault::CrashAfter];

#[derive(Debug, Clone)]
pub struct Call {
    pub task: usize,
    pub table: Tbl,
    pub kind: Kind,
    /// Tokens given in the request (new values for an upsert).
    pub tokens: BTreeSet<Tok>,
    /// Tokens of the expected values of an upsert.
    pub old: BTreeSet<Tok>,
    /// Number of values returned (fetch), tokens rejected (upsert).
    pub returned: usize,
    pub ok: bool,
    /// Bytes of the values written by the request.
    pub written: Vec<(Tok, Vec<u8>)>,
}

#[derive(Default)]
pub struct Ctl {
    pub log: RefCell<Vec<Call>>,
    pub logging: Cell<bool>,
    pub keep_values: Cell<bool>,
    calls: Cell<u64>,
    budget: Cell<u64>,
    over: Cell<bool>,
    faults: RefCell<BTreeMap<u64, Fault>>,
    fired: Cell<u64>,
    crashed: Cell<bool>,
    pub yields: Cell<bool>,
    pub task: Cell<usize>,
}

impl Ctl {
    /// Starts a new counting period: requests are numbered from zero.
    pub fn arm(&self, faults: &[(u64, Fault)]) {
        self.calls.set(0);
        self.fired.set(0);
        self.crashed.set(false);
        *self.faults.borrow_mut() = faults.iter().copied().collect();
    }

    pub fn disarm(&self) {
        self.arm(&[]);
    }

    /// Runs something between two requests of a call under way, without
    /// counting its requests, faulting them nor suspending it.
    pub fn aside<T>(&self, f: impl FnOnce() -> T) -> T {
        let (calls, fired, crashed, yields) =
            (self.calls.get(), self.fired.get(), self.crashed.get(), self.yields.get());
        let faults = std::mem::take(&mut *self.faults.borrow_mut());
        self.crashed.set(false);
        self.yields.set(false);
        let r = f();
        self.calls.set(calls);
        self.fired.set(fired);
        self.crashed.set(crashed);
        self.yields.set(yields);
        *self.faults.borrow_mut() = faults;
        r
    }

    pub fn calls(&self) -> u64 {
        self.calls.get()
    }

    pub fn fired(&self) -> u64 {
        self.fired.get()
    }

    pub fn set_budget(&self, n: u64) {
        self.budget.set(n);
    }

    pub fn over_budget(&self) -> bool {
        self.over.get()
    }

    pub fn crashed(&self) -> bool {
        self.crashed.get()
    }

    pub fn take_log(&self) -> Vec<Call> {
        std::mem::take(&mut *self.log.borrow_mut())
    }
}

pub struct YieldOnce(pub bool);

impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}

pub enum Store<const L: usize> {
    Own(RefCell<BTreeMap<Tok, EncryptedValue<L>>>),
    Mem(RefCell<InMemoryDb<L>>),
}

pub struct Db<const L: usize> {
    tbl: Tbl,
    store: Rc<Store<L>>,
    /// Additional values returned by fetch for a token.
    pub extra: Rc<RefCell<BTreeMap<Tok, Vec<EncryptedValue<L>>>>>,
    pub ctl: Rc<Ctl>,
}

impl<const L: usize> Clone for Db<L> {
    fn clone(&self) -> Self {
        Db {
            tbl: self.tbl,
            store: self.store.clone(),
            extra: self.extra.clone(),
            ctl: self.ctl.clone(),
        }
    }
}

impl<const L: usize> Db<L> {
    pub fn new(tbl: Tbl, in_memory: bool, ctl: Rc<Ctl>) -> Self {
        let store = if in_memory {
            Store::Mem(RefCell::new(InMemoryDb::default()))
        } else {
            Store::Own(RefCell::default())
        };
        Db { tbl, store: Rc::new(store), extra: Rc::default(), ctl }
    }

    pub fn snapshot(&self) -> BTreeMap<Tok, EncryptedValue<L>> {
        match &*self.store {
            Store::Own(m) => m.borrow().clone(),
            Store::Mem(m) => {
                let m = m.borrow();
                let g = m.lock().expect("lock");
                g.iter().map(|(k, v)| (tok(k), v.clone())).collect()
            }
        }
    }

    pub fn restore(&self, snap: &BTreeMap<Tok, EncryptedValue<L>>) {
        match &*self.store {
            Store::Own(m) => *m.borrow_mut() = snap.clone(),
            Store::Mem(m) => m.borrow_mut().load(TokenToEncryptedValueMap::from(
                snap.iter()
                    .map(|(k, v)| (Token::from(*k), v.clone()))
                    .collect::<HashMap<_, _>>(),
            )),
        }
    }

    pub fn len(&self) -> usize {
        match &*self.store {
            Store::Own(m) => m.borrow().len(),
            Store::Mem(m) => m.borrow().lock().expect("lock").len(),
        }
    }

    /// Serialized content of the in-memory backend, when it is the one used.
    pub fn to_bytes(&self) -> Option<Vec<u8>> {
        match &*self.store {
            Store::Own(_) => None,
            Store::Mem(m) => Some(m.borrow().serialize().expect("serialize").to_vec()),
        }
    }

    /// Replaces the in-memory backend by one read from bytes.
    pub fn load_bytes(&self, b: &[u8]) -> Result<(), String> {
        if let Store::Mem(m) = &*self.store {
            *m.borrow_mut() = InMemoryDb::deserialize(b).map_err(|e| format!("a serialized table is not read back: {e:?}"))?;
        }
        Ok(())
    }

    /// Sizes reported by the in-memory backend, when it is the one used.
    pub fn reported(&self) -> Option<(usize, usize, bool)> {
        match &*self.store {
            Store::Own(_) => None,
            Store::Mem(m) => {
                let m = m.borrow();
                Some((m.len(), m.size(), m.is_empty()))
            }
        }
    }

    async fn enter(&self) -> Result<Option<Fault>, DbErr> {
        if self.ctl.yields.get() {
            let me = self.ctl.task.get();
            YieldOnce(false).await;
            self.ctl.task.set(me);
        }
        let n = self.ctl.calls.get();
        self.ctl.calls.set(n + 1);
        if self.ctl.budget.get() != 0 && n >= self.ctl.budget.get() {
            self.ctl.over.set(true);
            assert!(
                n < 2 * self.ctl.budget.get() + 16,
                "the library keeps sending requests to the database ({n} so far)"
            );
            return Err(DbErr("request budget exceeded".into()));
        }
        let fault = self.ctl.faults.borrow().get(&n).copied();
        if fault.is_some() {
            self.ctl.fired.set(self.ctl.fired.get() + 1);
        }
        match fault {
            Some(Fault::ErrBefore) => Err(DbErr(format!("injected before request {n}"))),
            Some(Fault::CrashBefore) => {
                self.ctl.crashed.set(true);
                std::future::pending::<()>().await;
                unreachable!()
            }
            Some(Fault::PanicBefore) => panic!("injected panic"),
            f => Ok(f),
        }
    }

    async fn leave(&self, f: Option<Fault>) -> Result<(), DbErr> {
        match f {
            Some(Fault::ErrAfter) => {
                Err(DbErr(format!("injected after request {}", self.ctl.calls.get() - 1)))
            }
            Some(Fault::CrashAfter) => {
                self.ctl.crashed.set(true);
                std::future::pending::<()>().await;
                unreachable!()
            }
            Some(Fault::PanicAfter) => panic!("injected panic"),
            _ => Ok(()),
        }
    }

    fn log(&self, kind: Kind, tokens: BTreeSet<Tok>) -> Call {
        Call {
            task: self.ctl.task.get(),
            table: self.tbl,
            kind,
            tokens,
            old: BTreeSet::new(),
            returned: 0,
            ok: true,
            written: Vec::new(),
        }
    }

    fn push(&self, c: Call) {
        if self.ctl.logging.get() {
            self.ctl.log.borrow_mut().push(c);
        }
    }

    fn values(&self, m: &TokenToEncryptedValueMap<L>) -> Vec<(Tok, Vec<u8>)> {
        if !self.ctl.keep_values.get() {
            return Vec::new();
        }
        m.iter().map(|(t, v)| (tok(t), value_bytes(v))).collect()
    }
}

/// nonce || ciphertext || tag, computed from the public fields.
pub fn value_bytes<const L: usize>(v: &EncryptedValue<L>) -> Vec<u8> {
    let mut b = v.nonce.0.to_vec();
    b.extend_from_slice(&v.ciphertext);
    b.extend_from_slice(&v.tag);
    b
}

fn toks<'a>(it: impl Iterator<Item = &'a Token>) -> BTreeSet<Tok> {
    it.map(tok).collect()
}

fn conv<E: fmt::Display + fmt::Debug>(e: E) -> DbErr {
    DbErr(format!("{e:?}"))
}

#[async_trait(?Send)]
impl<const L: usize> DbInterface<L> for Db<L> {
    type Error = DbErr;

    async fn dump_tokens(&self) -> Result<Tokens, DbErr> {
        let f = self.enter().await?;
        let res = match &*self.store {
            Store::Own(m) => m.borrow().keys().map(|k| Token::from(*k)).collect(),
            Store::Mem(m) => m.borrow().dump_tokens().await.map_err(conv)?,
        };
        let mut c = self.log(Kind::Dump, BTreeSet::new());
        c.returned = res.0.len();
        self.push(c);
        self.leave(f).await?;
        Ok(res)
    }

    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<L>, DbErr> {
        let f = self.enter().await?;
        let mut c = self.log(Kind::Fetch, toks(tokens.0.iter()));
        let mut res: Vec<(Token, EncryptedValue<L>)> = match &*self.store {
            Store::Own(m) => {
                let m = m.borrow();
                // In an order of its own.
                c.tokens.iter().filter_map(|t| m.get(t).map(|v| (Token::from(*t), v.clone()))).collect()
            }
            Store::Mem(m) => m.borrow().fetch(tokens.clone()).await.map_err(conv)?.into(),
        };
        let extra = self.extra.borrow();
        if !extra.is_empty() {
            for t in &tokens.0 {
                for v in extra.get(&tok(t)).into_iter().flatten() {
                    res.push((*t, v.clone()));
                }
            }
        }
        c.returned = res.len();
        self.push(c);
        drop(extra);
        self.leave(f).await?;
        Ok(res.into())
    }

    async fn upsert(
        &self,
        old: TokenToEncryptedValueMap<L>,
        new: TokenToEncryptedValueMap<L>,
    ) -> Result<TokenToEncryptedValueMap<L>, DbErr> {
        let f = self.enter().await?;
        let mut c = self.log(Kind::Upsert, toks(new.0.keys()));
        c.old = toks(old.0.keys());
        c.written = self.values(&new);
        let res = match &*self.store {
            Store::Own(m) => {
                let mut m = m.borrow_mut();
                if old.0.keys().any(|t| !m.contains_key(&tok(t))) {
                    Err(DbErr("upsert: old value given but no value stored".into()))
                } else {
                    let mut rejected = HashMap::new();
                    for (t, v) in new.0 {
                        let stored = m.get(&tok(&t)).cloned();
                        if stored.as_ref() == old.0.get(&t) {
                            m.insert(tok(&t), v);
                        } else if let Some(s) = stored {
                            rejected.insert(t, s);
                        }
                    }
                    Ok(TokenToEncryptedValueMap::from(rejected))
                }
            }
            Store::Mem(m) => m.borrow().upsert(old, new).await.map_err(conv),
        };
        c.ok = res.is_ok();
        c.returned = res.as_ref().map_or(0, |r| r.0.len());
        self.push(c);
        let res = res?;
        self.leave(f).await?;
        Ok(res)
    }

    async fn insert(&self, values: TokenToEncryptedValueMap<L>) -> Result<(), DbErr> {
        let f = self.enter().await?;
        let mut c = self.log(Kind::Insert, toks(values.0.keys()));
        c.written = self.values(&values);
        let res = match &*self.store {
            Store::Own(m) => {
                let mut m = m.borrow_mut();
                if values.0.keys().any(|t| m.contains_key(&tok(t))) {
                    Err(DbErr("insert: a value is already stored".into()))
                } else {
                    m.extend(values.0.into_iter().map(|(t, v)| (tok(&t), v)));
                    Ok(())
                }
            }
            Store::Mem(m) => m.borrow().insert(values).await.map_err(conv),
        };
        c.ok = res.is_ok();
        self.push(c);
        res?;
        self.leave(f).await
    }

    async fn delete(&self, tokens: Tokens) -> Result<(), DbErr> {
        let f = self.enter().await?;
        self.push(self.log(Kind::Delete, toks(tokens.0.iter())));
        match &*self.store {
            Store::Own(m) => {
                let mut m = m.borrow_mut();
                for t in &tokens.0 {
                    m.remove(&tok(t));
                }
            }
            Store::Mem(m) => m.borrow().delete(tokens).await.map_err(conv)?,
        }
        self.leave(f).await
    }
}

fn noop_waker() -> Waker {
    const VT: RawWakerVTable =
        RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

pub fn poll_once<T>(fut: &mut Pin<Box<dyn Future<Output = T> + '_>>) -> Poll<T> {
    let w = noop_waker();
    fut.as_mut().poll(&mut Context::from_waker(&w))
}

/// Runs a future to completion; `None` if the client crashed on the way.
pub fn block_on<T>(ctl: &Ctl, fut: impl Future<Output = T>) -> Option<T> {
    let mut fut: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(fut);
    let mut spins = 0u64;
    loop {
        match poll_once(&mut fut) {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => {
                if ctl.crashed() {
                    return None;
                }
                spins += 1;
                assert!(spins < 10_000_000, "a future is never completed");
            }
        }
    }
}

/// Runs a future that never waits for anything.
pub fn now<T>(fut: impl Future<Output = T>) -> T {
    block_on(&Ctl::default(), fut).expect("no crash")
}

/// An in-memory table several instances (and threads) share.
pub struct SharedMem<const L: usize>(pub std::sync::Arc<InMemoryDb<L>>);

impl<const L: usize> Clone for SharedMem<L> {
    fn clone(&self) -> Self {
        SharedMem(self.0.clone())
    }
}

#[async_trait(?Send)]
impl<const L: usize> DbInterface<L> for SharedMem<L> {
    type Error = DbErr;
    async fn dump_tokens(&self) -> Result<Tokens, DbErr> {
        self.0.dump_tokens().await.map_err(conv)
    }
    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<L>, DbErr> {
        self.0.fetch(tokens).await.map_err(conv)
    }
    async fn upsert(
        &self,
        old: TokenToEncryptedValueMap<L>,
        new: TokenToEncryptedValueMap<L>,
    ) -> Result<TokenToEncryptedValueMap<L>, DbErr> {
        self.0.upsert(old, new).await.map_err(conv)
    }
    async fn insert(&self, items: TokenToEncryptedValueMap<L>) -> Result<(), DbErr> {
        self.0.insert(items).await.map_err(conv)
    }
    async fn delete(&self, tokens: Tokens) -> Result<(), DbErr> {
        self.0.delete(tokens).await.map_err(conv)
    }
}
