//! Values that count their own creations, clones and drops.
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

#[derive(Default)]
pub struct Ledger {
    pub live: AtomicI64,
    pub made: AtomicI64,
    pub cloned: AtomicI64,
    pub min_live: AtomicI64,
}
impl Ledger {
    pub fn new() -> Arc<Ledger> {
        Arc::new(Ledger::default())
    }
    pub fn live(&self) -> i64 {
        self.live.load(SeqCst)
    }
    pub fn cloned(&self) -> i64 {
        self.cloned.load(SeqCst)
    }
    pub fn made(&self) -> i64 {
        self.made.load(SeqCst)
    }
}

/// `I` makes differently placed values differently typed.
pub struct Tr<const I: usize = 0> {
    pub id: u64,
    pub hist: Vec<u64>,
    alive: bool,
    l: Arc<Ledger>,
}
impl<const I: usize> Tr<I> {
    pub fn new(l: &Arc<Ledger>, id: u64) -> Self {
        l.live.fetch_add(1, SeqCst);
        l.made.fetch_add(1, SeqCst);
        Tr { id, hist: vec![], alive: true, l: l.clone() }
    }
    pub fn rekind<const J: usize>(self) -> Tr<J> {
        let mut t = Tr::<J>::new(&self.l, self.id);
        t.hist = self.hist.clone();
        t
    }
    pub fn get(&self) -> u64 {
        self.id
    }
    pub fn ledger(&self) -> &Arc<Ledger> {
        &self.l
    }
}
impl<const I: usize> Clone for Tr<I> {
    fn clone(&self) -> Self {
        self.l.live.fetch_add(1, SeqCst);
        self.l.cloned.fetch_add(1, SeqCst);
        Tr { id: self.id, hist: self.hist.clone(), alive: true, l: self.l.clone() }
    }
}
impl<const I: usize> Drop for Tr<I> {
    fn drop(&mut self) {
        assert!(self.alive, "value dropped twice");
        self.alive = false;
        self.l.live.fetch_sub(1, SeqCst);
    }
}
/// `Into` target: records that the conversion ran.
pub struct Conv(pub Tr<0>, pub u64);
impl From<Tr<0>> for Conv {
    fn from(mut t: Tr<0>) -> Conv {
        t.hist.push(u64::MAX);
        Conv(t, 7)
    }
}
