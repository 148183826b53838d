//! Copy-on-write key/value store behind cw-multi-test's App: an immutable base shared by all
//! workers plus a normalised overlay, so a snapshot is a clone of the overlay.
use cosmwasm_std::{Order, Record, Storage};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::rc::Rc;
use std::sync::Arc;

/// A transaction or query that goes on for ever runs out of gas on a chain; here every contract call and
/// storage access inside a contract counts, and a contract that exceeds the limit is stopped.
pub mod gas {
    use std::cell::Cell;
    pub const LIMIT: u64 = 5_000_000;
    pub const MAX_DEPTH: u32 = 60;
    thread_local! {
        static USED: Cell<u64> = Cell::new(0);
        static DEPTH: Cell<u32> = Cell::new(0);
    }
    pub fn charge(n: u64) {
        if DEPTH.with(|d| d.get()) == 0 {
            return;
        }
        let u = USED.with(|u| {
            u.set(u.get() + n);
            u.get()
        });
        if u > LIMIT {
            panic!("out of gas");
        }
    }
    pub fn enter() -> bool {
        DEPTH.with(|d| {
            d.set(d.get() + 1);
            d.get() <= MAX_DEPTH
        })
    }
    pub fn leave() {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
    pub fn reset() {
        USED.with(|u| u.set(0));
    }
}

pub type Base = Arc<BTreeMap<Vec<u8>, Vec<u8>>>;
pub type Overlay = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

pub struct Inner {
    pub base: Base,
    pub over: Overlay,
}

#[derive(Clone)]
pub struct Store(pub Rc<RefCell<Inner>>);

impl Store {
    pub fn new() -> Self {
        Store(Rc::new(RefCell::new(Inner { base: Arc::new(BTreeMap::new()), over: BTreeMap::new() })))
    }
    pub fn snapshot(&self) -> Overlay {
        self.0.borrow().over.clone()
    }
    pub fn restore(&self, base: &Base, over: &Overlay) {
        let mut i = self.0.borrow_mut();
        i.base = base.clone();
        i.over = over.clone();
    }
    /// Flattens base+overlay into a new base.
    pub fn freeze(&self) -> Base {
        let mut i = self.0.borrow_mut();
        let mut m = (*i.base).clone();
        for (k, v) in std::mem::take(&mut i.over) {
            match v {
                Some(v) => {
                    m.insert(k, v);
                }
                None => {
                    m.remove(&k);
                }
            }
        }
        i.base = Arc::new(m);
        i.base.clone()
    }
}

pub fn hash_overlay(o: &Overlay) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for (k, v) in o {
        k.hash(&mut h);
        v.hash(&mut h);
    }
    h.finish()
}

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        gas::charge(1);
        let i = self.0.borrow();
        match i.over.get(key) {
            Some(v) => v.clone(),
            None => i.base.get(key).cloned(),
        }
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        let i = self.0.borrow();
        let mut out: Vec<Record> = vec![];
        let mut b = i.base.range((lo.clone(), hi.clone())).peekable();
        let mut o = i.over.range((lo, hi)).peekable();
        loop {
            let take_over = match (b.peek(), o.peek()) {
                (None, None) => break,
                (Some(_), None) => false,
                (None, Some(_)) => true,
                (Some((bk, _)), Some((ok, _))) => {
                    if bk == ok {
                        b.next();
                        true
                    } else {
                        ok < bk
                    }
                }
            };
            if take_over {
                let (k, v) = o.next().unwrap();
                if let Some(v) = v {
                    out.push((k.clone(), v.clone()));
                }
            } else {
                let (k, v) = b.next().unwrap();
                out.push((k.clone(), v.clone()));
            }
        }
        gas::charge(10 + out.len() as u64);
        match order {
            Order::Ascending => Box::new(out.into_iter()),
            Order::Descending => Box::new(out.into_iter().rev()),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        let mut i = self.0.borrow_mut();
        if i.base.get(key).map(|v| v.as_slice()) == Some(value) {
            i.over.remove(key);
        } else {
            i.over.insert(key.to_vec(), Some(value.to_vec()));
        }
    }
    fn remove(&mut self, key: &[u8]) {
        let mut i = self.0.borrow_mut();
        if i.base.contains_key(key) {
            i.over.insert(key.to_vec(), None);
        } else {
            i.over.remove(key);
        }
    }
}
