//! A memory allocator that remembers, per thread and on request, which
//! blocks are alive.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Option<Log>> = const { RefCell::new(None) };
}

#[derive(Default, Clone)]
pub struct Log {
    /// address -> (size, serial)
    pub live: BTreeMap<usize, (usize, u64)>,
    pub serial: u64,
    pub made: Vec<u64>,
    pub freed: Vec<u64>,
}

pub struct Tracking;

fn note(f: impl FnOnce(&mut Log)) {
    if ON.try_with(|o| o.replace(false)).unwrap_or(false) {
        let _ = LOG.try_with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                f(l);
            }
        });
        let _ = ON.try_with(|o| o.set(true));
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        note(|g| g.add(p as usize, l.size()));
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        note(|g| g.add(p as usize, l.size()));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(|g| g.del(p as usize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        note(|g| {
            g.del(p as usize);
            g.add(q as usize, n);
        });
        q
    }
}

impl Log {
    fn add(&mut self, p: usize, n: usize) {
        self.serial += 1;
        self.live.insert(p, (n, self.serial));
        self.made.push(self.serial);
    }
    fn del(&mut self, p: usize) {
        if let Some((_, s)) = self.live.remove(&p) {
            if let Some(k) = self.made.iter().position(|m| *m == s) {
                self.made.remove(k); // came and went within one operation
            } else {
                self.freed.push(s);
            }
        }
    }
}

/// Forgets everything seen so far.
pub fn fresh() {
    LOG.with(|l| *l.borrow_mut() = Some(Log::default()));
}

/// What an operation did: serials of blocks it made, and it freed.
pub struct Did {
    pub made: Vec<u64>,
    pub freed: Vec<u64>,
}

pub fn track<R>(f: impl FnOnce() -> R) -> (R, Did) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let l = l.get_or_insert_with(Log::default);
        l.made.clear();
        l.freed.clear();
    });
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    let d = LOG.with(|l| {
        let mut l = l.borrow_mut();
        let l = l.as_mut().unwrap();
        Did { made: std::mem::take(&mut l.made), freed: std::mem::take(&mut l.freed) }
    });
    (r, d)
}

/// The block an address lies in (or just behind, for empty objects), if known.
pub fn block_of(p: usize) -> Option<u64> {
    LOG.with(|l| {
        let l = l.borrow();
        let (a, (n, s)) = l.as_ref()?.live.range(..=p).next_back()?;
        (p < a + n).then_some(*s)
    })
}

/// Runs the driver's own code within a tracked operation.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.with(|o| o.replace(false));
    let r = f();
    ON.with(|o| o.set(was));
    r
}
