//! The data ledger: every datum handed to the library is a token that knows which point it belongs
//! to, and whose every creation, copy and end of life is on record. Cloning and dropping it is
//! client code: the scheduler may switch there and the simulator may make it panic.
use crate::sched;
use crate::seam;
use crate::shared::{self, count};
use std::cell::Cell;

pub struct D {
    id: u32,
    /// not a plain integer, so that a bitwise copy of a datum shares it
    label: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum Life {
    Live,
    Gone,
}
struct Entry {
    label: u64,
    life: Life,
}
static mut LEDGER: Vec<Entry> = Vec::new();
fn ledger() -> &'static mut Vec<Entry> {
    unsafe { &mut *(&raw mut LEDGER) }
}

pub struct Injected(pub u32);

thread_local! {
    /// calls of client code made in the current operation, and the one that panics
    pub static CALLS: Cell<u32> = const { Cell::new(0) };
    pub static FAIL_AT: Cell<u32> = const { Cell::new(u32::MAX) };
    pub static FIRED: Cell<u32> = const { Cell::new(0) };
    pub static UID: Cell<u32> = const { Cell::new(0) };
    /// do not count or disturb (harness handling of tokens)
    pub static CALM: Cell<u32> = const { Cell::new(1) };
}

pub struct Calm;
impl Calm {
    pub fn new() -> Self {
        CALM.with(|c| c.set(c.get() + 1));
        Calm
    }
}
impl Drop for Calm {
    fn drop(&mut self) {
        CALM.with(|c| c.set(c.get() - 1));
    }
}

/// One call of client code by the library. May switch to another task; may panic.
pub fn client_call(fault: usize) {
    if CALM.with(|c| c.get()) > 0 || seam::LIB.with(|l| l.get()) == 0 {
        return;
    }
    let _u = seam::lib_mode(0);
    sched::yield_point(sched::Y_USER);
    let n = CALLS.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    if n == FAIL_AT.with(|f| f.get()) && !std::thread::panicking() {
        FAIL_AT.with(|f| f.set(u32::MAX));
        FIRED.with(|f| f.set(f.get() + 1));
        count(fault);
        let uid = UID.with(|u| u.get());
        let _q = seam::Quiet::new();
        std::panic::panic_any(Injected(uid));
    }
}

impl D {
    pub fn new(label: u64) -> D {
        let _q = seam::Quiet::new();
        let l = ledger();
        l.push(Entry { label, life: Life::Live });
        count(shared::C_DATA);
        D { id: l.len() as u32 - 1, label }
    }
    /// the point this datum belongs to, if the datum is alive and itself
    pub fn read(&self) -> Result<u64, String> {
        match ledger().get(self.id as usize) {
            None => Err("a datum that was never made".into()),
            Some(e) if e.label != self.label => Err("a datum that is not itself".into()),
            Some(e) if e.life == Life::Gone => Err(format!("datum of point {} after it was dropped", e.label as u32)),
            Some(e) => Ok(e.label),
        }
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        client_call(shared::F_CLONE);
        if let Err(e) = self.read() {
            shared::violation(&[4, 16], &format!("the library cloned {e}"));
        }
        D::new(self.label)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        if let Err(e) = self.read() {
            shared::violation(&[4, 3, 16], &format!("the library dropped {e}"));
            return;
        }
        ledger()[self.id as usize].life = Life::Gone;
        client_call(shared::F_DROP);
    }
}

/// data never dropped, by label
pub fn leaked() -> Vec<u64> {
    ledger().iter().filter(|e| e.life == Life::Live).map(|e| e.label).collect()
}
