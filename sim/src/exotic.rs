//! Data of other kinds than the ledger's: without a size, large and aligned, text, shared. What is
//! checked is the same: every datum is at its point in the result, and all of them are dropped once.
use crate::geom::Input;
use crate::prng::Rng;
use crate::shared::{self, count};
use poly2tri_rs::{Builder, Observer, Point, PointId, Sweeper};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

thread_local! {
    /// data alive, of the present exercise
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// calls of `clone` left before one of them panics
    static FUSE: Cell<u32> = const { Cell::new(u32::MAX) };
}
pub struct Blown;
fn burn() {
    let left = FUSE.with(|f| f.get());
    FUSE.with(|f| f.set(left.saturating_sub((left != u32::MAX) as u32)));
    if left == 0 && !std::thread::panicking() {
        FUSE.with(|f| f.set(u32::MAX));
        resume_unwind(Box::new(Blown));
    }
}
fn live(d: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + d));
}

pub trait Kind: Clone {
    const NAME: &'static str;
    fn make(k: u32) -> Self;
    /// which one it is, if it can tell
    fn which(&self) -> Option<u32>;
}

pub struct Zero;
impl Clone for Zero {
    fn clone(&self) -> Zero {
        burn();
        live(1);
        Zero
    }
}
impl Drop for Zero {
    fn drop(&mut self) {
        live(-1);
    }
}
impl Kind for Zero {
    const NAME: &'static str = "without a size";
    fn make(_: u32) -> Zero {
        live(1);
        Zero
    }
    fn which(&self) -> Option<u32> {
        None
    }
}

#[repr(align(64))]
pub struct Wide([u32; 40], *const Wide);
impl Clone for Wide {
    fn clone(&self) -> Wide {
        burn();
        Wide::make(self.0[0])
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        if self.which().is_some() {
            self.0[39] = u32::MAX;
        }
        live(-1);
    }
}
impl Kind for Wide {
    const NAME: &'static str = "of 192 bytes";
    fn make(k: u32) -> Wide {
        live(1);
        Wide([k; 40], std::ptr::null())
    }
    fn which(&self) -> Option<u32> {
        let whole = self as *const _ as usize % 64 == 0 && self.1.is_null() && self.0.iter().all(|x| *x == self.0[0]);
        Some(if whole { self.0[0] } else { u32::MAX })
    }
}

#[derive(Clone)]
pub struct Text(String, Held);
struct Held;
impl Clone for Held {
    fn clone(&self) -> Held {
        burn();
        live(1);
        Held
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        live(-1);
    }
}
impl Kind for Text {
    const NAME: &'static str = "that is text";
    fn make(k: u32) -> Text {
        live(1);
        Text(format!("datum {k}"), Held)
    }
    fn which(&self) -> Option<u32> {
        Some(self.0.strip_prefix("datum ").and_then(|n| n.parse().ok()).unwrap_or(u32::MAX))
    }
}

#[derive(Clone)]
pub struct Both(Option<Arc<(u32, Held)>>, u8);
impl Kind for Both {
    const NAME: &'static str = "that is shared";
    fn make(k: u32) -> Both {
        live(1);
        Both(Some(Arc::new((k, Held))), k as u8)
    }
    fn which(&self) -> Option<u32> {
        Some(self.0.as_ref().map(|a| a.0).filter(|k| *k as u8 == self.1).unwrap_or(u32::MAX))
    }
}

#[derive(Clone)]
pub struct Byte(u8);
impl Kind for Byte {
    const NAME: &'static str = "of one byte";
    fn make(k: u32) -> Byte {
        Byte(k as u8)
    }
    fn which(&self) -> Option<u32> {
        Some(self.0 as u32)
    }
}

/// ends the run somewhere
struct Ender(u32);
impl Observer for Ender {
    fn exit_point_event(&mut self, _: PointId, _: &Sweeper) {
        if self.0 == 0 {
            resume_unwind(Box::new(Blown));
        }
        self.0 = self.0.saturating_sub(1);
    }
    fn finalized(&mut self, _: &Sweeper) {
        if self.0 % 3 == 0 {
            resume_unwind(Box::new(Blown));
        }
    }
}

/// returns what is wrong
pub fn exercise<T: Kind>(i: &Input, at: &dyn Fn(&(i64, i64)) -> Point, r: &mut Rng) -> Option<String> {
    count(shared::C_EXOTIC);
    LIVE.with(|l| l.set(0));
    FUSE.with(|f| f.set(u32::MAX));
    let wrong = RefCell::new(None);
    let fail = |s: String| {
        wrong.borrow_mut().get_or_insert(format!("data {}: {s}", T::NAME));
    };
    let blown = catch_unwind(AssertUnwindSafe(|| {
        let next = Cell::new(0u32);
        let make = || {
            let k = next.get();
            next.set(k + 1);
            T::make(k)
        };
        let source = |ps: &[(i64, i64)], spare: usize| {
            let mut d = Vec::with_capacity(ps.len() + spare);
            d.extend(ps.iter().map(|_| make()));
            (ps.iter().map(|p| at(p)).collect::<Vec<_>>(), d)
        };
        let mut b = Builder::new(source(&i.outline, r.below(9) as usize));
        let mut want: Vec<Point> = i.outline.iter().map(|p| at(p)).collect();
        let mut old = vec![];
        let fuse = r.chance(1, 3).then(|| r.below(60) as u32);
        let mut fork = |b: &Builder<T>, r: &mut Rng| {
            if r.chance(1, 3) {
                if let Some(f) = fuse {
                    FUSE.with(|x| x.set(f));
                }
                old.push(b.clone());
                FUSE.with(|x| x.set(u32::MAX));
            }
        };
        if r.chance(1, 2) {
            let hs: Vec<_> = i.holes.iter().map(|h| source(h, 0)).collect();
            b = b.add_holes(hs);
            want.extend(i.holes.iter().flatten().map(|p| at(p)));
        } else {
            for h in &i.holes {
                fork(&b, r);
                b = b.add_hole(source(h, r.below(5) as usize));
                want.extend(h.iter().map(|p| at(p)));
            }
        }
        fork(&b, r);
        let mut k = 0;
        while k < i.steiner.len() {
            let n = if r.chance(1, 2) { 1 } else { 1 + r.index(i.steiner.len() - k) };
            if n == 1 && r.chance(2, 3) {
                b = b.add_steiner_point(at(&i.steiner[k]), make());
            } else {
                b = b.add_steiner_points(source(&i.steiner[k..k + n], r.below(3) as usize));
            }
            want.extend(i.steiner[k..k + n].iter().map(|p| at(p)));
            k += n;
            if r.chance(1, 4) {
                fork(&b, r);
            }
        }
        let c = b.build();
        let spare = r.chance(1, 3).then(|| c.clone());
        if r.chance(1, 4) {
            let end = r.below(30) as u32;
            let _ = catch_unwind(AssertUnwindSafe(|| c.triangulate_with_observer(&mut Ender(end)).count()));
        } else {
            let t = c.triangulate();
            if t.data().len() != want.len() || t.points().len() != want.len() {
                fail(format!("{} points were added, the result has {} and {} data", want.len(), t.points().len(), t.data().len()));
            }
            for (k, (p, d)) in t.points().iter().zip(t.data()).enumerate() {
                if (p.x.to_bits(), p.y.to_bits()) != (want[k].x.to_bits(), want[k].y.to_bits()) {
                    fail(format!("point {k} is another one"));
                }
                let k = if std::mem::size_of::<T>() == 1 { k as u32 & 255 } else { k as u32 };
                if d.which().is_some_and(|w| w != k) {
                    fail(format!("the datum of point {k} is not its own"));
                }
            }
            if r.chance(1, 2) {
                drop(t.count());
            }
        }
        if let Some(c) = spare {
            let d = c.triangulate();
            if d.data().len() != want.len() {
                fail(format!("a fork of {} points has {} data", want.len(), d.data().len()));
            }
        }
        for b in old {
            if r.chance(1, 2) {
                let t = b.build().triangulate();
                for (k, d) in t.data().iter().enumerate() {
                    let k = if std::mem::size_of::<T>() == 1 { k as u32 & 255 } else { k as u32 };
                    if d.which().is_some_and(|w| w != k) {
                        fail(format!("the datum of point {k} of a fork is not its own"));
                    }
                }
            }
        }
    }));
    FUSE.with(|f| f.set(u32::MAX));
    if let Err(e) = blown {
        if !e.is::<Blown>() {
            resume_unwind(e);
        }
    }
    let left = LIVE.with(|l| l.get());
    if left != 0 {
        fail(format!("{left} of them are alive at the end (less than none: dropped twice)"));
    }
    wrong.into_inner()
}
