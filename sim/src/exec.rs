//! Runs a plan: every task interprets its operations against the real library, and every answer of
//! the library is judged as it comes.
use crate::disk::{self, DiskFault};
use crate::geom::{Input, P};
use crate::plan::*;
use crate::prng::{derive, mix};
use crate::refs::{self, ev, ev_str, Ref};
use crate::sched::{self, Y_LEGAL, Y_POINT, Y_STEP, Y_USER};
use crate::seam::{self, lib, lib_mode, Quiet, TASK};
use crate::shared::{self, count, violation};
use crate::tok::{self, client_call, Injected, D};
use crate::view;
use poly2tri_rs::loader::{Loader, LoaderError, PlainFileLoader};
use poly2tri_rs::{Builder, Edge, Float, Observer, Point, PointDataSource, PointId, Sweeper, Triangle, TriangleId, CDT};
use std::any::Any;
use std::collections::{HashMap, VecDeque};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

// ------------------------------------------------------------------ trace

pub static TRACE: AtomicBool = AtomicBool::new(false);
pub fn trace(s: &str) {
    if TRACE.load(Relaxed) {
        let _q = Quiet::new();
        let t = TASK.with(|t| t.get());
        let who = if t == seam::NONE { "-".to_string() } else { t.to_string() };
        let line = format!("[{who}] {s}\n");
        unsafe { seam::raw(1, 1, line.as_ptr() as i64, line.len() as i64, 0, 0, 0) };
    }
}
macro_rules! tr {
    ($($a:tt)*) => { if TRACE.load(Relaxed) { let _q = Quiet::new(); trace(&format!($($a)*)); } };
}

/// the outcome disagrees with what the same input comes to on its own
const SOLO: &[u32] = &[1, 2, 3, 8, 16];

// ------------------------------------------------------------------ client code

pub fn pt(p: P, exp2: i32) -> Point {
    let f = (2f64).powi(exp2);
    Point::new((p.0 as f64 * f) as Float, (p.1 as f64 * f) as Float)
}
pub fn label(inp: u16, k: u32) -> u64 {
    (inp as u64) << 32 | k as u64
}
fn bits(p: &Point) -> (u64, u64) {
    (p.x.to_bits() as u64, p.y.to_bits() as u64)
}

pub trait Datum: Clone + 'static {
    fn mk(l: u64) -> Self;
    fn val(&self) -> Option<Result<u64, String>>;
    fn b(b: Builder<Self>, m: Meta) -> Val;
    fn c(c: CDT<Self>, m: Meta) -> Val;
    fn r(r: Res<Self>) -> Val;
}
impl Datum for () {
    fn mk(_: u64) {}
    fn val(&self) -> Option<Result<u64, String>> {
        None
    }
    fn b(b: Builder<()>, m: Meta) -> Val {
        Val::Bu(b, m)
    }
    fn c(c: CDT<()>, m: Meta) -> Val {
        Val::Cu(c, m)
    }
    fn r(r: Res<()>) -> Val {
        Val::Ru(r)
    }
}
impl Datum for D {
    fn mk(l: u64) -> D {
        D::new(l)
    }
    fn val(&self) -> Option<Result<u64, String>> {
        Some(self.read())
    }
    fn b(b: Builder<D>, m: Meta) -> Val {
        Val::Bd(b, m)
    }
    fn c(c: CDT<D>, m: Meta) -> Val {
        Val::Cd(c, m)
    }
    fn r(r: Res<D>) -> Val {
        Val::Rd(r)
    }
}

/// a point source of the client
pub struct Src<T> {
    pts: Vec<Point>,
    data: Vec<T>,
}
impl<T: Datum> Src<T> {
    pub fn of(inp: &Input, i: u16, pts: &[P], base: usize) -> Src<T> {
        let _q = Quiet::new();
        // clients hand over vectors with room to spare
        let r = mix(seam::MEM_SEED.load(Relaxed) ^ label(i, base as u32) ^ 0x51AC);
        let spare = |r: u64| if r % 4 == 0 { pts.len() * (1 + r as usize / 4 % 4) } else { pts.len() };
        let (mut p, mut data) = seam::gift(|| (Vec::with_capacity(spare(r)), Vec::with_capacity(spare(r >> 8))));
        p.extend(pts.iter().map(|p| pt(*p, inp.exp2)));
        data.extend((0..pts.len()).map(|k| T::mk(label(i, (base + k) as u32))));
        Src { pts: p, data }
    }
    pub fn ring(inputs: &[Input], i: u16, r: i16) -> Src<T> {
        let (ring, base) = ring_of(&inputs[i as usize], r);
        Src::of(&inputs[i as usize], i, ring, base)
    }
}
impl<T> PointDataSource for Src<T> {
    type Data = T;
    fn points_and_data(self) -> (Vec<Point>, Vec<T>) {
        client_call(shared::F_SOURCE);
        (self.pts, self.data)
    }
}
struct HoleIter<T> {
    left: VecDeque<Src<T>>,
}
impl<T> Iterator for HoleIter<T> {
    type Item = Src<T>;
    fn next(&mut self) -> Option<Src<T>> {
        client_call(shared::F_ITER);
        self.left.pop_front()
    }
}

pub struct AllocFailed;
pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if e.is::<AllocFailed>() {
        "allocation failure".into()
    } else if let Some(i) = e.downcast_ref::<Injected>() {
        format!("injected failure {}", i.0)
    } else {
        "a panic with an unknown payload".into()
    }
}

// ------------------------------------------------------------------ values

#[derive(Clone, Default)]
pub struct Meta {
    model: Option<Model>,
    /// what a load of something else than a plain input has to contain
    expect: Option<Expect>,
}
#[derive(Clone)]
pub struct Expect {
    rings: Vec<Vec<(Float, Float)>>,
    points: Vec<(Float, Float)>,
}
/// A finished result. Its type has no name outside the library, hence the wrapping.
pub trait Fin<T> {
    fn points(&self) -> &[Point];
    fn data(&self) -> &[T];
    fn triangle_list_indices(&self) -> Vec<u32>;
    fn next(&mut self) -> Option<Triangle>;
    fn nth(&mut self, n: usize) -> Option<Triangle>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn take(&mut self, n: usize) -> Vec<Triangle>;
    fn rest(&mut self) -> Vec<Triangle>;
    fn fold(self: Box<Self>) -> Vec<Triangle>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Triangle>;
    fn collect(self: Box<Self>) -> Vec<Triangle>;
}
struct Wrap<I, P, Q, X> {
    t: I,
    p: P,
    q: Q,
    x: X,
}
impl<T, I, P, Q, X> Fin<T> for Wrap<I, P, Q, X>
where
    I: Iterator<Item = Triangle>,
    P: for<'a> Fn(&'a I) -> &'a [Point],
    Q: for<'a> Fn(&'a I) -> &'a [T],
    X: Fn(&I) -> Vec<u32>,
{
    fn points(&self) -> &[Point] {
        (self.p)(&self.t)
    }
    fn data(&self) -> &[T] {
        (self.q)(&self.t)
    }
    fn triangle_list_indices(&self) -> Vec<u32> {
        (self.x)(&self.t)
    }
    fn next(&mut self) -> Option<Triangle> {
        self.t.next()
    }
    fn nth(&mut self, n: usize) -> Option<Triangle> {
        self.t.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.t.size_hint()
    }
    fn take(&mut self, n: usize) -> Vec<Triangle> {
        (&mut self.t).take(n).collect()
    }
    fn rest(&mut self) -> Vec<Triangle> {
        (&mut self.t).collect()
    }
    fn fold(self: Box<Self>) -> Vec<Triangle> {
        self.t.fold(vec![], |mut v, x| {
            let _u = lib_mode(0);
            v.push(x);
            v
        })
    }
    fn count(self: Box<Self>) -> usize {
        self.t.count()
    }
    fn last(self: Box<Self>) -> Option<Triangle> {
        self.t.last()
    }
    fn collect(self: Box<Self>) -> Vec<Triangle> {
        self.t.collect()
    }
}
fn wrap<T, I, P, Q, X>(t: I, p: P, q: Q, x: X) -> Box<dyn Fin<T>>
where
    T: 'static,
    I: Iterator<Item = Triangle> + 'static,
    P: for<'a> Fn(&'a I) -> &'a [Point] + 'static,
    Q: for<'a> Fn(&'a I) -> &'a [T] + 'static,
    X: Fn(&I) -> Vec<u32> + 'static,
{
    Box::new(Wrap { t, p, q, x })
}

pub struct Res<T> {
    t: Box<dyn Fin<T>>,
    ix: Vec<u32>,
    pts: Vec<(u64, u64)>,
    labels: Vec<u64>,
    cursor: usize,
}
pub enum Val {
    Empty,
    Bu(Builder<()>, Meta),
    Bd(Builder<D>, Meta),
    Cu(CDT<()>, Meta),
    Cd(CDT<D>, Meta),
    Ru(Res<()>),
    Rd(Res<D>),
}

#[derive(Default)]
struct Cell {
    val: Option<Val>,
    filled: bool,
    readers: u32,
    writer: bool,
}
type NodeAsk = Box<dyn for<'a, 'b> Fn(&'a Sweeper<'b>, u8) -> Option<(u32, (u64, u64))>>;
#[derive(Default)]
struct Pocket {
    places: Vec<usize>,
    tids: Vec<TriangleId>,
    pids: Vec<PointId>,
    at: Vec<Point>,
    nodes: Vec<NodeAsk>,
    n: usize,
}

pub struct World {
    pub plan: Plan,
    pub refs: HashMap<Model, Ref>,
    mail: HashMap<(u8, u8), VecDeque<Val>>,
    done: Vec<bool>,
    cells: Vec<Cell>,
    pocket: Pocket,
    uid: u32,
    pub ref_bad: bool,
    /// rounds finished by each task, and what the library held after each
    rounds: Vec<usize>,
    levels: Vec<u64>,
}
static mut W: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World {
    unsafe { &mut *W }
}

// ------------------------------------------------------------------ guarded calls

enum Failure {
    Injected(u32),
    Alloc,
    Panic(String),
}
struct Got<R> {
    r: Result<R, Failure>,
    alloc_failed: bool,
    fired: bool,
    uid: u32,
}

/// how often each seam will be met, for positions given as fractions
#[derive(Clone, Copy)]
struct Scale {
    allocs: u64,
    calls: u64,
}

fn guarded<R>(f: &OpFault, sc: Scale, body: impl FnOnce() -> R) -> Got<R> {
    use seam::{ALLOCS, ALLOC_FAILED, ALLOC_FAIL_AT};
    use tok::{CALLS, CALM, FAIL_AT, FIRED, UID};
    let uid = {
        let w = w();
        w.uid += 1;
        w.uid
    };
    let saved = (
        ALLOCS.with(|c| c.replace(0)),
        ALLOC_FAIL_AT.with(|c| c.replace(f.alloc.map(|a| resolve_count(a, sc.allocs) as u64).unwrap_or(u64::MAX))),
        ALLOC_FAILED.with(|c| c.replace(false)),
        CALLS.with(|c| c.replace(0)),
        FAIL_AT.with(|c| c.replace(f.user.map(|a| resolve_count(a, sc.calls)).unwrap_or(u32::MAX))),
        FIRED.with(|c| c.replace(0)),
        UID.with(|c| c.replace(uid)),
        CALM.with(|c| c.replace(0)),
    );
    let r = catch_unwind(AssertUnwindSafe(|| lib(body)));
    let _q = Quiet::new();
    let alloc_failed = ALLOC_FAILED.with(|c| c.get());
    let fired = FIRED.with(|c| c.get()) > 0;
    let r = r.map_err(|e| {
        if let Some(i) = e.downcast_ref::<Injected>() {
            Failure::Injected(i.0)
        } else if e.is::<AllocFailed>() {
            Failure::Alloc
        } else {
            Failure::Panic(panic_text(&*e))
        }
    });
    if alloc_failed {
        count(shared::F_ALLOC);
    }
    ALLOCS.with(|c| c.set(saved.0));
    ALLOC_FAIL_AT.with(|c| c.set(saved.1));
    ALLOC_FAILED.with(|c| c.set(saved.2));
    CALLS.with(|c| c.set(saved.3));
    FAIL_AT.with(|c| c.set(saved.4));
    FIRED.with(|c| c.set(saved.5));
    UID.with(|c| c.set(saved.6));
    CALM.with(|c| c.set(saved.7));
    Got { r, alloc_failed, fired, uid }
}

/// the value, if the call returned one; every failure must be one that was injected into this call
fn settle<R>(g: Got<R>, what: &str) -> Option<R> {
    match g.r {
        Ok(v) => {
            if g.fired {
                violation(&[3], &format!("{what}: client code panicked inside the call, yet the call returned normally"));
            }
            Some(v)
        }
        Err(Failure::Injected(u)) => {
            tr!("{what}: cut short by injected failure");
            if u != g.uid {
                violation(&[3], &format!("{what}: failed with a failure injected into another call"));
            }
            None
        }
        Err(Failure::Alloc) => {
            tr!("{what}: cut short by allocation failure");
            if !g.alloc_failed && !w().ref_bad {
                violation(&[13, 1, 2, 3, 8, 11, 16], &format!("{what}: ran out of memory"));
            }
            None
        }
        Err(Failure::Panic(m)) => {
            tr!("{what}: panicked: {m}");
            if g.fired {
                violation(&[3], &format!("{what}: client code panicked inside the call, but the caller saw another failure: {m}"));
            }
            if !g.alloc_failed && !w().ref_bad {
                violation(&[1, 2, 3, 4, 8, 13, 14, 16], &format!("{what}: panicked without cause: {m}"));
            }
            None
        }
    }
}
const NOFAULT: OpFault = OpFault { alloc: None, user: None };
const ANY: Scale = Scale { allocs: 12, calls: 8 };

// ------------------------------------------------------------------ the watching observer

struct Watch<'a> {
    task: *mut Task,
    obs: &'a Obs,
    r: Option<&'a Ref>,
    n: usize,
    k: usize,
    /// set when an injected panic has left this observer
    dead: bool,
    panic_at: Option<u32>,
    nested: Vec<(u32, usize)>,
    mesh: Option<view::Mesh>,
    stride: usize,
    last: Vec<usize>,
    depth: usize,
    uid: u32,
    last_event: u64,
    edges: usize,
    final_result: Option<Vec<[u32; 3]>>,
}

impl Watch<'_> {
    fn hit(&mut self, e: u64, ctx: &Sweeper) {
        let _u = lib_mode(0);
        let kind = (e >> 60) as usize;
        count(shared::C_CB);
        let k = self.k;
        self.k += 1;
        sched::yield_point(if kind <= 4 { Y_POINT } else { Y_LEGAL });
        if TRACE.load(Relaxed) {
            tr!("    callback {k}: {}", ev_str(e));
        }
        self.last_event = e;
        if self.dead {
            violation(&[5, 3], &format!("callback {k}, {}, was made after a callback had failed", ev_str(e)));
        }
        if k > refs::cap(self.n) {
            violation(&[13], &format!("{} points, more than {k} callbacks and no end", self.n));
            if w().ref_bad {
                shared::unusable("endless, as on its own");
            }
        }
        if let Some(r) = self.r {
            if r.events.get(k) != Some(&e) {
                let _q = Quiet::new();
                let want = r.events.get(k).map(|e| ev_str(*e)).unwrap_or("no further callback".into());
                violation(
                    &[5, 1, 2, 3, 8, 16],
                    &format!("callback {k} is {}, in the undisturbed run of the same input it is {want}", ev_str(e)),
                );
            }
        }
        if let Some(m) = &mut self.mesh {
            let (a, b) = ((e >> 30 & 0x3fff_ffff) as u32, (e & 0x3fff_ffff) as u32);
            m.completed(kind, a, b);
        }
        let mut every = self.obs.every.max(1) as usize;
        let fl = self.obs.flags;
        self.edges += (kind == 3) as usize;
        let mut now = kind == 4 || kind == 3;
        if fl & MESH != 0 && self.n > 300 {
            // reading a large mesh takes long
            every = every.max(self.n / 20);
            now = kind == 4 || kind == 3 && (self.edges <= 30 || self.edges % 16 == 0);
        }
        if k % every == 0 || now {
            if fl & MESH != 0 {
                self.mesh_check(k, kind, e, ctx);
            }
            if fl & PEEK != 0 {
                count(shared::C_PEEK);
                std::hint::black_box(view::peek(ctx, derive(self.uid as u64, k as u64)));
            }
            if fl & CHURN != 0 {
                churn(k);
            }
            if fl & RETAIN != 0 {
                self.retain(k, ctx);
            }
            if fl & PROBE != 0 {
                self.probe(k, ctx);
            }
            if fl & SPIN != 0 {
                for _ in 0..4 {
                    sched::yield_point(Y_USER);
                }
            }
            if fl & PAUSE != 0 {
                sched::pause(1_000_000 + mix(k as u64) % 3_600_000_000_000);
            }
        }
        if self.obs.flags & (PEEK | MESH) != 0 && k % self.stride == 0 {
            if let Some(want) = self.r.and_then(|r| r.digests.get(k / self.stride)) {
                count(shared::C_DIGEST);
                if view::digest(ctx) != *want {
                    violation(
                        &[8, 1, 2, 3, 5],
                        &format!("the state visible at callback {k}, {}, differs from the one an idle observer saw there", ev_str(e)),
                    );
                }
            }
        }
        if kind == 4 {
            self.final_result = Some(
                ctx.result
                    .iter()
                    .map(|t| {
                        let t = t.get(&ctx.triangles);
                        [t.points[0].as_u32(), t.points[1].as_u32(), t.points[2].as_u32()]
                    })
                    .collect(),
            );
        }
        let due: Vec<usize> = self.nested.iter().filter(|n| n.0 as usize == k).map(|n| n.1).collect();
        for i in due {
            let before = if self.r.is_some() { Some(view::digest(ctx)) } else { None };
            let task = unsafe { &mut *self.task };
            tr!("    nested operations begin");
            task.depth += 1;
            for op in &self.obs.nested[i].ops {
                count(shared::C_NESTED_OPS);
                task.op(op);
            }
            task.depth -= 1;
            tr!("    nested operations end");
            if before.is_some() && before != Some(view::digest(ctx)) {
                violation(&[2, 1, 3], &format!("work nested in callback {k} changed the outer run"));
            }
        }
        if self.panic_at == Some(k as u32) {
            self.dead = true;
            count(shared::F_CB_PANIC + kind);
            tr!("    client panics in callback {k}");
            tok::FIRED.with(|f| f.set(f.get() + 1));
            let _q = Quiet::new();
            std::panic::panic_any(Injected(tok::UID.with(|u| u.get())));
        }
    }

    fn mesh_check(&mut self, k: usize, kind: usize, e: u64, ctx: &Sweeper) {
        let Some(m) = &mut self.mesh else { return };
        count(shared::C_MESH);
        let b = m.check(kind, ctx);
        for (prop, why) in [(6, b.structure), (7, b.whole)] {
            if let Some(why) = why {
                violation(&[prop], &format!("callback {k}, {}: {why}", ev_str(e)));
            }
        }
    }

    fn retain(&mut self, k: usize, ctx: &Sweeper) {
        let p = &mut w().pocket;
        fn put<T>(v: &mut Vec<T>, n: usize, x: T) {
            if v.len() < 48 {
                v.push(x)
            } else {
                v[n % 48] = x
            }
        }
        p.n += 7;
        let n = p.n + k;
        if ctx.triangles.len() > 0 {
            let last = ctx.triangles.len() - 1;
            put(&mut p.tids, n, TriangleId::from_index(if n % 3 == 0 { last } else { mix(n as u64) as usize % (last + 1) }));
            if n % 29 == 0 {
                put(&mut p.tids, n + 1, TriangleId::INVALID);
            }
        }
        let np = ctx.points.len();
        let pick = if n % 4 == 0 { np - 1 } else { mix(n as u64 ^ 9) as usize % np };
        if let Some((id, at, _)) = ctx.points.iter().nth(pick) {
            put(&mut p.pids, n, id);
            put(&mut p.at, n, *at);
            let off = (mix(n as u64) % 5) as Float;
            put(&mut p.at, n + 1, Point::new(at.x + off, at.y - off));
        }
        let len = ctx.advancing_front.iter().count();
        put(&mut p.places, n, [len, len - 1, np, np - 1, np - 2, pick, ctx.triangles.len()][n % 7]);
        let i = match n % 3 {
            0 => 0,
            1 => len - 1,
            _ => mix(n as u64 ^ 5) as usize % len,
        };
        if let Some(node) = ctx.advancing_front.nth(i) {
            let id = node.get_node_id();
            put(
                &mut p.nodes,
                n,
                Box::new(move |c, how| {
                    let f = match how % 3 {
                        0 => c.advancing_front.get_node_with_id(id),
                        1 => c.advancing_front.locate_next_node(id),
                        _ => c.advancing_front.locate_prev_node(id),
                    };
                    f.map(|n| (n.point_id().as_u32(), bits(&n.point())))
                }),
            );
        }
    }

    /// look up what was kept from elsewhere: absent, a panic, or something of this run
    fn probe(&mut self, k: usize, ctx: &Sweeper) {
        let p = &w().pocket;
        let mut rng = crate::prng::Rng::new(derive(self.uid as u64 ^ 0xB0, k as u64));
        let here: Vec<usize> = ctx.triangles.iter().map(|(_, t)| t as *const _ as usize).collect();
        let front: Vec<(u32, (u64, u64))> = ctx.advancing_front.iter().map(|n| (n.point_id().as_u32(), bits(&n.point()))).collect();
        let points: Vec<(u64, u64)> = ctx.points.iter().map(|(_, p, _)| bits(p)).collect();
        for _ in 0..8 {
            count(shared::C_PROBE);
            let r = rng.next_u64();
            let sel = r >> 8;
            let mut foreign: Option<String> = None;
            let ask = catch_unwind(AssertUnwindSafe(|| -> bool {
                match r % 10 {
                    8 if !p.places.is_empty() => {
                        let at = p.places[sel as usize % p.places.len()] + (sel >> 32 & 1) as usize;
                        let got = ctx.advancing_front.nth(at).map(|n| {
                            std::hint::black_box((n.next().is_some(), n.prev().is_some()));
                            (n.point_id().as_u32(), bits(&n.point()))
                        });
                        if let Some(g) = got {
                            if front.get(at) != Some(&g) {
                                foreign = Some(format!("front node {g:?} at place {at} of {}", front.len()));
                            }
                        }
                        got.is_some()
                    }
                    9 if !p.places.is_empty() => {
                        let at = p.places[sel as usize % p.places.len()] + (sel >> 32 & 1) as usize;
                        let got = match sel >> 33 & 1 {
                            0 => ctx.points.get_id_by_y(at).map(|i| (i, None)),
                            _ => ctx.points.iter_point_by_y(at).next().map(|(i, p, _)| (i, Some(bits(&p)))),
                        };
                        if let Some((i, q)) = got {
                            if i.as_usize() >= points.len() || q.map_or(false, |q| q != points[i.as_usize()]) {
                                foreign = Some(format!("point {} of {} at place {at}", i.as_usize(), points.len()));
                            }
                        }
                        got.is_some()
                    }
                    0 | 1 if !p.tids.is_empty() => {
                        let id = p.tids[sel as usize % p.tids.len()];
                        let got = match sel >> 32 & 3 {
                            0 => ctx.triangles.get(id),
                            1 => id.try_get(&ctx.triangles),
                            2 => Some(id.get(&ctx.triangles)),
                            _ => Some(ctx.triangles.get_unchecked(id)),
                        };
                        if let Some(t) = got {
                            let q = *t; // touch it
                            if here.get(id.as_usize()) != Some(&(t as *const _ as usize)) {
                                foreign = Some(format!("triangle {} of {}: {:?}", id.as_usize(), here.len(), q.points));
                            }
                            if let Some(&pid) = p.pids.get(sel as usize % p.pids.len().max(1)) {
                                std::hint::black_box(q.point_index(pid));
                                std::hint::black_box(t.neighbor_across(pid));
                            }
                        }
                        got.is_some()
                    }
                    2 | 3 if !p.pids.is_empty() => {
                        let id = p.pids[sel as usize % p.pids.len()];
                        let got = ctx.points.get_point(id);
                        if let Some(q) = got {
                            if points.get(id.as_usize()) != Some(&bits(&q)) {
                                foreign = Some(format!("point {} of {}: {q:?}", id.as_usize(), points.len()));
                            }
                        }
                        got.is_some()
                    }
                    4 | 5 if !p.at.is_empty() => {
                        let at = p.at[sel as usize % p.at.len()];
                        let got = if r % 10 == 4 { ctx.advancing_front.locate_node(at) } else { ctx.advancing_front.get_node(at) };
                        let got = got.map(|n| {
                            std::hint::black_box((n.next().is_some(), n.prev().is_some()));
                            (n.point_id().as_u32(), bits(&n.point()))
                        });
                        if let Some(g) = got {
                            if !front.contains(&g) {
                                foreign = Some(format!("front node {g:?} at {at:?}"));
                            }
                        }
                        got.is_some()
                    }
                    _ if !p.nodes.is_empty() => {
                        let f = &p.nodes[sel as usize % p.nodes.len()];
                        let got = f(ctx, (sel >> 32) as u8);
                        if let Some(g) = got {
                            if !front.contains(&g) {
                                foreign = Some(format!("front node {g:?}"));
                            }
                        }
                        got.is_some()
                    }
                    _ => false,
                }
            }));
            match ask {
                Ok(true) => count(shared::C_PROBE_FOUND),
                Ok(false) => count(shared::C_PROBE_ABSENT),
                Err(_) => count(shared::C_PROBE_PANIC),
            }
            if let Some(f) = foreign {
                violation(&[15], &format!("callback {k}: a lookup of a kept identifier returned {f}, which is nothing of this run"));
            }
        }
    }
}

fn churn(k: usize) {
    // client code allocating between the library's own allocations
    let keep = seam::ALLOCS.with(|a| a.get());
    let fail = seam::ALLOC_FAIL_AT.with(|a| a.replace(u64::MAX));
    {
        let _l = lib_mode(1);
        let mut v: Vec<Vec<u64>> = Vec::new();
        for i in 0..3 {
            v.push(vec![0xAAAA_AAAA_AAAA_AAAA; 4 + (k * 7 + i * 13) % 90]);
        }
        v.swap_remove(0);
        std::hint::black_box(&v);
    }
    seam::ALLOCS.with(|a| a.set(keep));
    seam::ALLOC_FAIL_AT.with(|a| a.set(fail));
}

impl Observer for Watch<'_> {
    fn enter_point_event(&mut self, p: PointId, c: &Sweeper) {
        self.hit(ev(refs::K_ENTER, p.as_usize(), 0), c)
    }
    fn exit_point_event(&mut self, p: PointId, c: &Sweeper) {
        self.hit(ev(refs::K_EXIT, p.as_usize(), 0), c)
    }
    fn edge_event(&mut self, e: Edge, c: &Sweeper) {
        self.hit(ev(refs::K_EDGE, e.p.as_usize(), e.q.as_usize()), c)
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.hit(ev(refs::K_DONE, 0, 0), c)
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.hit(ev(refs::K_FINAL, 0, 0), c)
    }
    fn will_legalize(&mut self, t: TriangleId, c: &Sweeper) {
        self.hit(ev(refs::K_WILL, t.as_usize(), 0), c)
    }
    fn legalize_step(&mut self, t: TriangleId, c: &Sweeper) {
        self.hit(ev(refs::K_STEP, t.as_usize(), 0), c)
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, c: &Sweeper) {
        self.hit(ev(refs::K_ROT, t.as_usize(), o.as_usize()), c)
    }
    fn legalized(&mut self, t: TriangleId, c: &Sweeper) {
        self.hit(ev(refs::K_LEGAL, t.as_usize(), 0), c)
    }
}

/// reads what a loaded builder contains and gives up
struct Snoop {
    points: Vec<(u64, u64)>,
    edges: Vec<(u32, u32)>,
    got: bool,
}
struct Enough;
impl Snoop {
    fn look(&mut self, c: &Sweeper) {
        let _u = lib_mode(0);
        for (id, p, e) in c.points.iter_without_fake() {
            self.points.push(bits(p));
            for q in e {
                self.edges.push((q.as_u32().min(id.as_u32()), q.as_u32().max(id.as_u32())));
            }
        }
        self.edges.sort();
        self.got = true;
        let _q = Quiet::new();
        std::panic::panic_any(Enough);
    }
}
impl Observer for Snoop {
    fn enter_point_event(&mut self, _: PointId, c: &Sweeper) {
        self.look(c)
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.look(c)
    }
}

// ------------------------------------------------------------------ tasks

pub struct Task {
    t: usize,
    slots: Vec<Val>,
    loaders: Vec<PlainFileLoader>,
    depth: usize,
}

/// cuts a run short at some callback
struct Quit {
    left: u32,
}
impl Quit {
    fn hit(&mut self) {
        if self.left == 0 {
            std::panic::resume_unwind(Box::new(()));
        }
        self.left -= 1;
    }
}
impl Observer for Quit {
    fn enter_point_event(&mut self, _: PointId, _: &Sweeper) {
        self.hit()
    }
    fn edge_event(&mut self, _: poly2tri_rs::Edge, _: &Sweeper) {
        self.hit()
    }
    fn will_legalize(&mut self, _: TriangleId, _: &Sweeper) {
        self.hit()
    }
    fn legalized(&mut self, _: TriangleId, _: &Sweeper) {
        self.hit()
    }
    fn sweep_done(&mut self, _: &Sweeper) {
        panic_past_the_end()
    }
}
fn panic_past_the_end() {
    std::panic::resume_unwind(Box::new(()))
}

macro_rules! builder {
    ($v:expr, |$b:ident, $m:ident| $body:expr) => {
        match $v {
            Val::Bu($b, $m) => $body,
            Val::Bd($b, $m) => $body,
            other => {
                $v = other;
            }
        }
    };
}

impl Task {
    fn new(t: usize) -> Task {
        Task { t, slots: (0..SLOTS).map(|_| Val::Empty).collect(), loaders: (0..3).map(|_| PlainFileLoader::default()).collect(), depth: 0 }
    }
    fn take(&mut self, s: u8) -> Val {
        std::mem::replace(&mut self.slots[s as usize % SLOTS], Val::Empty)
    }
    fn put(&mut self, s: u8, v: Val) {
        self.slots[s as usize % SLOTS] = v;
    }
    fn clear(&mut self, s: u8) {
        let v = self.take(s);
        if !matches!(v, Val::Empty) {
            settle(guarded(&NOFAULT, ANY, move || drop(v)), "drop");
        }
    }

    fn new_builder<T: Datum>(&mut self, s: u8, inp: u16, f: &OpFault) {
        let inputs = &w().plan.inputs;
        let src = Src::<T>::ring(inputs, inp, 0);
        let n = src.pts.len() as u64;
        let g = guarded(f, Scale { allocs: 4, calls: n.min(4) }, move || Builder::new(src));
        if let Some(b) = settle(g, "Builder::new") {
            self.put(s, T::b(b, Meta { model: Some(Model { items: vec![(inp, 0, 0)] }), expect: None }));
        }
    }
    fn add_holes<T: Datum>(&mut self, s: u8, b: Builder<T>, mut m: Meta, inp: u16, h0: u16, n: u16, many: bool, f: &OpFault) {
        let inputs = &w().plan.inputs;
        let i = &inputs[inp as usize];
        let hi = h0.saturating_add(n).min(i.holes.len() as u16);
        let srcs: VecDeque<Src<T>> = (h0..hi).map(|h| Src::ring(inputs, inp, h as i16 + 1)).collect();
        let calls = 2 * srcs.len() as u64 + 1;
        let g = if many {
            guarded(f, Scale { allocs: 3 * calls, calls }, move || b.add_holes(HoleIter { left: srcs }))
        } else {
            guarded(f, Scale { allocs: 3 * calls, calls }, move || {
                let mut b = b;
                for s in srcs {
                    b = b.add_hole(s);
                }
                b
            })
        };
        if let Some(b) = settle(g, "add_hole") {
            if let Some(model) = &mut m.model {
                add_holes(inputs, model, inp, h0, n);
            }
            self.put(s, T::b(b, m));
        }
    }
    fn add_points<T: Datum>(&mut self, s: u8, b: Builder<T>, mut m: Meta, inp: u16, from: u16, n: u16, batch: bool, f: &OpFault) {
        let inputs = &w().plan.inputs;
        let i = &inputs[inp as usize];
        let lo = (from as usize).min(i.steiner.len());
        let hi = (from as usize + n as usize).min(i.steiner.len());
        let src = Src::<T>::of(i, inp, &i.steiner[lo..hi], steiner_base(i) + lo);
        let sc = Scale { allocs: 4, calls: 2 };
        let g = if batch {
            guarded(f, sc, move || b.add_steiner_points(src))
        } else {
            guarded(f, sc, move || {
                let mut b = b;
                for (p, d) in src.pts.into_iter().zip(src.data) {
                    b = b.add_steiner_point(p, d);
                }
                b
            })
        };
        if let Some(b) = settle(g, "add_steiner_point") {
            if let Some(model) = &mut m.model {
                add_points(inputs, model, inp, from, n);
            }
            self.put(s, T::b(b, m));
        }
    }

    fn tri<T: Datum>(&mut self, s: u8, cdt: CDT<T>, m: Meta, obs: &Obs, f: &OpFault) {
        let wd = w();
        let Some(model) = m.model else {
            settle(guarded(&NOFAULT, ANY, move || drop(cdt)), "drop");
            return;
        };
        let Some(r) = wd.refs.get(&model) else {
            settle(guarded(&NOFAULT, ANY, move || drop(cdt)), "drop");
            return;
        };
        let r: &'static Ref = unsafe { &*(r as *const Ref) };
        let inputs = &wd.plan.inputs;
        let n = model.points(inputs).len();
        let mut good = Some(r);
        if r.status != 0 {
            violation(&[13], &format!("triangulating input {} on its own {}", describe(&model), r.describe()));
            wd.ref_bad = true;
            shared::rec().ref_bad = 1;
            good = None;
            let mesh_only = matches!(wd.plan.prop, 6 | 7) && obs.mode == 2;
            if !mesh_only {
                settle(guarded(&NOFAULT, ANY, move || drop(cdt)), "drop");
                return;
            }
        } else {
            if !r.proto.is_empty() {
                violation(&[5], &format!("input {} on its own: {}", describe(&model), String::from_utf8_lossy(&r.proto)));
            }
            check_edges(r, &model, inputs);
        }
        count(shared::C_TRI);
        shared::add(shared::C_POINTS, n as u64);
        if self.depth > 0 {
            count(shared::C_TRI_NESTED);
        }
        let what = format!("triangulation of {}", describe(&model));
        tr!("{what}, observer mode {}", obs.mode);
        let sc = Scale { allocs: r.allocs.max(1), calls: r.calls.max(1) };
        let kinds: Vec<u8> = r.events.iter().map(|e| (e >> 60) as u8).collect();
        let mut watch = Watch {
            task: self,
            obs,
            r: good,
            n,
            k: 0,
            dead: false,
            panic_at: obs.panic_at.map(|a| resolve_cb(a, &kinds)),
            nested: obs.nested.iter().enumerate().map(|(i, x)| (resolve_cb(x.at, &kinds), i)).collect(),
            mesh: (obs.flags & MESH != 0).then(|| view::Mesh::new(&model, inputs)),
            stride: refs::stride(n),
            last: vec![],
            depth: self.depth,
            uid: s as u32 + 16 * self.t as u32,
            last_event: 0,
            edges: 0,
            final_result: None,
        };
        let running = sched::Running::new();
        let g = match obs.mode {
            0 => guarded(f, sc, move || cdt.triangulate()),
            1 => guarded(f, sc, move || cdt.triangulate_with_observer(&mut ())),
            _ => {
                count(shared::C_TRI_OBS);
                let wt: *mut Watch = &mut watch;
                guarded(f, sc, move || cdt.triangulate_with_observer(unsafe { &mut *wt }))
            }
        };
        drop(running);
        let ok = settle(g, &what);
        let _ = (&watch.last, watch.depth, watch.last_event);
        shared::note(watch.k as u64 ^ (ok.is_some() as u64) << 40);
        let Some(t) = ok else { return };
        let t = {
            let _q = Quiet::new();
            wrap(t, |t| t.points(), |t| t.data(), |t| t.triangle_list_indices())
        };
        if obs.mode == 2 {
            if let Some(r) = good {
                if watch.k != r.events.len() {
                    violation(
                        &[5, 1, 2, 3, 8, 16],
                        &format!("{what}: ended after {} callbacks, {} in the undisturbed run", watch.k, r.events.len()),
                    );
                }
            }
            if watch.k > 0 && watch.final_result.is_none() {
                violation(&[5], &format!("{what}: returned without 'finalized'"));
            }
        }
        let Some(ix) = settle(guarded(&NOFAULT, ANY, || t.triangle_list_indices()), "triangle_list_indices") else { return };
        let res = Res {
            pts: t.points().iter().map(bits).collect(),
            labels: t.data().iter().filter_map(|d| d.val()).map(|x| x.unwrap_or(u64::MAX)).collect(),
            t,
            ix,
            cursor: 0,
        };
        self.judge(&res, good, &model, &watch.final_result, &what);
        count(shared::C_COMPARE);
        shared::note(res.ix.iter().fold(7, |h, x| mix(h ^ *x as u64)));
        let v = T::r(res);
        self.clear(s);
        self.put(s, v);
    }

    fn judge<T: Datum>(&self, res: &Res<T>, r: Option<&Ref>, model: &Model, fin: &Option<Vec<[u32; 3]>>, what: &str) {
        let _q = Quiet::new();
        let inputs = &w().plan.inputs;
        let e = model.exp2(inputs);
        let want: Vec<(u64, u64)> = model.coords(inputs).iter().map(|p| bits(&pt(*p, e))).collect();
        if res.pts != want {
            violation(&[16, 4, 14, 1, 2, 3], &format!("{what}: the points of the result are not the points added, in order ({} for {})", res.pts.len(), want.len()));
        }
        let who: Vec<u64> = model.points(inputs).iter().map(|&(i, k)| label(i, k)).collect();
        if std::mem::size_of::<T>() > 0 {
            for d in res.t.data() {
                if let Some(Err(m)) = d.val() {
                    violation(&[4, 16, 3], &format!("{what}: the result holds {m}"));
                }
            }
            if res.labels != who {
                let at = (0..who.len()).find(|&i| res.labels.get(i) != Some(&who[i])).unwrap_or(who.len());
                violation(&[4, 16, 1, 2, 3], &format!("{what}: datum {at} of the result is not the one attached to point {at}"));
            }
        } else if res.t.data().len() != want.len() {
            violation(&[4, 16], &format!("{what}: {} data for {} points", res.t.data().len(), want.len()));
        }
        if res.ix.len() % 3 != 0 || res.ix.iter().any(|&i| i as usize >= want.len()) {
            violation(&[14], &format!("{what}: an index names no input point"));
        }
        if let Some(r) = r {
            if res.ix != r.indices {
                violation(
                    SOLO,
                    &format!("{what}: {} triangles, differing from the {} of the same input on its own", res.ix.len() / 3, r.indices.len() / 3),
                );
            }
        }
        if let Some(f) = fin {
            let flat: Vec<u32> = f.iter().flatten().copied().collect();
            if flat != res.ix {
                violation(&[7, 14], &format!("{what}: the result returned is not the one shown when the run was reported finished"));
            }
        }
    }

    fn use_result<T: Datum>(&mut self, mut r: Res<T>, how: u8, n: u32, f: &OpFault) -> Option<Res<T>> {
        count(shared::C_CONSUME);
        if how == 5 || how == 7 || how == 8 || how == 9 {
            consume(r, how, f);
            return None;
        }
        use_ref(&mut r, how, n, f);
        Some(r)
    }

    pub fn op(&mut self, op: &Op) {
        sched::yield_point(Y_STEP);
        count(shared::C_OPS);
        if TRACE.load(Relaxed) {
            let _q = Quiet::new();
            let mut s = format!("{op:?}");
            if s.len() > 600 {
                s.truncate(600);
                s.push_str("...");
            }
            trace(&s);
        }
        let ninp = w().plan.inputs.len();
        match op {
            Op::New { s, inp, unit, f } => {
                self.clear(*s);
                if *inp as usize >= ninp {
                    return;
                }
                if *unit {
                    self.new_builder::<()>(*s, *inp, f)
                } else {
                    self.new_builder::<D>(*s, *inp, f)
                }
            }
            Op::Hole { s, inp, h, f } if (*inp as usize) < ninp => {
                let mut v = self.take(*s);
                builder!(v, |b, m| {
                    self.add_holes(*s, b, m, *inp, *h, 1, false, f);
                    return;
                });
                self.put(*s, v);
            }
            Op::Holes { s, inp, h0, n, f } if (*inp as usize) < ninp => {
                let mut v = self.take(*s);
                builder!(v, |b, m| {
                    self.add_holes(*s, b, m, *inp, *h0, *n, true, f);
                    return;
                });
                self.put(*s, v);
            }
            Op::St { s, inp, from, n, batch, f } if (*inp as usize) < ninp => {
                let mut v = self.take(*s);
                builder!(v, |b, m| {
                    self.add_points(*s, b, m, *inp, *from, *n, *batch, f);
                    return;
                });
                self.put(*s, v);
            }
            Op::Clone { s, to, f } => {
                if *s as usize % SLOTS == *to as usize % SLOTS {
                    return;
                }
                let over = if *to & OVER != 0 { self.take(*to) } else { Val::Empty };
                self.clear(*to);
                let n = match &self.slots[*s as usize % SLOTS] {
                    Val::Bd(_, m) | Val::Cd(_, m) => m.model.as_ref().map(|m| m.points(&w().plan.inputs).len()).unwrap_or(1),
                    _ => 1,
                } as u64;
                let sc = Scale { allocs: 4, calls: n };
                macro_rules! over {
                    ($o:expr, $b:expr, $m:expr, $v:path) => {{
                        let mut o = $o;
                        let b = $b;
                        match settle(guarded(f, sc, || o.clone_from(b)), "clone_from") {
                            Some(()) => Some($v(o, $m.clone())),
                            // whatever it is now
                            None => settle(guarded(&NOFAULT, ANY, move || drop(o)), "drop").and(None),
                        }
                    }};
                }
                let v = match (&self.slots[*s as usize % SLOTS], over) {
                    (Val::Bu(b, m), Val::Bu(o, _)) => over!(o, b, m, Val::Bu),
                    (Val::Bd(b, m), Val::Bd(o, _)) => over!(o, b, m, Val::Bd),
                    (Val::Cu(b, m), Val::Cu(o, _)) => over!(o, b, m, Val::Cu),
                    (Val::Cd(b, m), Val::Cd(o, _)) => over!(o, b, m, Val::Cd),
                    (v, over) => {
                    settle(guarded(&NOFAULT, ANY, move || drop(over)), "drop");
                    match v {
                    Val::Bu(b, m) => settle(guarded(f, sc, || b.clone()), "clone").map(|b| Val::Bu(b, m.clone())),
                    Val::Bd(b, m) => settle(guarded(f, sc, || b.clone()), "clone").map(|b| Val::Bd(b, m.clone())),
                    Val::Cu(b, m) => settle(guarded(f, sc, || b.clone()), "clone").map(|b| Val::Cu(b, m.clone())),
                    Val::Cd(b, m) => settle(guarded(f, sc, || b.clone()), "clone").map(|b| Val::Cd(b, m.clone())),
                    _ => None,
                    }
                    }
                };
                if let Some(v) = v {
                    count(shared::C_FORK);
                    self.put(*to, v);
                }
            }
            Op::Build { s, f } => {
                let v = self.take(*s);
                let sc = Scale { allocs: 5, calls: 1 };
                let v = match v {
                    // what a torn file contains need not be buildable
                    Val::Bu(b, m) if m.model.is_none() => Val::Bu(b, m),
                    Val::Bu(b, m) => match settle(guarded(f, sc, move || b.build()), "build") {
                        Some(c) => Val::Cu(c, m),
                        None => Val::Empty,
                    },
                    Val::Bd(b, m) => match settle(guarded(f, sc, move || b.build()), "build") {
                        Some(c) => Val::Cd(c, m),
                        None => Val::Empty,
                    },
                    v => v,
                };
                self.put(*s, v);
            }
            Op::Tri { s, obs, f } => match self.take(*s) {
                Val::Cu(c, m) => self.tri(*s, c, m, obs, f),
                Val::Cd(c, m) => self.tri(*s, c, m, obs, f),
                v => self.put(*s, v),
            },
            Op::Use { s, how, n, f } => {
                let v = match self.take(*s) {
                    Val::Ru(r) => self.use_result(r, *how, *n, f).map(Val::Ru),
                    Val::Rd(r) => self.use_result(r, *how, *n, f).map(Val::Rd),
                    v => Some(v),
                };
                self.put(*s, v.unwrap_or(Val::Empty));
            }
            Op::Drop { s, f } => {
                let v = self.take(*s);
                let n = match &v {
                    Val::Bd(_, m) | Val::Cd(_, m) => m.model.as_ref().map(|m| m.points(&w().plan.inputs).len()).unwrap_or(1),
                    Val::Rd(r) => r.pts.len(),
                    _ => 1,
                } as u64;
                settle(guarded(f, Scale { allocs: 1, calls: n }, move || drop(v)), "drop");
            }
            Op::Send { s, to } => {
                let v = self.take(*s);
                count(shared::C_SENT);
                w().mail.entry((self.t as u8, *to)).or_default().push_back(v);
                sched::notify();
            }
            Op::Recv { s, from } => {
                self.clear(*s);
                let key = (*from, self.t as u8);
                if *from as usize >= self.t {
                    return;
                }
                sched::wait_until(|| w().mail.get(&key).map_or(false, |q| !q.is_empty()) || w().done[key.0 as usize]);
                if let Some(v) = w().mail.get_mut(&key).and_then(|q| q.pop_front()) {
                    self.put(*s, v);
                }
            }
            Op::Publish { s, cell } => {
                let v = self.take(*s);
                let Some(c) = w().cells.get_mut(*cell as usize) else { return };
                if matches!(v, Val::Ru(_) | Val::Rd(_)) && !c.filled {
                    c.val = Some(v);
                    c.filled = true;
                    sched::notify();
                } else {
                    self.put(*s, v);
                }
            }
            Op::Shared { cell, how, n } => self.shared_use(*cell as usize, *how, *n),
            Op::Load { s, loader, file, faults, f } => self.load(*s, *loader, *file, faults, f),
            Op::Snoop { s } => self.snoop(*s),
            Op::Write { file, content, mode, chunk, crash } => self.write(*file, *content, *mode, *chunk, *crash),
            Op::Round {} if self.depth == 0 => self.round(),
            Op::Storm { n, how } => self.storm(*n, *how),
            Op::Exotic { inp, kind, seed } if (*inp as usize) < ninp => {
                use crate::exotic::*;
                let i = &w().plan.inputs[*inp as usize];
                let at = |p: &P| pt(*p, i.exp2);
                let mut r = crate::prng::Rng::new(*seed);
                let running = sched::Running::new();
                let g = guarded(&NOFAULT, ANY, || match kind % 5 {
                    0 => exercise::<Zero>(i, &at, &mut r),
                    1 => exercise::<Wide>(i, &at, &mut r),
                    2 => exercise::<Text>(i, &at, &mut r),
                    3 => exercise::<Both>(i, &at, &mut r),
                    _ => exercise::<Byte>(i, &at, &mut r),
                });
                drop(running);
                if let Some(Some(s)) = settle(g, "a history with data of another kind") {
                    violation(&[4, 16, 3], &s);
                }
            }
            Op::Pause { ms } => sched::pause(*ms as u64 * 1_000_000),
            _ => {}
        }
    }

    fn storm(&mut self, n: u32, how: u8) {
        count(shared::C_STORM);
        shared::add(shared::C_TRI, if how & 3 == 3 { 0 } else { n as u64 });
        let first = std::cell::Cell::new(None);
        let odd = std::cell::Cell::new(None);
        let running = sched::Running::new();
        let g = guarded(&NOFAULT, ANY, || {
            for i in 0..n {
                let ring = [(0., 0.), (9., 1.), (8., 7.), (-1., 6.)];
                let ring = if how & 4 == 0 { &ring[..3] } else { &ring[..] };
                let mut b = Builder::new(ring.iter().map(|p| Point::new(p.0, p.1)).collect::<Vec<_>>());
                if how & 4 != 0 {
                    b = b.add_steiner_point(Point::new(4., 3.), ());
                }
                let c = b.build();
                let seen = match how & 3 {
                    0 => c.triangulate().count(),
                    1 => {
                        let mut o = Quit { left: i % 7 };
                        let r = catch_unwind(AssertUnwindSafe(|| c.triangulate_with_observer(&mut o).count()));
                        r.is_ok() as usize
                    }
                    2 => c.triangulate_with_observer(&mut ()).next().is_some() as usize,
                    _ => 0,
                };
                if first.get().is_none() {
                    first.set(Some(seen));
                }
                if first.get() != Some(seen) && odd.get().is_none() {
                    odd.set(Some((i, seen)));
                }
            }
        });
        drop(running);
        settle(g, "one of many small triangulations");
        if let Some((i, seen)) = odd.get() {
            violation(
                &[1, 2, 3, 13],
                &format!("of {n} equal triangulations in a row, number {i} gave {seen} where the first gave {}", first.get().unwrap_or(0)),
            );
        }
    }

    // ---------------------------------------------------------------- shared results

    fn shared_use(&mut self, cell: usize, how: u8, n: u32) {
        if cell >= w().cells.len() {
            return;
        }
        let me = self.t;
        sched::wait_until(|| w().cells[cell].filled || (0..me).all(|t| w().done[t]));
        if !w().cells[cell].filled {
            return;
        }
        count(shared::C_SHARED);
        if how == 2 || how == 3 {
            // readers share it
            sched::wait_until(|| !w().cells[cell].writer);
            w().cells[cell].readers += 1;
            let v: *const Val = w().cells[cell].val.as_ref().unwrap();
            match unsafe { &*v } {
                Val::Ru(r) => read_ref(r, how),
                Val::Rd(r) => read_ref(r, how),
                _ => {}
            }
            w().cells[cell].readers -= 1;
        } else {
            sched::wait_until(|| !w().cells[cell].writer && w().cells[cell].readers == 0);
            w().cells[cell].writer = true;
            let how = if matches!(how, 5 | 7 | 8 | 9) { 0 } else { how };
            let v: *mut Val = w().cells[cell].val.as_mut().unwrap();
            match unsafe { &mut *v } {
                Val::Ru(r) => use_ref(r, how, n, &NOFAULT),
                Val::Rd(r) => use_ref(r, how, n, &NOFAULT),
                _ => {}
            }
            w().cells[cell].writer = false;
        }
        sched::notify();
    }

    // ---------------------------------------------------------------- loading

    fn load(&mut self, s: u8, loader: u8, file: u8, faults: &[DiskFault], f: &OpFault) {
        self.clear(s);
        let wd = w();
        let path = file_name(file);
        count(shared::C_LOAD);
        let clean = wd.plan.clean(file);
        let mut ld = std::mem::take(&mut self.loaders[loader as usize % 3]);
        disk::begin_load(path.as_bytes(), faults);
        let g = guarded(f, Scale { allocs: 40, calls: 1 }, || ld.load(&path));
        let _q = Quiet::new();
        let log = disk::end_load();
        self.loaders[loader as usize % 3] = ld;
        let what = format!("load of {path}");
        for m in &log.foul {
            violation(&[12], &format!("{what}: {m}"));
        }
        if disk::still_open(&log) > 0 {
            violation(&[12], &format!("{what}: left {} descriptor(s) open", disk::still_open(&log)));
            disk::reclaim(&log);
        }
        let changed = log.inode.is_some() && disk::unchanged(&log).is_none();
        if changed {
            count(shared::C_CHANGED_MID);
        }
        let alloc = g.alloc_failed;
        shared::note(log.delivered.len() as u64);
        let got = match g.r {
            Ok(r) => r,
            Err(Failure::Panic(m)) => {
                if !alloc {
                    violation(&[11, 9, 10], &format!("{what}: panicked: {m}"));
                }
                return;
            }
            Err(_) => return,
        };
        // what the load has to say about what it was given
        if let Some(errno) = log.hard {
            count(shared::C_MUST_FAIL);
            let kind = std::io::Error::from_raw_os_error(errno).kind();
            match &got {
                Err(LoaderError::Io(e)) if e.kind() == kind || e.raw_os_error() == Some(errno) => {
                    count(shared::C_LOAD_ERR);
                    tr!("{what}: failed as it must, {e}");
                }
                Err(e) => {
                    if !alloc {
                        violation(&[9], &format!("{what}: the disk failed with errno {errno} ({kind:?}), the load reported {e:?}"));
                    }
                }
                Ok(_) => violation(&[9], &format!("{what}: reading failed with errno {errno} after {} bytes, the load returned an input", log.delivered.len())),
            }
            return;
        }
        // EOF seen reading front to back: what was delivered is the file. Otherwise only an
        // unchanged file tells what there was to read.
        let bytes = if log.sequential && log.eof { Some(log.delivered.clone()) } else { disk::unchanged(&log) };
        let parsed = bytes.as_deref().map(parse);
        match got {
            Err(e) => {
                count(shared::C_LOAD_ERR);
                tr!("{what}: {e:?}");
                if alloc || log.stat_failed {
                    return;
                }
                match parsed {
                    Some(Parsed::Good { .. }) => violation(
                        &[10, 9, 11],
                        &format!("{what}: well-formed content of {} bytes was delivered in full, the load failed: {e:?}", log.delivered.len()),
                    ),
                    _ => {}
                }
            }
            Ok(b) => {
                count(shared::C_LOAD_OK);
                tr!("{what}: ok");
                match parsed {
                    Some(Parsed::Bad(m)) => violation(&[11], &format!("{what}: accepted content that is not well-formed: {m}")),
                    Some(Parsed::Good { rings, points }) => {
                        let m = clean.map(|i| Model::full(&wd.plan.inputs, i));
                        self.put(s, Val::Bu(b, Meta { model: m, expect: Some(Expect { rings, points }) }));
                    }
                    _ => self.put(s, Val::Bu(b, Meta::default())),
                }
            }
        }
    }

    fn snoop(&mut self, s: u8) {
        let v = self.take(s);
        let Val::Bu(b, m) = v else {
            self.put(s, v);
            self.clear(s);
            return;
        };
        let mut sn = Snoop { points: vec![], edges: vec![], got: false };
        let p: *mut Snoop = &mut sn;
        let r = catch_unwind(AssertUnwindSafe(|| lib(move || b.build().triangulate_with_observer(unsafe { &mut *p }))));
        drop(r);
        let _q = Quiet::new();
        let Some(x) = m.expect else { return };
        let mut want: Vec<(u64, u64)> = vec![];
        let mut edges = vec![];
        for r in &x.rings {
            let base = want.len() as u32;
            let n = r.len() as u32;
            for k in 0..n {
                let (a, b) = (base + k, base + (k + 1) % n);
                edges.push((a.min(b), a.max(b)));
            }
            want.extend(r.iter().map(|p| bits(&Point::new(p.0, p.1))));
        }
        edges.sort();
        want.extend(x.points.iter().map(|p| bits(&Point::new(p.0, p.1))));
        let mut u = want.clone();
        u.sort();
        u.dedup();
        if u.len() != want.len() || want.is_empty() {
            return; // a prepared input with duplicates need not run at all
        }
        count(shared::C_SNOOP);
        if !sn.got {
            return;
        }
        if sn.points != want {
            let at = (0..want.len().max(sn.points.len())).find(|&i| sn.points.get(i) != want.get(i)).unwrap();
            violation(
                &[10, 9, 11],
                &format!("loaded {} points, the file that was delivered has {}; first difference at point {at}", sn.points.len(), want.len()),
            );
        }
        if sn.edges != edges {
            violation(&[10, 9, 11], &format!("loaded {} edges, the file that was delivered has {}", sn.edges.len(), edges.len()));
        }
    }

    fn write(&mut self, file: u8, content: u16, mode: u8, chunk: u32, crash: Option<u32>) {
        count(shared::C_WRITER);
        let bytes = w().plan.content(content);
        let path = file_name(file).into_bytes();
        let chunk = chunk.max(1) as usize;
        let side = format!("/p2tsim/side{}-{}", self.t, w().uid).into_bytes();
        let target = if mode == 1 { side.clone() } else { path.clone() };
        match mode {
            0 => {
                disk::change(&path, |c| c.clear());
            }
            1 => disk::create(&side, vec![]),
            _ => {}
        }
        for (i, piece) in bytes.chunks(chunk).enumerate() {
            sched::yield_point(sched::Y_IO);
            if crash == Some(i as u32) {
                count(shared::F_WCRASH);
                tr!("writer crashes after {} of {} bytes", i * chunk, bytes.len());
                return;
            }
            disk::change(&target, |c| {
                let at = i * chunk;
                if c.len() < at + piece.len() {
                    c.resize(at + piece.len(), 0);
                }
                c[at..at + piece.len()].copy_from_slice(piece);
            });
        }
        sched::yield_point(sched::Y_IO);
        match mode {
            1 => disk::rename_over(&side, &path),
            2 => {
                disk::change(&path, |c| c.truncate(bytes.len()));
            }
            _ => {}
        }
    }

    fn round(&mut self) {
        for s in 0..SLOTS as u8 {
            self.clear(s);
        }
        for l in self.loaders.iter_mut() {
            let l = std::mem::take(l);
            settle(guarded(&NOFAULT, ANY, move || drop(l)), "drop");
        }
        let wd = w();
        wd.rounds[self.t] += 1;
        let k = wd.rounds[self.t];
        let all = || (0..w().rounds.len()).all(|t| w().rounds[t] >= k || w().done[t]);
        if all() {
            let held = seam::LIVE.load(Relaxed);
            tr!("round {k}: the library holds {held} bytes");
            count(shared::C_ROUND);
            let _q = Quiet::new();
            wd.levels.push(held);
            sched::notify();
        } else {
            sched::wait_until(all);
        }
    }

    fn run(&mut self) {
        let ops: &'static [Op] = unsafe { &*(w().plan.tasks[self.t].as_slice() as *const [Op]) };
        for op in ops {
            if matches!(op, Op::Stop {}) {
                count(shared::F_STOP);
                tr!("task crashes");
                break;
            }
            self.op(op);
        }
        for s in 0..SLOTS as u8 {
            self.clear(s);
        }
        w().done[self.t] = true;
    }
}

/// Does what is held after each of many equal rounds keep growing? Steadily over the second half, or
/// more from one doubling of the rounds to the next, as the buffer of a growing list does. What
/// is kept once, or up to a bound, does neither.
fn grows(levels: &[u64]) -> bool {
    let n = levels.len();
    if n < 16 {
        return false;
    }
    let rising = |v: &[u64]| v.windows(2).all(|p| p[1] >= p[0]);
    let tail = &levels[n / 2 - 1..];
    if rising(tail) && tail.windows(2).filter(|p| p[1] > p[0]).count() >= 6 {
        return true;
    }
    let at = |k: usize| levels[n / k - 1];
    let (d1, d2, d3) = (at(4).saturating_sub(at(8)), at(2).saturating_sub(at(4)), at(1).saturating_sub(at(2)));
    rising(&levels[n / 8 - 1..]) && d1 > 0 && 2 * d2 >= 3 * d1 && 2 * d3 >= 3 * d2
}

fn file_name(f: u8) -> String {
    format!("/p2tsim/file{f}")
}

fn describe(m: &Model) -> String {
    let i = m.items.first().map(|x| x.0).unwrap_or(0);
    let h = m.items.iter().filter(|x| x.1 > 0).count();
    let s = m.items.iter().filter(|x| x.1 < 0).count();
    format!("input {i} with {h} holes and {s} sparse points")
}

fn check_edges(r: &Ref, m: &Model, inputs: &[Input]) {
    if shared::rec().mask & (1 << 16) == 0 {
        return;
    }
    let k = |a: usize, b: usize| (a.min(b), a.max(b));
    let mut got: Vec<(usize, usize)> = r
        .events
        .iter()
        .filter(|e| **e >> 60 == refs::K_EDGE)
        .map(|e| k((e >> 30 & 0x3fff_ffff) as usize, (e & 0x3fff_ffff) as usize))
        .collect();
    let mut want: Vec<(usize, usize)> = m.edges(inputs).iter().map(|&(a, b)| k(a, b)).collect();
    got.sort();
    want.sort();
    if got != want {
        violation(&[16], &format!("{}: the edges used are not the edges added", describe(m)));
    }
}

// ------------------------------------------------------------------ results: a list and a cursor

fn tri_bits(t: &Triangle) -> [(u64, u64); 3] {
    [bits(&t.points[0]), bits(&t.points[1]), bits(&t.points[2])]
}
fn expected<T>(r: &Res<T>, k: usize) -> Option<[(u64, u64); 3]> {
    let c = r.ix.get(3 * k..3 * k + 3)?;
    let p = |i: usize| r.pts.get(c[i] as usize).copied().unwrap_or((u64::MAX, 0));
    Some([p(0), p(1), p(2)])
}
fn same<T>(r: &Res<T>, k: usize, got: Option<Triangle>, how: &str) {
    if got.as_ref().map(tri_bits) != expected(r, k) {
        let m = r.ix.len() / 3;
        violation(
            &[14, 1, 3],
            &format!(
                "triangle {k} of {m}: {how} gave {}, which is not the triple at that place in the index list",
                match got {
                    Some(t) => format!("{:?}", t.points),
                    None => "nothing".into(),
                }
            ),
        );
    }
}
fn read_ref<T: Datum>(r: &Res<T>, how: u8) {
    if how == 2 {
        if let Some(ix) = settle(guarded(&NOFAULT, ANY, || r.t.triangle_list_indices()), "triangle_list_indices") {
            if ix != r.ix {
                violation(&[14, 1, 3], &format!("the index list changed: {} indices, {} before", ix.len(), r.ix.len()));
            }
        }
        return;
    }
    let p: Vec<(u64, u64)> = r.t.points().iter().map(bits).collect();
    if p != r.pts {
        violation(&[14, 1, 3], "the points of a finished result changed");
    }
    let mut l = vec![];
    for d in r.t.data() {
        match d.val() {
            Some(Ok(x)) => l.push(x),
            Some(Err(m)) => violation(&[4, 14], &format!("a finished result holds {m}")),
            None => {}
        }
    }
    if l != r.labels {
        violation(&[14, 4], "the data of a finished result changed");
    }
}
fn use_ref<T: Datum>(r: &mut Res<T>, how: u8, n: u32, f: &OpFault) {
    let total = r.ix.len() / 3;
    match how {
        1 => {
            if let Some(got) = settle(guarded(f, ANY, || r.t.nth(n as usize)), "nth") {
                let k = (r.cursor + n as usize).min(total);
                same(r, k, got, "nth");
                r.cursor = (k + 1).min(total);
            } else {
                r.cursor = total; // unknown from here on
            }
        }
        2 | 3 => read_ref(r, how),
        4 => {
            let (lo, hi) = r.t.size_hint();
            let left = total - r.cursor;
            if lo > left || hi.map_or(false, |h| h < left) {
                violation(&[14], &format!("{left} triangles are left, size_hint says {:?}", (lo, hi)));
            }
        }
        6 => {
            if let Some(v) = settle(guarded(&NOFAULT, ANY, || r.t.take(n as usize)), "take") {
                let k = (n as usize).min(total - r.cursor);
                if v.len() != k {
                    violation(&[14], &format!("take({n}) gave {} triangles with {} left", v.len(), total - r.cursor));
                }
                for (i, t) in v.into_iter().enumerate() {
                    same(r, r.cursor + i, Some(t), "take");
                }
                r.cursor += k;
            }
        }
        10 => {
            let Some(v) = settle(guarded(&NOFAULT, ANY, || r.t.rest()), "collect") else { return };
            if v.len() != total - r.cursor {
                violation(&[14], &format!("{} triangles were left, {} came", total - r.cursor, v.len()));
            }
            for (i, t) in v.into_iter().enumerate() {
                same(r, r.cursor + i, Some(t), "collect");
            }
            r.cursor = total;
            for _ in 0..3 {
                let got = r.t.next();
                same(r, total, got, "next after the end");
            }
        }
        _ => {
            for _ in 0..n.max(1) {
                let Some(got) = settle(guarded(&NOFAULT, ANY, || r.t.next()), "next") else { return };
                same(r, r.cursor, got, "next");
                r.cursor = (r.cursor + 1).min(total);
                sched::yield_point(Y_USER);
            }
        }
    }
}
fn consume<T: Datum>(r: Res<T>, how: u8, f: &OpFault) {
    let Res { t, ix, pts, labels, cursor } = r;
    let total = ix.len() / 3;
    let n = pts.len() as u64;
    let sc = Scale { allocs: 6, calls: n };
    let rest = |got: Vec<Triangle>, how: &str| {
        let probe = Holder { ix: &ix, pts: &pts };
        if got.len() != total - cursor {
            violation(&[14], &format!("{how}: {} triangles were left, {} came", total - cursor, got.len()));
        }
        for (i, g) in got.iter().enumerate() {
            if Some(tri_bits(g)) != probe.at(cursor + i) {
                violation(&[14], &format!("{how}: triangle {} is not the triple at that place in the index list", cursor + i));
            }
        }
    };
    let _ = labels;
    match how {
        5 => {
            let g = guarded(f, sc, move || t.fold());
            if let Some(v) = settle(g, "fold") {
                rest(v, "fold");
            }
        }
        7 => {
            if let Some(c) = settle(guarded(f, sc, move || t.count()), "count") {
                if c != total - cursor {
                    violation(&[14], &format!("count says {c}, {} were left", total - cursor));
                }
            }
        }
        9 => {
            if let Some(l) = settle(guarded(f, sc, move || t.last()), "last") {
                let want = if total > cursor { Holder { ix: &ix, pts: &pts }.at(total - 1) } else { None };
                if l.as_ref().map(tri_bits) != want {
                    violation(&[14], "last is not the last triple of the index list");
                }
            }
        }
        _ => {
            if let Some(v) = settle(guarded(f, sc, move || t.collect()), "collect") {
                rest(v, "collect");
            }
        }
    }
}
struct Holder<'a> {
    ix: &'a [u32],
    pts: &'a [(u64, u64)],
}
impl Holder<'_> {
    fn at(&self, k: usize) -> Option<[(u64, u64); 3]> {
        let c = self.ix.get(3 * k..3 * k + 3)?;
        let p = |i: usize| self.pts.get(c[i] as usize).copied().unwrap_or((u64::MAX, 0));
        Some([p(0), p(1), p(2)])
    }
}

// ------------------------------------------------------------------ can it cross threads at all?

struct Can<T>(PhantomData<T>);
trait Cannot {
    fn send(&self) -> bool {
        false
    }
}
impl<T> Cannot for Can<T> {}
impl<T: Send> Can<T> {
    fn send(&self) -> bool {
        true
    }
}
fn can<R, F: Fn(()) -> R>(_: F) -> Can<R> {
    Can(PhantomData)
}
fn check_send() {
    let build = |()| Builder::new((Vec::<Point>::new(), Vec::<D>::new()));
    let unit = |()| Builder::new(Vec::<Point>::new());
    let b = can(move |()| build(())).send() && can(move |()| unit(())).send();
    if !b || !can(move |()| build(()).build()).send() || !can(move |()| unit(()).build()).send() {
        violation(&[16], "a builder or prepared input cannot be sent to another thread");
    }
    if !can(move |()| build(()).build().triangulate()).send() || !can(move |()| unit(()).build().triangulate()).send() {
        violation(&[14], "a finished result cannot be sent to another thread");
    }
}

// ------------------------------------------------------------------ one run

fn oom(_: std::alloc::Layout) {
    let _q = Quiet::new();
    std::panic::panic_any(AllocFailed);
}

static HOOK: AtomicU64 = AtomicU64::new(0);
static HOOK_AT: AtomicU64 = AtomicU64::new(0);
pub fn hooks() {
    let mine = Box::new(0x5EED_u64);
    let hook: Box<dyn Fn(&std::panic::PanicHookInfo) + Sync + Send> = Box::new(move |i| {
        HOOK.fetch_add(*mine, Relaxed);
        if TRACE.load(Relaxed) && !i.payload().is::<Injected>() && !i.payload().is::<Enough>() {
            let _q = Quiet::new();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            trace(&format!("panic at {at}: {}", panic_text(i.payload())));
        }
    });
    HOOK_AT.store(&*hook as *const _ as *const u8 as u64, Relaxed);
    std::panic::set_hook(hook);
    std::alloc::set_alloc_error_hook(oom);
}

/// Runs the plan in this process; the verdict is in the shared record.
pub fn run(mut plan: Plan) -> ! {
    hooks();
    plan.expand();
    let env = plan.env;
    let mut models: Vec<Model> = vec![];
    plan.walk(&mut |_, m| {
        if !models.contains(m) {
            models.push(m.clone());
        }
    });
    let mut refs = HashMap::new();
    for m in models {
        let r = refs::compute(&m, &plan.inputs, env);
        tr!("input alone: {}: {}, {} callbacks, {} triangles", describe(&m), r.describe(), r.events.len(), r.indices.len() / 3);
        refs.insert(m, r);
    }
    let n = plan.tasks.len();
    if n > 8 {
        count(shared::C_CROWD);
        // one heap for the harness's own memory, not one for each thread
        unsafe { seam::mallopt(-8, 1) };
    }
    disk::init();
    for f in 0..plan.files.len() {
        disk::create(file_name(f as u8).as_bytes(), plan.content(plan.files[f]));
        for c in plan.contents.get(plan.files[f] as usize).map(|c| c.corrupt.clone()).unwrap_or_default() {
            let k = match c.kind {
                0 => shared::F_TORN,
                1 | 6 => shared::F_FLIP,
                2 | 4 => shared::F_LOST,
                _ => shared::F_STALE,
            };
            count(k);
        }
    }
    let spec = plan.sched.clone();
    let stack = if plan.stack == 0 { 8 << 20 } else { (plan.stack as usize) << 10 };
    let cells = (0..4).map(|_| Cell::default()).collect();
    let world =
        World { plan, refs, mail: HashMap::new(), done: vec![false; n], cells, pocket: Pocket::default(), uid: 0, ref_bad: false, rounds: vec![0; n], levels: vec![] };
    unsafe { W = Box::into_raw(Box::new(world)) };
    check_send();
    seam::arena_init(derive(env, 1));
    sched::set_hash_seed(derive(env, 2) | 1);
    sched::init(sched::Spec {
        n,
        seed: spec.seed,
        p: spec.p,
        p_stall: spec.p_stall,
        env: derive(env, 3),
        explicit: spec.explicit.as_deref(),
        step_cap: 30_000_000,
    });
    let mut threads: Vec<Option<std::thread::JoinHandle<()>>> = (0..n)
        .map(|t| {
            let b = std::thread::Builder::new().stack_size(stack);
            Some(
                b.spawn(move || {
                    sched::task_thread(t, || {
                        let mut task = Task::new(t);
                        if let Err(e) = catch_unwind(AssertUnwindSafe(|| task.run())) {
                            shared::fatal(&format!("harness panicked: {}", panic_text(&*e)));
                        }
                        drop(task);
                    })
                })
                .unwrap_or_else(|_| shared::fatal("spawn")),
            )
        })
        .collect();
    sched::run(|t| {
        if threads[t].take().unwrap().join().is_err() {
            shared::fatal("a task thread died");
        }
    });
    let wd = w();
    wd.mail.clear();
    wd.cells.clear();
    wd.pocket = Pocket::default();
    if &*std::panic::take_hook() as *const _ as *const u8 as u64 != HOOK_AT.load(Relaxed) {
        violation(&[3, 1, 2, 4, 5, 13, 16, 9], "the panic hook of the process is not what it was before the runs");
    }
    let left = tok::leaked();
    if !left.is_empty() {
        violation(&[4], &format!("{} data were never dropped, e.g. that of point {} of input {}", left.len(), left[0] as u32, left[0] >> 32));
    }
    if seam::HEAP_DAMAGE.load(Relaxed) > 0 {
        violation(&[15, 1, 2, 3, 4, 13, 16], "the library wrote past the end of a block, or released one twice");
    }
    if grows(&wd.levels) {
        let n = wd.levels.len();
        violation(
            &[17],
            &format!("with everything dropped after each of {n} equal rounds, the library holds more and more memory: {:?} bytes after each", wd.levels),
        );
    }
    let r = shared::rec();
    r.verdict = if wd.ref_bad { 4 } else { 1 };
    trace("end: held");
    unsafe { seam::_exit(0) }
}
