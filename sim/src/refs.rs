//! What an input comes to on its own: the canonical build of a model, run once in a fresh process
//! that does nothing else, in an environment (addresses, memory contents, hash seeds, clock) of its
//! own. The outcome is what every simulated run of the model is compared with.
use crate::codec::{Codec, Dec};
use crate::exec::{pt, Src};
use crate::geom::Input;
use crate::plan::Model;
use crate::prng::derive;
use crate::{sched, seam, shared, tok, view};
use std::collections::HashSet;
use poly2tri_rs::{Builder, Edge, Observer, PointId, Sweeper, TriangleId};

codec_struct! { Ref {
    /// 0 finished, 1 panicked, 2 ran out of time, 3 died
    status: u8,
    msg: Vec<u8>,
    indices: Vec<u32>,
    points: Vec<(u64, u64)>,
    labels: Vec<u64>,
    events: Vec<u64>,
    digests: Vec<u64>,
    allocs: u64,
    calls: u64,
    proto: Vec<u8>,
} }

pub const K_ENTER: u64 = 0;
pub const K_EXIT: u64 = 1;
pub const K_EDGE: u64 = 2;
pub const K_DONE: u64 = 3;
pub const K_FINAL: u64 = 4;
pub const K_WILL: u64 = 5;
pub const K_STEP: u64 = 6;
pub const K_ROT: u64 = 7;
pub const K_LEGAL: u64 = 8;
pub const KIND: [&str; 9] = [
    "enter_point_event", "exit_point_event", "edge_event", "sweep_done", "finalized", "will_legalize", "legalize_step",
    "triangle_rotated", "legalized",
];

pub fn ev(kind: u64, a: usize, b: usize) -> u64 {
    kind << 60 | (a as u64 & 0x3fff_ffff) << 30 | (b as u64 & 0x3fff_ffff)
}
pub fn ev_str(e: u64) -> String {
    let (a, b) = (e >> 30 & 0x3fff_ffff, e & 0x3fff_ffff);
    match e >> 60 {
        K_DONE | K_FINAL => KIND[(e >> 60) as usize].to_string(),
        K_EDGE | K_ROT => format!("{}({a}, {b})", KIND[(e >> 60) as usize]),
        k if k < 9 => format!("{}({a})", KIND[k as usize]),
        _ => format!("?{e:x}"),
    }
}
pub fn stride(n: usize) -> usize {
    (1 + n / 30) * (1 + n / 500)
}
pub fn cap(n: usize) -> usize {
    4000 + 60 * n * n
}

struct Rec {
    events: Vec<u64>,
    digests: Vec<u64>,
    stride: usize,
    cap: usize,
    /// constraint edges reported so far
    reported: HashSet<(usize, usize)>,
    /// (callback, edge): marked constrained in view of a callback, but not reported before it
    ahead: Vec<(usize, (usize, usize))>,
    /// inside a legalization session: the last callback and the triangles in view of it
    before: Option<(u64, Vec<[u32; 3]>)>,
    /// the first change of the mesh inside a session that no callback announced
    sly: Option<String>,
    small: bool,
}
impl Rec {
    /// Inside a session the mesh changes only by the rotations announced: two triangles that share an
    /// edge, which is not constrained, get the other diagonal of their four points.
    fn announced(&mut self, e: u64, ctx: &Sweeper) {
        let k = e >> 60;
        if !self.small || self.sly.is_some() || k <= K_FINAL && self.before.is_none() {
            return;
        }
        let pair = |e: u64| ((e >> 30 & 0x3fff_ffff) as usize, (e & 0x3fff_ffff) as usize);
        let now: Vec<[u32; 3]> = ctx
            .triangles
            .iter()
            .map(|(_, t)| {
                let mut p = [t.points[0].as_u32(), t.points[1].as_u32(), t.points[2].as_u32()];
                p.sort();
                p
            })
            .collect();
        let shared = |a: &[u32; 3], b: &[u32; 3]| -> Vec<u32> { a.iter().copied().filter(|x| b.contains(x)).collect() };
        if let Some((pe, was)) = self.before.take() {
            let changed: Vec<usize> = (0..was.len().max(now.len())).filter(|&i| was.get(i) != now.get(i)).collect();
            let fine = if pe >> 60 == K_ROT {
                let (t, o) = pair(pe);
                changed.len() == 2 && changed.contains(&t) && changed.contains(&o) && was.len() == now.len() && {
                    let (old, new) = (shared(&was[t], &was[o]), shared(&now[t], &now[o]));
                    let mut all: Vec<u32> = old.iter().chain(&new).copied().collect();
                    all.sort();
                    all.dedup();
                    old.len() == 2 && new.len() == 2 && all.len() == 4 && [was[t], was[o], now[t], now[o]].iter().flatten().all(|x| all.contains(x))
                }
            } else {
                changed.is_empty()
            };
            if !fine {
                self.sly = Some(format!(
                    "callback {}, {}: since the callback before, {}, the triangles {changed:?} have changed",
                    self.events.len(),
                    ev_str(e),
                    ev_str(pe)
                ));
            }
        }
        if k == K_ROT {
            let (t, o) = pair(e);
            let open = t < now.len() && o < now.len() && t != o && shared(&now[t], &now[o]).len() == 2 && {
                let (_, t) = ctx.triangles.iter().nth(t).unwrap();
                (0..3).any(|i| !now[o].contains(&t.points[i].as_u32()) && !t.is_constrained(i))
            };
            if !open {
                self.sly = Some(format!("callback {}, {}: the two share no edge that is free to rotate", self.events.len(), ev_str(e)));
            }
        }
        if k == K_WILL || k == K_STEP || k == K_ROT {
            self.before = Some((e, now));
        }
    }
    /// note the edges that are marked though their turn has not come
    fn marks(&mut self, e: u64, ctx: &Sweeper) {
        let k = e >> 60;
        let often = if k == K_EDGE { 1 } else { self.stride };
        if (k <= K_FINAL || self.stride == 1) && self.events.len() % often == 0 && self.ahead.len() < 10_000 {
            for (_, t) in ctx.triangles.iter() {
                for i in (0..3).filter(|i| t.is_constrained(*i)) {
                    let (p, q) = (t.points[(i + 1) % 3].as_usize(), t.points[(i + 2) % 3].as_usize());
                    let edge = (p.min(q), p.max(q));
                    if !self.reported.contains(&edge) {
                        self.ahead.push((self.events.len(), edge));
                    }
                }
            }
        }
        if k == K_EDGE {
            let (a, b) = ((e >> 30 & 0x3fff_ffff) as usize, (e & 0x3fff_ffff) as usize);
            self.reported.insert((a.min(b), a.max(b)));
        }
    }
    /// An edge is marked in its own turn: it may be ahead of its report only between the report, or
    /// point exit, before it and its own.
    fn turns(&self) -> Result<(), String> {
        for &(i, edge) in &self.ahead {
            let due = self.events[i..].iter().find(|e| **e >> 60 <= K_FINAL);
            let ok = due.is_some_and(|&e| {
                let (a, b) = ((e >> 30 & 0x3fff_ffff) as usize, (e & 0x3fff_ffff) as usize);
                e >> 60 == K_EDGE && (a.min(b), a.max(b)) == edge
            });
            if !ok {
                return Err(format!("callback {i}, {}: edge {edge:?} is already marked constrained, before its turn", ev_str(self.events[i])));
            }
        }
        Ok(())
    }

    fn hit(&mut self, e: u64, ctx: &Sweeper) {
        let _u = seam::lib_mode(0);
        if self.events.len() % self.stride == 0 {
            self.digests.push(view::digest(ctx));
        }
        self.marks(e, ctx);
        self.announced(e, ctx);
        self.events.push(e);
        if self.events.len() > self.cap {
            panic!("more than {} callbacks", self.cap);
        }
    }
}
impl Observer for Rec {
    fn enter_point_event(&mut self, p: PointId, c: &Sweeper) {
        self.hit(ev(K_ENTER, p.as_usize(), 0), c)
    }
    fn exit_point_event(&mut self, p: PointId, c: &Sweeper) {
        self.hit(ev(K_EXIT, p.as_usize(), 0), c)
    }
    fn edge_event(&mut self, e: Edge, c: &Sweeper) {
        self.hit(ev(K_EDGE, e.p.as_usize(), e.q.as_usize()), c)
    }
    fn sweep_done(&mut self, c: &Sweeper) {
        self.hit(ev(K_DONE, 0, 0), c)
    }
    fn finalized(&mut self, c: &Sweeper) {
        self.hit(ev(K_FINAL, 0, 0), c)
    }
    fn will_legalize(&mut self, t: TriangleId, c: &Sweeper) {
        self.hit(ev(K_WILL, t.as_usize(), 0), c)
    }
    fn legalize_step(&mut self, t: TriangleId, c: &Sweeper) {
        self.hit(ev(K_STEP, t.as_usize(), 0), c)
    }
    fn triangle_rotated(&mut self, t: TriangleId, o: TriangleId, c: &Sweeper) {
        self.hit(ev(K_ROT, t.as_usize(), o.as_usize()), c)
    }
    fn legalized(&mut self, t: TriangleId, c: &Sweeper) {
        self.hit(ev(K_LEGAL, t.as_usize(), 0), c)
    }
}

/// the callback protocol, over the whole of an undisturbed run
pub fn protocol(events: &[u64], m: &Model, inputs: &[Input]) -> Result<(), String> {
    let c = m.coords(inputs);
    let mut order: Vec<usize> = (0..c.len()).collect();
    order.sort_by_key(|&i| (c[i].1, c[i].0));
    let mut lower: Vec<Vec<usize>> = vec![vec![]; c.len()];
    for (a, b) in m.edges(inputs) {
        let (lo, hi) = if (c[a].1, c[a].0) < (c[b].1, c[b].0) { (a, b) } else { (b, a) };
        lower[hi].push(lo);
    }
    let mut next = 1;
    let mut inside: Option<usize> = None;
    let mut last: Option<usize> = None;
    let mut session: Option<u64> = None;
    let mut steps = 0;
    let mut rotated: Option<usize> = None;
    let mut phase = 0;
    for (i, &e) in events.iter().enumerate() {
        let bad = |why: String| Err(format!("callback {i}, {}: {why}", ev_str(e)));
        let (k, a, b) = (e >> 60, (e >> 30 & 0x3fff_ffff) as usize, (e & 0x3fff_ffff) as usize);
        if phase == 2 {
            return bad("after 'finalized'".into());
        }
        if phase == 1 && k != K_FINAL {
            return bad("between 'sweep done' and 'finalized'".into());
        }
        if k <= K_FINAL && session.is_some() {
            return bad("a legalization session is still open".into());
        }
        match k {
            K_ENTER => {
                if inside.is_some() {
                    return bad("nested in another point event".into());
                }
                if let Some(l) = last {
                    if !lower[l].is_empty() {
                        return bad(format!("edges of point {l} not reported yet: {:?}", lower[l]));
                    }
                }
                if order.get(next) != Some(&a) {
                    return bad(format!("the next point in sweep order is {:?}", order.get(next)));
                }
                inside = Some(a);
                last = None;
            }
            K_EXIT => {
                if inside != Some(a) {
                    return bad("that point was not entered".into());
                }
                inside = None;
                last = Some(a);
                next += 1;
            }
            K_EDGE => {
                if inside.is_some() || last != Some(b) {
                    return bad(format!("not right after the exit of its upper endpoint {b}"));
                }
                match lower[b].iter().position(|&x| x == a) {
                    Some(k) => {
                        lower[b].remove(k);
                    }
                    None => return bad("no such constraint edge is due".into()),
                }
            }
            K_DONE => {
                if inside.is_some() || next != order.len() {
                    return bad(format!("{} of {} points were swept", next, order.len()));
                }
                if let Some(l) = last {
                    if !lower[l].is_empty() {
                        return bad(format!("edges of point {l} not reported yet: {:?}", lower[l]));
                    }
                }
                phase = 1;
            }
            K_FINAL => {
                if phase != 1 {
                    return bad("before 'sweep done'".into());
                }
                phase = 2;
            }
            K_WILL => {
                if session.is_some() {
                    return bad("a legalization session is still open".into());
                }
                session = Some(a as u64);
                steps = 0;
            }
            K_LEGAL => {
                if session != Some(a as u64) {
                    return bad(format!("the open legalization session is {session:?}"));
                }
                if steps == 0 {
                    return bad("a legalization session without a step".into());
                }
                if let Some(t) = rotated {
                    return bad(format!("the step that rotated triangle {t} has not ended"));
                }
                session = None;
            }
            _ => {
                if session.is_none() {
                    return bad("outside any legalization session".into());
                }
                if let Some(t) = rotated {
                    if k != K_STEP || a != t {
                        return bad(format!("the step that rotated triangle {t} has not ended"));
                    }
                }
                rotated = (k == K_ROT).then_some(a);
                steps += (k == K_STEP) as usize;
            }
        }
    }
    if phase != 2 {
        return Err("the run ended without 'finalized'".into());
    }
    Ok(())
}

pub fn build(m: &Model, inputs: &[Input]) -> Builder<tok::D> {
    let mut b: Option<Builder<tok::D>> = None;
    for &(i, r, k) in &m.items {
        let inp = &inputs[i as usize];
        if r >= 0 {
            let s = Src::<tok::D>::ring(inputs, i, r);
            b = Some(match b {
                None => Builder::new(s),
                Some(b) => b.add_hole(s),
            });
        } else {
            let p = inp.steiner[k as usize - crate::plan::steiner_base(inp)];
            b = b.map(|b| b.add_steiner_point(pt(p, inp.exp2), tok::D::new(crate::exec::label(i, k))));
        }
    }
    b.unwrap()
}

fn inside(m: &Model, inputs: &[Input]) -> Ref {
    let mut out = Ref::default();
    let n = m.points(inputs).len();
    let mut rec = Rec { events: vec![], digests: vec![], stride: stride(n), cap: cap(n), reported: HashSet::new(), ahead: vec![], before: None, sly: None, small: n <= 100 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let cdt = seam::lib(|| build(m, inputs).build());
        seam::ALLOCS.with(|a| a.set(0));
        tok::CALLS.with(|a| a.set(0));
        let t = seam::lib(|| cdt.triangulate_with_observer(&mut rec));
        let a = seam::ALLOCS.with(|a| a.get());
        (seam::lib(|| t.triangle_list_indices()), t, a)
    }));
    match r {
        Ok((ix, t, a)) => {
            out.allocs = a;
            out.calls = tok::CALLS.with(|a| a.get()) as u64;
            out.indices = ix.clone();
            out.points = t.points().iter().map(|p| (p.x.to_bits() as u64, p.y.to_bits() as u64)).collect();
            out.labels = t.data().iter().map(|d| d.read().unwrap_or(u64::MAX)).collect();
            let turns = rec.turns().and(rec.sly.take().map_or(Ok(()), Err));
            out.events = rec.events;
            out.digests = rec.digests;
            if let Err(e) = protocol(&out.events, m, inputs).and(turns) {
                out.proto = e.into_bytes();
            }
            std::mem::forget(t);
        }
        Err(e) => {
            out.status = 1;
            out.msg = crate::exec::panic_text(&*e).into_bytes();
            out.events = rec.events;
        }
    }
    out
}

fn le(v: &[i64]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 8) }
}

pub fn compute(m: &Model, inputs: &[Input], env: u64) -> Ref {
    unsafe {
        let mut fds = [0i32; 2];
        if seam::raw(22, fds.as_mut_ptr() as i64, 0, 0, 0, 0, 0) != 0 {
            shared::fatal("pipe");
        }
        let pid = seam::fork();
        if pid < 0 {
            shared::fatal("fork");
        }
        if pid == 0 {
            seam::raw(3, fds[0] as i64, 0, 0, 0, 0, 0);
            let cpu = if m.points(inputs).len() > 1500 { 15 } else { 4 };
            seam::setrlimit(0, &[cpu, cpu + 1]);
            shared::use_rec(shared::alloc_rec().0);
            let e = derive(env, 0x5EF);
            seam::arena_init(e);
            sched::set_hash_seed(e | 1);
            sched::init(sched::Spec { n: 1, seed: 0, p: [0; 7], p_stall: 0, env: e, explicit: None, step_cap: u64::MAX });
            sched::solo();
            let r = inside(m, inputs);
            seam::TASK.with(|t| t.set(seam::NONE));
            let mut v = vec![];
            r.enc(&mut v);
            let b = le(&v);
            let mut off = 0;
            while off < b.len() {
                let k = seam::raw(1, fds[1] as i64, b.as_ptr().add(off) as i64, (b.len() - off) as i64, 0, 0, 0);
                if k <= 0 {
                    break;
                }
                off += k as usize;
            }
            seam::_exit(0)
        }
        seam::raw(3, fds[1] as i64, 0, 0, 0, 0, 0);
        let mut buf = vec![0u8; 1 << 16];
        let mut all: Vec<u8> = vec![];
        loop {
            let k = seam::raw(0, fds[0] as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0);
            if k == -4 {
                continue;
            }
            if k <= 0 {
                break;
            }
            all.extend_from_slice(&buf[..k as usize]);
        }
        seam::raw(3, fds[0] as i64, 0, 0, 0, 0, 0);
        let mut st = 0;
        seam::waitpid(pid, &mut st, 0);
        shared::count(shared::C_REF);
        let v: Vec<i64> = all.chunks_exact(8).map(|c| i64::from_le_bytes(c.try_into().unwrap())).collect();
        match Ref::dec(&mut Dec(v.iter())) {
            Some(r) if st == 0 => r,
            _ => {
                let hang = st & 0x7f == 24 || st & 0x7f == 9;
                Ref { status: if hang { 2 } else { 3 }, msg: format!("wait status {st:#x}").into_bytes(), ..Ref::default() }
            }
        }
    }
}

impl Ref {
    pub fn describe(&self) -> String {
        let m = String::from_utf8_lossy(&self.msg).into_owned();
        match self.status {
            0 => "finished".into(),
            1 => format!("panicked: {m}"),
            2 => format!("did not finish: {m}"),
            _ => format!("died: {m}"),
        }
    }
}
