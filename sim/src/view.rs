//! What client code sees of a running triangulation, and the invariants of what it sees.
use crate::geom::{self, P};
use crate::plan::Model;
use crate::prng::mix;
use poly2tri_rs::{Point, Sweeper};
use std::collections::{HashMap, HashSet};

pub const NIL: usize = usize::MAX;

#[derive(Default, Clone, Debug, PartialEq)]
pub struct Snap {
    pub tris: Vec<[u32; 3]>,
    pub con: Vec<[bool; 3]>,
    pub nb: Vec<[usize; 3]>,
    /// (point, triangle)
    pub front: Vec<(u32, usize)>,
    pub result: Vec<usize>,
}

pub fn snap(ctx: &Sweeper) -> Snap {
    let mut s = Snap::default();
    for (_, t) in ctx.triangles.iter() {
        s.tris.push([t.points[0].as_u32(), t.points[1].as_u32(), t.points[2].as_u32()]);
        s.con.push([t.is_constrained(0), t.is_constrained(1), t.is_constrained(2)]);
        let f = |i: usize| if t.neighbors[i].invalid() { NIL } else { t.neighbors[i].as_usize() };
        s.nb.push([f(0), f(1), f(2)]);
    }
    for n in ctx.advancing_front.iter() {
        s.front.push((n.point_id().as_u32(), n.triangle.map(|t| if t.invalid() { NIL } else { t.as_usize() }).unwrap_or(NIL)));
    }
    s.result = ctx.result.iter().map(|t| t.as_usize()).collect();
    s
}

pub fn digest(ctx: &Sweeper) -> u64 {
    let mut h = 0x1234u64;
    let mut add = |x: u64| h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    for (_, t) in ctx.triangles.iter() {
        for i in 0..3 {
            add((t.points[i].as_u32() as u64) << 1 | t.is_constrained(i) as u64);
            add(t.neighbors[i].as_usize() as u64);
        }
    }
    add(77);
    for n in ctx.advancing_front.iter() {
        add(n.point_id().as_u32() as u64);
        add(n.triangle.map(|t| t.as_usize() as u64).unwrap_or(u64::MAX));
        add(n.point().x.to_bits() as u64);
        add(n.point().y.to_bits() as u64);
    }
    add(78);
    for t in ctx.result.iter() {
        add(t.as_usize() as u64);
    }
    for (_, p, e) in ctx.points.iter() {
        add(p.x.to_bits() as u64 ^ (p.y.to_bits() as u64).rotate_left(7));
        for q in e {
            add(q.as_u32() as u64);
        }
    }
    mix(h)
}

/// read everything there is to see, in an order that varies; what a lookup answers is not judged here
pub fn peek(ctx: &Sweeper, r: u64) -> u64 {
    let mut h = 0u64;
    let n = ctx.points.len();
    let mut rng = crate::prng::Rng::new(r);
    for _ in 0..6 {
        let a = rng.next_u64();
        match a % 8 {
            0 => {
                if let Some((_, p, _)) = ctx.points.iter().nth((a >> 8) as usize % n) {
                    let q = Point::new(p.x + 0.25, p.y);
                    h ^= ctx.advancing_front.locate_node(q).map(|n| n.point_id().as_u32() as u64).unwrap_or(1);
                }
            }
            1 => {
                let k = (a >> 8) as usize % n;
                if let Some(p) = ctx.points.iter().nth(k).map(|x| *x.1) {
                    // looking up a position the front does not have may panic, which is the caller's affair
                    let f = std::panic::AssertUnwindSafe(|| {
                        ctx.advancing_front.get_node(p).map(|n| n.point_id().as_u32() as u64).unwrap_or(2)
                    });
                    h ^= std::panic::catch_unwind(f).unwrap_or(3);
                }
            }
            2 => {
                let k = (a >> 8) as usize % 8;
                if let Some(node) = ctx.advancing_front.nth(k) {
                    let id = node.get_node_id();
                    h ^= ctx.advancing_front.locate_next_node(id).map(|n| n.point_id().as_u32() as u64).unwrap_or(4);
                    h ^= ctx.advancing_front.locate_prev_node(id).map(|n| n.point_id().as_u32() as u64).unwrap_or(5);
                    h ^= ctx.advancing_front.get_node_with_id(id).map(|n| n.point_id().as_u32() as u64).unwrap_or(6);
                    h ^= node.next().map(|n| n.point_id().as_u32() as u64).unwrap_or(7);
                    h ^= node.prev().map(|n| n.point_id().as_u32() as u64).unwrap_or(8);
                }
            }
            3 => h ^= ctx.advancing_front.iter().count() as u64,
            4 => h ^= ctx.points.iter_without_fake().count() as u64,
            5 => h ^= ctx.points.iter_point_by_y(1).map(|x| x.0.as_u32() as u64).sum::<u64>(),
            6 => {
                let m = ctx.triangles.len();
                if m > 0 {
                    let id = poly2tri_rs::TriangleId::from_index((a >> 8) as usize % m);
                    let t = id.get(&ctx.triangles);
                    h ^= t.point_cw(t.points[0]).as_u32() as u64 + t.point_ccw(t.points[1]).as_u32() as u64;
                    let o = t.neighbor_across(t.points[2]);
                    if let Some(o) = o.try_get(&ctx.triangles) {
                        h ^= o.points[0].as_u32() as u64;
                    }
                }
            }
            _ => h ^= digest(ctx),
        }
    }
    h
}

/// The mesh oracle of one run over a valid model.
pub struct Mesh {
    coords: Vec<P>,
    edges: HashSet<(u32, u32)>,
    edge_list: Vec<(u32, u32)>,
    float: Vec<(f64, f64)>,
    n: usize,
    pub swept: Vec<u32>,
    pub finished: Vec<(u32, u32)>,
    outline: Vec<P>,
    holes: Vec<Vec<P>>,
    area2: i128,
}

fn key(a: u32, b: u32) -> (u32, u32) {
    (a.min(b), a.max(b))
}

#[derive(Default)]
pub struct Breach {
    pub structure: Option<String>,
    pub whole: Option<String>,
}

impl Mesh {
    pub fn new(m: &Model, inputs: &[geom::Input]) -> Mesh {
        let inp = m.as_input(inputs);
        let coords = m.coords(inputs);
        let edge_list: Vec<(u32, u32)> = m.edges(inputs).iter().map(|&(a, b)| key(a as u32, b as u32)).collect();
        Mesh {
            n: coords.len(),
            coords,
            edges: edge_list.iter().copied().collect(),
            edge_list,
            float: vec![],
            swept: vec![],
            finished: vec![],
            area2: inp.domain_area2(),
            outline: inp.outline,
            holes: inp.holes,
        }
    }

    /// sign of the area of a triangle; vertices n and n+1 are the helper points of the sweep
    fn sign(&self, t: &[u32; 3]) -> i32 {
        if t.iter().all(|&p| (p as usize) < self.n) {
            let c = |i: usize| self.coords[t[i] as usize];
            return geom::orient(c(0), c(1), c(2)).signum() as i32;
        }
        let c = |i: usize| {
            let p = self.float[t[i] as usize];
            robust::Coord { x: p.0, y: p.1 }
        };
        let o = robust::orient2d(c(0), c(1), c(2));
        if o > 0.0 {
            1
        } else if o < 0.0 {
            -1
        } else {
            0
        }
    }

    /// an event is over: what is complete from now on
    pub fn completed(&mut self, kind: usize, a: u32, b: u32) {
        match kind {
            1 => self.swept.push(a),
            2 => self.finished.push(key(a, b)),
            _ => {}
        }
    }

    /// Check what is visible at a callback of `kind`. Breaches: of the structure (C06), of what is whole at a
    /// step boundary (C07); some are both.
    pub fn check(&mut self, kind: usize, ctx: &Sweeper) -> Breach {
        let mut br = Breach::default();
        if self.float.is_empty() {
            self.float = ctx.points.iter().map(|(_, p, _)| (p.x as f64, p.y as f64)).collect();
            if self.float.len() != self.n + 2 {
                br.structure = Some(format!("{} points in view, {} expected", self.float.len(), self.n + 2));
                self.float.clear();
                return br;
            }
        }
        // enter, exit, edge, done, finalized: step boundaries
        let boundary = kind <= 4;
        let s = snap(ctx);
        let both = |br: &mut Breach, m: String| {
            if boundary {
                br.whole.get_or_insert(m.clone());
            }
            br.structure.get_or_insert(m);
        };
        let nt = s.tris.len();
        let mut dir: HashMap<(u32, u32), (usize, usize)> = HashMap::with_capacity(nt * 3);
        let mut seen = vec![false; self.n + 2];
        let mut sign = Vec::with_capacity(nt);
        for (i, t) in s.tris.iter().enumerate() {
            if t.iter().any(|&p| p as usize >= self.n + 2) || t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
                both(&mut br, format!("triangle {i} has vertices {t:?}"));
                return br;
            }
            t.iter().for_each(|&p| seen[p as usize] = true);
            let g = self.sign(t);
            sign.push(g);
            if g < 0 {
                both(&mut br, format!("triangle {i} {t:?} is inverted"));
            }
            for e in 0..3 {
                let d = (t[(e + 1) % 3], t[(e + 2) % 3]);
                if let Some((o, _)) = dir.insert(d, (i, e)) {
                    both(&mut br, format!("edge {d:?} belongs to triangles {o} and {i} on the same side"));
                }
            }
        }
        for (&(a, b), &(i, e)) in dir.iter() {
            let want = dir.get(&(b, a)).map(|x| x.0).unwrap_or(NIL);
            let mut c6 = |m: String| {
                br.structure.get_or_insert(m);
            };
            if s.nb[i][e] != want {
                c6(format!("triangle {i} names neighbour {} across {:?}, which is {}", name(s.nb[i][e]), (a, b), name(want)));
            }
            if let Some(&(j, f)) = dir.get(&(b, a)) {
                if s.con[i][e] != s.con[j][f] {
                    c6(format!("triangles {i} and {j} disagree whether {:?} is constrained", (a, b)));
                }
            }
            if s.con[i][e] && !self.edges.contains(&key(a, b)) {
                c6(format!("{:?} is constrained but no edge of the input", (a, b)));
            }
        }
        for &p in &self.swept {
            if !seen[p as usize] {
                both(&mut br, format!("swept point {p} is no longer in the mesh"));
                break;
            }
        }
        for &(a, b) in &self.finished {
            match dir.get(&(a, b)).or(dir.get(&(b, a))) {
                None => both(&mut br, format!("finished edge {:?} is not in the mesh", (a, b))),
                Some(&(i, e)) => {
                    if !s.con[i][e] {
                        both(&mut br, format!("finished edge {:?} is not marked constrained", (a, b)));
                    }
                }
            }
        }
        if boundary && br.whole.is_none() {
            br.whole = self.boundary(kind, &s, &dir, &sign).err();
        }
        br
    }

    fn boundary(&self, kind: usize, s: &Snap, dir: &HashMap<(u32, u32), (usize, usize)>, sign: &[i32]) -> Result<(), String> {
        let (head, tail) = (self.n as u32, self.n as u32 + 1);
        let f = &s.front;
        if f.len() < 3 || f[0].0 != head || f[f.len() - 1].0 != tail {
            return Err(format!("the front {:?} does not run from one helper point to the other", f.iter().map(|x| x.0).collect::<Vec<_>>()));
        }
        let mut open: HashSet<(u32, u32)> = HashSet::new();
        open.insert((head, tail));
        for w in f.windows(2) {
            let (a, b) = (w[0].0, w[1].0);
            if self.float[a as usize] >= self.float[b as usize] {
                return Err(format!("the front is not monotone at {a}, {b}"));
            }
            // the mesh lies below the front: its boundary runs from right to left there
            match dir.get(&(b, a)) {
                Some(&(t, _)) if t == w[0].1 => {}
                Some(&(t, _)) => return Err(format!("front segment {a}-{b} names triangle {}, it is an edge of {t}", name(w[0].1))),
                None => return Err(format!("front segment {a}-{b} is no edge of the mesh")),
            }
            open.insert((b, a));
        }
        for &(a, b) in dir.keys() {
            if !dir.contains_key(&(b, a)) && !open.contains(&(a, b)) {
                return Err(format!("the mesh has a gap or overlap along {:?}, which is not on the front", (a, b)));
            }
        }
        for d in &open {
            if dir.contains_key(&(d.1, d.0)) && dir.contains_key(d) {
                return Err(format!("the mesh continues beyond the front at {d:?}"));
            }
            if !dir.contains_key(d) {
                return Err(format!("the mesh does not reach {d:?}"));
            }
        }
        for (&(a, b), &(i, e)) in dir.iter() {
            if a > b || s.con[i][e] {
                continue;
            }
            let Some(&(j, g)) = dir.get(&(b, a)) else { continue };
            let (p, q) = (s.tris[i][e], s.tris[j][g]);
            if [a, b, p, q].iter().any(|&v| v as usize >= self.n) || sign[i] == 0 || sign[j] == 0 {
                continue;
            }
            let c = |v: u32| self.coords[v as usize];
            let t = &s.tris[i];
            if geom::in_circle(c(t[0]), c(t[1]), c(t[2]), c(q)) > 0 {
                return Err(format!("unconstrained edge {:?} of triangles {i} and {j} breaks the empty-circle rule", (a, b)));
            }
        }
        if kind == 3 || kind == 4 {
            if self.swept.len() + 1 < self.n {
                return Err(format!("only {} of {} points were swept", self.swept.len() + 1, self.n));
            }
            for e in &self.edge_list {
                if !self.finished.contains(e) {
                    return Err(format!("constraint edge {e:?} was never reported"));
                }
            }
        }
        if kind == 4 {
            let mut area = 0i128;
            let mut once = HashSet::new();
            for &t in &s.result {
                if t >= s.tris.len() || !once.insert(t) {
                    return Err(format!("the result lists triangle {} twice or does not have it", name(t)));
                }
                let v = &s.tris[t];
                if v.iter().any(|&p| p as usize >= self.n) {
                    return Err(format!("triangle {t} of the result uses a helper point"));
                }
                let c: Vec<P> = v.iter().map(|&p| self.coords[p as usize]).collect();
                let a = geom::orient(c[0], c[1], c[2]);
                area += a;
                if a > 0 && !self.interior(&c) {
                    return Err(format!("triangle {t} {v:?} of the result is not inside the outline and outside the holes"));
                }
            }
            if area != self.area2 {
                return Err(format!("the result has area {area}/2, the domain {}/2", self.area2));
            }
        }
        Ok(())
    }

    fn interior(&self, c: &[P]) -> bool {
        let g = (c[0].0 + c[1].0 + c[2].0, c[0].1 + c[1].1 + c[2].1);
        let big = |r: &[P]| -> Vec<P> { r.iter().map(|p| (p.0 * 3, p.1 * 3)).collect() };
        geom::inside(&big(&self.outline), g) && self.holes.iter().all(|h| !geom::inside(&big(h), g))
    }
}

fn name(t: usize) -> String {
    if t == NIL {
        "none".into()
    } else {
        t.to_string()
    }
}
