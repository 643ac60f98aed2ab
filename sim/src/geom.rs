//! Exact integer geometry and the generator of valid inputs (one simple outline, disjoint
//! simple holes strictly inside it, distinct sparse points off every edge).
use crate::prng::Rng;

pub type P = (i64, i64);

pub fn orient(a: P, b: P, c: P) -> i128 {
    let (ax, ay) = (a.0 as i128 - c.0 as i128, a.1 as i128 - c.1 as i128);
    let (bx, by) = (b.0 as i128 - c.0 as i128, b.1 as i128 - c.1 as i128);
    ax * by - ay * bx
}

/// > 0 when d is strictly inside the circle through the ccw triangle a b c
pub fn in_circle(a: P, b: P, c: P, d: P) -> i128 {
    let f = |p: P| (p.0 as i128 - d.0 as i128, p.1 as i128 - d.1 as i128);
    let (ax, ay) = f(a);
    let (bx, by) = f(b);
    let (cx, cy) = f(c);
    let (al, bl, cl) = (ax * ax + ay * ay, bx * bx + by * by, cx * cx + cy * cy);
    ax * (by * cl - cy * bl) - ay * (bx * cl - cx * bl) + al * (bx * cy - cx * by)
}

fn on_segment(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

/// closed segments share a point
pub fn segs_touch(a: P, b: P, c: P, d: P) -> bool {
    let o1 = orient(a, b, c).signum();
    let o2 = orient(a, b, d).signum();
    let o3 = orient(c, d, a).signum();
    let o4 = orient(c, d, b).signum();
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)
}

pub fn is_simple(poly: &[P]) -> bool {
    let n = poly.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in i + 1..n {
            let (c, d) = (poly[j], poly[(j + 1) % n]);
            let adj_next = j == i + 1;
            let adj_prev = (j + 1) % n == i;
            if adj_next && adj_prev {
                continue;
            }
            if adj_next {
                // share b == c: only b may be common
                if on_segment(a, b, d) || on_segment(c, d, a) {
                    return false;
                }
            } else if adj_prev {
                if on_segment(a, b, c) || on_segment(c, d, b) {
                    return false;
                }
            } else if segs_touch(a, b, c, d) {
                return false;
            }
        }
    }
    area2(poly) != 0
}

pub fn area2(poly: &[P]) -> i128 {
    let n = poly.len();
    (0..n)
        .map(|i| {
            let (a, b) = (poly[i], poly[(i + 1) % n]);
            a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128
        })
        .sum()
}

/// strictly inside (boundary counts as outside)
pub fn inside(poly: &[P], p: P) -> bool {
    let n = poly.len();
    let mut c = false;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if on_segment(a, b, p) {
            return false;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let o = orient(a, b, p);
            if (o > 0) == (b.1 > a.1) {
                c = !c;
            }
        }
    }
    c
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Input {
    pub outline: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub steiner: Vec<P>,
    /// coordinates are multiplied by 2^exp2 when handed over
    pub exp2: i32,
}

impl Input {
    pub fn points(&self) -> Vec<P> {
        let mut v = self.outline.clone();
        for h in &self.holes {
            v.extend_from_slice(h);
        }
        v.extend_from_slice(&self.steiner);
        v
    }
    pub fn len(&self) -> usize {
        self.outline.len() + self.holes.iter().map(|h| h.len()).sum::<usize>() + self.steiner.len()
    }
    /// constraint edges, as index pairs in `points()` order
    pub fn edges(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        let mut base = 0;
        for r in std::iter::once(&self.outline).chain(self.holes.iter()) {
            for i in 0..r.len() {
                v.push((base + i, base + (i + 1) % r.len()));
            }
            base += r.len();
        }
        v
    }
    /// twice the area of outline minus holes
    pub fn domain_area2(&self) -> i128 {
        area2(&self.outline).abs() - self.holes.iter().map(|h| area2(h).abs()).sum::<i128>()
    }
    pub fn valid(&self) -> bool {
        if !is_simple(&self.outline) || self.holes.iter().any(|h| !is_simple(h)) {
            return false;
        }
        let rings: Vec<&Vec<P>> = std::iter::once(&self.outline).chain(self.holes.iter()).collect();
        for i in 0..rings.len() {
            for j in i + 1..rings.len() {
                for a in 0..rings[i].len() {
                    for b in 0..rings[j].len() {
                        if segs_touch(
                            rings[i][a],
                            rings[i][(a + 1) % rings[i].len()],
                            rings[j][b],
                            rings[j][(b + 1) % rings[j].len()],
                        ) {
                            return false;
                        }
                    }
                }
                if i == 0 {
                    if !inside(rings[0], rings[j][0]) {
                        return false;
                    }
                } else if inside(rings[i], rings[j][0]) || inside(rings[j], rings[i][0]) {
                    return false;
                }
            }
        }
        let mut pts = self.points();
        let n = pts.len();
        pts.sort();
        pts.dedup();
        if pts.len() != n {
            return false;
        }
        self.steiner.iter().all(|&s| {
            inside(rings[0], s)
                && rings.iter().all(|r| (0..r.len()).all(|i| !on_segment(r[i], r[(i + 1) % r.len()], s)))
        })
    }
}

fn star(rng: &mut Rng, cx: i64, cy: i64, rmax: f64, n: usize) -> Vec<P> {
    let spiky = rng.unit() * 0.9;
    let mut ang: Vec<f64> = (0..n).map(|i| (i as f64 + rng.unit() * 0.9) / n as f64 * std::f64::consts::TAU).collect();
    let off = rng.unit() * 6.0;
    ang.iter_mut().for_each(|a| *a += off);
    ang.iter()
        .map(|a| {
            let r = rmax * (1.0 - spiky * rng.unit());
            (cx + (r * a.cos()) as i64, cy + (r * a.sin()) as i64)
        })
        .collect()
}

fn monotone(rng: &mut Rng, r: i64, n: usize) -> Vec<P> {
    let nu = 1 + rng.index(n - 2);
    let nl = (n - 2) - nu.min(n - 2);
    let rough = 1 + rng.index(100) as i64;
    let mut chain = |k: usize, up: bool| -> Vec<P> {
        let mut xs: Vec<i64> = (0..k).map(|_| rng.range(-r + 1, r - 1)).collect();
        xs.sort();
        xs.dedup();
        xs.into_iter()
            .map(|x| {
                let y = 1 + rng.below((r * rough / 100).max(2) as u64) as i64;
                (x, if up { y } else { -y })
            })
            .collect()
    };
    let mut up = chain(nu, true);
    let lo = chain(nl, false);
    let mut out = vec![(-r, 0)];
    out.extend(lo);
    out.push((r, 0));
    up.reverse();
    out.extend(up);
    out
}

fn comb(rng: &mut Rng, r: i64, n: usize) -> Vec<P> {
    // teeth along the top of a bar
    let t = (n / 2).max(2);
    let step = (2 * r / t as i64).max(2);
    let base = -r / 2;
    let mut out = vec![(-r, base - r / 4 - 1), (r, base - r / 4 - 1)];
    let mut top = vec![];
    for i in 0..t as i64 {
        let x = -r + i * step;
        top.push((x + rng.range(0, step / 4), base + rng.range(1, r)));
        top.push((x + step / 2 + rng.range(0, step / 4), base + rng.range(-r / 8, r / 8)));
    }
    top.reverse();
    out.extend(top);
    out
}

fn spiral(rng: &mut Rng, r: i64, n: usize) -> Vec<P> {
    let h = (n / 2).max(3);
    let turns = 0.5 + rng.unit() * 1.6;
    let mut inner = vec![];
    let mut outer = vec![];
    let jit = 0.05;
    for i in 0..h {
        let f = i as f64 / (h - 1) as f64;
        let a = f * turns * std::f64::consts::TAU;
        let rad = r as f64 * (0.15 + 0.8 * (a / (turns * std::f64::consts::TAU)));
        let w = r as f64 * 0.8 / (turns.max(1.0)) * 0.45;
        let j1 = 1.0 + jit * rng.unit();
        let j2 = 1.0 + jit * rng.unit();
        outer.push(((rad * j1 * a.cos()) as i64, (rad * j1 * a.sin()) as i64));
        let ri = (rad - w).max(r as f64 * 0.02) * j2;
        inner.push(((ri * a.cos()) as i64, (ri * a.sin()) as i64));
    }
    inner.reverse();
    outer.extend(inner);
    outer
}

fn two_opt(rng: &mut Rng, r: i64, n: usize) -> Vec<P> {
    let mut p: Vec<P> = (0..n).map(|_| (rng.range(-r, r), rng.range(-r, r))).collect();
    for _ in 0..400 {
        let mut changed = false;
        'o: for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                if segs_touch(p[i], p[i + 1], p[j], p[(j + 1) % n]) {
                    p[i + 1..=j].reverse();
                    changed = true;
                    break 'o;
                }
            }
        }
        if !changed {
            break;
        }
    }
    p
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub max_outline: usize,
    pub max_steiner: usize,
    pub max_holes: usize,
    /// coordinate radius
    pub radius: i64,
}

pub fn gen_outline(rng: &mut Rng, r: i64, n: usize) -> Option<Vec<P>> {
    for _ in 0..8 {
        let mut p = match rng.below(9) {
            0..=2 => star(rng, 0, 0, r as f64, n),
            3 | 4 => monotone(rng, r, n.max(4)),
            5 => comb(rng, r, n.max(6)),
            6 => spiral(rng, r, n.max(8)),
            _ => two_opt(rng, r, n.min(40)),
        };
        match rng.below(4) {
            0 => p.iter_mut().for_each(|q| *q = (q.1, q.0)),
            1 => p.iter_mut().for_each(|q| *q = (-q.0, q.1)),
            2 => p.iter_mut().for_each(|q| *q = (q.0, -q.1)),
            _ => {}
        }
        if rng.chance(1, 3) {
            let (dx, dy) = (rng.range(-3 * r, 3 * r), rng.range(-3 * r, 3 * r));
            p.iter_mut().for_each(|q| *q = (q.0 + dx, q.1 + dy));
        }
        if rng.chance(1, 2) {
            p.reverse();
        }
        if is_simple(&p) {
            let k = rng.index(p.len());
            p.rotate_left(k);
            return Some(p);
        }
    }
    None
}

fn dist_to_ring(ring: &[P], p: P) -> f64 {
    let n = ring.len();
    let mut best = f64::MAX;
    for i in 0..n {
        let (a, b) = (ring[i], ring[(i + 1) % n]);
        let (ax, ay) = (a.0 as f64, a.1 as f64);
        let (dx, dy) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
        let t = (((p.0 as f64 - ax) * dx + (p.1 as f64 - ay) * dy) / (dx * dx + dy * dy)).clamp(0.0, 1.0);
        let (ex, ey) = (ax + t * dx - p.0 as f64, ay + t * dy - p.1 as f64);
        best = best.min((ex * ex + ey * ey).sqrt());
    }
    best
}

fn bbox(r: &[P]) -> (i64, i64, i64, i64) {
    r.iter().fold((i64::MAX, i64::MAX, i64::MIN, i64::MIN), |b, p| {
        (b.0.min(p.0), b.1.min(p.1), b.2.max(p.0), b.3.max(p.1))
    })
}

pub fn gen_input(rng: &mut Rng, cfg: &GenCfg) -> Input {
    loop {
        let n = 3 + rng.index(cfg.max_outline.max(4) - 2);
        let Some(outline) = gen_outline(rng, cfg.radius, n) else { continue };
        let b = bbox(&outline);
        let mut holes: Vec<Vec<P>> = vec![];
        let want = if cfg.max_holes == 0 { 0 } else { rng.index(cfg.max_holes + 1) };
        for _ in 0..want * 6 {
            if holes.len() >= want {
                break;
            }
            let c = (rng.range(b.0, b.2), rng.range(b.1, b.3));
            if !inside(&outline, c) || holes.iter().any(|h| inside(h, c)) {
                continue;
            }
            let d = holes.iter().map(|h| dist_to_ring(h, c)).fold(dist_to_ring(&outline, c), f64::min) * 0.9;
            if d < 4.0 {
                continue;
            }
            let hn = 3 + rng.index(6);
            let hr = d * (0.3 + 0.7 * rng.unit());
            let mut h = star(rng, c.0, c.1, hr, hn);
            if rng.chance(1, 2) {
                h.reverse();
            }
            if is_simple(&h) {
                holes.push(h);
            }
        }
        let mut steiner = vec![];
        let want = if cfg.max_steiner == 0 { 0 } else { rng.index(cfg.max_steiner + 1) };
        for _ in 0..want * 4 {
            if steiner.len() >= want {
                break;
            }
            let c = (rng.range(b.0, b.2), rng.range(b.1, b.3));
            if inside(&outline, c) && !steiner.contains(&c) {
                steiner.push(c);
            }
        }
        let inp = Input { outline, holes, steiner, exp2: 0 };
        if inp.valid() {
            return inp;
        }
    }
}
