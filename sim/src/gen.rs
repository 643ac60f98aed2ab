//! Makes the plan of one run from its seed, for one property.
use crate::disk::DiskFault;
use crate::geom::{gen_input, GenCfg, Input, P};
use crate::plan::*;
use crate::prng::Rng;

fn frac(r: &mut Rng, sel: u32) -> u32 {
    FRAC | sel << 16 | r.below(65536) as u32
}
/// a callback to strike at: anywhere, or at a kind of callback chosen first
fn cb(r: &mut Rng) -> u32 {
    let sel = match r.below(5) {
        0 => 0,
        1 => 10,
        _ => 1 + r.below(9) as u32,
    };
    frac(r, sel)
}

fn box_around(i: &mut Input, r: &mut Rng) {
    let c: Vec<P> = i.points();
    let (x0, x1) = (c.iter().map(|p| p.0).min().unwrap(), c.iter().map(|p| p.0).max().unwrap());
    let (y0, y1) = (c.iter().map(|p| p.1).min().unwrap(), c.iter().map(|p| p.1).max().unwrap());
    let d = (x1 - x0).max(y1 - y0) / 8 + 3;
    let mut off = || 1 + r.range(0, d);
    i.outline = vec![(x0 - off(), y0 - off()), (x1 + off(), y0 - off()), (x1 + off(), y1 + off()), (x0 - off(), y1 + off())];
}

/// Inputs on the edge of degeneracy, at coordinates where inexact arithmetic gets it wrong: points that
/// miss a common circle, or a common line, by as little as whole numbers allow.
fn close_call(r: &mut Rng) -> Option<Input> {
    let mut i = Input { outline: vec![], holes: vec![], steiner: vec![], exp2: 0 };
    let size = 1i64 << r.range(9, 27);
    let at = (r.range(-size, size), r.range(-size, size));
    let mut pts: Vec<P> = vec![];
    if r.chance(3, 5) {
        let (m, n) = *r.pick(&[(1i64, 2i64), (1, 3), (2, 3), (1, 4), (3, 4), (1, 1), (0, 1), (2, 5), (1, 7)]);
        let g = size / (m + n);
        let mut around = vec![];
        for (a, b) in [(m, n), (n, m)] {
            for (a, b) in [(a, b), (-a, b), (a, -b), (-a, -b)] {
                if !around.contains(&(a, b)) {
                    around.push((a, b));
                }
            }
        }
        for (a, b) in around {
            // along the tangent, whose smallest step is known
            let k = *r.pick(&[0, 0, 1, -1, 1, -1, 2, -2]);
            if r.chance(5, 6) {
                pts.push((g * a - k * b, g * b + k * a));
            }
        }
        for _ in 0..r.below(4) {
            pts.push((r.range(-size, size), r.range(-size, size)));
        }
        if r.chance(1, 4) {
            // the same again, turned about a point of it
            let p = *r.pick(&pts);
            pts.extend(pts.clone().into_iter().map(|q| (2 * p.0 - q.0 + 1, 2 * p.1 - q.1)));
        }
    } else {
        let most = *r.pick(&[3i64, 6, 12, 30]);
        let (u, v) = (r.range(1, size / most + 2), r.range(-size / most - 2, size / most + 2));
        // w with u * w.1 - v * w.0 = gcd
        let (mut a, mut b, mut x, mut y) = (u, v, (1i64, 0i64), (0i64, 1i64));
        while b != 0 {
            let q = a / b;
            (a, b) = (b, a - q * b);
            (x, y) = (y, (x.0 - q * y.0, x.1 - q * y.1));
        }
        let w = (-x.1, x.0);
        for k in 0..=most {
            if r.chance(4, 5) {
                let e = *r.pick(&[0i64, 0, 1, -1, 1, -1, 2, -3]);
                pts.push((k * u + e * w.0, k * v + e * w.1));
            }
        }
        if r.chance(1, 2) && pts.len() > 4 {
            // some of them are joined: a thin triangle, a thin quadrilateral
            let n = 3 + r.index(2);
            let from = r.index(pts.len() - n + 1);
            let h: Vec<P> = pts.drain(from..from + n).collect();
            let h = if n == 4 { vec![h[0], h[1], h[3], h[2]] } else { h };
            i.holes.push(h);
        }
        for _ in 0..r.below(5) {
            pts.push((r.range(0, most * u + 1), r.range(-size, size)));
        }
    }
    pts.sort_unstable();
    pts.dedup();
    if pts.len() + i.holes.len() < 3 {
        return None;
    }
    if i.holes.is_empty() && r.chance(1, 3) && pts.len() < 40 {
        // the points are the outline
        let c = (pts.iter().map(|p| p.0).sum::<i64>() / pts.len() as i64, pts.iter().map(|p| p.1).sum::<i64>() / pts.len() as i64);
        pts.sort_by(|p, q| {
            let f = |p: &P| ((p.1 - c.1) as f64).atan2((p.0 - c.0) as f64);
            f(p).total_cmp(&f(q))
        });
        i.outline = pts;
    } else {
        for k in (1..pts.len()).rev() {
            pts.swap(k, r.index(k + 1));
        }
        i.steiner = pts;
        box_around(&mut i, r);
    }
    map(&mut i, |p| (p.0 + at.0, p.1 + at.1));
    if r.chance(1, 2) {
        map(&mut i, |p| (p.1, p.0));
    }
    i.exp2 = *r.pick(&[0, 0, 0, -(size.ilog2() as i32), -40, 10]);
    i.valid().then_some(i)
}

pub fn input(r: &mut Rng, size: u32) -> Input {
    if size > 0 && r.chance(1, 8) {
        for _ in 0..6 {
            if let Some(i) = close_call(r) {
                return i;
            }
        }
    }
    let radius = match r.below(8) {
        0 => r.range(4, 8),
        1 | 2 => r.range(8, 24),
        3 | 4 => r.range(24, 200),
        5 | 6 => r.range(200, 5000),
        _ => r.range(5000, 1 << 25),
    };
    let (mo, ms, mh) = match size {
        0 => (6, 3, 0),
        1 => (12, 6, 1),
        2 => (28, 14, 2),
        3 => (60, 40, 4),
        _ => (180, 220, 8),
    };
    let ms = if r.chance(1, 3) { 0 } else { ms };
    // few places to put many points: keep the ring small
    let mo = if radius < 24 { mo.min(10 + radius as usize) } else { mo };
    let mut i = gen_input(r, &GenCfg { max_outline: mo, max_steiner: ms, max_holes: mh, radius });
    if r.chance(1, 4) {
        let k = *r.pick(&[1i64, 1, 2, 3]);
        let m = r.below(4);
        map(&mut i, |p| match m {
            0 => (p.0 + k * p.1, p.1),
            1 => (p.0, p.1 + k * p.0),
            2 => (p.0 * (k + 1), p.1),
            _ => (p.0, p.1 * (k + 2)),
        });
    }
    i.exp2 = match r.below(12) {
        0 => -30 - r.below(30) as i32,
        1 => 20 + r.below(30) as i32,
        2 => -(r.below(12) as i32),
        3 => r.below(4) as i32,
        _ => 0,
    };
    i
}

/// Many points along something long: whatever takes a step per point, or per crossed triangle, takes
/// thousands of them in one go.
pub fn long(r: &mut Rng, most: i64) -> Input {
    let n = r.range(most / 3, most);
    let step = *r.pick(&[8i64, 24, 100]);
    let w = n * step;
    let h = *r.pick(&[-1i64, 1]) * w / *r.pick(&[5i64, 40, 300, 1000]);
    let line = |x: i64| (x * h).div_euclid(w);
    let far = 2 * w + r.range(0, 99);
    let mut i = Input {
        outline: vec![(-far, -far - 3), (far + 1, -far), (far, far + 5), (-far - 2, far)],
        holes: vec![],
        steiner: vec![],
        exp2: 0,
    };
    let mut bar = |i: &mut Input, top: i64| i.holes.push(vec![(0, 0), (w, h), (w / 2, line(w / 2) + top)]);
    let x = |r: &mut Rng, k: i64| k * step + step / 2 + r.range(-step / 4, step / 4);
    match r.below(16) {
        0..=2 => {
            // either side of the bar, in turns
            bar(&mut i, 1);
            let (turn, spread) = (*r.pick(&[1i64, 1, 2, 10]), *r.pick(&[1i64, 20, 400]));
            for k in 0..n {
                let (x, d) = (x(r, k), 3 + r.range(0, spread));
                i.steiner.push((x, line(x) + if k / turn % 2 == 0 { d } else { -d }));
            }
        }
        3..=6 => {
            // below it, on an arc
            bar(&mut i, w / 9);
            let sag = r.chance(1, 2);
            let a = *r.pick(&[w / 2500 + 9, w / 900 + 9, w / 200, w / 30, w / 3]);
            for k in 0..n {
                let x = x(r, k);
                let t = 2.0 * x as f64 / w as f64 - 1.0;
                let d = if sag { 1.0 - t * t } else { t * t };
                i.steiner.push((x, line(x) - 3 - (a as f64 * d) as i64));
            }
        }
        7 => {
            // below it, anywhere
            bar(&mut i, w / 7);
            let spread = *r.pick(&[3i64, 60, 2000]);
            for k in 0..n {
                let x = x(r, k);
                i.steiner.push((x, line(x) - 3 - r.range(0, spread)));
            }
        }
        8..=10 => {
            // bowls, with rims so high that all of a bowl is filled at once
            let bowls = *r.pick(&[1i64, 1, 1, 2, 5, 30]);
            let rough = *r.pick(&[0i64, 0, 1, 5]);
            let m = n / bowls;
            for b in 0..bowls {
                let (mut lo, mut up) = (0, 0);
                let slope = *r.pick(&[1i64, 2, 4, 8]);
                for k in 0..m / 2 {
                    // one from the bottom to the left, one to the right
                    for (y, side) in [(&mut lo, -1), (&mut up, 1)] {
                        *y += 1 + k * step * slope / (4 * m) + r.range(0, rough);
                        i.steiner.push((b * (m + 4) * step + (m / 2) * step + side * k * step + (side - 1) / 2, *y));
                    }
                }
                let top = lo.max(up) + *r.pick(&[1i64, 2, 4]) * m * step + r.range(0, 99);
                let higher = *r.pick(&[-1i64, 1, 1]) * r.range(1, 2 * m * step);
                let edge = *r.pick(&[0i64, 1, step]);
                i.steiner.push((b * (m + 4) * step - edge - 1, top + higher.max(0)));
                i.steiner.push((b * (m + 4) * step + m * step + edge, top - higher.min(0)));
            }
            let far = 12 * w;
            i.outline = vec![(-far, -far - 3), (far + 1, -far), (far, far + 5), (-far - 2, far)];
        }
        11 => {
            // a comb, teeth up or down or both
            let (both, long) = (r.chance(1, 2), *r.pick(&[step, 40 * step, w]));
            let teeth = n / 6;
            let tooth = |r: &mut Rng| 1 + r.range(long / 2, long);
            i.outline = (0..teeth * 2).map(|k| (k * step, if k % 2 == 0 { step } else { tooth(r) + step })).collect();
            let base = |k: i64, r: &mut Rng| if both && k % 2 == 0 { -tooth(r) } else { -step + r.range(-2, 2) };
            for k in (0..teeth * 2).rev() {
                let y = base(k, r);
                i.outline.push((k * step + 1, y));
            }
        }
        12 => {
            // around in circles
            let turns = *r.pick(&[1i64, 3, 12]);
            let half = n / 4;
            let pitch = 40 * step * half / turns / 40 / 6 + 30;
            let at = |k: i64, off: i64| {
                let a = k as f64 / half as f64 * turns as f64 * std::f64::consts::TAU;
                let d = (pitch * turns) as f64 * 0.2 + pitch as f64 * a / std::f64::consts::TAU + off as f64;
                ((d * a.cos()).round() as i64 * 3 + k % 2, (d * a.sin()).round() as i64 * 3)
            };
            i.outline = (0..=half).map(|k| at(k, 0)).collect();
            i.outline.extend((0..=half).rev().map(|k| at(k, pitch / 2)));
        }
        13 => {
            // two rough chains
            let a = *r.pick(&[3i64, 50, 3000]);
            let half = n / 5; // these take a number of flips that grows with the square
            let xs: Vec<i64> = (0..half).map(|k| x(r, k)).collect();
            i.outline = vec![(-step, 0)];
            i.outline.extend(xs.iter().map(|&x| (x, -1 - r.range(0, a))).collect::<Vec<_>>());
            i.outline.push((half * step + step, 0));
            i.outline.extend(xs.iter().rev().map(|&x| (x + 1, 1 + r.range(0, a))).collect::<Vec<_>>());
        }
        _ => {
            let mut seen = std::collections::HashSet::new();
            for _ in 0..n {
                let p = (r.range(-w, w), r.range(-w, w));
                if seen.insert(p) {
                    i.steiner.push(p);
                }
            }
        }
    }
    match r.below(8) {
        0..=2 => map(&mut i, |p| (-p.0, p.1)),
        3 => map(&mut i, |p| (p.0, -p.1)),
        4 => map(&mut i, |p| (p.1, p.0)),
        _ => {}
    }
    if r.chance(1, 2) {
        i.outline.reverse();
    }
    i
}

/// more holes than one would draw
fn holes(r: &mut Rng, most: i64) -> Input {
    let n = r.range(most / 8, most);
    let cols = r.range(1, n.min(40));
    let cell = *r.pick(&[8i64, 30, 1000]);
    let rows = (n + cols - 1) / cols;
    let (w, h) = (cols * cell, rows * cell);
    let mut i = Input { outline: vec![(-3, -2), (w + 5, -4), (w + 3, h + 5), (-4, h + 3)], ..Input::default() };
    let mut seen = std::collections::HashSet::new();
    for k in 0..n {
        let o = (k % cols * cell, k / cols * cell);
        let half = cell / 2;
        let mut hole = vec![
            (o.0 + r.range(0, half - 2), o.1 + r.range(0, half - 2)),
            (o.0 + r.range(half, cell - 2), o.1 + r.range(0, half - 2)),
            (o.0 + r.range(1, cell - 2), o.1 + r.range(half, cell - 2)),
        ];
        if r.chance(1, 2) {
            hole.reverse();
        }
        i.holes.push(hole);
        // the rest of the cell is free
        let s = (o.0 + cell - 1, o.1 + r.range(0, cell - 1));
        if r.chance(1, 4) && seen.insert(s) {
            i.steiner.push(s);
        }
    }
    i
}

/// long inputs on the small stacks that threads may have
fn long_plan(r: &mut Rng, prop: u32) -> Plan {
    let n = 1 + r.below(2) as u8;
    let mut p = Plan { prop, env: r.next_u64() >> 2, ..Plan::default() };
    // never with the debug assertions: they look at every triangle after every point
    p.flavour = if prop == 13 && has(3) && r.chance(1, 2) { 3 } else { 0 };
    let most = match prop {
        13 if p.flavour == 0 => 10500,
        13 => 4500,
        _ => 2400,
    };
    let found = (0..6).map(|_| if r.chance(1, 16) { holes(r, most / 5) } else { long(r, most) }).find(Input::valid);
    p.inputs.push(found.unwrap_or_else(|| input(r, 9)));
    for _ in 0..n {
        let i = p.inputs[0].clone();
        let mut o = vec![Op::New { s: 0, inp: 0, unit: r.chance(1, 2), f: OpFault::default() }];
        if !i.holes.is_empty() {
            o.push(Op::Holes { s: 0, inp: 0, h0: 0, n: i.holes.len() as u16, f: OpFault::default() });
        }
        if !i.steiner.is_empty() {
            let batch = r.chance(1, 2);
            o.push(Op::St { s: 0, inp: 0, from: 0, n: i.steiner.len() as u16, batch, f: OpFault::default() });
        }
        o.push(Op::Build { s: 0, f: OpFault::default() });
        let mut obs = Obs { mode: *r.pick(&[0, 1, 2, 2]), every: 31, ..Obs::default() };
        if prop != 13 {
            obs = Obs { mode: 2, flags: MESH, every: *r.pick(&[211, 499, 1499]), ..obs };
        }
        o.push(Op::Tri { s: 0, obs, f: OpFault::default() });
        o.push(Op::Use { s: 0, how: *r.pick(&[2, 10]), n: 1, f: OpFault::default() });
        p.tasks.push(o);
    }
    p.sched = SchedSpec { seed: r.next_u64(), ..SchedSpec::default() };
    p.sched.p[3] = *r.pick(&[0u32, 3000]);
    p.sched.p[6] = 20000;
    p.sched.p_stall = *r.pick(&[0u32, 20]);
    p.stack = *r.pick(&[128u32, 192, 256]);
    p
}

/// More points, or more triangles, than 16 bits can count. Rare: one takes as long as hundreds of the others.
fn huge_plan(r: &mut Rng, prop: u32, n: i64) -> Plan {
    let mut p = Plan { prop, env: r.next_u64() >> 2, ..Plan::default() };
    // so few rows or columns that the front stays short
    let (w, h) = *r.pick(&[(9000i64, 9000i64), (2000, 40_000), (600, 120_000)]);
    let tilt = r.range(1, 5);
    let mut i = Input { outline: vec![(-w - tilt, -h), (w + 1, -h - tilt), (w + tilt, h + 2), (-w, h + tilt)], ..Input::default() };
    i.holes.push(vec![(-3, -2), (4, -3), (1, 5)]);
    let mut seen: std::collections::HashSet<P> = (-4..6).flat_map(|x| (-4..7).map(move |y| (x, y))).collect();
    while (i.steiner.len() as i64) < n {
        let q = (r.range(1 - w, w - 1), r.range(1 - h, h - 1));
        if seen.insert(q) {
            i.steiner.push(q);
        }
    }
    p.inputs.push(i);
    if prop == 10 {
        p.contents = vec![Content { inp: 0, style: r.next_u64() >> 2, raw: None, corrupt: vec![] }];
        p.files = vec![0];
        let k = DiskFault { call: 2, nth: 0, kind: 2, arg: *r.pick(&[0u32, 100, 70_000, 1 << 20]) };
        let mut faults = if r.chance(1, 2) { vec![k] } else { vec![] };
        if r.chance(1, 2) {
            let arg = *r.pick(&[1000u32, 4096, 5000, 65_536, 70_000]);
            faults.extend((0..60).map(|nth| DiskFault { call: 1, nth, kind: 2, arg }));
        }
        p.tasks.push(vec![Op::Load { s: 0, loader: 0, file: 0, faults, f: OpFault::default() }, Op::Snoop { s: 0 }]);
        p.sched = SchedSpec { seed: r.next_u64(), ..SchedSpec::default() };
        return p;
    }
    let mut o = vec![Op::New { s: 0, inp: 0, unit: r.chance(1, 2), f: OpFault::default() }];
    let batch = r.chance(3, 4);
    let cut = if r.chance(1, 3) { r.below(n as u64).min(32_000) as u16 } else { *r.pick(&[0u16, 1]) };
    let hole = Op::Holes { s: 0, inp: 0, h0: 0, n: 1, f: OpFault::default() };
    // the hole first, last or in between: its edges have to find its points
    let at = r.below(3);
    let st = |from: u16, n: i64| Op::St { s: 0, inp: 0, from, n: n.min(u16::MAX as i64) as u16, batch, f: OpFault::default() };
    if at == 0 {
        o.push(hole.clone());
    }
    if cut > 0 {
        o.push(st(0, cut as i64));
    }
    if at == 1 {
        o.push(hole.clone());
    }
    if n > 32_000 {
        o.push(st(cut, 32_000));
        o.push(st(cut + 32_000, n - 32_000 - cut as i64));
    } else {
        o.push(st(cut, n - cut as i64));
    }
    if at == 2 {
        o.push(hole);
    }
    if prop == 16 {
        o.push(Op::Clone { s: 0, to: 1, f: OpFault::default() });
    }
    o.push(Op::Build { s: 0, f: OpFault::default() });
    let obs = match prop {
        7 => Obs { mode: 2, flags: MESH, every: 1 << 20, ..Obs::default() },
        _ if n < 6000 => Obs { mode: *r.pick(&[0, 1, 2]), every: 31, ..Obs::default() },
        _ => Obs { mode: *r.pick(&[0, 1]), ..Obs::default() },
    };
    o.push(Op::Tri { s: 0, obs, f: OpFault::default() });
    o.push(Op::Use { s: 0, how: *r.pick(&[2, 3]), n: 1, f: OpFault::default() });
    if r.chance(1, 2) {
        o.push(Op::Use { s: 0, how: 6, n: *r.pick(&[1000, 65_535, 65_537]), f: OpFault::default() });
        o.push(Op::Use { s: 0, how: *r.pick(&[0, 4, 1]), n: 2, f: OpFault::default() });
    }
    o.push(Op::Use { s: 0, how: 10, n: 0, f: OpFault::default() });
    o.push(Op::Use { s: 0, how: *r.pick(&[2, 3, 8]), n: 0, f: OpFault::default() });
    p.tasks.push(o);
    p.sched = SchedSpec { seed: r.next_u64(), ..SchedSpec::default() };
    p
}

/// sizes at which a buffer, a batch or a counter may be full
fn round_size(r: &mut Rng) -> i64 {
    match r.below(3) {
        0 => *r.pick(&[256i64, 512, 1000, 1024, 2048, 4096]),
        1 => *r.pick(&[256i64, 512, 1000, 1024, 2048, 4096]) - r.range(-4, 8),
        _ => r.range(200, 5000),
    }
}

/// Hundreds of runs on a thread: a large one, and then again after a number of small ones at which a
/// counter may come round.
fn many_plan(r: &mut Rng, prop: u32) -> Plan {
    let mut p = Plan { prop, env: r.next_u64() >> 2, ..Plan::default() };
    let (a, b) = (r.below(3) as u32, r.below(2) as u32);
    p.inputs = vec![input(r, 1 + a), input(r, b), input(r, 0)];
    p.inputs[2] = Input { outline: vec![(0, 0), (9, 1), (3, 8)], ..Input::default() };
    let run = |r: &mut Rng, o: &mut Vec<Op>, i: &Input, inp: u16| {
        o.push(Op::New { s: 0, inp, unit: r.chance(1, 2), f: OpFault::default() });
        if !i.holes.is_empty() && r.chance(3, 4) {
            o.push(Op::Holes { s: 0, inp, h0: 0, n: i.holes.len() as u16, f: OpFault::default() });
        }
        if !i.steiner.is_empty() && r.chance(3, 4) {
            o.push(Op::St { s: 0, inp, from: 0, n: i.steiner.len() as u16, batch: true, f: OpFault::default() });
        }
        o.push(Op::Build { s: 0, f: OpFault::default() });
        o.push(Op::Tri { s: 0, obs: Obs { mode: *r.pick(&[0, 1, 1, 2]), every: 31, ..Obs::default() }, f: OpFault::default() });
        if r.chance(1, 8) {
            o.push(Op::Use { s: 0, how: 10, n: 0, f: OpFault::default() });
        }
    };
    for _ in 0..1 + r.below(2) {
        let mut o = vec![];
        let small = 1 + r.below(2) as u16;
        for _ in 0..2 + r.below(3) {
            let (i, inp) = if r.chance(1, 8) { (&p.inputs[1], 1) } else { (&p.inputs[0], 0) };
            run(r, &mut o, i, inp);
            let gap = *r.pick(&[7u32, 15, 31, 63, 100, 127, 255, 255, 511]) + *r.pick(&[0u32, 0, 0, 1]) - *r.pick(&[0u32, 0, 0, 1]);
            for _ in 0..gap {
                run(r, &mut o, &p.inputs[small as usize], small);
            }
        }
        run(r, &mut o, &p.inputs[0], 0);
        p.tasks.push(o);
    }
    p.sched = SchedSpec { seed: r.next_u64(), ..SchedSpec::default() };
    p.sched.p[6] = *r.pick(&[0u32, 200]);
    p
}

/// a series of small runs, long enough for a counter to come round
fn storm(r: &mut Rng, most: u32) -> Op {
    let n = *r.pick(&[9u32, 17, 33, 65, 127, 128, 255, 256, 300, 1000, 1024, 4096, 10_000, 32_767, 65_535]);
    let n = n.min(most) + *r.pick(&[0u32, 0, 0, 1]) - *r.pick(&[0u32, 0, 0, 1]);
    Op::Storm { n, how: *r.pick(&[0u8, 0, 1, 1, 1, 2, 3]) + *r.pick(&[0u8, 4]) }
}
/// a file that is overwritten with another of the same length between two loads
fn twin(r: &mut Rng, p: &mut Plan, g: &G) -> Vec<Op> {
    let file = r.below(g.files.max(1) as u64) as u8;
    let mut c = p.contents[p.files[file as usize] as usize].clone();
    if c.raw.is_some() {
        return vec![];
    }
    for _ in 0..1 + r.below(3) {
        c.corrupt.push(Corrupt { kind: 9, at: r.below(1 << 20) as u32, n: r.below(9) as u32 });
    }
    p.contents.push(c);
    let content = p.contents.len() as u16 - 1;
    let (s, loader) = (r.below(7) as u8, r.below(g.loaders.max(1) as u64) as u8);
    let load = |faults| Op::Load { s, loader, file, faults, f: OpFault::default() };
    let mut o = vec![load(vec![]), Op::Snoop { s }];
    o.push(Op::Write { file, content, mode: r.below(3) as u8, chunk: 1 << 20, crash: None });
    if r.chance(1, 4) {
        o.push(load(vec![disk_fault(r)]));
    }
    o.push(load(vec![]));
    o.push(Op::Snoop { s });
    o
}
/// the same load again and again, with the same end
fn series(r: &mut Rng, g: &G) -> Vec<Op> {
    let n = *r.pick(&[4u32, 6, 8, 9, 16, 17, 32, 33, 64, 100, 128, 255, 256, 300, 1025]);
    let (s, loader, file) = (r.below(7) as u8, r.below(g.loaders.max(1) as u64) as u8, r.below(g.files.max(1) as u64) as u8);
    let faults = match r.below(6) {
        0 => vec![],
        1 => vec![DiskFault { call: 0, nth: 0, kind: 0, arg: *r.pick(&[2u32, 13, 24, 5]) }],
        2 => vec![DiskFault { call: 1, nth: 0, kind: 0, arg: 5 }],
        3 => vec![DiskFault { call: 1, nth: 0, kind: 2, arg: 7 }, DiskFault { call: 1, nth: 1, kind: 0, arg: 5 }],
        _ => vec![disk_fault(r)],
    };
    let alloc = r.chance(1, 8).then(|| frac(r, 0));
    let mut o = vec![];
    for k in 0..n {
        o.push(Op::Load { s, loader, file, faults: faults.clone(), f: OpFault { alloc, user: None } });
        if n < 40 && k + 1 == n / 2 {
            o.push(Op::Snoop { s });
        }
    }
    for _ in 0..2 {
        let file = r.below(g.files.max(1) as u64) as u8;
        o.push(Op::Load { s, loader, file, faults: vec![], f: OpFault::default() });
        o.push(Op::Snoop { s });
    }
    o
}
/// any run, with what it takes to make it
fn whole(r: &mut Rng, k: &K, s: u8, g: &mut G, obs: Obs) -> Vec<Op> {
    let i = some_input(r, g);
    let mut o = vec![Op::New { s, inp: i, unit: r.chance(k.unit, 100), f: OpFault::default() }];
    extend(r, k, s, i, g, &mut o);
    o.push(Op::Build { s, f: OpFault::default() });
    o.push(Op::Tri { s, obs, f: fault(r, k) });
    o
}
/// Before, between and inside runs: series of small ones
fn storm_plan(r: &mut Rng, prop: u32, k: &K, inputs: Vec<Input>) -> Plan {
    let mut p = Plan { prop, env: r.next_u64() >> 2, ..Plan::default() };
    let mut g = G { ninp: inputs.len() as u16, inputs, files: 0, loaders: 1 };
    for _ in 0..1 + r.below(2) {
        let mut o = vec![];
        let same = r.below(g.ninp as u64) as u16;
        for _ in 0..1 + r.below(3) {
            let mut ob = obs(r, k, 0, &mut g);
            if r.chance(1, 3) {
                ob = Obs { mode: 2, every: 31, ..ob };
                ob.nested.push(Nest { at: cb(r), ops: vec![storm(r, 4096)] });
            }
            let mut h = whole(r, k, 0, &mut g, ob);
            if r.chance(3, 4) {
                // the same one before and after
                let i = g.inputs[same as usize].clone();
                h.iter_mut().for_each(|x| match x {
                    Op::New { inp, .. } | Op::Hole { inp, .. } | Op::Holes { inp, .. } | Op::St { inp, .. } => *inp = same,
                    _ => {}
                });
                h.retain(|x| !matches!(x, Op::Hole { h, .. } if *h as usize >= i.holes.len()));
            }
            if r.chance(2, 3) && !o.is_empty() {
                o.push(Op::Pause { ms: r.below(1000) as u32 });
            }
            o.append(&mut h);
            o.push(storm(r, 70_000));
        }
        o.extend(whole(r, k, 1, &mut g, Obs { mode: 2, every: 31, ..Obs::default() }));
        p.tasks.push(o);
    }
    p.inputs = g.inputs;
    p.sched = SchedSpec { seed: r.next_u64(), ..SchedSpec::default() };
    p.sched.p[3] = *r.pick(&[0u32, 300]);
    p.sched.p[6] = *r.pick(&[0u32, 8000]);
    p
}
/// many threads, each in the middle of something small
fn crowd_plan(r: &mut Rng, prop: u32, k: &K, inputs: Vec<Input>) -> Plan {
    let mut p = Plan { prop, env: r.next_u64() >> 2, ..Plan::default() };
    let mut g = G { ninp: inputs.len() as u16, inputs, files: 0, loaders: 1 };
    let n = *r.pick(&[9u64, 12, 17, 20, 33, 40, 70]);
    for _ in 0..n {
        let ob = obs(r, k, 0, &mut g);
        let mut o = whole(r, k, 0, &mut g, ob);
        if r.chance(1, 4) {
            uses(r, k, 0, &mut o);
        }
        p.tasks.push(o);
    }
    p.inputs = g.inputs;
    p.sched = sched(r, k);
    // so many tasks need fewer switches each
    let most = *r.pick(&[300u32, 3000, 20_000]);
    p.sched.p.iter_mut().for_each(|x| *x = (*x).min(most));
    p.sched.p[3] = p.sched.p[3].max(1000);
    p.sched.p[6] = 20_000;
    p.stack = 1024;
    p
}
/// a run in a callback of a run in a callback of a run, and so on
fn deep_plan(r: &mut Rng, prop: u32, k: &K, inputs: Vec<Input>) -> Plan {
    let mut p = Plan { prop, env: r.next_u64() >> 2, ..Plan::default() };
    let mut g = G { ninp: inputs.len() as u16, inputs, files: 0, loaders: 1 };
    for _ in 0..1 + r.below(2) {
        let depth = *r.pick(&[3u64, 4, 5, 8, 9, 16, 17, 33, 66]);
        let mut inner: Vec<Op> = vec![];
        for d in 0..depth {
            let mut ob = Obs { mode: 2, flags: *r.pick(&[0, 0, 0, PEEK]), every: *r.pick(&[1, 7, 31]), ..Obs::default() };
            if r.chance(k.panic, 300) {
                ob.panic_at = Some(cb(r));
            }
            if d > 0 {
                ob.nested.push(Nest { at: cb(r), ops: std::mem::take(&mut inner) });
            }
            inner = whole(r, k, 7 + (d % 3) as u8, &mut g, ob);
            if r.chance(1, 10) {
                inner.extend(whole(r, k, 7 + (d % 3) as u8, &mut g, Obs::default()));
            }
        }
        p.tasks.push(inner);
    }
    p.inputs = g.inputs;
    p.sched = sched(r, k);
    p
}

fn map(i: &mut Input, mut f: impl FnMut(P) -> P) {
    i.outline.iter_mut().for_each(|p| *p = f(*p));
    i.holes.iter_mut().flatten().for_each(|p| *p = f(*p));
    i.steiner.iter_mut().for_each(|p| *p = f(*p));
}

/// an input easily taken for another: nearly the same, moved, or with the same outline
fn sibling(r: &mut Rng, of: &Input) -> Input {
    for _ in 0..10 {
        let mut i = of.clone();
        match r.below(7) {
            0 => {
                let d = (r.range(-40, 40), r.range(-40, 40));
                map(&mut i, |p| (p.0 + d.0, p.1 + d.1));
            }
            1 => i.exp2 += *r.pick(&[-3, -1, 1, 2]),
            2 if !i.steiner.is_empty() => {
                let k = r.index(i.steiner.len());
                i.steiner[k].0 += r.range(-2, 2);
                i.steiner[k].1 += r.range(-2, 2);
            }
            3 if !i.holes.is_empty() => {
                let k = r.index(i.holes.len());
                i.holes.remove(k);
            }
            4 if i.steiner.len() > 1 => {
                let k = r.index(i.steiner.len() - 1) + 1;
                i.steiner.swap(0, k);
            }
            5 => {
                let k = r.index(i.outline.len());
                i.outline.rotate_left(k);
            }
            _ => {
                let k = r.index(i.outline.len());
                i.outline[k].0 += r.range(-1, 1);
                i.outline[k].1 += r.range(-1, 1);
            }
        }
        if i != *of && i.valid() {
            return i;
        }
    }
    of.clone()
}

#[derive(Clone)]
struct K {
    tasks: (u64, u64),
    hist: (u64, u64),
    size: u32,
    /// out of 100
    observed: u64,
    flags: Vec<u32>,
    nested: u64,
    panic: u64,
    alloc: u64,
    user: u64,
    clone: u64,
    send: u64,
    share: u64,
    use_: u64,
    load: u64,
    stall: u64,
    unit: u64,
    stop: u64,
    exotic: u64,
    ninputs: (u64, u64),
}

fn fault(r: &mut Rng, k: &K) -> OpFault {
    OpFault {
        alloc: r.chance(k.alloc, 300).then(|| frac(r, 0)),
        user: r.chance(k.user, 200).then(|| frac(r, 0)),
    }
}

fn obs(r: &mut Rng, k: &K, nest: usize, env: &mut G) -> Obs {
    let mut o = Obs::default();
    if !r.chance(k.observed, 100) {
        o.mode = r.below(2) as u8;
        return o;
    }
    o.mode = 2;
    o.flags = *r.pick(&k.flags);
    o.every = *r.pick(&[1, 1, 1, 2, 3, 7, 31]);
    if r.chance(k.panic, 100) {
        o.panic_at = Some(cb(r));
    }
    if nest > 0 && r.chance(k.nested, 100) {
        for _ in 0..1 + r.below(3) {
            let mut ops = vec![];
            for _ in 0..1 + r.below(2) {
                let slot = 7 + r.below(3) as u8;
                ops.extend(history(r, k, slot, nest - 1, env));
            }
            if r.chance(1, 6) {
                ops.push(Op::Pause { ms: r.below(100000) as u32 });
            }
            o.nested.push(Nest { at: cb(r), ops });
        }
    }
    o
}

/// what the generator knows about the plan so far
struct G {
    ninp: u16,
    inputs: Vec<Input>,
    files: u8,
    loaders: u8,
}

fn some_input(r: &mut Rng, g: &G) -> u16 {
    r.below(g.ninp as u64) as u16
}

/// extend builder `s` of input `i`
fn extend(r: &mut Rng, k: &K, s: u8, i: u16, g: &G, out: &mut Vec<Op>) {
    let inp = &g.inputs[i as usize];
    let (nh, ns) = (inp.holes.len() as u16, inp.steiner.len() as u16);
    if nh > 0 && r.chance(5, 6) {
        if r.chance(1, 2) {
            let h0 = if r.chance(1, 5) { r.below(nh as u64) as u16 } else { 0 };
            out.push(Op::Holes { s, inp: i, h0, n: nh - h0, f: fault(r, k) });
        } else {
            for h in 0..nh {
                if r.chance(9, 10) {
                    out.push(Op::Hole { s, inp: i, h, f: fault(r, k) });
                }
            }
        }
    }
    if ns > 0 && r.chance(5, 6) {
        let cut = if r.chance(1, 2) { r.below(ns as u64 + 1) as u16 } else { ns };
        for (from, n) in [(0, cut), (cut, ns - cut)] {
            if n > 0 {
                out.push(Op::St { s, inp: i, from, n, batch: r.chance(1, 2), f: fault(r, k) });
            }
        }
        if nh > 0 && r.chance(1, 4) {
            let l = out.len();
            out.swap(l - 1, l - 2);
        }
    }
}

fn uses(r: &mut Rng, k: &K, s: u8, out: &mut Vec<Op>) {
    let n = if r.chance(k.use_, 100) { 1 + r.below(5) } else { r.below(2) };
    for _ in 0..n {
        let how = *r.pick(&[0u8, 0, 0, 1, 1, 2, 2, 3, 4, 6, 10]);
        out.push(Op::Use { s, how, n: *r.pick(&[0u32, 1, 1, 2, 3, 5, 17]), f: OpFault::default() });
    }
    if r.chance(1, 5) {
        out.push(Op::Use { s, how: *r.pick(&[5, 7, 8, 9]), n: 0, f: fault(r, k) });
    }
}

fn load_op(r: &mut Rng, k: &K, s: u8, g: &G, disk: bool) -> Op {
    let mut faults = vec![];
    if disk {
        for _ in 0..r.below(4) {
            faults.push(disk_fault(r));
        }
        if r.chance(1, 4) {
            // many small pieces
            let step = 1 + r.below(40) as u32;
            for n in 0..60 {
                faults.push(DiskFault { call: 1, nth: n, kind: 2, arg: if r.chance(1, 3) { 1 + r.below(8) as u32 } else { step } });
            }
        }
    }
    if disk && r.chance(1, 10) {
        // calls interrupted again and again
        let (from, n) = (r.below(3) as u32, *r.pick(&[4u32, 9, 17, 33, 65, 101, 130, 257]));
        faults.retain(|f| f.call != 1);
        faults.extend((from..from + n).map(|nth| DiskFault { call: 1, nth, kind: 1, arg: 0 }));
        faults.extend((from + n..from + n + 8).map(|nth| DiskFault { call: 1, nth, kind: 2, arg: 1 + nth % 50 }));
        if r.chance(1, 3) {
            faults.extend((0..n).map(|nth| DiskFault { call: 0, nth, kind: 1, arg: 0 }));
        }
    }
    Op::Load { s, loader: r.below(g.loaders.max(1) as u64) as u8, file: r.below(g.files.max(1) as u64) as u8, faults, f: fault(r, k) }
}
fn disk_fault(r: &mut Rng) -> DiskFault {
    let errno = *r.pick(&[5u32, 5, 13, 2, 24, 12, 21, 116, 11, 32, 110, 1, 6, 19, 22, 23, 26, 28, 36, 40, 61, 75, 84, 95, 103, 104, 111, 113, 121, 122, 125]);
    let nth = if r.chance(1, 2) { r.below(3) } else { r.below(12) } as u32;
    match r.below(10) {
        0 => DiskFault { call: 0, nth: r.below(2) as u32, kind: 1, arg: 0 },
        1 => DiskFault { call: 0, nth: 0, kind: 0, arg: errno },
        2 | 3 => DiskFault { call: 1, nth, kind: 0, arg: errno },
        4 | 5 => DiskFault { call: 1, nth, kind: 1, arg: 0 },
        6 | 7 => DiskFault { call: 1, nth, kind: 2, arg: 1 + r.below(30) as u32 },
        8 => DiskFault { call: 2, nth: 0, kind: 0, arg: errno },
        _ => DiskFault { call: 2, nth: 0, kind: 2, arg: *r.pick(&[0u32, 1, 7, 31, 32, 33, 100, 8192, 70_000, 1_000_000]) },
    }
}

/// one input from start to result, in slot `s` (and s-3.. for clones)
fn history(r: &mut Rng, k: &K, s: u8, nest: usize, g: &mut G) -> Vec<Op> {
    let mut o = vec![];
    let i = some_input(r, g);
    if g.files > 0 && r.chance(k.load, 100) {
        let d = r.chance(1, 2);
        o.push(load_op(r, k, s, g, d));
        if r.chance(1, 4) {
            o.push(Op::Snoop { s });
            return o;
        }
    } else {
        o.push(Op::New { s, inp: i, unit: r.chance(k.unit, 100), f: fault(r, k) });
        extend(r, k, s, i, g, &mut o);
    }
    o.push(Op::Build { s, f: fault(r, k) });
    o.push(Op::Tri { s, obs: obs(r, k, nest, g), f: fault(r, k) });
    uses(r, k, s, &mut o);
    if r.chance(1, 2) {
        o.push(Op::Drop { s, f: fault(r, k) });
    }
    o
}

/// a family of forks: clones taken at any stage, each extended, built, run or dropped on its own
fn family(r: &mut Rng, k: &K, t: u8, n: u8, nest: usize, g: &mut G) -> Vec<Op> {
    let mut o = vec![];
    let i = some_input(r, g);
    let inp = g.inputs[i as usize].clone();
    let (nh, ns) = (inp.holes.len() as u16, inp.steiner.len() as u16);
    let unit = r.chance(k.unit, 100);
    // per slot: (next hole, next sparse point, stage) where stage 0 builder, 1 prepared, 2 result
    let mut st: Vec<Option<(u16, u16, u8)>> = vec![None; 7];
    o.push(Op::New { s: 0, inp: i, unit, f: fault(r, k) });
    st[0] = Some((0, 0, 0));
    let steps = 6 + r.below(16);
    for _ in 0..steps {
        let live: Vec<usize> = (0..7).filter(|&x| st[x].is_some()).collect();
        if live.is_empty() {
            o.push(Op::New { s: 0, inp: i, unit, f: fault(r, k) });
            st[0] = Some((0, 0, 0));
            continue;
        }
        let s = *r.pick(&live);
        let (h, p, stage) = st[s].unwrap();
        let sb = s as u8;
        match (stage, r.below(10)) {
            (0, 0..=1) if h < nh => {
                let n = 1 + r.below((nh - h) as u64) as u16;
                if r.chance(1, 2) {
                    o.push(Op::Holes { s: sb, inp: i, h0: h, n, f: fault(r, k) });
                    st[s] = Some((h + n, p, 0));
                } else {
                    o.push(Op::Hole { s: sb, inp: i, h, f: fault(r, k) });
                    st[s] = Some((h + 1, p, 0));
                }
            }
            (0, 2..=4) if p < ns => {
                let n = 1 + r.below((ns - p) as u64) as u16;
                o.push(Op::St { s: sb, inp: i, from: p, n, batch: r.chance(1, 2), f: fault(r, k) });
                st[s] = Some((h, p + n, 0));
            }
            (0 | 1, 5..=6) => {
                let to = r.index(7);
                if to != s {
                    let over = if st[to].is_some() && r.chance(1, 2) { OVER } else { 0 };
                    o.push(Op::Clone { s: sb, to: to as u8 | over, f: fault(r, k) });
                    st[to] = st[s];
                }
            }
            (0, _) => {
                o.push(Op::Build { s: sb, f: fault(r, k) });
                st[s] = Some((h, p, 1));
            }
            (1, _) => {
                o.push(Op::Tri { s: sb, obs: obs(r, k, nest, g), f: fault(r, k) });
                st[s] = Some((h, p, 2));
            }
            (_, 0..=5) => {
                uses(r, k, sb, &mut o);
            }
            _ => {
                o.push(Op::Drop { s: sb, f: fault(r, k) });
                st[s] = None;
            }
        }
        if t + 1 < n && r.chance(k.send, 300) {
            o.push(Op::Send { s: sb, to: t + 1 + r.below((n - t - 1) as u64) as u8 });
            st[s] = None;
        }
    }
    // finish what is left
    for s in 0..7 {
        if let Some((_, _, stage)) = st[s] {
            if r.chance(1, 3) {
                continue;
            }
            let s = s as u8;
            if stage == 0 {
                o.push(Op::Build { s, f: fault(r, k) });
            }
            if stage <= 1 {
                o.push(Op::Tri { s, obs: obs(r, k, nest, g), f: fault(r, k) });
            }
            uses(r, k, s, &mut o);
        }
    }
    o
}

/// what arrives from another task is carried on with
fn carry_on(r: &mut Rng, k: &K, s: u8, o: &mut Vec<Op>, g: &mut G) {
    if r.chance(1, 4) {
        o.push(Op::Clone { s, to: (s + 1) % 7, f: fault(r, k) });
    }
    o.push(Op::Build { s, f: fault(r, k) });
    o.push(Op::Tri { s, obs: obs(r, k, 0, g), f: fault(r, k) });
    uses(r, k, s, o);
}

fn task(r: &mut Rng, k: &K, t: u8, n: u8, g: &mut G) -> Vec<Op> {
    let mut o = vec![];
    let nest = if r.chance(1, 4) { 2 } else { 1 };
    let hist = k.hist.0 + r.below(k.hist.1 - k.hist.0 + 1);
    for _ in 0..hist {
        if r.chance(k.clone, 100) {
            o.extend(family(r, k, t, n, nest, g));
        } else {
            let s = r.below(7) as u8;
            let mut h = history(r, k, s, nest, g);
            // retry from a clone taken before
            if r.chance(k.clone.max(k.panic / 2), 100) {
                if let Some(at) = h.iter().position(|x| matches!(x, Op::Tri { .. })) {
                    let to = (s + 1) % 7;
                    h.insert(at, Op::Clone { s, to, f: OpFault::default() });
                    h.push(Op::Tri { s: to, obs: obs(r, k, nest, g), f: OpFault::default() });
                    uses(r, k, to, &mut h);
                }
            }
            if t + 1 < n && r.chance(k.send, 100) {
                let at = r.index(h.len()) + 1;
                h.truncate(at);
                h.push(Op::Send { s, to: t + 1 + r.below((n - t - 1) as u64) as u8 });
            }
            o.extend(h);
            if r.chance(k.share, 100) && t + 1 < n {
                let cell = r.below(3) as u8;
                if let Some(Op::Drop { .. }) = o.last() {
                    o.pop();
                }
                o.push(Op::Publish { s, cell });
            }
        }
        if r.chance(k.stop, 100) {
            o.push(Op::Stop {});
        }
    }
    if t > 0 && k.send > 0 {
        for _ in 0..1 + r.below(3) {
            let s = r.below(7) as u8;
            let at = if r.chance(1, 2) { o.len() } else { 0 };
            let mut tail = o.split_off(at);
            o.push(Op::Recv { s, from: r.below(t as u64) as u8 });
            carry_on(r, k, s, &mut o, g);
            o.append(&mut tail);
        }
    }
    if t > 0 && k.share > 0 {
        for _ in 0..2 + r.below(8) {
            let how = *r.pick(&[0u8, 0, 0, 1, 2, 2, 3, 4, 6, 10]);
            o.push(Op::Shared { cell: r.below(3) as u8, how, n: r.below(6) as u32 });
        }
    }
    if r.chance(1, 10) {
        let at = r.index(o.len() + 1);
        o.insert(at, Op::Pause { ms: r.below(1_000_000) as u32 });
    }
    if r.chance(k.exotic, 100) {
        for _ in 0..1 + r.below(3) {
            let at = r.index(o.len() + 1);
            o.insert(at, Op::Exotic { inp: some_input(r, g), kind: r.below(5) as u8, seed: r.next_u64() >> 2 });
        }
    }
    o
}

fn sched(r: &mut Rng, k: &K) -> SchedSpec {
    let mut s = SchedSpec { seed: r.next_u64(), ..SchedSpec::default() };
    let base = *r.pick(&[0u32, 30, 300, 2000, 8000, 30000, 65536]);
    for i in 0..7 {
        let m = *r.pick(&[0u32, 1, 1, 1, 4]);
        s.p[i] = (base.saturating_mul(m)).min(65536);
    }
    if r.chance(1, 3) {
        // only one kind of point
        let j = r.index(7);
        s.p = [0; 7];
        s.p[j] = *r.pick(&[2000, 20000, 65536]);
        s.p[6] = 8000;
    }
    if r.chance(k.stall, 100) {
        s.p_stall = *r.pick(&[20u32, 200, 2000]);
    }
    s
}

fn contents(r: &mut Rng, g: &G, corrupt: u64) -> Vec<Content> {
    let n = 1 + r.index(4);
    (0..n)
        .map(|_| {
            let mut c = Content { inp: some_input(r, g), style: r.next_u64() >> 2, raw: None, corrupt: vec![] };
            if r.chance(1, 12) {
                c.raw = Some(numbers(r));
                return c;
            }
            if r.chance(corrupt, 100) {
                for _ in 0..1 + r.below(2) {
                    c.corrupt.push(Corrupt { kind: r.below(9) as u8, at: r.below(1 << 20) as u32, n: r.below(64) as u32 });
                }
            }
            if r.chance(corrupt, 1200) {
                c.raw = Some(raw(r));
            }
            c
        })
        .collect()
}
/// a number with as many digits as it likes
fn number(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick(&["", "", "-", "+"]));
    s.push((b'0' + r.below(10) as u8) as char);
    let (more, frac) = (r.below(4) * r.below(6), r.below(3) * r.below(14));
    (0..more).for_each(|_| s.push((b'0' + r.below(10) as u8) as char));
    if frac > 0 || r.chance(1, 8) {
        s.push('.');
        (0..frac).for_each(|_| s.push((b'0' + r.below(10) as u8) as char));
    }
    if r.chance(1, 4) {
        s.push_str(&format!("{}{}", r.pick(&["e", "E", "e+", "e-", "e-0"]), {
            let most = *r.pick(&[5, 30, 300]);
            r.below(most)
        }));
    }
    s
}
/// a file of such numbers
fn numbers(r: &mut Rng) -> Vec<u8> {
    let mut o = String::new();
    let n = 3 + r.below(12);
    for k in 0..n {
        if k >= 3 && r.chance(1, 6) {
            o.push_str(*r.pick(&["HOLE\n", "STEINER\n"]));
        }
        o.push_str(&format!("{} {}\n", number(r), number(r)));
    }
    o.into_bytes()
}
fn raw(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 2) {
        return numbers(r);
    }
    let parts: &[&[u8]] = &[
        b"1 2\n", b"3.5 -4e2\n", b"HOLE\n", b"STEINER\n", b"\n", b"\r\n", b" ", b"\xff", b"\xe2\x82\xac\n", b"1", b"\t", b"inf 1\n",
        b"0 0\n", b"0 0", b"-0 0\n", b"HOLE", b"1e400 0\n", b"5 5 5\n", b"\0", b"\x0b1 2\n", b"\xc2\x85", b"7 8\r", b"9 9\r\n", b"..\n",
        b"# x\n", b"6\n", b"HOLE 2\n", b"STEINER 2\n", b"1 2 #\n", b";\n", b"4 4x\n", b"\x1a",
        b"\xef\xbb\xbf", b"\xef\xbb\xbf1 2\n", b"\xef\xbc\x91 2\n", b"1,2\n", b"1, 2\n", b"hole\n", b"HOLE \n", b" HOLE\n", b"STEINER\t\n", b"  6 7  \n",
        b"0x10 1\n", b"1_0 2\n", b"1e 2\n", b"+ 1\n", b".5 5.\n", b". 1\n", b"NaN 1\n", b"1 -infinity\n", b"8\xc2\xa09\n", b"8\xe2\x80\x839\n", b"3\t4\n", b"3  4\n",
        b"HOLES\n", b"HOLESTEINER\n", b"1 2 HOLE\n", b"1 2\x00\n", b"1e-400 -1e-400\n", b"00 01\n", b"--1 2\n", b"1f 2f\n", b"1.5.5 2\n", b"0 -0\n", b"1\n2\n",
    ];
    let mut v = vec![];
    for _ in 0..r.below(14) {
        v.extend_from_slice(parts[r.index(parts.len())]);
    }
    v
}

/// builds that may be used, see `Plan::flavour`
pub static HAVE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
fn has(f: u32) -> bool {
    HAVE.load(std::sync::atomic::Ordering::Relaxed) & 1 << f != 0
}

pub fn plan(prop: u32, seed: u64, big: bool) -> Plan {
    let r = &mut Rng::new(seed);
    let long_one_in = match prop {
        13 => 50,
        6 | 7 => 150,
        _ => 0,
    };
    if long_one_in > 0 && Rng::new(crate::prng::derive(seed, 0x10_46)).chance(1, long_one_in) {
        return long_plan(r, prop);
    }
    let huge_one_in = match prop {
        7 | 13 | 14 | 16 => 900,
        10 => 1500,
        _ => 0,
    };
    if huge_one_in > 0 && Rng::new(crate::prng::derive(seed, 0x1_0000)).chance(1, huge_one_in) {
        let n = *r.pick(&[33_500i64, 33_500, 66_000]);
        return huge_plan(r, prop, n);
    }
    let sizable_one_in = match prop {
        14 | 16 => 60,
        1..=5 | 7 | 8 | 10 | 13 | 15 => 120,
        _ => 0,
    };
    if sizable_one_in > 0 && Rng::new(crate::prng::derive(seed, 0x2_0000)).chance(1, sizable_one_in) {
        let n = round_size(r);
        return huge_plan(r, prop, n);
    }
    if prop == 1 && Rng::new(crate::prng::derive(seed, 0x100)).chance(1, 60) {
        return many_plan(r, prop);
    }
    let all = vec![0, 0, PEEK, PEEK, SPIN, PEEK | CHURN, PAUSE, RETAIN | PROBE, CHURN];
    let mut k = K {
        tasks: (2, 4),
        hist: (1, 3),
        size: *r.pick(&[0, 0, 1, 1, 1, 2, 2, 2, 3]),
        observed: 65,
        flags: all,
        nested: 0,
        panic: 0,
        alloc: 0,
        user: 0,
        clone: 15,
        send: 0,
        share: 0,
        use_: 25,
        load: 0,
        stall: 0,
        unit: 30,
        stop: 0,
        exotic: match prop {
            4 => 12,
            16 => 8,
            3 | 17 => 3,
            _ => 0,
        },
        ninputs: (1, 4),
    };
    if r.chance(1, if big { 12 } else { 60 }) {
        k.size = 4;
        k.ninputs = (1, 2);
        k.hist = (1, 1);
    }
    let mut corrupt = 0;
    let mut writers = 0;
    let mut disk = 0;
    match prop {
        1 => {
            k.tasks = (2, 5);
            k.load = 10;
            k.nested = 8;
            if r.chance(1, 3) {
                k.panic = 15;
                k.alloc = 10;
            }
        }
        2 => {
            k.tasks = (1, 2);
            k.hist = (1, 2);
            k.observed = 100;
            k.nested = 90;
            k.load = 10;
            k.panic = if r.chance(1, 2) { 15 } else { 0 };
            k.alloc = if r.chance(1, 3) { 15 } else { 0 };
        }
        3 => {
            k.tasks = (1, 3);
            k.hist = (2, 5);
            k.clone = 30;
            k.observed = 85;
            k.panic = 55;
            k.alloc = 40;
            k.user = if r.chance(1, 3) { 10 } else { 0 };
            k.nested = 10;
            k.use_ = 10;
        }
        4 => {
            k.tasks = (1, 3);
            k.hist = (1, 4);
            k.unit = 0;
            k.clone = 50;
            k.user = *r.pick(&[0, 10, 25, 60]);
            k.alloc = *r.pick(&[0, 10, 30]);
            k.panic = *r.pick(&[0, 15, 30]);
            k.send = 15;
            k.share = 10;
            k.size = *r.pick(&[0, 1, 1, 2]);
        }
        5 => {
            k.tasks = (1, 3);
            k.observed = 100;
            k.panic = *r.pick(&[0, 30, 60]);
            k.alloc = *r.pick(&[0, 20]);
            k.nested = *r.pick(&[0, 20]);
            k.size = *r.pick(&[0, 1, 2, 2, 3, 3, 4]);
            k.ninputs = (1, 3);
        }
        6 | 7 => {
            k.tasks = (1, 2);
            k.hist = (1, 3);
            k.observed = 100;
            k.flags = vec![MESH];
            k.panic = *r.pick(&[0, 0, 20]);
            k.nested = *r.pick(&[0, 0, 20]);
            k.clone = 0;
            k.use_ = 0;
            k.size = *r.pick(&[0, 1, 1, 2, 2, 2, 3, 3]);
            k.ninputs = (2, 5);
        }
        8 => {
            k.tasks = (1, 3);
            k.hist = (2, 4);
            k.observed = 75;
            k.flags = vec![0, PEEK, PEEK, PEEK | CHURN, PEEK | SPIN, PEEK | PAUSE, RETAIN | PROBE, CHURN, MESH, PEEK | RETAIN | PROBE | CHURN];
            k.stall = 40;
            k.clone = 40;
            k.ninputs = (1, 2);
        }
        9 | 10 | 11 | 12 => {
            k.tasks = (1, 3);
            k.hist = (1, 3);
            k.size = *r.pick(&[0, 0, 1, 1, 2, 2, 3]);
            k.clone = 0;
            k.panic = 0;
            disk = 1;
            corrupt = match prop {
                11 => 70,
                12 => 30,
                9 => 10,
                _ => *r.pick(&[0, 0, 15]),
            };
            writers = match prop {
                11 => 50,
                10 => 15,
                12 => 30,
                _ => 10,
            };
            if prop == 12 {
                k.alloc = 40;
            } else if r.chance(1, 6) {
                k.alloc = 15;
            }
        }
        13 => {
            k.tasks = (2, 5);
            k.stall = 70;
            k.panic = *r.pick(&[0, 15]);
            k.stop = 10;
            k.load = *r.pick(&[0, 10, 40]);
            k.nested = *r.pick(&[0, 15]);
            k.clone = 5;
            k.size = *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4]);
        }
        14 => {
            k.tasks = (1, 4);
            k.hist = (1, 3);
            k.use_ = 95;
            k.share = 70;
            k.send = 25;
            k.panic = *r.pick(&[0, 10]);
            k.user = *r.pick(&[0, 5]);
            k.stop = 8;
            k.observed = 30;
            k.clone = 10;
            k.size = *r.pick(&[0, 0, 1, 1, 2, 2, 3]);
        }
        15 => {
            k.tasks = (1, 3);
            k.hist = (2, 5);
            k.observed = 100;
            k.flags = vec![RETAIN | PROBE, RETAIN | PROBE, PROBE, RETAIN, RETAIN | PROBE | CHURN];
            k.panic = *r.pick(&[0, 25]);
            k.nested = *r.pick(&[0, 25]);
            k.use_ = 0;
            k.size = *r.pick(&[0, 0, 1, 1, 2]);
            k.ninputs = (2, 5);
        }
        17 => {
            k.tasks = (1, 2);
            k.hist = (1, 2);
            k.size = *r.pick(&[0, 0, 0, 1, 1, 2]);
            k.ninputs = (1, 2);
            k.observed = 60;
            k.flags = vec![0, 0, PEEK, CHURN, SPIN];
            k.panic = *r.pick(&[0, 30, 60]);
            k.alloc = *r.pick(&[0, 30, 80]);
            k.user = *r.pick(&[0, 30, 80]);
            k.nested = *r.pick(&[0, 0, 30]);
            k.load = *r.pick(&[0, 0, 40, 80]);
            k.clone = 20;
            corrupt = 30;
        }
        _ => {
            k.tasks = (1, 4);
            k.hist = (1, 2);
            k.clone = 85;
            k.send = 40;
            k.user = *r.pick(&[0, 10, 25]);
            k.alloc = *r.pick(&[0, 10, 25]);
            k.panic = *r.pick(&[0, 10]);
            k.size = *r.pick(&[0, 1, 1, 2, 2]);
            k.ninputs = (1, 3);
        }
    }
    let ninp = k.ninputs.0 + r.below(k.ninputs.1 - k.ninputs.0 + 1);
    let mut inputs: Vec<Input> = vec![];
    for j in 0..ninp {
        let x = if j > 0 && r.chance(2, 5) {
            let of = inputs[r.index(inputs.len())].clone();
            sibling(r, &of)
        } else {
            let down = if r.chance(1, 3) { k.size.min(1) } else { k.size };
            input(r, down)
        };
        inputs.push(x);
    }
    let kind = &mut Rng::new(crate::prng::derive(seed, 0x5702));
    let (storms, crowds, deep) = match prop {
        1 => (100, 60, 0),
        2 => (150, 200, 30),
        3 => (80, 100, 100),
        8 => (300, 300, 0),
        13 => (200, 60, 60),
        _ => (0, 0, 0),
    };
    let one_in = |r: &mut Rng, n: u64| n > 0 && r.chance(1, n);
    let make: Option<fn(&mut Rng, u32, &K, Vec<Input>) -> Plan> = if one_in(kind, storms) {
        Some(storm_plan)
    } else if one_in(kind, crowds) {
        Some(crowd_plan)
    } else if one_in(kind, deep) {
        Some(deep_plan)
    } else {
        None
    };
    if matches!(prop, 1 | 4 | 7 | 10 | 16) && make.is_none() && one_in(kind, 150) {
        let i = holes(r, 400);
        if i.valid() {
            inputs[0] = i;
        }
    }
    if let Some(make) = make {
        let few = inputs.into_iter().map(|i| if i.len() > 60 { input(r, 1) } else { i }).collect();
        return make(r, prop, &k, few);
    }
    let mut g = G { ninp: inputs.len() as u16, inputs, files: 0, loaders: 1 + r.below(2) as u8 };
    let mut p = Plan { prop, env: r.next_u64() >> 2, ..Plan::default() };
    if disk > 0 || k.load > 0 {
        p.contents = contents(r, &g, corrupt);
        let nf = 1 + r.index(p.contents.len());
        p.files = (0..nf).map(|_| r.below(p.contents.len() as u64) as u16).collect();
        g.files = nf as u8;
    }
    let n = (k.tasks.0 + r.below(k.tasks.1 - k.tasks.0 + 1)) as u8;
    for t in 0..n {
        if disk > 0 {
            let mut o = vec![];
            for _ in 0..1 + r.below(5) {
                let s = r.below(7) as u8;
                let d = r.chance(3, 4);
                o.push(load_op(r, &k, s, &g, d));
                if r.chance(2, 3) {
                    o.push(Op::Snoop { s });
                } else {
                    o.push(Op::Build { s, f: OpFault::default() });
                    let mut k2 = k.clone();
                    k2.alloc = 0;
                    o.push(Op::Tri { s, obs: obs(r, &k2, 0, &mut g), f: OpFault::default() });
                }
                if one_in(kind, 25) {
                    o.extend(twin(kind, &mut p, &g));
                }
            }
            if prop != 9 && r.chance(1, 5) {
                let h = history(r, &K { load: 0, ..k.clone() }, 6, 0, &mut g);
                let at = r.index(o.len() + 1);
                let tail = o.split_off(at);
                o.extend(h);
                o.extend(tail);
            }
            if one_in(kind, 250) {
                let at = r.index(o.len() + 1);
                let tail = o.split_off(at);
                o.extend(series(kind, &g));
                o.extend(tail);
            }
            p.tasks.push(o);
        } else {
            p.tasks.push(task(r, &k, t, n, &mut g));
        }
    }
    if writers > 0 && r.chance(writers, 100) {
        let mut o = vec![];
        for _ in 0..1 + r.below(3) {
            o.push(Op::Write {
                file: r.below(g.files as u64) as u8,
                content: r.below(p.contents.len() as u64) as u16,
                mode: r.below(3) as u8,
                chunk: *r.pick(&[1u32, 5, 16, 64, 512, 4096]),
                crash: r.chance(1, 3).then(|| r.below(20) as u32),
            });
        }
        p.tasks.push(o);
    }
    p.inputs = g.inputs;
    if prop == 17 {
        rounds(r, &mut p);
    }
    p.sched = sched(r, &k);
    p.flavour = match Rng::new(crate::prng::derive(seed, 0xF1A)).below(20) {
        0..=3 if has(1) => 1,
        4..=5 if has(2) && p.inputs.iter().all(fits_f32) => 2,
        _ => 0,
    };
    p
}

/// the whole history again and again, everything being dropped in between
fn rounds(r: &mut Rng, p: &mut Plan) {
    let moved = r.chance(1, 3) && p.inputs.iter().all(|i| i.points().iter().all(|q| q.0.abs() < 1 << 40 && q.1.abs() < 1 << 40));
    p.rounds = if moved {
        (1..24).map(|j| (1 + r.below(50) as i64 + 50 * j, r.below(100) as i64 - 50)).collect()
    } else {
        vec![(0, 0); if p.inputs.iter().map(|i| i.len()).sum::<usize>() < 30 && r.chance(1, 2) { 127 } else { 39 }]
    };
    // std loses what it collects when the iterator's drop panics: not the library's memory
    p.tasks.iter_mut().for_each(|t| no_lost_collections(t));
}
fn no_lost_collections(ops: &mut [Op]) {
    for o in ops {
        match o {
            Op::Use { how: 8, f, .. } => f.user = None,
            Op::Tri { obs, .. } => obs.nested.iter_mut().for_each(|n| no_lost_collections(&mut n.ops)),
            _ => {}
        }
    }
}

/// every coordinate is a number in single precision too
fn fits_f32(i: &Input) -> bool {
    i.points().iter().all(|p| [p.0, p.1].iter().all(|c| c.abs() <= 1 << 24)) && (-60..=30).contains(&i.exp2)
}
