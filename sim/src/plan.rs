//! What one run does: inputs, the operations of every task, where faults strike, the disk.
use crate::codec::{Codec, Dec};
use crate::disk::DiskFault;
use crate::geom::{Input, P};
use crate::sched::NKIND;
use poly2tri_rs::Float;
use std::collections::{HashMap, VecDeque};

impl Codec for Input {
    fn enc(&self, o: &mut Vec<i64>) {
        self.outline.enc(o);
        self.holes.enc(o);
        self.steiner.enc(o);
        self.exp2.enc(o);
    }
    fn dec(d: &mut Dec) -> Option<Self> {
        Some(Input { outline: Codec::dec(d)?, holes: Codec::dec(d)?, steiner: Codec::dec(d)?, exp2: Codec::dec(d)? })
    }
}

codec_struct! { OpFault {
    /// fail this allocation of the operation
    alloc: Option<u32>,
    /// panic in this call of client code (source, iterator, clone, drop)
    user: Option<u32>,
} }

// what a watching observer does at a callback
pub const PEEK: u32 = 1;
pub const PAUSE: u32 = 2;
pub const CHURN: u32 = 4;
pub const RETAIN: u32 = 8;
pub const MESH: u32 = 16;
pub const PROBE: u32 = 32;
pub const SPIN: u32 = 64;

codec_struct! { Obs {
    /// 0 none (plain triangulate), 1 the unit observer, 2 a watching one
    mode: u8,
    flags: u32,
    /// act at callbacks whose number is 0 modulo this
    every: u32,
    panic_at: Option<u32>,
    nested: Vec<Nest>,
} }
codec_struct! { Nest { at: u32, ops: Vec<Op> } }

/// in `Op::Clone`'s `to`: what is there already is made a clone, `clone_from`
pub const OVER: u8 = 8 * SLOTS as u8;

codec_enum! { Op {
    New { s: u8, inp: u16, unit: bool, f: OpFault } = 1,
    Hole { s: u8, inp: u16, h: u16, f: OpFault } = 2,
    Holes { s: u8, inp: u16, h0: u16, n: u16, f: OpFault } = 3,
    St { s: u8, inp: u16, from: u16, n: u16, batch: bool, f: OpFault } = 4,
    Clone { s: u8, to: u8, f: OpFault } = 5,
    Build { s: u8, f: OpFault } = 6,
    Tri { s: u8, obs: Obs, f: OpFault } = 7,
    /// how: 0 next n times, 1 nth(n), 2 indices, 3 points and data, 4 size_hint, 5 fold the rest,
    /// 6 take(n) by reference, 7 last-ish: count of the rest, 8 everything at once
    Use { s: u8, how: u8, n: u32, f: OpFault } = 8,
    Drop { s: u8, f: OpFault } = 9,
    Send { s: u8, to: u8 } = 10,
    Recv { s: u8, from: u8 } = 11,
    Publish { s: u8, cell: u8 } = 12,
    Shared { cell: u8, how: u8, n: u32 } = 13,
    Load { s: u8, loader: u8, file: u8, faults: Vec<DiskFault>, f: OpFault } = 14,
    Snoop { s: u8 } = 15,
    /// mode: 0 rewrite in place (truncate, then chunks), 1 append chunks to nothing then rename over,
    /// 2 overwrite chunks without truncating
    Write { file: u8, content: u16, mode: u8, chunk: u32, crash: Option<u32> } = 16,
    Pause { ms: u32 } = 17,
    /// the task crashes: its remaining operations do not happen and what it holds is dropped
    Stop {} = 18,
    /// drop everything held, wait for the other tasks to do so too, and see what the library still holds
    Round {} = 19,
    /// n small runs one after the other. how: 0 each to its end, 1 each cut short by its observer,
    /// 2 results half read, 3 prepared and dropped; +4 on a slightly larger input
    Storm { n: u32, how: u8 } = 20,
    /// a history with data of another kind
    Exotic { inp: u16, kind: u8, seed: u64 } = 21,
} }
impl Default for Op {
    fn default() -> Self {
        Op::Stop {}
    }
}

codec_struct! { Corrupt { kind: u8, at: u32, n: u32 } }
codec_struct! { Content {
    /// rendered from this input, in this style
    inp: u16,
    style: u64,
    raw: Option<Vec<u8>>,
    corrupt: Vec<Corrupt>,
} }

codec_struct! { SchedSpec {
    seed: u64,
    p: [u32; 7],
    p_stall: u32,
    explicit: Option<Vec<(u32, u32, u32)>>,
} }

codec_struct! { Plan {
    prop: u32,
    /// addresses, memory contents, hash seeds, clocks
    env: u64,
    inputs: Vec<Input>,
    tasks: Vec<Vec<Op>>,
    contents: Vec<Content>,
    /// initial content of each file
    files: Vec<u16>,
    sched: SchedSpec,
    /// which build of the library runs it: 0 as shipped, 1 with its debug assertions, 2 with f32, 3 not optimised
    flavour: u8,
    /// stack of the client's threads in KB, 0: plenty
    stack: u32,
    /// everything happens that many times more, all being dropped in between, on the same inputs or on them moved by this
    rounds: Vec<(i64, i64)>,
} }
const _: () = assert!(NKIND == 7);

pub const SLOTS: usize = 10;

// ------------------------------------------------------------------ models

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    /// (input, ring: 0 outline, 1.. hole, -1 single point, index of the point in the input)
    pub items: Vec<(u16, i16, u32)>,
}

pub fn ring_of(inp: &Input, r: i16) -> (&[P], usize) {
    if r == 0 {
        return (&inp.outline, 0);
    }
    let mut base = inp.outline.len();
    for h in &inp.holes[..r as usize - 1] {
        base += h.len();
    }
    (&inp.holes[r as usize - 1], base)
}
pub fn steiner_base(inp: &Input) -> usize {
    inp.len() - inp.steiner.len()
}

impl Model {
    /// (input, index within the input) of every point, in order
    pub fn points(&self, inputs: &[Input]) -> Vec<(u16, u32)> {
        let mut v = vec![];
        for &(i, r, k) in &self.items {
            if r < 0 {
                v.push((i, k));
            } else {
                let (ring, base) = ring_of(&inputs[i as usize], r);
                v.extend((0..ring.len()).map(|j| (i, (base + j) as u32)));
            }
        }
        v
    }
    pub fn coords(&self, inputs: &[Input]) -> Vec<P> {
        let all: Vec<Vec<P>> = inputs.iter().map(|i| i.points()).collect();
        self.points(inputs).iter().map(|&(i, k)| all[i as usize][k as usize]).collect()
    }
    /// constraint edges as positions in the model's own point list
    pub fn edges(&self, inputs: &[Input]) -> Vec<(usize, usize)> {
        let mut v = vec![];
        let mut base = 0;
        for &(i, r, _) in &self.items {
            if r < 0 {
                base += 1;
            } else {
                let n = ring_of(&inputs[i as usize], r).0.len();
                v.extend((0..n).map(|j| (base + j, base + (j + 1) % n)));
                base += n;
            }
        }
        v
    }
    pub fn exp2(&self, inputs: &[Input]) -> i32 {
        self.items.first().map(|i| inputs[i.0 as usize].exp2).unwrap_or(0)
    }
    /// the model as one input, for the geometric oracles
    pub fn as_input(&self, inputs: &[Input]) -> Input {
        let mut out = Input { outline: vec![], holes: vec![], steiner: vec![], exp2: self.exp2(inputs) };
        for &(i, r, k) in &self.items {
            let inp = &inputs[i as usize];
            match r {
                0 => out.outline = inp.outline.clone(),
                r if r > 0 => out.holes.push(ring_of(inp, r).0.to_vec()),
                _ => out.steiner.push(inp.steiner[k as usize - steiner_base(inp)]),
            }
        }
        out
    }
    pub fn full(inputs: &[Input], i: u16) -> Model {
        let inp = &inputs[i as usize];
        let mut m = Model { items: vec![(i, 0, 0)] };
        for h in 0..inp.holes.len() {
            m.items.push((i, h as i16 + 1, 0));
        }
        for k in 0..inp.steiner.len() {
            m.items.push((i, -1, (steiner_base(inp) + k) as u32));
        }
        m
    }
}

// ------------------------------------------------------------------ static walk

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Empty,
    Builder(Model),
    Cdt(Model),
    Result(Model),
    Other,
}

pub struct Walk<'a> {
    pub inputs: &'a [Input],
    pub contents: &'a [Content],
    pub files: &'a [u16],
    /// files some task writes to
    pub written: Vec<bool>,
    mail: HashMap<(u8, u8), VecDeque<Shape>>,
}

impl Plan {
    /// visit every triangulation with the model it will be given (if nothing before it fails)
    pub fn walk(&mut self, visit: &mut dyn FnMut(&mut Op, &Model)) {
        let Plan { inputs, tasks, contents, files, .. } = self;
        let mut written = vec![false; files.len()];
        for t in tasks.iter() {
            mark_written(t, &mut written);
        }
        let mut w = Walk { inputs, contents, files, written, mail: HashMap::new() };
        for (t, ops) in tasks.iter_mut().enumerate() {
            let mut slots = vec![Shape::Empty; SLOTS];
            w.ops(t as u8, ops, &mut slots, visit);
        }
    }
    pub fn clean(&self, file: u8) -> Option<u16> {
        let c = self.contents.get(*self.files.get(file as usize)? as usize)?;
        let mut written = vec![false; self.files.len()];
        for t in self.tasks.iter() {
            mark_written(t, &mut written);
        }
        (c.raw.is_none() && c.corrupt.is_empty() && !written[file as usize]).then_some(c.inp)
    }
}

impl Plan {
    /// write the rounds out
    pub fn expand(&mut self) {
        if self.rounds.is_empty() {
            return;
        }
        let rounds = std::mem::take(&mut self.rounds);
        let Plan { inputs, contents, files, tasks, .. } = self;
        let (i0, c0, f0) = (inputs.clone(), contents.clone(), files.clone());
        let once = tasks.clone();
        tasks.iter_mut().for_each(|t| t.push(Op::Round {}));
        for (j, (dx, dy)) in rounds.into_iter().enumerate() {
            let moved = dx != 0 || dy != 0;
            let k = j + 1;
            if moved {
                let mv = |v: &[P]| v.iter().map(|q| (q.0 + dx, q.1 + dy)).collect::<Vec<P>>();
                inputs.extend(i0.iter().map(|i| Input {
                    outline: mv(&i.outline),
                    holes: i.holes.iter().map(|h| mv(h)).collect(),
                    steiner: mv(&i.steiner),
                    exp2: i.exp2,
                }));
                contents.extend(c0.iter().cloned().map(|mut c| {
                    c.inp += (k * i0.len()) as u16;
                    c
                }));
                files.extend(f0.iter().map(|f| f + (k * c0.len()) as u16));
            }
            for (t, ops) in once.iter().enumerate() {
                let mut ops = ops.clone();
                if moved {
                    renumber(&mut ops, (k * i0.len()) as u16, (k * f0.len()) as u8);
                }
                tasks[t].extend(ops);
                tasks[t].push(Op::Round {});
            }
        }
    }
}
fn renumber(ops: &mut [Op], di: u16, df: u8) {
    for o in ops {
        match o {
            Op::New { inp, .. } | Op::Hole { inp, .. } | Op::Holes { inp, .. } | Op::St { inp, .. } => *inp += di,
            Op::Load { file, .. } => *file += df,
            Op::Tri { obs, .. } => obs.nested.iter_mut().for_each(|n| renumber(&mut n.ops, di, df)),
            _ => {}
        }
    }
}

fn mark_written(ops: &[Op], w: &mut [bool]) {
    for o in ops {
        match o {
            Op::Write { file, .. } => {
                if let Some(x) = w.get_mut(*file as usize) {
                    *x = true
                }
            }
            Op::Tri { obs, .. } => obs.nested.iter().for_each(|n| mark_written(&n.ops, w)),
            _ => {}
        }
    }
}

impl Walk<'_> {
    fn ops(&mut self, t: u8, ops: &mut [Op], slots: &mut Vec<Shape>, visit: &mut dyn FnMut(&mut Op, &Model)) {
        for op in ops.iter_mut() {
            self.op(t, op, slots, visit);
        }
    }
    fn op(&mut self, t: u8, op: &mut Op, slots: &mut Vec<Shape>, visit: &mut dyn FnMut(&mut Op, &Model)) {
        let get = |s: &u8| *s as usize % SLOTS;
        match op {
            Op::New { s, inp, .. } => {
                slots[get(s)] = if (*inp as usize) < self.inputs.len() {
                    Shape::Builder(Model { items: vec![(*inp, 0, 0)] })
                } else {
                    Shape::Empty
                }
            }
            Op::Hole { s, inp, h, .. } => {
                if let Shape::Builder(m) = &mut slots[get(s)] {
                    add_holes(self.inputs, m, *inp, *h, 1);
                }
            }
            Op::Holes { s, inp, h0, n, .. } => {
                if let Shape::Builder(m) = &mut slots[get(s)] {
                    add_holes(self.inputs, m, *inp, *h0, *n);
                }
            }
            Op::St { s, inp, from, n, .. } => {
                if let Shape::Builder(m) = &mut slots[get(s)] {
                    add_points(self.inputs, m, *inp, *from, *n);
                }
            }
            Op::Clone { s, to, .. } => {
                if get(s) != get(to) {
                    slots[get(to)] = match &slots[get(s)] {
                        Shape::Result(_) => Shape::Empty,
                        x => x.clone(),
                    };
                }
            }
            Op::Build { s, .. } => {
                if let Shape::Builder(m) = &slots[get(s)] {
                    slots[get(s)] = Shape::Cdt(m.clone());
                }
            }
            Op::Tri { s, .. } => {
                let k = get(s);
                if let Shape::Cdt(m) = slots[k].clone() {
                    slots[k] = Shape::Empty;
                    visit(op, &m);
                    let Op::Tri { obs, .. } = op else { return };
                    obs.nested.sort_by_key(|n| n.at);
                    for n in obs.nested.iter_mut() {
                        self.ops(t, &mut n.ops, slots, visit);
                    }
                    slots[k] = Shape::Result(m);
                }
            }
            Op::Drop { s, .. } => slots[get(s)] = Shape::Empty,
            Op::Round {} => slots.fill(Shape::Empty),
            Op::Send { s, to } => {
                let v = std::mem::replace(&mut slots[get(s)], Shape::Empty);
                self.mail.entry((t, *to)).or_default().push_back(v);
            }
            Op::Recv { s, from } => {
                slots[get(s)] = self.mail.entry((*from, t)).or_default().pop_front().unwrap_or(Shape::Empty);
            }
            Op::Publish { s, .. } => slots[get(s)] = Shape::Empty,
            Op::Load { s, file, .. } => {
                let f = *file as usize;
                slots[get(s)] = match self.files.get(f).and_then(|c| self.contents.get(*c as usize)) {
                    Some(c) if c.raw.is_none() && c.corrupt.is_empty() && !self.written[f] && (c.inp as usize) < self.inputs.len() => {
                        Shape::Builder(Model::full(self.inputs, c.inp))
                    }
                    Some(_) => Shape::Other,
                    None => Shape::Empty,
                };
            }
            Op::Snoop { s } => slots[get(s)] = Shape::Empty,
            _ => {}
        }
    }
}

pub fn add_holes(inputs: &[Input], m: &mut Model, inp: u16, h0: u16, n: u16) {
    let Some(i) = inputs.get(inp as usize) else { return };
    for h in h0..h0.saturating_add(n).min(i.holes.len() as u16) {
        m.items.push((inp, h as i16 + 1, 0));
    }
}
pub fn add_points(inputs: &[Input], m: &mut Model, inp: u16, from: u16, n: u16) {
    let Some(i) = inputs.get(inp as usize) else { return };
    for k in from as usize..(from as usize + n as usize).min(i.steiner.len()) {
        m.items.push((inp, -1, (steiner_base(i) + k) as u32));
    }
}

// ------------------------------------------------------------------ positions

/// a position given as a fraction of what the run turns out to have; resolved before it starts
pub const FRAC: u32 = 1 << 31;

pub fn resolve_cb(at: u32, kinds: &[u8]) -> u32 {
    if at & FRAC == 0 {
        return at;
    }
    let sel = (at >> 16) & 0xf;
    let f = (at & 0xffff) as usize;
    let pick = |v: Vec<usize>| -> Option<u32> {
        if v.is_empty() {
            None
        } else {
            Some(v[f * v.len() / 65536] as u32)
        }
    };
    let hit = match sel {
        1..=9 => pick((0..kinds.len()).filter(|&i| kinds[i] as u32 == sel - 1).collect()),
        10 => pick((0..kinds.len()).filter(|&i| kinds[i] < 5).collect()),
        _ => None,
    };
    hit.unwrap_or((f * kinds.len().max(1) / 65536) as u32)
}
pub fn resolve_count(at: u32, n: u64) -> u32 {
    if at & FRAC == 0 {
        at
    } else {
        ((at & 0xffff) as u64 * n.max(1) / 65536) as u32
    }
}

// ------------------------------------------------------------------ files

fn render_coord(v: i64, exp2: i32, r: &mut crate::prng::Rng) -> String {
    let x = v as f64 * 2f64.powi(exp2);
    let ways = if r.chance(1, 40) { 8 } else { 6 };
    match r.below(ways) {
        0 if x.fract() == 0.0 && x.abs() < 1e15 => format!("{}", x as i64),
        // more digits than it takes
        6 if exp2 == 0 => format!("{x:.*}", *r.pick(&[17, 31, 40, 300])),
        7 if x >= 0.0 => format!("+{}{x:?}", "0".repeat(*r.pick(&[1, 20, 40]))),
        1 => format!("{x:e}"),
        2 if exp2 == 0 => format!("{x:.4}"),
        3 if x >= 0.0 => format!("+{x:?}"),
        4 => format!("{x:?}"),
        _ => format!("{x}"),
    }
}

pub fn render_plain(inp: &Input) -> Vec<u8> {
    let f = 2f64.powi(inp.exp2);
    let mut o = String::new();
    let mut ring = |head: &str, v: &[P]| {
        o.push_str(head);
        v.iter().for_each(|p| o.push_str(&format!("{:?} {:?}\n", p.0 as f64 * f, p.1 as f64 * f)));
    };
    ring("", &inp.outline);
    inp.holes.iter().for_each(|h| ring("HOLE\n", h));
    if !inp.steiner.is_empty() {
        ring("STEINER\n", &inp.steiner);
    }
    o.into_bytes()
}

pub fn render(inp: &Input, style: u64) -> Vec<u8> {
    let mut r = crate::prng::Rng::new(style);
    let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let sep = *r.pick(&[" ", "  ", "\t", " "]);
    let lead = *r.pick(&["", "", "", " ", "\t"]);
    let trail = *r.pick(&["", "", "", " ", "   "]);
    let blank = r.below(8);
    // now and then lines that are long for no good reason
    let mut wide = [0usize; 3];
    if style % 30 == 7 {
        wide[r.index(3)] = *r.pick(&[60, 255, 1023, 4096, 9000]);
    }
    let few = if wide[0] + wide[1] + wide[2] > 1000 { 6 } else { 1 };
    let mut o = String::new();
    let e = inp.exp2;
    let pt = |o: &mut String, p: &P, r: &mut crate::prng::Rng| {
        let (x, y) = (render_coord(p.0, e, r), render_coord(p.1, e, r));
        o.push_str(&format!("{lead}{x}{sep}{y}{trail}"));
        if wide.iter().any(|w| *w > 0) && r.chance(1, few) {
            let line = o.len() - format!("{lead}{x}{sep}{y}{trail}").len();
            let at = [line, line + lead.len() + x.len(), o.len()];
            for k in [2, 1, 0] {
                o.insert_str(at[k], &" ".repeat(wide[k]));
            }
        }
        o.push_str(nl);
        if blank < 2 && r.chance(1, 6) {
            o.push_str(nl);
        }
    };
    for p in &inp.outline {
        pt(&mut o, p, &mut r);
    }
    let steiner_first = r.chance(1, 3);
    let split = r.chance(1, 4);
    let half = inp.steiner.len() / 2;
    let (first, second): (&[P], &[P]) = if split { inp.steiner.split_at(half) } else { (&inp.steiner, &[]) };
    if steiner_first && !first.is_empty() {
        o.push_str(&format!("STEINER{nl}"));
        first.iter().for_each(|p| pt(&mut o, p, &mut r));
    }
    for h in &inp.holes {
        o.push_str(&format!("HOLE{nl}"));
        h.iter().for_each(|p| pt(&mut o, p, &mut r));
    }
    if !steiner_first && !first.is_empty() {
        o.push_str(&format!("STEINER{nl}"));
        first.iter().for_each(|p| pt(&mut o, p, &mut r));
    }
    if !second.is_empty() {
        o.push_str(&format!("STEINER{nl}"));
        second.iter().for_each(|p| pt(&mut o, p, &mut r));
    }
    if r.chance(1, 4) {
        while o.ends_with('\n') || o.ends_with('\r') {
            o.pop();
        }
    }
    o.into_bytes()
}

impl Plan {
    pub fn content(&self, c: u16) -> Vec<u8> {
        let Some(c) = self.contents.get(c as usize) else { return vec![] };
        let mut b = match (&c.raw, self.inputs.get(c.inp as usize)) {
            (Some(r), _) => r.clone(),
            (None, Some(i)) => render(i, c.style),
            _ => vec![],
        };
        for k in &c.corrupt {
            let n = b.len();
            if n == 0 {
                break;
            }
            let at = k.at as usize % n;
            let len = (k.n as usize).min(n - at);
            match k.kind {
                0 => b.truncate(at),
                1 => b[at] ^= 1 << (k.n % 8),
                2 => b[at..at + len].fill(0),
                3 => {
                    // a block that still holds what another file had there
                    let other = self.contents.iter().map(|o| o.inp).find(|o| *o != c.inp).unwrap_or(c.inp);
                    let old = render(&self.inputs[other as usize % self.inputs.len()], c.style ^ 1);
                    for j in at..at + len {
                        b[j] = *old.get(j).unwrap_or(&b'\n');
                    }
                }
                4 => {
                    b.drain(at..at + len);
                }
                5 => {
                    let dup = b[at..at + len].to_vec();
                    b.splice(at..at, dup);
                }
                6 => b[at] = k.n as u8,
                9 => {
                    // one digit is another one; nothing else changes
                    if let Some(at) = (at..n).chain(0..at).find(|k| b[*k].is_ascii_digit()) {
                        b[at] = b'0' + (b[at] - b'0' + 1 + k.n as u8 % 9) % 10;
                    }
                }
                7 => {
                    // a stray line
                    let junk: &[&[u8]] = &[
                        b"x\n", b"1\n", b"HOLE \n", b"STEINER\n", b"HOLE\n", b"1,2\n", b" \n", b"nan nan\n", b"1e999 0\n",
                        b"\xff\xfe\n", b"0x10 1\n", b"- 1\n", b"\xef\xbb\xbf", b"hole\n", b"1 2 3\n", b"\0\n", b"--1 2\n", b"1e 2\n", b"1_0 2\n",
                        b"# 1 2\n", b"#\n", b"// no\n", b";\n", b"1 2;\n", b"1;2\n", b"x 1 2\n", b"1 2x\n", b"END\n", b"HOLES\n",
                        b"HOLE 1\n", b"STEINER 4\n", b"STEINERS\n", b"POLYGON\n", b"Hole\n", b"+ 1\n", b"1 -\n", b". 1\n", b"1e+ 2\n",
                        b"e5 1\n", b"\x1a\n", b"\xef\xbc\x91 2\n", b"1f 2\n", b"1.0.0 2\n", b"(1 2)\n", b"infinit 2\n", b"0,5 2\n", b"1:2\n",
                        b"\"1\" 2\n", b"2 nul\n", b"7 \xc2\xa07x\n", b"7\n8\n", b"%\n", b"5 5e\n", b"--\n", b"12\n", b"-\n", b"=1 2\n",
                    ];
                    let j = junk[k.n as usize % junk.len()];
                    let line = b[..at].iter().rposition(|c| *c == b'\n').map(|p| p + 1).unwrap_or(0);
                    b.splice(line..line, j.iter().copied());
                }
                _ => {
                    // repeat the line at this place
                    let line = b[..at].iter().rposition(|c| *c == b'\n').map(|p| p + 1).unwrap_or(0);
                    let end = b[at..].iter().position(|c| *c == b'\n').map(|p| at + p + 1).unwrap_or(n);
                    let dup = b[line..end].to_vec();
                    b.splice(line..line, dup);
                }
            }
        }
        b
    }
}

// ------------------------------------------------------------------ reference parser

pub enum Parsed {
    /// rings (outline first) and sparse points, as bits
    Good { rings: Vec<Vec<(Float, Float)>>, points: Vec<(Float, Float)> },
    Bad(String),
    /// the format does not say
    Unspecified,
}

pub fn parse(bytes: &[u8]) -> Parsed {
    let Ok(text) = std::str::from_utf8(bytes) else { return Parsed::Bad("invalid text".into()) };
    let mut rings: Vec<Vec<(Float, Float)>> = vec![vec![]];
    let mut points = vec![];
    let mut steiner = false;
    let mut loose = false;
    for line in text.split('\n') {
        // a carriage return belongs to the end of the line only if there is one
        let torn = line.as_ptr() as usize + line.len() == text.as_ptr() as usize + text.len();
        let line = if torn { line } else { line.strip_suffix('\r').unwrap_or(line) };
        if line.is_empty() {
            continue;
        }
        if line == "HOLE" {
            rings.push(vec![]);
            steiner = false;
            continue;
        }
        if line == "STEINER" {
            steiner = true;
            continue;
        }
        if line.contains('\r') {
            loose = true;
        }
        let tok: Vec<&str> = line.split_whitespace().collect();
        if tok.is_empty() || tok == ["HOLE"] || tok == ["STEINER"] {
            loose = true;
            continue;
        }
        if tok.len() < 2 {
            return Parsed::Bad(format!("line {line:?}"));
        }
        if tok.len() > 2 {
            loose = true;
        }
        match (tok[0].parse::<Float>(), tok[1].parse::<Float>()) {
            (Ok(x), Ok(y)) => {
                if !x.is_finite() || !y.is_finite() {
                    loose = true;
                }
                if steiner {
                    points.push((x, y));
                } else {
                    rings.last_mut().unwrap().push((x, y));
                }
            }
            _ => return Parsed::Bad(format!("line {line:?}")),
        }
    }
    if loose {
        return Parsed::Unspecified;
    }
    for r in &rings {
        for i in 0..r.len() {
            if r[i] == r[(i + 1) % r.len()] {
                return Parsed::Bad(format!("repeated point {:?}", r[i]));
            }
        }
    }
    if rings.iter().any(|r| r.is_empty()) {
        return Parsed::Unspecified;
    }
    Parsed::Good { rings, points }
}
