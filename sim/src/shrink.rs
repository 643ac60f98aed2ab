//! Makes a violating run smaller: fewer tasks, operations, faults, switches, points.
use crate::driver::{once, with_schedule, Slot, Verdict};
use crate::plan::*;
use std::time::{Duration, Instant};

struct Sh<'a> {
    prop: u32,
    best: Plan,
    msg: String,
    slot: &'a mut Slot,
    end: Instant,
    cpu: u64,
}

impl Sh<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.end
    }
    fn attempt(&mut self, p: Plan) -> bool {
        if self.over() || p == self.best {
            return false;
        }
        if let Verdict::Broken(m) = once(self.slot, self.prop, &p, self.cpu) {
            self.best = p;
            self.msg = m;
            return true;
        }
        false
    }
    fn edit(&mut self, f: impl FnOnce(&mut Plan)) -> bool {
        let mut p = self.best.clone();
        f(&mut p);
        self.attempt(p)
    }

    /// remove chunks of a list, halving
    fn list(&mut self, len: impl Fn(&Plan) -> usize, cut: impl Fn(&mut Plan, usize, usize)) {
        let mut size = len(&self.best);
        while size > 0 && !self.over() {
            let mut i = 0;
            while i < len(&self.best) && !self.over() {
                let j = (i + size).min(len(&self.best));
                if !self.edit(|p| cut(p, i, j)) {
                    i = j;
                }
            }
            size /= 2;
        }
    }

    fn pass(&mut self) {
        // tasks, from the last (numbers of the others must not change)
        for t in (0..self.best.tasks.len()).rev() {
            if t + 1 == self.best.tasks.len() {
                self.edit(|p| {
                    p.tasks.pop();
                });
            } else if !self.best.tasks[t].is_empty() {
                self.edit(|p| p.tasks[t].clear());
            }
        }
        self.switches();
        for t in 0..self.best.tasks.len() {
            self.list(
                |p| p.tasks.get(t).map_or(0, |o| o.len()),
                |p, i, j| {
                    p.tasks[t].drain(i..j);
                },
            );
        }
        self.faults();
        self.storms();
        self.levels();
        self.nested();
        self.points();
        self.files();
        self.switches();
    }
    fn switches(&mut self) {
        if self.best.sched.explicit.is_none() {
            return;
        }
        self.list(
            |p| p.sched.explicit.as_ref().map_or(0, |d| d.len()),
            |p, i, j| {
                p.sched.explicit.as_mut().unwrap().drain(i..j);
            },
        );
    }
    fn faults(&mut self) {
        for t in 0..self.best.tasks.len() {
            for k in 0..self.best.tasks[t].len() {
                for which in 0..4 {
                    self.edit(|p| {
                        let op = &mut p.tasks[t][k];
                        if let Some(f) = fault_of(op) {
                            match which {
                                0 => f.alloc = None,
                                1 => f.user = None,
                                _ => {}
                            }
                        }
                        match op {
                            Op::Tri { obs, .. } if which == 2 => obs.panic_at = None,
                            Op::Tri { obs, .. } if which == 3 => *obs = Obs::default(),
                            Op::Load { faults, .. } if which == 2 => faults.clear(),
                            _ => {}
                        }
                    });
                }
                self.list(
                    |p| match &p.tasks[t][k] {
                        Op::Load { faults, .. } => faults.len(),
                        _ => 0,
                    },
                    |p, i, j| {
                        if let Op::Load { faults, .. } = &mut p.tasks[t][k] {
                            faults.drain(i..j);
                        }
                    },
                );
            }
        }
    }
    fn storms(&mut self) {
        for t in 0..self.best.tasks.len() {
            for k in 0..self.best.tasks[t].len() {
                while let Op::Storm { n, .. } = self.best.tasks[t][k] {
                    let less = |p: &mut Plan, m: u32| p.tasks[t][k] = Op::Storm { n: m, how: if let Op::Storm { how, .. } = p.tasks[t][k] { how } else { 0 } };
                    if n < 2 || !self.edit(|p| less(p, n / 2)) && !self.edit(|p| less(p, n - n / 8 - 1)) && !self.edit(|p| less(p, n - 1)) {
                        break;
                    }
                }
            }
        }
    }
    /// take out a level of what is nested
    fn levels(&mut self) {
        for t in 0..self.best.tasks.len() {
            for k in 0..self.best.tasks[t].len() {
                let mut d = 0;
                while !self.over() && below(&mut self.best.clone().tasks[t][k], d).is_some() {
                    let cut = self.edit(|p| {
                        if let Some(ops) = below(&mut p.tasks[t][k], d) {
                            let inner = ops.iter_mut().find_map(|o| match o {
                                Op::Tri { obs, .. } if !obs.nested.is_empty() => Some(obs.nested.remove(0).ops),
                                _ => None,
                            });
                            *ops = inner.unwrap_or_default();
                        }
                    });
                    if !cut {
                        d += 1;
                    }
                }
            }
        }
    }
    fn nested(&mut self) {
        for t in 0..self.best.tasks.len() {
            for k in 0..self.best.tasks[t].len() {
                self.list(
                    |p| match &p.tasks[t][k] {
                        Op::Tri { obs, .. } => obs.nested.len(),
                        _ => 0,
                    },
                    |p, i, j| {
                        if let Op::Tri { obs, .. } = &mut p.tasks[t][k] {
                            obs.nested.drain(i..j);
                        }
                    },
                );
                let n = match &self.best.tasks[t][k] {
                    Op::Tri { obs, .. } => obs.nested.len(),
                    _ => 0,
                };
                for x in 0..n {
                    self.list(
                        |p| match &p.tasks[t][k] {
                            Op::Tri { obs, .. } => obs.nested[x].ops.len(),
                            _ => 0,
                        },
                        |p, i, j| {
                            if let Op::Tri { obs, .. } = &mut p.tasks[t][k] {
                                obs.nested[x].ops.drain(i..j);
                            }
                        },
                    );
                }
            }
        }
    }
    fn points(&mut self) {
        for i in 0..self.best.inputs.len() {
            self.list(
                |p| p.inputs[i].steiner.len(),
                |p, a, b| {
                    p.inputs[i].steiner.drain(a..b);
                },
            );
            self.list(
                |p| p.inputs[i].holes.len(),
                |p, a, b| {
                    p.inputs[i].holes.drain(a..b);
                },
            );
            let mut size = self.best.inputs[i].outline.len() / 3;
            while size > 0 && !self.over() {
                let mut a = 0;
                while a < self.best.inputs[i].outline.len() && !self.over() {
                    let mut p = self.best.clone();
                    let o = &mut p.inputs[i].outline;
                    let b = (a + size).min(o.len());
                    o.drain(a..b);
                    if p.inputs[i].outline.len() < 3 || !p.inputs[i].valid() || !self.attempt(p) {
                        a = b;
                    }
                }
                size /= 2;
            }
            if self.best.inputs[i].exp2 != 0 {
                self.edit(|p| p.inputs[i].exp2 = 0);
            }
        }
    }
    fn files(&mut self) {
        for c in 0..self.best.contents.len() {
            self.list(
                |p| p.contents[c].corrupt.len(),
                |p, a, b| {
                    p.contents[c].corrupt.drain(a..b);
                },
            );
            self.list(
                |p| p.contents[c].raw.as_ref().map_or(0, |r| r.len()),
                |p, a, b| {
                    p.contents[c].raw.as_mut().unwrap().drain(a..b);
                },
            );
        }
    }
}

/// what the operation does nested at depth d
fn below(op: &mut Op, d: usize) -> Option<&mut Vec<Op>> {
    let Op::Tri { obs, .. } = op else { return None };
    let ops = &mut obs.nested.first_mut()?.ops;
    if d == 0 {
        return Some(ops);
    }
    ops.iter_mut().find_map(|o| below(o, d - 1))
}
fn fault_of(op: &mut Op) -> Option<&mut OpFault> {
    match op {
        Op::New { f, .. }
        | Op::Hole { f, .. }
        | Op::Holes { f, .. }
        | Op::St { f, .. }
        | Op::Clone { f, .. }
        | Op::Build { f, .. }
        | Op::Tri { f, .. }
        | Op::Use { f, .. }
        | Op::Drop { f, .. }
        | Op::Load { f, .. } => Some(f),
        _ => None,
    }
}

pub fn shrink(prop: u32, p: Plan, msg: String, slot: &mut Slot) -> (Plan, String) {
    let t = Instant::now();
    let mut sh = Sh { prop, best: p.clone(), msg, slot, end: t + Duration::from_secs(60), cpu: 20 };
    // the schedule, written out
    if let Verdict::Broken(_) = once(sh.slot, prop, &p, 60) {
        let q = with_schedule(&p, sh.slot.rec());
        if let Verdict::Broken(m) = once(sh.slot, prop, &q, 60) {
            sh.best = q;
            sh.msg = m;
        }
    }
    if t.elapsed() > Duration::from_secs(6) {
        sh.cpu = 6;
    }
    for _ in 0..3 {
        let before = sh.best.clone();
        sh.pass();
        if sh.best == before || sh.over() {
            break;
        }
    }
    (sh.best, sh.msg)
}
