//! The scheduler: every simulated task is a real thread, but exactly one holds the token and runs;
//! the others are parked on a futex of their own. The token moves only at yield points, and where
//! it moves is decided here, from the seed or from a recorded schedule.
use crate::prng::{mix, Rng};
use crate::seam::{self, LIB, NONE, TASK};
use crate::shared;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

// kinds of yield point
pub const Y_ALLOC: usize = 0;
pub const Y_SYNC: usize = 1;
pub const Y_IO: usize = 2;
pub const Y_POINT: usize = 3; // enter/exit/edge/done/final callbacks
pub const Y_LEGAL: usize = 4; // legalization callbacks
pub const Y_USER: usize = 5; // data, source and iterator code of the client
pub const Y_STEP: usize = 6; // between operations of a task
pub const NKIND: usize = 7;
pub const KIND_NAMES: [&str; NKIND] = ["alloc", "sync", "io", "point-callback", "legalize-callback", "client-code", "step"];

pub const MAX_TASKS: usize = 80;
/// deviation targets beyond task numbers
pub const TO_STALL: u32 = 200;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// waiting inside library code for a futex word or a deadline
    Lib { addr: usize, deadline: Option<u64> },
    /// waiting in harness code
    Wait,
    /// held still by the simulator until nothing else can run
    Stalled,
    Done,
}

struct Task {
    go: AtomicU32,
    st: St,
    idx: u32,
    woken: bool,
    /// triangulations it is in the middle of
    running: u32,
    /// stalled while it waits for the disk
    at_disk: bool,
}

/// held while a task triangulates
pub struct Running(usize);
impl Running {
    pub fn new() -> Running {
        let me = TASK.with(|t| t.get());
        s().tasks[me].running += 1;
        Running(me)
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        s().tasks[self.0].running -= 1;
    }
}

pub struct Sched {
    tasks: Vec<Task>,
    cur: usize,
    /// a recorded schedule: (task, local index) -> target
    explicit: Option<std::collections::HashMap<(u32, u32), u32>>,
    rng: Rng,
    /// probability of preemption per kind, of 65536
    p: [u32; NKIND],
    p_stall: u32,
    stalls_left: u32,
    env: u64,
    pub now: u64,
    pub steps: u64,
    /// timed waits that ran out with nothing else able to run, since the last sign of progress
    idle: u32,
    step_cap: u64,
    main_go: AtomicU32,
    exiting: usize,
}

static mut S: *mut Sched = std::ptr::null_mut();
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static LIB_THREADS: AtomicU32 = AtomicU32::new(0);

#[inline]
fn s() -> &'static mut Sched {
    unsafe { &mut *S }
}

pub struct Spec<'a> {
    pub n: usize,
    pub seed: u64,
    pub p: [u32; NKIND],
    pub p_stall: u32,
    pub env: u64,
    /// (task, local index, target)
    pub explicit: Option<&'a [(u32, u32, u32)]>,
    pub step_cap: u64,
}

pub fn set_hash_seed(v: u64) {
    HASH_SEED.store(v, Relaxed);
}
pub fn hash_seed() -> u64 {
    HASH_SEED.load(Relaxed)
}

pub fn init(sp: Spec) {
    let tasks: Vec<Task> =
        (0..sp.n).map(|_| Task { go: AtomicU32::new(0), st: St::Ready, idx: 0, woken: false, running: 0, at_disk: false }).collect();
    let b = Box::new(Sched {
        tasks,
        cur: NONE,
        explicit: sp.explicit.map(|d| d.iter().map(|&(t, i, to)| ((t, i), to)).collect()),
        rng: Rng::new(sp.seed),
        p: sp.p,
        p_stall: sp.p_stall,
        stalls_left: 2,
        env: sp.env,
        now: 1_000_000_000 + mix(sp.env) % 1_000_000_000_000,
        steps: 0,
        idle: 0,
        step_cap: sp.step_cap,
        main_go: AtomicU32::new(0),
        exiting: NONE,
    });
    unsafe { S = Box::into_raw(b) };
}

fn park(w: &AtomicU32) {
    while w.swap(0, Acquire) == 0 {
        unsafe { seam::raw(202, w as *const _ as i64, 128, 0, 0, 0, 0) };
    }
}
fn unpark(w: &AtomicU32) {
    w.store(1, Release);
    unsafe { seam::raw(202, w as *const _ as i64, 129, 1, 0, 0, 0) };
}

pub fn now() -> u64 {
    if unsafe { S.is_null() } {
        return 0;
    }
    s().now
}

/// what a clock shows: skewed per task, and the wall clock may jump either way between readings
pub fn clock_read(clk: i32, k: u64) -> u64 {
    let sc = s();
    sc.now += 1 + mix(sc.env ^ k) % 1_000_000;
    shared::count(shared::C_CLOCK);
    if clk == 0 {
        let skew = mix(sc.env ^ 77 ^ (sc.cur as u64) << 8 ^ k / 3) % 4_000_000_000_000_000;
        1_700_000_000_000_000_000 + skew - 2_000_000_000_000_000 + sc.now
    } else {
        sc.now
    }
}

fn in_range(x: u32, p: u32) -> bool {
    x & 0xffff < p
}

fn record(t: usize, idx: u32, to: u32) {
    shared::record_dev(t as u32, idx, to);
    let sc = s();
    let r = shared::rec();
    r.sched_hash = mix(r.sched_hash ^ ((t as u64) << 40 | (idx as u64) << 8 | to as u64));
    // simulated time passes while another task runs; now and then a lot of it
    let m = mix(sc.env ^ (t as u64) << 33 ^ idx as u64);
    sc.now += if m % 16 == 0 { m % 3_600_000_000_000 } else { m % 2_000_000 };
}

fn ready(sc: &Sched, i: usize) -> bool {
    sc.tasks[i].st == St::Ready
}

/// the token goes to `to`; returns when this task has it again
fn hand_over(me: usize, to: usize) {
    let sc = s();
    debug_assert!(ready(sc, to));
    shared::count(shared::C_SWITCH);
    sc.cur = to;
    unpark(&sc.tasks[to].go);
    park(&sc.tasks[me].go);
}

/// key of a choice made because the running task could not go on
const FORCED: u32 = 1 << 31;
/// who "chooses" the first task
const START: usize = 255;

fn explicit_dev(me: usize, idx: u32) -> Option<u32> {
    s().explicit.as_ref().unwrap().get(&(me as u32, idx)).copied()
}

pub fn yield_point(kind: usize) {
    let me = TASK.with(|t| t.get());
    if me == NONE {
        return;
    }
    let sc = s();
    if sc.cur != me {
        shared::fatal("a task ran without holding the token");
    }
    let idx = sc.tasks[me].idx;
    sc.tasks[me].idx += 1;
    sc.steps += 1;
    sc.now += 1000;
    shared::count(shared::C_YIELD + kind);
    if matches!(kind, Y_POINT | Y_LEGAL | Y_USER | Y_IO) {
        sc.idle = 0;
    }
    if sc.steps > sc.step_cap {
        shared::violation(&[1, 2, 3, 5, 8, 13, 16], "no progress: the step bound of the run was exceeded");
    }
    let _q;
    let to = if sc.explicit.is_some() {
        _q = seam::Quiet::new();
        match explicit_dev(me, idx) {
            Some(x) => x,
            None => return,
        }
    } else {
        let r = sc.rng.next_u64();
        let p_stall = match kind {
            Y_POINT | Y_LEGAL | Y_USER => sc.p_stall,
            // there are few of these
            Y_IO => sc.p_stall * 16,
            _ => 0,
        };
        if sc.stalls_left > 0 && in_range((r >> 32) as u32, p_stall) && others(me) > 0 {
            sc.stalls_left -= 1;
            _q = seam::Quiet::new();
            TO_STALL
        } else if in_range(r as u32, sc.p[kind]) {
            _q = seam::Quiet::new();
            let n = others(me);
            if n == 0 {
                return;
            }
            nth_other(me, (r >> 20) as usize % n) as u32
        } else {
            return;
        }
    };
    if to == TO_STALL {
        if others(me) == 0 {
            return;
        }
        record(me, idx, to);
        shared::count(shared::C_STALL);
        sc.tasks[me].st = St::Stalled;
        sc.tasks[me].at_disk = kind == Y_IO;
        leave(me, idx);
        return;
    }
    let to = to as usize;
    if to >= sc.tasks.len() || to == me || !ready(sc, to) {
        return;
    }
    record(me, idx, to as u32);
    shared::count(shared::C_PREEMPT + kind);
    hand_over(me, to);
}

fn others(me: usize) -> usize {
    let sc = s();
    (0..sc.tasks.len()).filter(|&i| i != me && ready(sc, i)).count()
}
fn nth_other(me: usize, k: usize) -> usize {
    let sc = s();
    (0..sc.tasks.len()).filter(|&i| i != me && ready(sc, i)).nth(k).unwrap()
}

/// pick a successor for a task that cannot go on itself; None: everything is done
fn successor(me: usize, idx: u32) -> Option<usize> {
    let _q = seam::Quiet::new();
    let sc = s();
    loop {
        let n = (0..sc.tasks.len()).filter(|&i| ready(sc, i)).count();
        if n > 0 {
            let mut k = (0..sc.tasks.len()).find(|&i| ready(sc, i)).unwrap();
            if n > 1 {
                if sc.explicit.is_some() {
                    if let Some(x) = explicit_dev(me, idx | FORCED) {
                        if (x as usize) < sc.tasks.len() && ready(sc, x as usize) && x as usize != k {
                            record(me, idx | FORCED, x);
                            k = x as usize;
                        }
                    }
                } else {
                    let j = sc.rng.index(n);
                    let other = (0..sc.tasks.len()).filter(|&i| ready(sc, i)).nth(j).unwrap();
                    if other != k {
                        record(me, idx | FORCED, other as u32);
                    }
                    k = other;
                }
            }
            return Some(k);
        }
        // nobody can run: let time pass for a timed wait
        let timed = (0..sc.tasks.len())
            .filter_map(|i| match sc.tasks[i].st {
                St::Lib { deadline: Some(d), .. } => Some((d, i)),
                _ => None,
            })
            .min();
        if let Some((d, i)) = timed {
            sc.now = sc.now.max(d);
            sc.tasks[i].st = St::Ready;
            sc.tasks[i].woken = false;
            sc.idle += 1;
            if sc.idle > 5000 {
                let stalled: Vec<usize> = (0..sc.tasks.len()).filter(|&i| sc.tasks[i].st == St::Stalled).collect();
                shared::violation(
                    &[1, 2, 3, 5, 8, 13, 16],
                    &format!("no progress: task {i} wakes up inside the library again and again, only to wait on (stalled in client code or at the disk: {stalled:?})"),
                );
            }
            continue;
        }
        let stuck: Vec<usize> = (0..sc.tasks.len()).filter(|&i| matches!(sc.tasks[i].st, St::Lib { .. })).collect();
        let stalled: Vec<usize> = (0..sc.tasks.len()).filter(|&i| sc.tasks[i].st == St::Stalled).collect();
        if !stuck.is_empty() && LIB_THREADS.load(Relaxed) > 0 {
            // a thread started by the library may still wake it: look at the real word
            for &i in &stuck {
                sc.tasks[i].st = St::Ready;
                sc.tasks[i].woken = true;
            }
            unsafe { seam::raw(35, [0i64, 200_000].as_ptr() as i64, 0, 0, 0, 0, 0) };
            continue;
        }
        let held_up = stuck.iter().any(|&i| sc.tasks[i].running > 0) || stalled.iter().any(|&i| !sc.tasks[i].at_disk);
        if !stuck.is_empty() && !stalled.is_empty() && held_up {
            shared::violation(
                &[1, 2, 8, 13],
                &format!("task {:?} waits inside the library for task {:?}, which is stalled in client code or at the disk", stuck, stalled),
            );
        }
        if !stuck.is_empty() && stalled.is_empty() {
            shared::violation(&[1, 2, 3, 5, 8, 13, 16], &format!("deadlock: tasks {:?} wait inside the library and nothing can wake them", stuck));
        }
        if !stalled.is_empty() {
            for i in stalled {
                sc.tasks[i].st = St::Ready;
            }
            continue;
        }
        if sc.tasks.iter().any(|t| t.st == St::Wait) {
            shared::fatal("harness deadlock");
        }
        return None;
    }
}

/// the running task has just become unable to run
fn leave(me: usize, idx: u32) {
    let sc = s();
    match successor(me, idx) {
        Some(k) if k == me => {}
        Some(k) => hand_over(me, k),
        None => shared::fatal("a waiting task vanished"),
    }
    sc.cur = me;
}

/// wait in library code; true when woken, false when timed out
pub fn block(addr: usize, deadline: Option<u64>) -> bool {
    let me = TASK.with(|t| t.get());
    let sc = s();
    let idx = sc.tasks[me].idx;
    sc.tasks[me].idx += 1;
    sc.tasks[me].woken = false;
    shared::count(shared::C_BLOCK);
    sc.tasks[me].st = St::Lib { addr, deadline };
    leave(me, idx);
    s().tasks[me].woken
}

pub fn wake(addr: usize, n: u64) -> u64 {
    let sc = s();
    let mut k = 0;
    for t in sc.tasks.iter_mut() {
        if k >= n {
            break;
        }
        if let St::Lib { addr: a, .. } = t.st {
            if a == addr {
                t.st = St::Ready;
                t.woken = true;
                k += 1;
            }
        }
    }
    k
}

/// harness code waits until `cond` holds
pub fn wait_until(mut cond: impl FnMut() -> bool) {
    let me = TASK.with(|t| t.get());
    while !cond() {
        let sc = s();
        let idx = sc.tasks[me].idx;
        sc.tasks[me].idx += 1;
        sc.tasks[me].st = St::Wait;
        leave(me, idx);
    }
}
/// something a waiting harness may look at has changed
pub fn notify() {
    for t in s().tasks.iter_mut() {
        if t.st == St::Wait {
            t.st = St::Ready;
        }
    }
}

/// a harness-chosen pause: simulated time passes and others may run
pub fn pause(ns: u64) {
    let me = TASK.with(|t| t.get());
    let sc = s();
    let idx = sc.tasks[me].idx;
    sc.tasks[me].idx += 1;
    let d = sc.now + ns;
    sc.tasks[me].st = St::Lib { addr: 0, deadline: Some(d) };
    leave(me, idx);
}

/// body of task thread `t`
pub fn task_thread(t: usize, body: impl FnOnce()) {
    park(&s().tasks[t].go);
    TASK.with(|x| x.set(t));
    body();
    LIB.with(|l| l.set(0));
    TASK.with(|x| x.set(NONE));
    let sc = s();
    sc.tasks[t].st = St::Done;
    sc.exiting = t;
    unpark(&sc.main_go);
    // thread-local destructors run now; the main thread joins before passing the token on
}

/// run all tasks; `join(t)` joins the thread of task t
pub fn run(mut join: impl FnMut(usize)) {
    let sc = s();
    let n = sc.tasks.len();
    if n == 0 {
        return;
    }
    let mut next = successor(START, 0);
    while let Some(k) = next {
        sc.cur = k;
        unpark(&sc.tasks[k].go);
        park(&sc.main_go);
        let t = sc.exiting;
        join(t);
        let idx = sc.tasks[t].idx;
        notify();
        next = successor(t, idx);
    }
    shared::rec().sim_ns = sc.now;
    shared::rec().steps = sc.steps;
}

extern "C" {
    fn dlsym(h: usize, name: *const u8) -> usize;
}
type Create = unsafe extern "C" fn(*mut usize, *const u8, usize, usize) -> i32;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const u8, f: usize, arg: usize) -> i32 {
    let real: Create = std::mem::transmute(dlsym(usize::MAX, b"pthread_create\0".as_ptr()));
    if TASK.with(|t| t.get()) != NONE {
        LIB_THREADS.fetch_add(1, Relaxed);
        shared::count(shared::C_LIBTHREAD);
    }
    real(t, attr, f, arg)
}

/// the calling thread is the only task (used where an input is run alone)
pub fn solo() {
    s().cur = 0;
    TASK.with(|t| t.set(0));
}
