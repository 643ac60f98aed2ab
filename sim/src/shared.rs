//! The record of one run, in memory shared with the driver, so that it survives whatever happens to
//! the simulated process.
use crate::seam;

pub const MSG: usize = 4000;
pub const DEVS: usize = 60_000;
pub const NCOUNT: usize = 160;

// counters
pub const C_SWITCH: usize = 0;
pub const C_YIELD: usize = 1; // + kind (7)
pub const C_PREEMPT: usize = 8; // + kind (7)
pub const C_STALL: usize = 15;
pub const C_BLOCK: usize = 16;
pub const C_CLOCK: usize = 17;
pub const C_LIBTHREAD: usize = 18;
pub const C_OPS: usize = 19;
pub const C_TRI: usize = 20;
pub const C_TRI_OBS: usize = 21;
pub const C_TRI_NESTED: usize = 22;
pub const C_CB: usize = 23;
pub const C_NESTED_OPS: usize = 24;
pub const C_POINTS: usize = 25;
pub const C_PEEK: usize = 26;
pub const C_DIGEST: usize = 27;
pub const C_MESH: usize = 28;
pub const C_LOAD: usize = 29;
pub const C_LOAD_OK: usize = 30;
pub const C_LOAD_ERR: usize = 31;
pub const C_SNOOP: usize = 32;
pub const C_FORK: usize = 33;
pub const C_CONSUME: usize = 34;
pub const C_SHARED: usize = 35;
pub const C_SENT: usize = 36;
pub const C_PROBE: usize = 37;
pub const C_PROBE_ABSENT: usize = 38;
pub const C_PROBE_PANIC: usize = 39;
pub const C_PROBE_FOUND: usize = 40;
pub const C_DATA: usize = 41;
pub const C_REF: usize = 42;
pub const C_PROTO: usize = 43;
pub const C_WRITER: usize = 44;
pub const C_COMPARE: usize = 45;
pub const C_CHANGED_MID: usize = 46;
pub const C_MUST_FAIL: usize = 47;
pub const C_FLAVOUR: usize = 48; // + flavour (4)
pub const C_ROUND: usize = 52;
pub const C_STORM: usize = 53;
pub const C_CROWD: usize = 54;
pub const C_EXOTIC: usize = 55;
// faults fired
pub const F_CB_PANIC: usize = 64; // + callback kind (9)
pub const F_ALLOC: usize = 73;
pub const F_CLONE: usize = 74;
pub const F_DROP: usize = 75;
pub const F_SOURCE: usize = 76;
pub const F_ITER: usize = 77;
pub const F_OPEN: usize = 78;
pub const F_READ_ERR: usize = 79;
pub const F_EINTR: usize = 80;
pub const F_SHORT: usize = 81;
pub const F_STAT: usize = 82;
pub const F_SIZE: usize = 83;
pub const F_TORN: usize = 84;
pub const F_FLIP: usize = 85;
pub const F_LOST: usize = 86;
pub const F_STALE: usize = 87;
pub const F_WCRASH: usize = 88;
pub const F_STOP: usize = 89;
pub const F_CLOSE: usize = 90;
pub const F_OPEN_EINTR: usize = 91;

pub const FAULT_NAMES: [(usize, &str); 28] = [
    (F_CB_PANIC, "panic in enter_point_event"),
    (F_CB_PANIC + 1, "panic in exit_point_event"),
    (F_CB_PANIC + 2, "panic in edge_event"),
    (F_CB_PANIC + 3, "panic in sweep_done"),
    (F_CB_PANIC + 4, "panic in finalized"),
    (F_CB_PANIC + 5, "panic in will_legalize"),
    (F_CB_PANIC + 6, "panic in legalize_step"),
    (F_CB_PANIC + 7, "panic in triangle_rotated"),
    (F_CB_PANIC + 8, "panic in legalized"),
    (F_ALLOC, "allocation failure"),
    (F_CLONE, "panic cloning client data"),
    (F_DROP, "panic dropping client data"),
    (F_SOURCE, "panic in a point source"),
    (F_ITER, "panic in an iterator of holes"),
    (F_OPEN, "open fails"),
    (F_OPEN_EINTR, "open interrupted"),
    (F_READ_ERR, "read fails"),
    (F_EINTR, "read interrupted"),
    (F_SHORT, "short read"),
    (F_STAT, "stat fails"),
    (F_SIZE, "stat shows a wrong size"),
    (F_TORN, "file truncated"),
    (F_FLIP, "bits flipped"),
    (F_LOST, "block lost"),
    (F_STALE, "stale block"),
    (F_WCRASH, "writer crashes mid-file"),
    (F_STOP, "task crashes between operations"),
    (C_STALL, "task stalled indefinitely"),
];

#[repr(C)]
pub struct Rec {
    /// 0 running, 1 held, 2 violation, 3 harness failure, 4 not run (reference unusable)
    pub verdict: u32,
    pub prop: u32,
    pub msg_len: u32,
    pub ndev: u32,
    /// some input of the run fails on its own
    pub ref_bad: u32,
    pub sched_hash: u64,
    pub outcome_hash: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub mask: u64,
    pub count: [u64; NCOUNT],
    pub msg: [u8; MSG],
    pub devs: [(u32, u32, u32); DEVS],
}

static mut REC: *mut Rec = std::ptr::null_mut();

/// a file in memory only, closed when another program is started
pub fn memfd() -> i32 {
    unsafe {
        let fd = seam::raw(319, c"p2tsim".as_ptr() as i64, 1, 0, 0, 0, 0);
        assert!(fd >= 0, "memfd_create");
        fd as i32
    }
}
pub fn map_rec(fd: i32) -> *mut Rec {
    unsafe {
        let p = seam::mmap(std::ptr::null_mut(), std::mem::size_of::<Rec>(), 3, 0x01, fd, 0);
        assert!(p as isize != -1, "mmap");
        p as *mut Rec
    }
}
pub fn alloc_rec() -> (*mut Rec, i32) {
    let fd = memfd();
    unsafe { assert!(seam::raw(77, fd as i64, std::mem::size_of::<Rec>() as i64, 0, 0, 0, 0) == 0, "ftruncate") };
    (map_rec(fd), fd)
}
pub fn use_rec(r: *mut Rec) {
    unsafe { REC = r };
}
#[inline]
pub fn rec() -> &'static mut Rec {
    unsafe { &mut *REC }
}
#[inline]
pub fn count(c: usize) {
    unsafe {
        if !REC.is_null() {
            (*REC).count[c] += 1;
        }
    }
}
pub fn add(c: usize, n: u64) {
    rec().count[c] += n;
}
pub fn note(x: u64) {
    let r = rec();
    r.outcome_hash = crate::prng::mix(r.outcome_hash ^ x);
}

pub fn record_dev(t: u32, i: u32, to: u32) {
    let r = rec();
    if (r.ndev as usize) < DEVS {
        r.devs[r.ndev as usize] = (t, i, to);
        r.ndev += 1;
    }
}

fn set_msg(m: &str) {
    let r = rec();
    let n = m.len().min(MSG);
    r.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
    r.msg_len = n as u32;
}

/// A breach of one of `props`. Ends the run when the check being run is about one of them.
pub fn violation(props: &[u32], msg: &str) {
    let r = rec();
    if let Some(p) = props.iter().find(|p| r.mask & (1 << **p) != 0) {
        let _q = seam::Quiet::new();
        set_msg(msg);
        r.prop = *p;
        r.verdict = 2;
        crate::exec::trace(&format!("VIOLATION: {msg}"));
        unsafe { seam::_exit(0) }
    }
}

pub fn fatal(msg: &str) -> ! {
    let _q = seam::Quiet::new();
    set_msg(msg);
    rec().verdict = 3;
    unsafe { seam::_exit(0) }
}
pub fn unusable(msg: &str) -> ! {
    set_msg(msg);
    rec().verdict = 4;
    unsafe { seam::_exit(0) }
}
pub fn msg(r: &Rec) -> String {
    String::from_utf8_lossy(&r.msg[..r.msg_len as usize]).into_owned()
}
