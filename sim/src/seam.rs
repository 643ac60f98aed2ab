//! The seams: libc symbols, the global allocator and the allocation-error hook, interposed in this
//! binary. Outside a simulated task every one of them passes straight through to the kernel.
use crate::{disk, sched};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const NONE: usize = usize::MAX;

thread_local! {
    /// simulated task running on this thread
    pub static TASK: Cell<usize> = const { Cell::new(NONE) };
    /// > 0: inside the simulator itself, seams pass through
    pub static QUIET: Cell<u32> = const { Cell::new(0) };
    /// > 0: inside a call into the library (and not inside client code it called back)
    pub static LIB: Cell<u32> = const { Cell::new(0) };
    /// library allocations made in the current operation, and the one to fail
    pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    pub static ALLOC_FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static ALLOC_FAILED: Cell<bool> = const { Cell::new(false) };
    /// client code allocating what it is about to hand to the library
    static GIFT: Cell<bool> = const { Cell::new(false) };
    static HASH_DRAWS: Cell<u64> = const { Cell::new(0) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
}

pub struct Quiet;
impl Quiet {
    #[inline]
    pub fn new() -> Self {
        QUIET.with(|q| q.set(q.get() + 1));
        Quiet
    }
}
impl Drop for Quiet {
    #[inline]
    fn drop(&mut self) {
        QUIET.with(|q| q.set(q.get() - 1));
    }
}

pub struct LibMode(u32);
/// mark the calling thread as being inside (1) or outside (0) the library
pub fn lib_mode(v: u32) -> LibMode {
    LibMode(LIB.with(|l| l.replace(v)))
}
impl Drop for LibMode {
    fn drop(&mut self) {
        let v = self.0;
        LIB.with(|l| l.set(v));
    }
}
/// run `f` as a call into the library
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = lib_mode(1);
    f()
}

/// memory that the client hands to the library counts as the library's
pub fn gift<R>(f: impl FnOnce() -> R) -> R {
    let old = GIFT.with(|g| g.replace(true));
    let r = f();
    GIFT.with(|g| g.set(old));
    r
}

#[inline]
fn in_task() -> bool {
    TASK.with(|t| t.get()) != NONE && QUIET.with(|q| q.get()) == 0
}
#[inline]
fn in_lib() -> bool {
    LIB.with(|l| l.get()) > 0 && QUIET.with(|q| q.get()) == 0
}

// ---------------------------------------------------------------- raw system calls

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(addr: *mut u8, len: usize) -> i32;
    pub fn mallopt(what: i32, to: i32) -> i32;
    pub fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(errno: i32) -> i64 {
    *__errno_location() = errno;
    -1
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// seed for placement and fill; 0 = plain
pub static MEM_SEED: AtomicU64 = AtomicU64::new(0);
pub static MEM_NONCE: AtomicU64 = AtomicU64::new(0);
const GUARD: usize = 16;
const GUARD_BYTE: u8 = 0xC3;
/// blocks found written past their end, or released twice
pub static HEAP_DAMAGE: AtomicU64 = AtomicU64::new(0);

// Library allocations of a simulated process come from an arena at a fixed address, so that one
// seed gives the same addresses every time; which block is reused, how far the arena has been
// advanced and what fresh memory contains are drawn from the seed.
const ARENA: usize = 0x2000_0000_0000;
const ARENA_LEN: usize = 2 << 30;
static ARENA_NEXT: AtomicU64 = AtomicU64::new(0);
static ARENA_LOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static mut FREE: [[usize; 4]; 28] = [[0; 4]; 28];
/// library bytes live now
pub static LIVE: AtomicU64 = AtomicU64::new(0);

pub fn arena_init(seed: u64) {
    unsafe {
        let p = mmap(ARENA as *mut u8, ARENA_LEN, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0);
        if p as usize != ARENA {
            return;
        }
    }
    ARENA_NEXT.store(64 * (1 + (seed & 0xff)), Relaxed);
    MEM_SEED.store(seed | 1, Relaxed);
}

#[inline]
fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(ARENA) < ARENA_LEN
}

#[inline]
unsafe fn place(l: &Layout) -> *mut u8 {
    if MEM_SEED.load(Relaxed) == 0 || !(in_lib() || GIFT.with(|g| g.get())) || l.align() > 64 || l.size() > (64 << 20) {
        return System.alloc(*l);
    }
    let class = (l.size() + GUARD).next_power_of_two().trailing_zeros().max(6) as usize;
    while ARENA_LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {}
    let r = crate::prng::mix(MEM_SEED.load(Relaxed) ^ MEM_NONCE.fetch_add(1, Relaxed).wrapping_mul(0x9E3779B97F4A7C15));
    let list = &mut *(&raw mut FREE[class]);
    let pick = (r & 7) as usize;
    let mut p = if pick < 4 { list[pick] } else { 0 };
    if p == 0 && pick < 6 {
        p = list.iter().copied().find(|q| *q != 0).unwrap_or(0);
    }
    if p != 0 {
        let k = list.iter().position(|q| *q == p).unwrap();
        list[k] = *(p as *const usize);
    } else {
        let size = 1u64 << class;
        let skip = if class < 12 { ((r >> 3) & 3) * size } else { 0 };
        let off = ARENA_NEXT.fetch_add(size + skip, Relaxed) + skip;
        p = if off + size > ARENA_LEN as u64 { 0 } else { ARENA + off as usize };
    }
    ARENA_LOCK.store(false, std::sync::atomic::Ordering::Release);
    if p == 0 {
        return System.alloc(*l);
    }
    LIVE.fetch_add(l.size() as u64, Relaxed);
    let p = p as *mut u8;
    std::ptr::write_bytes(p, (r >> 8) as u8 | 1, l.size());
    std::ptr::write_bytes(p.add(l.size()), GUARD_BYTE, GUARD);
    p
}

#[inline]
unsafe fn release(p: *mut u8, l: &Layout) {
    if !in_arena(p) {
        return System.dealloc(p, *l);
    }
    let mut bad = false;
    for i in 0..GUARD {
        bad |= *p.add(l.size() + i) != GUARD_BYTE;
    }
    if bad {
        HEAP_DAMAGE.fetch_add(1, Relaxed);
        return; // leak it: freeing a damaged block helps nobody
    }
    LIVE.fetch_sub(l.size() as u64, Relaxed);
    let class = (l.size() + GUARD).next_power_of_two().trailing_zeros().max(6) as usize;
    std::ptr::write_bytes(p, 0xDD, l.size());
    *p.add(l.size()) = 0xDD; // a second release of the block is noticed
    while ARENA_LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {}
    let list = &mut *(&raw mut FREE[class]);
    let k = (p as usize >> 6) & 3;
    *(p as *mut usize) = list[k];
    list[k] = p as usize;
    ARENA_LOCK.store(false, std::sync::atomic::Ordering::Release);
}

/// returns true when this allocation must fail
#[inline]
fn alloc_seam() -> bool {
    if !in_lib() {
        return false;
    }
    let n = ALLOCS.with(|a| {
        let n = a.get();
        a.set(n + 1);
        n
    });
    let hit = ALLOC_FAIL_AT.with(|f| f.get()) == n && !std::thread::panicking();
    if TASK.with(|t| t.get()) != NONE {
        sched::yield_point(sched::Y_ALLOC);
    }
    if hit {
        ALLOC_FAIL_AT.with(|f| f.set(u64::MAX));
        ALLOC_FAILED.with(|f| f.set(true));
    }
    hit
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if alloc_seam() {
            return std::ptr::null_mut();
        }
        place(&l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        release(p, &l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if alloc_seam() {
            return std::ptr::null_mut();
        }
        let Ok(nl) = Layout::from_size_align(new, l.align()) else { return std::ptr::null_mut() };
        let q = place(&nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            release(p, &l);
        }
        q
    }
}

// ---------------------------------------------------------------- libc symbols

const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
const FUTEX_WAIT: i64 = 0;
const FUTEX_WAKE: i64 = 1;
const FUTEX_WAIT_BITSET: i64 = 9;
const FUTEX_WAKE_BITSET: i64 = 10;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && in_task() {
        match b & 0x7f {
            FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                let word = &*(a as *const std::sync::atomic::AtomicU32);
                if word.load(Relaxed) != c as u32 {
                    return fail(11);
                }
                let deadline = if d != 0 {
                    let ts = &*(d as *const [i64; 2]);
                    let t = (ts[0].max(0) as u64).saturating_mul(1_000_000_000).saturating_add(ts[1] as u64);
                    if b & 0x7f == FUTEX_WAIT {
                        Some(sched::now().saturating_add(t))
                    } else {
                        Some(t)
                    }
                } else {
                    None
                };
                return if sched::block(a as usize, deadline) { 0 } else { fail(110) };
            }
            FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                let k = sched::wake(a as usize, c as u32 as u64);
                sched::yield_point(sched::Y_SYNC);
                // a thread the library started itself waits in the kernel
                let r = raw(n, a, b, c, d, e, f).max(0);
                return k as i64 + r;
            }
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_task() {
        sched::yield_point(sched::Y_SYNC);
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}

unsafe fn sleep_ns(ts: *const [i64; 2]) {
    let t = ((*ts)[0].max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*ts)[1] as u64);
    sched::block(0, Some(sched::now().saturating_add(t)));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if in_task() {
        sleep_ns(req);
        return 0;
    }
    ret(raw(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if in_task() {
        if flags & 1 != 0 {
            let t = ((*req)[0].max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*req)[1] as u64);
            sched::block(0, Some(t));
        } else {
            sleep_ns(req);
        }
        return 0;
    }
    -(raw(230, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if in_task() {
        let k = CLOCK_READS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let t = sched::clock_read(clk, k);
        *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
        return 0;
    }
    ret(raw(228, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    let t = TASK.with(|t| t.get());
    let seed = sched::hash_seed();
    if seed != 0 {
        let k = HASH_DRAWS.with(|h| {
            h.set(h.get() + 1);
            h.get()
        });
        let mut r = crate::prng::Rng::new(crate::prng::derive(seed, (t as u64).wrapping_mul(1000) ^ k));
        for i in 0..n {
            *buf.add(i) = r.next_u64() as u8;
        }
        return n as isize;
    }
    ret(raw(SYS_GETRANDOM, buf as i64, n as i64, flags as i64, 0, 0, 0)) as isize
}

unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}

unsafe fn open_common(path: *const u8, flags: i32, mode: u32) -> i32 {
    if in_task() {
        let name = cstr(path);
        if name.starts_with(disk::PREFIX) || in_lib() {
            sched::yield_point(sched::Y_IO);
            return match disk::open(name, flags) {
                Some(Ok(fd)) => fd,
                Some(Err(e)) => fail(e) as i32,
                None => ret(raw(2, path as i64, flags as i64, mode as i64, 0, 0, 0)) as i32,
            };
        }
    }
    ret(raw(2, path as i64, flags as i64, mode as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    open_common(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    open_common(path, flags, mode)
}
unsafe fn openat_common(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    if in_task() && cstr(path).starts_with(b"/") {
        return open_common(path, flags, mode);
    }
    ret(raw(257, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    openat_common(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    openat_common(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if in_task() && disk::owns(fd) {
        sched::yield_point(sched::Y_IO);
        return match disk::read(fd, std::slice::from_raw_parts_mut(buf, n), None) {
            Ok(k) => k as isize,
            Err(e) => fail(e) as isize,
        };
    }
    ret(raw(0, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}
unsafe fn pread_common(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    if in_task() && disk::owns(fd) {
        sched::yield_point(sched::Y_IO);
        return match disk::read(fd, std::slice::from_raw_parts_mut(buf, n), Some(off as usize)) {
            Ok(k) => k as isize,
            Err(e) => fail(e) as isize,
        };
    }
    ret(raw(17, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    pread_common(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    pread_common(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const [usize; 2], cnt: i32) -> isize {
    if in_task() && disk::owns(fd) {
        // deliver into the first non-empty buffer: a legal short read
        for i in 0..cnt as usize {
            let v = *iov.add(i);
            if v[1] > 0 {
                return read(fd, v[0] as *mut u8, v[1]);
            }
        }
        return 0;
    }
    ret(raw(19, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if in_task() && disk::owns(fd) {
        disk::foul("write to a file");
        return fail(9) as isize;
    }
    ret(raw(1, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if in_task() && disk::owns(fd) {
        return match disk::seek(fd, off, whence) {
            Ok(o) => o,
            Err(e) => fail(e),
        };
    }
    ret(raw(8, fd as i64, off, whence as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if in_task() {
        if disk::owns(fd) {
            sched::yield_point(sched::Y_IO);
            disk::close(fd);
        } else if in_lib() {
            disk::close_unknown(fd);
        }
    }
    ret(raw(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}
unsafe fn fcntl_common(fd: i32, cmd: i32, arg: i64) -> i32 {
    let ours = in_task() && disk::owns(fd);
    let r = ret(raw(72, fd as i64, cmd as i64, arg, 0, 0, 0)) as i32;
    if ours && r >= 0 && matches!(cmd, 0 | 1030) {
        disk::dup(fd, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    fcntl_common(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: i64) -> i32 {
    fcntl_common(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if in_task() && disk::owns(fd) {
        sched::yield_point(sched::Y_IO);
        return match disk::flock(fd, op) {
            Ok(()) => 0,
            Err(e) => fail(e) as i32,
        };
    }
    ret(raw(73, fd as i64, op as i64, 0, 0, 0, 0)) as i32
}
/// struct statx: stx_size at byte offset 40
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if in_task() && !path.is_null() {
        let name = cstr(path);
        if name.starts_with(disk::PREFIX) {
            sched::yield_point(sched::Y_IO);
            return match disk::stat_path(name) {
                Ok(fd) => {
                    let r = raw(332, fd as i64, b"\0".as_ptr() as i64, 0x1000, mask as i64, out as i64, 0);
                    raw(3, fd as i64, 0, 0, 0, 0, 0);
                    if let (0, Some(i)) = (r, disk::inode_named(name)) {
                        disk::dress(i, out);
                    }
                    ret(r) as i32
                }
                Err(e) => fail(e) as i32,
            };
        }
        if name.is_empty() && disk::owns(dir) {
            sched::yield_point(sched::Y_IO);
            return match disk::stat_fd(dir) {
                Ok(size) => {
                    let r = raw(332, dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0);
                    if r == 0 {
                        *(out.add(40) as *mut u64) = size;
                        if let Some(i) = disk::inode_of(dir) {
                            disk::dress(i, out);
                        }
                    }
                    ret(r) as i32
                }
                Err(e) => fail(e) as i32,
            };
        }
    }
    ret(raw(332, dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0)) as i32
}

macro_rules! forbidden {
    ($name:ident, $nr:expr, $what:expr, ($($a:ident : $t:ty),*)) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            if in_task() && in_lib() {
                disk::foul($what);
                return fail(30) as i32;
            }
            let v = [$($a as i64),*, 0, 0, 0, 0];
            ret(raw($nr, v[0], v[1], v[2], v[3], 0, 0)) as i32
        }
    };
}
forbidden!(unlink, 87, "unlink", (p: *const u8));
forbidden!(rename, 82, "rename", (a: *const u8, b: *const u8));
forbidden!(mkdir, 83, "mkdir", (p: *const u8, m: u32));
forbidden!(rmdir, 84, "rmdir", (p: *const u8));
forbidden!(ftruncate64, 77, "truncate", (fd: i32, n: i64));
forbidden!(chmod, 90, "chmod", (p: *const u8, m: u32));
forbidden!(symlink, 88, "symlink", (a: *const u8, b: *const u8));
forbidden!(link, 86, "link", (a: *const u8, b: *const u8));
forbidden!(fchmod, 91, "change of mode", (fd: i32, m: u32));
forbidden!(chown, 92, "change of owner", (p: *const u8, u: u32, g: u32));
forbidden!(fchown, 93, "change of owner", (fd: i32, u: u32, g: u32));
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: i32, ts: *const u8) -> i32 {
    utimensat(fd, std::ptr::null(), ts, 0)
}
forbidden!(utimensat, 280, "change of times", (d: i32, p: *const u8, ts: *const u8, f: i32));
forbidden!(fallocate64, 285, "allocation of space", (fd: i32, m: i32, at: i64, n: i64));
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, at: i64) -> isize {
    if in_task() && disk::owns(fd) {
        disk::foul("write to a file");
        return fail(9) as isize;
    }
    ret(raw(18, fd as i64, p as i64, n as i64, at, 0, 0)) as isize
}
