//! The simulated disk. Files live here; a descriptor is a real (anonymous) one, so that it can be
//! closed, leaked or misused for real, but its content comes from the model.
use crate::sched;
use crate::seam::{self, TASK};
use crate::shared::{self, count};
use std::collections::HashMap;

pub const PREFIX: &[u8] = b"/p2tsim/";

codec_struct! { DiskFault {
    /// 0 open, 1 read, 2 stat
    call: u8,
    /// which call of that kind within the load
    nth: u32,
    /// 0 fail with errno `arg`; 1 interrupted; 2 (read) deliver at most `arg` bytes; 2 (stat) show size `arg`
    kind: u8,
    arg: u32,
} }

struct Handle {
    inode: usize,
    /// the open file description, shared by duplicates of a descriptor: the serial of the first
    desc: u64,
    task: usize,
    /// descriptor numbers are used again, this is not
    serial: u64,
}

/// what one load really met
#[derive(Default)]
pub struct Log {
    pub path: Vec<u8>,
    pub faults: Vec<DiskFault>,
    calls: [u32; 3],
    pub opened: Vec<(i32, u64)>,
    pub closed: Vec<i32>,
    pub delivered: Vec<u8>,
    /// content was read once, front to back
    pub sequential: bool,
    pub readers: Vec<u64>,
    pub eof: bool,
    /// first error that was not an interruption, on opening or reading
    pub hard: Option<i32>,
    pub stat_failed: bool,
    pub foul: Vec<String>,
    /// the inode that was opened, and how often it had changed by then
    pub inode: Option<(usize, u64)>,
}

#[derive(Default)]
pub struct Disk {
    names: HashMap<Vec<u8>, usize>,
    /// content, how often it changed, when it last did (as the file system tells it)
    inodes: Vec<(Vec<u8>, u64, u64)>,
    handles: HashMap<i32, Handle>,
    /// by open file description: where it is, and the advisory lock it holds (1 shared, 2 exclusive)
    descs: HashMap<u64, (usize, u8)>,
    logs: HashMap<usize, Log>,
    serial: u64,
}

static mut D: *mut Disk = std::ptr::null_mut();
pub fn init() {
    unsafe { D = Box::into_raw(Box::default()) };
}
fn d() -> &'static mut Disk {
    unsafe { &mut *D }
}
fn me() -> usize {
    TASK.with(|t| t.get())
}

// ---- harness side

pub fn create(name: &[u8], content: Vec<u8>) {
    let dk = d();
    dk.inodes.push((content, 0, stamp()));
    dk.names.insert(name.to_vec(), dk.inodes.len() - 1);
}
/// change the file in place; true when somebody has it open
pub fn change(name: &[u8], f: impl FnOnce(&mut Vec<u8>)) -> bool {
    let dk = d();
    if let Some(&i) = dk.names.get(name) {
        f(&mut dk.inodes[i].0);
        dk.inodes[i].1 += 1;
        dk.inodes[i].2 = stamp();
        return dk.handles.values().any(|h| h.inode == i);
    }
    false
}
pub fn rename_over(from: &[u8], to: &[u8]) {
    let dk = d();
    if let Some(i) = dk.names.remove(from) {
        dk.names.insert(to.to_vec(), i);
    }
}
pub fn begin_load(path: &[u8], faults: &[DiskFault]) {
    let log = Log { path: path.to_vec(), faults: faults.to_vec(), sequential: true, ..Log::default() };
    d().logs.insert(me(), log);
}
pub fn end_load() -> Log {
    d().logs.remove(&me()).unwrap_or_default()
}
/// the content of the file a load opened, unless it was changed since
pub fn unchanged(log: &Log) -> Option<Vec<u8>> {
    let (i, v) = log.inode?;
    let n = &d().inodes[i];
    (n.1 == v).then(|| n.0.clone())
}
pub fn still_open(log: &Log) -> usize {
    log.opened.iter().filter(|o| is_open(o)).count()
}
fn is_open(&(fd, serial): &(i32, u64)) -> bool {
    d().handles.get(&fd).is_some_and(|h| h.serial == serial)
}
fn forget(fd: i32) {
    let dk = d();
    if let Some(h) = dk.handles.remove(&fd) {
        if !dk.handles.values().any(|o| o.desc == h.desc) {
            dk.descs.remove(&h.desc);
        }
    }
}
/// descriptors the library never closed are closed by the harness, so that one leak stays one leak
pub fn reclaim(log: &Log) {
    for o in &log.opened {
        if is_open(o) {
            forget(o.0);
            unsafe { seam::raw(3, o.0 as i64, 0, 0, 0, 0, 0) };
        }
    }
}

// ---- library side, reached through the libc seam

fn with_log<R>(f: impl FnOnce(&mut Log) -> R) -> Option<R> {
    d().logs.get_mut(&me()).map(f)
}
fn fault(call: u8) -> Option<DiskFault> {
    with_log(|l| {
        let n = l.calls[call as usize];
        l.calls[call as usize] += 1;
        l.faults.iter().find(|f| f.call == call && f.nth == n).cloned()
    })
    .flatten()
}
pub fn foul(what: &str) {
    let _q = seam::Quiet::new();
    let w = what.to_string();
    if with_log(|l| l.foul.push(w.clone())).is_none() {
        shared::violation(&[12], &format!("file system call outside any load: {w}"));
    }
}

pub fn owns(fd: i32) -> bool {
    unsafe { !D.is_null() && !d().handles.is_empty() && d().handles.contains_key(&fd) }
}

pub fn open(name: &[u8], flags: i32) -> Option<Result<i32, i32>> {
    let _q = seam::Quiet::new();
    let wanted = with_log(|l| l.path == name).unwrap_or(false);
    if !wanted {
        foul(&format!("opened {}", String::from_utf8_lossy(name)));
    }
    if flags & 3 != 0 || flags & (0o100 | 0o1000 | 0o2000) != 0 {
        foul(&format!("opened with flags {flags:#o}"));
        return Some(Err(30));
    }
    if !name.starts_with(PREFIX) {
        return if wanted { Some(Err(2)) } else { None };
    }
    if let Some(f) = fault(0) {
        if f.kind == 1 {
            count(shared::F_OPEN_EINTR);
            return Some(Err(4));
        }
        count(shared::F_OPEN);
        with_log(|l| {
            l.hard.get_or_insert(f.arg as i32);
        });
        return Some(Err(f.arg as i32));
    }
    let dk = d();
    let Some(&i) = dk.names.get(name) else {
        with_log(|l| {
            l.hard.get_or_insert(2);
        });
        return Some(Err(2));
    };
    let fd = unsafe { seam::raw(319, b"p2tsim\0".as_ptr() as i64, 1, 0, 0, 0, 0) } as i32;
    if fd < 0 {
        shared::fatal("memfd_create failed");
    }
    unsafe { seam::raw(77, fd as i64, dk.inodes[i].0.len() as i64, 0, 0, 0, 0) };
    dk.serial += 1;
    let serial = dk.serial;
    dk.handles.insert(fd, Handle { inode: i, desc: serial, task: me(), serial });
    dk.descs.insert(serial, (0, 0));
    let version = dk.inodes[i].1;
    with_log(|l| {
        l.opened.push((fd, serial));
        l.inode = Some((i, version));
    });
    Some(Ok(fd))
}

pub fn read(fd: i32, buf: &mut [u8], at: Option<usize>) -> Result<usize, i32> {
    let _q = seam::Quiet::new();
    let dk = d();
    let Some(h) = dk.handles.get(&fd) else { return Err(9) };
    let off = at.unwrap_or(dk.descs[&h.desc].0);
    let desc = h.desc;
    if h.task != me() {
        foul("read through another load's descriptor");
    }
    let mut n = buf.len();
    if n > 0 {
        if let Some(f) = fault(1) {
            match f.kind {
                1 => {
                    count(shared::F_EINTR);
                    return Err(4);
                }
                2 => {
                    if (f.arg as usize) < n {
                        count(shared::F_SHORT);
                        n = (f.arg as usize).max(1);
                    }
                }
                _ => {
                    count(shared::F_READ_ERR);
                    with_log(|l| {
                        l.hard.get_or_insert(f.arg as i32);
                    });
                    return Err(f.arg as i32);
                }
            }
        }
    }
    let data = &dk.inodes[h.inode].0;
    let k = n.min(data.len().saturating_sub(off));
    if k > 0 {
        buf[..k].copy_from_slice(&data[off..off + k]);
    }
    if at.is_none() {
        dk.descs.get_mut(&desc).unwrap().0 = off + k;
    }
    let want = buf.len();
    let bytes = buf[..k].to_vec();
    with_log(|l| {
        if !l.readers.contains(&desc) {
            l.readers.push(desc);
        }
        // also when more comes after an end of file was seen: the file grew under a reader that went on
        if off != l.delivered.len() || l.readers.len() > 1 || (k > 0 && l.eof) {
            l.sequential = false;
        }
        l.delivered.extend_from_slice(&bytes);
        if k == 0 && want > 0 {
            l.eof = true;
        }
    });
    Ok(k)
}

pub fn seek(fd: i32, off: i64, whence: i32) -> Result<i64, i32> {
    let dk = d();
    let Some(h) = dk.handles.get(&fd) else { return Err(9) };
    let size = dk.inodes[h.inode].0.len() as i64;
    let base = match whence {
        0 => 0,
        1 => dk.descs[&h.desc].0 as i64,
        2 => size,
        _ => return Err(22),
    };
    let to = base + off;
    if to < 0 {
        return Err(22);
    }
    dk.descs.get_mut(&h.desc).unwrap().0 = to as usize;
    Ok(to)
}

/// `new` is a duplicate of `fd`
pub fn dup(fd: i32, new: i32) {
    let _q = seam::Quiet::new();
    let dk = d();
    dk.serial += 1;
    let serial = dk.serial;
    let Some(h) = dk.handles.get(&fd) else { return };
    let h = Handle { inode: h.inode, desc: h.desc, task: me(), serial };
    dk.handles.insert(new, h);
    with_log(|l| l.opened.push((new, serial)));
}

/// advisory locks, per open file description
pub fn flock(fd: i32, op: i32) -> Result<(), i32> {
    let dk = d();
    let want = match op & !4 {
        1 => 1,
        2 => 2,
        8 => 0,
        _ => return Err(22),
    };
    loop {
        let Some(h) = dk.handles.get(&fd) else { return Err(9) };
        let (inode, desc) = (h.inode, h.desc);
        let others = |h: &Handle| h.inode == inode && h.desc != desc && dk.descs[&h.desc].1.max(want) == 2 && dk.descs[&h.desc].1 > 0;
        if want == 0 || !dk.handles.values().any(others) {
            dk.descs.get_mut(&desc).unwrap().1 = want;
            return Ok(());
        }
        if op & 4 != 0 {
            return Err(11);
        }
        sched::block(0, Some(sched::now() + 1_000_000));
    }
}

pub fn close(fd: i32) {
    let _q = seam::Quiet::new();
    forget(fd);
    with_log(|l| l.closed.push(fd));
}
pub fn close_unknown(fd: i32) {
    foul(&format!("closed descriptor {fd}, which is not open here"));
}

fn stat_fault(size: u64) -> Result<u64, i32> {
    if let Some(f) = fault(2) {
        if f.kind == 2 {
            count(shared::F_SIZE);
            return Ok(f.arg as u64);
        }
        count(shared::F_STAT);
        with_log(|l| l.stat_failed = true);
        return Err(f.arg as i32);
    }
    Ok(size)
}
/// time stamps are as coarse as those of some real file systems
fn stamp() -> u64 {
    1_700_000_000 + sched::now() / 2_000_000_000 * 2
}
/// what the kernel said about the descriptor behind the simulated file depends on the real world
pub unsafe fn dress(i: usize, out: *mut u8) {
    let put = |at: usize, v: u64| (out.add(at) as *mut u64).write_unaligned(v);
    put(32, 1000 + i as u64);
    for at in [64, 80, 96, 112] {
        put(at, d().inodes[i].2);
        put(at + 8, 0);
    }
    put(136, 7);
}
pub fn inode_of(fd: i32) -> Option<usize> {
    d().handles.get(&fd).map(|h| h.inode)
}
pub fn inode_named(name: &[u8]) -> Option<usize> {
    d().names.get(name).copied()
}
pub fn stat_fd(fd: i32) -> Result<u64, i32> {
    let _q = seam::Quiet::new();
    let dk = d();
    let Some(h) = dk.handles.get(&fd) else { return Err(9) };
    stat_fault(dk.inodes[h.inode].0.len() as u64)
}
/// a temporary descriptor whose size is what the file shows
pub fn stat_path(name: &[u8]) -> Result<i32, i32> {
    let _q = seam::Quiet::new();
    let dk = d();
    let Some(&i) = dk.names.get(name) else { return Err(2) };
    let size = stat_fault(dk.inodes[i].0.len() as u64)?;
    let fd = unsafe { seam::raw(319, b"p2tsim\0".as_ptr() as i64, 1, 0, 0, 0, 0) } as i32;
    unsafe { seam::raw(77, fd as i64, size as i64, 0, 0, 0, 0) };
    Ok(fd)
}
