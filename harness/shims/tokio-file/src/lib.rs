//! Offline stand-in for `tokio-file` (POSIX AIO), which is also the harness's
//! model of a disk: it can journal every operation, delay and reorder
//! completions, hold them until released, and inject faults.
use std::{
    collections::{BTreeMap, HashMap},
    future::Future,
    io::{self, IoSlice, IoSliceMut},
    marker::PhantomData,
    os::fd::{AsFd, AsRawFd, RawFd},
    path::Path,
    pin::Pin,
    sync::{Arc, LazyLock, Mutex, atomic::{AtomicU64, Ordering}},
    task::{Context, Poll, Waker},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Read, Write, Sync, Erase }

/// One journal record.  `seq` is global to all devices.
#[derive(Clone, Debug)]
pub struct Rec { pub seq: u64, pub ev: Ev }
#[derive(Clone, Debug)]
pub enum Ev {
    Submit { id: u64, kind: Kind, off: u64, len: u64, data: Option<Arc<Vec<u8>>> },
    Complete { id: u64, err: Option<i32> },
}

#[derive(Clone, Debug)]
pub struct OpDesc { pub id: u64, pub kind: Kind, pub off: u64, pub len: u64 }

/// A fault: matching operations fail with `errno`.
#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: Option<Kind>,
    pub off: u64,
    pub len: u64,
    pub errno: i32,
    /// Skip this many matching operations first.
    pub skip: u32,
    /// How many matching operations fail (u32::MAX = forever)
    pub count: u32,
    /// Fail synchronously at submission, like EAGAIN from aio_write
    pub at_submit: bool,
}

#[derive(Default)]
pub struct DevState {
    pub journal: Vec<Rec>,
    pub record: bool,
    pub record_data: bool,
    pub faults: Vec<Fault>,
    /// Hold operations until `release`d
    pub hold: bool,
    /// Delay every completion by a random number of polls below this
    pub max_delay: u32,
    /// One in so many reads takes a thousand times as long (0: none)
    pub slow: u32,
    pub rng: u64,
    inflight: BTreeMap<u64, Infl>,
    pub nreads: u64, pub nwrites: u64, pub nsyncs: u64, pub nerases: u64,
}
struct Infl { desc: OpDesc, ready: bool, delay: u32, waker: Option<Waker> }

pub struct Device { pub st: Mutex<DevState> }

static REG: LazyLock<Mutex<HashMap<(u64, u64), Arc<Device>>>> = LazyLock::new(Default::default);
static SEQ: AtomicU64 = AtomicU64::new(1);
static ID: AtomicU64 = AtomicU64::new(1);
pub fn now() -> u64 { SEQ.load(Ordering::SeqCst) }
fn tick() -> u64 { SEQ.fetch_add(1, Ordering::SeqCst) }

fn key(fd: RawFd) -> (u64, u64) {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { libc::fstat(fd, &mut st) } != 0 { return (0, 0) }
    (st.st_dev, st.st_ino)
}
/// Register a file as a modelled device.
pub fn device<P: AsRef<Path>>(p: P) -> Arc<Device> {
    use std::os::unix::fs::MetadataExt;
    let md = std::fs::metadata(p).unwrap();
    let d = Arc::new(Device { st: Mutex::new(DevState { rng: 0x9E3779B97F4A7C15, ..Default::default() }) });
    REG.lock().unwrap().insert((md.dev(), md.ino()), d.clone());
    d
}
pub fn clear() { REG.lock().unwrap().clear(); }
fn lookup(fd: RawFd) -> Option<Arc<Device>> {
    let r = REG.lock().unwrap();
    if r.is_empty() { return None }
    r.get(&key(fd)).cloned()
}
impl DevState {
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    fn fault(&mut self, d: &OpDesc, at_submit: bool) -> Option<i32> {
        let mut r = None;
        for f in self.faults.iter_mut() {
            if f.at_submit != at_submit { continue }
            if f.kind.is_some_and(|k| k != d.kind) { continue }
            if d.kind != Kind::Sync && !(d.off < f.off.saturating_add(f.len) && f.off < d.off + d.len) { continue }
            if f.skip > 0 { f.skip -= 1; continue }
            if f.count == 0 { continue }
            if f.count != u32::MAX { f.count -= 1; }
            r = Some(f.errno);
            break
        }
        r
    }
    fn rec(&mut self, ev: Ev) { if self.record { let seq = tick(); self.journal.push(Rec { seq, ev }) } }
}
impl Device {
    /// The operations that have been submitted and not completed
    pub fn pending(&self) -> Vec<OpDesc> {
        self.st.lock().unwrap().inflight.values().filter(|i| !i.ready).map(|i| i.desc.clone()).collect()
    }
    pub fn release(&self, id: u64) {
        let mut st = self.st.lock().unwrap();
        if let Some(i) = st.inflight.get_mut(&id) { i.ready = true; if let Some(w) = i.waker.take() { w.wake() } }
    }
    pub fn fail_all(&self, errno: i32) {
        self.st.lock().unwrap().faults.push(Fault { kind: None, off: 0, len: u64::MAX, errno, skip: 0, count: u32::MAX, at_submit: false });
    }
}

/// Deallocate a range
pub fn erase(fd: RawFd, off: u64, len: u64) -> io::Result<()> {
    if let Some(d) = lookup(fd) {
        let id = ID.fetch_add(1, Ordering::SeqCst);
        let mut st = d.st.lock().unwrap();
        let desc = OpDesc { id, kind: Kind::Erase, off, len };
        st.nerases += 1;
        st.rec(Ev::Submit { id, kind: Kind::Erase, off, len, data: None });
        if let Some(e) = st.fault(&desc, false) {
            st.rec(Ev::Complete { id, err: Some(e) });
            return Err(io::Error::from_raw_os_error(e));
        }
        st.rec(Ev::Complete { id, err: None });
    }
    // Never extends or shrinks the file
    let r = unsafe { libc::fallocate(fd, libc::FALLOC_FL_PUNCH_HOLE | libc::FALLOC_FL_KEEP_SIZE, off as i64, len as i64) };
    if r != 0 { return Err(io::Error::last_os_error()) }
    Ok(())
}

enum Ptrs { R(Vec<(*mut u8, usize)>), W(Vec<(*const u8, usize)>), None }
unsafe impl Send for Ptrs {}
unsafe impl Sync for Ptrs {}
struct Op { fd: RawFd, off: u64, ptrs: Ptrs, st: OpSt }
enum OpSt { New, Submitted(Option<Arc<Device>>, u64), Done }

impl Op {
    fn new(fd: RawFd, off: u64, ptrs: Ptrs) -> Self { Op { fd, off, ptrs, st: OpSt::New } }
    fn kind(&self) -> Kind { match self.ptrs { Ptrs::R(_) => Kind::Read, Ptrs::W(_) => Kind::Write, Ptrs::None => Kind::Sync } }
    fn len(&self) -> u64 { match &self.ptrs {
        Ptrs::R(v) => v.iter().map(|x| x.1).sum::<usize>() as u64,
        Ptrs::W(v) => v.iter().map(|x| x.1).sum::<usize>() as u64, Ptrs::None => 0 } }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        match &mut self.st {
            OpSt::Done => panic!("polled an AIO future after completion"),
            OpSt::New => {
                let id = ID.fetch_add(1, Ordering::SeqCst);
                let dev = lookup(self.fd);
                if let Some(d) = &dev {
                    let kind = self.kind();
                    let desc = OpDesc { id, kind, off: self.off, len: self.len() };
                    let mut st = d.st.lock().unwrap();
                    if let Some(e) = st.fault(&desc, true) {
                        self.st = OpSt::Done;
                        return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
                    }
                    match kind { Kind::Read => st.nreads += 1, Kind::Write => st.nwrites += 1, _ => st.nsyncs += 1 }
                    let data = if st.record_data && kind == Kind::Write {
                        let Ptrs::W(v) = &self.ptrs else { unreachable!() };
                        let mut b = Vec::new();
                        for (p, l) in v { b.extend_from_slice(unsafe { std::slice::from_raw_parts(*p, *l) }); }
                        Some(Arc::new(b))
                    } else { None };
                    st.rec(Ev::Submit { id, kind, off: self.off, len: desc.len, data });
                    let hold = st.hold;
                    let delay = if st.max_delay > 0 { (st.rand() % st.max_delay as u64) as u32 } else { 0 };
                    let slow = st.slow as u64;
                    let delay = if slow > 0 && kind == Kind::Read && st.rand() % slow == 0 { delay + st.max_delay * 1000 } else { delay };
                    st.inflight.insert(id, Infl { desc, ready: !hold, delay, waker: Some(cx.waker().clone()) });
                    if !hold { cx.waker().wake_by_ref(); }
                } else {
                    cx.waker().wake_by_ref();
                }
                self.st = OpSt::Submitted(dev, id);
                Poll::Pending
            }
            OpSt::Submitted(dev, id) => {
                let id = *id;
                let dev = dev.clone();
                if let Some(d) = &dev {
                    let mut st = d.st.lock().unwrap();
                    let sync_blocked = self.kind() == Kind::Sync
                        && st.inflight.range(..id).any(|(_, i)| i.desc.kind == Kind::Write);
                    let i = st.inflight.get_mut(&id).unwrap();
                    if !i.ready { i.waker = Some(cx.waker().clone()); return Poll::Pending }
                    if i.delay > 0 || sync_blocked {
                        i.delay = i.delay.saturating_sub(1);
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    let desc = i.desc.clone();
                    st.inflight.remove(&id);
                    if let Some(e) = st.fault(&desc, false) {
                        st.rec(Ev::Complete { id, err: Some(e) });
                        self.st = OpSt::Done;
                        return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
                    }
                }
                let r = self.perform();
                if let Some(d) = &dev {
                    d.st.lock().unwrap().rec(Ev::Complete { id, err: r.as_ref().err().map(|e| e.raw_os_error().unwrap_or(5)) });
                }
                self.st = OpSt::Done;
                Poll::Ready(r)
            }
        }
    }
    fn perform(&self) -> io::Result<usize> {
        let mut off = self.off as i64;
        let mut tot = 0usize;
        match &self.ptrs {
            Ptrs::None => {}
            Ptrs::R(v) => for (p, l) in v {
                let mut done = 0;
                while done < *l {
                    let r = unsafe { libc::pread(self.fd, p.add(done) as *mut _, *l - done, off) };
                    if r < 0 { return Err(io::Error::last_os_error()) }
                    if r == 0 { return Ok(tot) }
                    done += r as usize; off += r as i64; tot += r as usize;
                }
            }
            Ptrs::W(v) => for (p, l) in v {
                let mut done = 0;
                while done < *l {
                    let r = unsafe { libc::pwrite(self.fd, p.add(done) as *const _, *l - done, off) };
                    if r < 0 { return Err(io::Error::last_os_error()) }
                    done += r as usize; off += r as i64; tot += r as usize;
                }
            }
        }
        Ok(tot)
    }
}
impl Drop for Op {
    fn drop(&mut self) {
        if let OpSt::Submitted(Some(d), id) = &self.st {
            d.st.lock().unwrap().inflight.remove(id);
        }
    }
}

macro_rules! futs { ($($n:ident),*) => { $(
    #[must_use = "futures do nothing unless polled"]
    pub struct $n<'a> { op: Op, _pd: PhantomData<&'a ()> }
    impl Future for $n<'_> {
        type Output = io::Result<usize>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { self.op.poll(cx) }
    }
)* } }
futs!(ReadAt, WriteAt, ReadvAt, WritevAt, SyncAll);

pub trait AioFileExt: AsFd {
    fn read_at<'a>(&self, buf: &'a mut [u8], off: u64) -> io::Result<ReadAt<'a>> {
        Ok(ReadAt { op: Op::new(self.as_fd().as_raw_fd(), off, Ptrs::R(vec![(buf.as_mut_ptr(), buf.len())])), _pd: PhantomData })
    }
    fn readv_at<'a>(&self, bufs: &mut [IoSliceMut<'a>], off: u64) -> io::Result<ReadvAt<'a>> {
        let v = bufs.iter_mut().map(|b| (b.as_mut_ptr(), b.len())).collect();
        Ok(ReadvAt { op: Op::new(self.as_fd().as_raw_fd(), off, Ptrs::R(v)), _pd: PhantomData })
    }
    fn write_at<'a>(&self, buf: &'a [u8], off: u64) -> io::Result<WriteAt<'a>> {
        Ok(WriteAt { op: Op::new(self.as_fd().as_raw_fd(), off, Ptrs::W(vec![(buf.as_ptr(), buf.len())])), _pd: PhantomData })
    }
    fn writev_at<'a>(&self, bufs: &[IoSlice<'a>], off: u64) -> io::Result<WritevAt<'a>> {
        let v = bufs.iter().map(|b| (b.as_ptr(), b.len())).collect();
        Ok(WritevAt { op: Op::new(self.as_fd().as_raw_fd(), off, Ptrs::W(v)), _pd: PhantomData })
    }
    fn sync_all(&self) -> io::Result<SyncAll<'_>> {
        Ok(SyncAll { op: Op::new(self.as_fd().as_raw_fd(), 0, Ptrs::None), _pd: PhantomData })
    }
}
impl<T: AsFd> AioFileExt for T {}
