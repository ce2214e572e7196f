//! Offline stand-in for `futures-locks`: owned, reference-counted async
//! reader/writer lock.  Writers are served FIFO and before waiting readers on
//! writer release, like the original; readers barge past waiting writers.
use std::{
    cell::UnsafeCell,
    collections::VecDeque,
    fmt,
    future::Future,
    ops::{Deref, DerefMut},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct TryLockError;
impl fmt::Display for TryLockError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("would block") }
}
impl std::error::Error for TryLockError {}

#[derive(Default)]
struct WState { granted: bool, cancelled: bool, waker: Option<Waker> }
type W = Arc<Mutex<WState>>;

#[derive(Default)]
struct LockData { exclusive: bool, readers: u32, rq: VecDeque<W>, wq: VecDeque<W> }

struct Inner<T: ?Sized> { lock: Mutex<LockData>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Inner<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for Inner<T> {}

pub struct RwLock<T: ?Sized> { inner: Arc<Inner<T>> }
impl<T: ?Sized> Clone for RwLock<T> {
    fn clone(&self) -> Self { RwLock { inner: self.inner.clone() } }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock") }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }

fn grant(w: &W) -> bool {
    let mut g = w.lock().unwrap();
    if g.cancelled { return false; }
    g.granted = true;
    if let Some(wk) = g.waker.take() { wk.wake(); }
    true
}

impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        RwLock { inner: Arc::new(Inner { lock: Mutex::new(LockData::default()), data: UnsafeCell::new(t) }) }
    }
    pub fn try_unwrap(self) -> Result<T, RwLock<T>> {
        Arc::try_unwrap(self.inner).map(|i| i.data.into_inner()).map_err(|inner| RwLock { inner })
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn get_mut(&mut self) -> Option<&mut T> {
        Arc::get_mut(&mut self.inner).map(|i| i.data.get_mut())
    }
    pub fn read(&self) -> RwLockReadFut<T> { RwLockReadFut { lock: self.clone(), st: St::New } }
    pub fn write(&self) -> RwLockWriteFut<T> { RwLockWriteFut { lock: self.clone(), st: St::New } }
    pub fn try_read(&self) -> Result<RwLockReadGuard<T>, TryLockError> {
        let mut l = self.inner.lock.lock().unwrap();
        if l.exclusive { Err(TryLockError) } else { l.readers += 1; Ok(RwLockReadGuard { lock: self.clone() }) }
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<T>, TryLockError> {
        let mut l = self.inner.lock.lock().unwrap();
        if l.exclusive || l.readers > 0 { Err(TryLockError) } else { l.exclusive = true; Ok(RwLockWriteGuard { lock: self.clone() }) }
    }
    pub fn with_write<B, F>(&self, f: F) -> impl Future<Output = B::Output>
        where F: FnOnce(RwLockWriteGuard<T>) -> B, B: Future
    {
        let fut = self.write();
        async move { f(fut.await).await }
    }
    pub fn with_read<B, F>(&self, f: F) -> impl Future<Output = B::Output>
        where F: FnOnce(RwLockReadGuard<T>) -> B, B: Future
    {
        let fut = self.read();
        async move { f(fut.await).await }
    }
    fn unlock_reader(&self) {
        let mut l = self.inner.lock.lock().unwrap();
        l.readers -= 1;
        if l.readers == 0 {
            while let Some(w) = l.wq.pop_front() {
                if grant(&w) { l.exclusive = true; break; }
            }
        }
    }
    fn unlock_writer(&self) {
        let mut l = self.inner.lock.lock().unwrap();
        while let Some(w) = l.wq.pop_front() {
            if grant(&w) { return; }
        }
        l.exclusive = false;
        while let Some(w) = l.rq.pop_front() {
            if grant(&w) { l.readers += 1; }
        }
    }
}

enum St { New, Pending(W), Done }
pub struct RwLockReadFut<T: ?Sized> { lock: RwLock<T>, st: St }
pub struct RwLockWriteFut<T: ?Sized> { lock: RwLock<T>, st: St }

macro_rules! futimpl {
    ($fut:ident, $guard:ident, $queue:ident, $try:ident, $unlock:ident) => {
        impl<T: ?Sized> Future for $fut<T> {
            type Output = $guard<T>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                let this = &mut *self;
                match &this.st {
                    St::New => {
                        if let Ok(g) = this.lock.$try() { this.st = St::Done; return Poll::Ready(g); }
                        let mut l = this.lock.inner.lock.lock().unwrap();
                        // Re-check under the lock
                        let free = if stringify!($queue) == "rq" { !l.exclusive } else { !l.exclusive && l.readers == 0 };
                        if free {
                            if stringify!($queue) == "rq" { l.readers += 1 } else { l.exclusive = true }
                            drop(l);
                            this.st = St::Done;
                            return Poll::Ready($guard { lock: this.lock.clone() });
                        }
                        let w: W = Arc::new(Mutex::new(WState { waker: Some(cx.waker().clone()), ..Default::default() }));
                        l.$queue.push_back(w.clone());
                        drop(l);
                        this.st = St::Pending(w);
                        Poll::Pending
                    }
                    St::Pending(w) => {
                        let mut g = w.lock().unwrap();
                        if g.granted {
                            drop(g);
                            this.st = St::Done;
                            Poll::Ready($guard { lock: this.lock.clone() })
                        } else { g.waker = Some(cx.waker().clone()); Poll::Pending }
                    }
                    St::Done => panic!("polled after completion"),
                }
            }
        }
        impl<T: ?Sized> Drop for $fut<T> {
            fn drop(&mut self) {
                if let St::Pending(w) = &self.st {
                    let granted = { let mut g = w.lock().unwrap(); g.cancelled = true; g.granted };
                    if granted { self.lock.$unlock(); }
                }
            }
        }
    };
}
futimpl!(RwLockReadFut, RwLockReadGuard, rq, try_read, unlock_reader);
futimpl!(RwLockWriteFut, RwLockWriteGuard, wq, try_write, unlock_writer);

pub struct RwLockReadGuard<T: ?Sized> { lock: RwLock<T> }
pub struct RwLockWriteGuard<T: ?Sized> { lock: RwLock<T> }
impl<T: ?Sized> Deref for RwLockReadGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.lock.inner.data.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.lock.inner.data.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.lock.inner.data.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<T> { fn drop(&mut self) { self.lock.unlock_reader() } }
impl<T: ?Sized> Drop for RwLockWriteGuard<T> { fn drop(&mut self) { self.lock.unlock_writer() } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
unsafe impl<T: ?Sized + Send + Sync> Send for RwLockReadGuard<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockReadGuard<T> {}
