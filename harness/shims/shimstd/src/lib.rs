//! `std` whose `sync` blocks and atomics are Shuttle's, so that the code that
//! is compiled against it runs under Shuttle's controlled scheduler.
pub use ::std::*;
pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{spawn, yield_now};
}
pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{Barrier, Condvar, Mutex, MutexGuard, Once, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use shuttle::sync::atomic::{fence, AtomicBool};
        macro_rules! atomic {
            ($n:ident, $t:ty) => {
                pub struct $n(shuttle::sync::atomic::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self { Self(shuttle::sync::atomic::$n::new(v)) }
                    pub fn load(&self, o: Ordering) -> $t { self.0.load(o) }
                    pub fn store(&self, v: $t, o: Ordering) { self.0.store(v, o) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { self.0.swap(v, o) }
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.0.fetch_sub(v, o) }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.0.fetch_and(v, o) }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.0.fetch_or(v, o) }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.0.fetch_xor(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.0.fetch_min(v, o) }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.0.compare_exchange(a, b, s, f) }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.0.compare_exchange(a, b, s, f) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut p = self.0.load(f);
                        while let Some(n) = g(p) {
                            match self.0.compare_exchange(p, n, s, f) { Ok(x) => return Ok(x), Err(x) => p = x }
                        }
                        Err(p)
                    }
                    pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> { self.fetch_update(s, f, g) }
                    pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, f: Ordering, mut g: F) -> $t { self.fetch_update(s, f, |x| Some(g(x))).unwrap() }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                }
                impl ::std::fmt::Debug for $n {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(stringify!($n)) }
                }
                impl Default for $n { fn default() -> Self { Self::new(0) } }
                impl From<$t> for $n { fn from(x: $t) -> Self { Self::new(x) } }
                impl serde::Serialize for $n {
                    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.load(Ordering::SeqCst).serialize(s) }
                }
            };
        }
        atomic!(AtomicIsize, isize);
        atomic!(AtomicUsize, usize);
        atomic!(AtomicI64, i64);
        atomic!(AtomicU64, u64);
        atomic!(AtomicI32, i32);
        atomic!(AtomicU32, u32);
    }
}
