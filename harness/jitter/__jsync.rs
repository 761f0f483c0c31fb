//! What the mirrored sources of the "jit" variants use for std::sync: the same types, with
//! delays injected around every atomic access and every lock and release of a mutex.
#![allow(dead_code, unused)]
pub use std::sync::*;

/// Now and then: give way to the others, for anything between some nanoseconds and 0.3 ms.
pub fn jitter() {
    use std::cell::Cell;
    thread_local!(static S: Cell<u64> = const { Cell::new(0) });
    let Ok(x) = S.try_with(|s| {
        let mut x = s.get();
        if x == 0 {
            x = (s as *const _ as u64) ^ std::time::UNIX_EPOCH.elapsed().map(|d| d.as_nanos() as u64).unwrap_or(1) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        x
    }) else {
        return;
    };
    let len = (x >> 20) & 0xfff;
    match x & 0x3ff {
        0..=3 => std::thread::sleep(std::time::Duration::from_nanos(20_000 + (len << 6))),
        4..=63 => std::thread::yield_now(),
        64..=255 => (0..len).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

pub mod atomic {
    use super::jitter;
    pub use std::sync::atomic::*;
    macro_rules! wrap {
        ($($n:ident $t:ty),*) => {$(
            #[repr(transparent)]
            #[derive(Default)]
            pub struct $n(std::sync::atomic::$n);
            impl std::fmt::Debug for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self { Self::new(v) }
            }
            impl std::ops::Deref for $n {
                type Target = std::sync::atomic::$n;
                fn deref(&self) -> &Self::Target { jitter(); &self.0 }
            }
            impl std::ops::DerefMut for $n {
                fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 }
            }
            impl $n {
                pub const fn new(v: $t) -> Self { Self(std::sync::atomic::$n::new(v)) }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                pub fn load(&self, o: Ordering) -> $t { jitter(); let v = self.0.load(o); jitter(); v }
                pub fn store(&self, v: $t, o: Ordering) { jitter(); self.0.store(v, o); jitter() }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { jitter(); let v = self.0.swap(v, o); jitter(); v }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    jitter(); let v = self.0.compare_exchange(a, b, s, f); jitter(); v
                }
            }
        )*};
    }
    macro_rules! num {
        ($($n:ident $t:ty),*) => {$(
            impl $n {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { jitter(); let v = self.0.fetch_add(v, o); jitter(); v }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { jitter(); let v = self.0.fetch_sub(v, o); jitter(); v }
            }
        )*};
    }
    wrap!(AtomicBool bool, AtomicI64 i64, AtomicU64 u64, AtomicUsize usize, AtomicIsize isize, AtomicI32 i32, AtomicU32 u32);
    num!(AtomicI64 i64, AtomicU64 u64, AtomicUsize usize, AtomicIsize isize, AtomicI32 i32, AtomicU32 u32);
}

#[derive(Default)]
pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
pub struct MutexGuard<'a, T: ?Sized>(Option<std::sync::MutexGuard<'a, T>>);
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Self(std::sync::Mutex::new(v)) }
    pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        jitter();
        let r = match self.0.lock() {
            Ok(g) => Ok(MutexGuard(Some(g))),
            Err(e) => Err(PoisonError::new(MutexGuard(Some(e.into_inner())))),
        };
        jitter();
        r
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        jitter();
        match self.0.try_lock() {
            Ok(g) => Ok(MutexGuard(Some(g))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard(Some(e.into_inner()))))),
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
    pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
    pub fn clear_poison(&self) { self.0.clear_poison() }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self { Self::new(v) }
}
impl<T: ?Sized> std::ops::Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T { self.0.as_ref().unwrap() }
}
impl<T: ?Sized> std::ops::DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        jitter();
        drop(self.0.take());
        jitter();
    }
}
