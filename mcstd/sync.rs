pub use std::sync::*;

use crate::mc;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::mem::ManuallyDrop;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;
use ::std::time::Duration;

pub use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

// ------------------------------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> {
    // a real address even for zero-sized contents
    inner: real::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    real: ManuallyDrop<real::MutexGuard<'a, T>>,
    lock: &'a Mutex<T>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex {
            inner: real::Mutex::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.inner as *const _ as *const u8 as usize
    }
    fn wrap<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard {
            real: ManuallyDrop::new(g),
            lock: self,
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        mc::lock_acquire(self.addr());
        match self.inner.lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if !mc::lock_try(self.addr()) {
            return Err(TryLockError::WouldBlock);
        }
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
                self.wrap(e.into_inner()),
            ))),
            Err(TryLockError::WouldBlock) => {
                mc::lock_release(self.addr());
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        mc::release_point("unlock", self.lock.addr());
        unsafe { ManuallyDrop::drop(&mut self.real) };
        mc::lock_release(self.lock.addr());
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.real
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.real
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.inner, f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

// ------------------------------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> {
    inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    real: ManuallyDrop<real::RwLockReadGuard<'a, T>>,
    lock: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    real: ManuallyDrop<real::RwLockWriteGuard<'a, T>>,
    lock: &'a RwLock<T>,
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock {
            inner: real::RwLock::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize {
        &self.inner as *const _ as *const u8 as usize
    }
    fn wr<'a>(&'a self, g: real::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        RwLockReadGuard {
            real: ManuallyDrop::new(g),
            lock: self,
        }
    }
    fn ww<'a>(&'a self, g: real::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        RwLockWriteGuard {
            real: ManuallyDrop::new(g),
            lock: self,
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        mc::rw_acquire(self.addr(), false);
        match self.inner.read() {
            Ok(g) => Ok(self.wr(g)),
            Err(e) => Err(PoisonError::new(self.wr(e.into_inner()))),
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        mc::rw_acquire(self.addr(), true);
        match self.inner.write() {
            Ok(g) => Ok(self.ww(g)),
            Err(e) => Err(PoisonError::new(self.ww(e.into_inner()))),
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if !mc::rw_try(self.addr(), false) {
            return Err(TryLockError::WouldBlock);
        }
        match self.inner.try_read() {
            Ok(g) => Ok(self.wr(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
                self.wr(e.into_inner()),
            ))),
            Err(TryLockError::WouldBlock) => {
                mc::rw_release(self.addr(), false);
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if !mc::rw_try(self.addr(), true) {
            return Err(TryLockError::WouldBlock);
        }
        match self.inner.try_write() {
            Ok(g) => Ok(self.ww(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
                self.ww(e.into_inner()),
            ))),
            Err(TryLockError::WouldBlock) => {
                mc::rw_release(self.addr(), true);
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        mc::release_point("rwlock.release", self.lock.addr());
        unsafe { ManuallyDrop::drop(&mut self.real) };
        mc::rw_release(self.lock.addr(), false);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        mc::release_point("rwlock.release", self.lock.addr());
        unsafe { ManuallyDrop::drop(&mut self.real) };
        mc::rw_release(self.lock.addr(), true);
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.real
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.real
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.real
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.inner, f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

// ------------------------------------------------------------------------------------- Condvar

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

#[derive(Default)]
pub struct Condvar {
    inner: real::Condvar,
    // keeps the address unique
    _pad: u64,
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Condvar").finish_non_exhaustive()
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            inner: real::Condvar::new(),
            _pad: 0,
        }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn mc_wait<'a, T: ?Sized>(
        &self,
        g: MutexGuard<'a, T>,
        d: Option<Duration>,
    ) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let lock = g.lock;
        mc::point("condvar.wait", self.addr());
        let to = mc::block_on("condvar", self.addr(), d, move || drop(g));
        (lock.lock(), to)
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if mc::controlled() {
            return self.mc_wait(g, None).0;
        }
        let lock = g.lock;
        let mut g = ManuallyDrop::new(g);
        let rg = unsafe { ManuallyDrop::take(&mut g.real) };
        match self.inner.wait(rg) {
            Ok(g) => Ok(lock.wrap(g)),
            Err(e) => Err(PoisonError::new(lock.wrap(e.into_inner()))),
        }
    }
    pub fn wait_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while cond(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if mc::controlled() {
            let (r, to) = self.mc_wait(g, Some(d));
            return match r {
                Ok(g) => Ok((g, WaitTimeoutResult(to))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(to)))),
            };
        }
        let lock = g.lock;
        let mut g = ManuallyDrop::new(g);
        let rg = unsafe { ManuallyDrop::take(&mut g.real) };
        match self.inner.wait_timeout(rg, d) {
            Ok((g, t)) => Ok((lock.wrap(g), WaitTimeoutResult(t.timed_out()))),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((
                    lock.wrap(g),
                    WaitTimeoutResult(t.timed_out()),
                )))
            }
        }
    }
    pub fn wait_timeout_while<'a, T, F>(
        &self,
        mut g: MutexGuard<'a, T>,
        dur: Duration,
        mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
        F: FnMut(&mut T) -> bool,
    {
        let start = ::std::time::Instant::now();
        loop {
            if !cond(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            let timeout = match dur.checked_sub(start.elapsed()) {
                Some(t) => t,
                None => return Ok((g, WaitTimeoutResult(true))),
            };
            g = self.wait_timeout(g, timeout)?.0;
        }
    }
    pub fn notify_one(&self) {
        if mc::controlled() {
            mc::point("notify_one", self.addr());
            mc::wake_one(self.addr());
        }
        self.inner.notify_one()
    }
    pub fn notify_all(&self) {
        if mc::controlled() {
            mc::point("notify_all", self.addr());
            mc::wake_all(self.addr());
        }
        self.inner.notify_all()
    }
}

// ------------------------------------------------------------------------------------- Once*

const EMPTY: u8 = 0;
const RUNNING: u8 = 1;
const DONE: u8 = 2;

pub struct OnceLock<T> {
    st: real::atomic::AtomicU8,
    val: UnsafeCell<Option<T>>,
    _pad: u64,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T: ::std::panic::RefUnwindSafe + ::std::panic::UnwindSafe> ::std::panic::RefUnwindSafe
    for OnceLock<T>
{
}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock {
            st: real::atomic::AtomicU8::new(EMPTY),
            val: UnsafeCell::new(None),
            _pad: 0,
        }
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn s(&self) -> u8 {
        self.st.load(real::atomic::Ordering::SeqCst)
    }
    pub fn get(&self) -> Option<&T> {
        if mc::controlled() {
            mc::point("once.get", self.addr());
        }
        self.peek()
    }
    fn peek(&self) -> Option<&T> {
        if self.s() == DONE {
            unsafe { (*self.val.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.val.get_mut().as_mut()
    }
    pub fn into_inner(self) -> Option<T> {
        self.val.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        *self.st.get_mut() = EMPTY;
        self.val.get_mut().take()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if mc::controlled() {
            mc::point("once.get_or_init", self.addr());
        }
        loop {
            match self.st.compare_exchange(
                EMPTY,
                RUNNING,
                real::atomic::Ordering::SeqCst,
                real::atomic::Ordering::SeqCst,
            ) {
                Ok(_) => {
                    struct Reset<'a>(&'a real::atomic::AtomicU8, usize);
                    impl Drop for Reset<'_> {
                        fn drop(&mut self) {
                            self.0.store(EMPTY, real::atomic::Ordering::SeqCst);
                            mc::wake_all(self.1);
                        }
                    }
                    let r = Reset(&self.st, self.addr());
                    let v = f();
                    ::std::mem::forget(r);
                    unsafe { *self.val.get() = Some(v) };
                    self.st.store(DONE, real::atomic::Ordering::SeqCst);
                    mc::wake_all(self.addr());
                    return self.peek().unwrap();
                }
                Err(DONE) => return self.peek().unwrap(),
                Err(_) => {
                    if mc::controlled() {
                        mc::block_on("once", self.addr(), None, || {});
                    } else {
                        ::std::thread::yield_now();
                    }
                }
            }
        }
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.peek() {
            Some(v) => f.debug_tuple("OnceLock").field(v).finish(),
            None => f.write_str("OnceLock(<uninit>)"),
        }
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = OnceLock::new();
        if let Some(v) = self.peek() {
            let _ = c.set(v.clone());
        }
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let c = OnceLock::new();
        let _ = c.set(v);
        c
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.peek() == o.peek()
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    once: OnceLock<T>,
    f: UnsafeCell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock {
            once: OnceLock::new(),
            f: UnsafeCell::new(Some(f)),
        }
    }
    pub fn force(this: &Self) -> &T {
        this.once
            .get_or_init(|| (unsafe { (*this.f.get()).take() }.expect("LazyLock poisoned"))())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.once.fmt(f)
    }
}

pub struct Once(OnceLock<()>);
impl Once {
    pub const fn new() -> Self {
        Once(OnceLock::new())
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.0.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.0.get().is_some()
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Once").finish_non_exhaustive()
    }
}

pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
pub struct Barrier {
    m: Mutex<(usize, usize)>,
    c: Condvar,
    n: usize,
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier {
            m: Mutex::new((0, 0)),
            c: Condvar::new(),
            n,
        }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            let _g = self.c.wait_while(g, |s| s.1 == gen).unwrap();
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}
impl fmt::Debug for Barrier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Barrier").finish_non_exhaustive()
    }
}

// ------------------------------------------------------------------------------------- atomics

pub mod atomic {
    pub use std::sync::atomic::*;

    use crate::mc;
    use ::std::fmt;
    use ::std::sync::atomic as real;

    pub fn spin_loop_hint() {
        mc::yield_point()
    }

    macro_rules! common {
        ($n:ident, $t:ty, [$($g:tt)*]) => {
            impl<$($g)*> $n<$($g)*> {
                pub const fn new(v: $t) -> Self {
                    $n { v: real::$n::new(v) }
                }
                #[inline]
                fn pt(&self, l: &'static str) {
                    if mc::controlled() {
                        mc::point(l, &self.v as *const _ as usize)
                    }
                }
                pub fn load(&self, o: Ordering) -> $t {
                    self.pt("load");
                    self.v.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    self.pt("store");
                    self.v.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    self.pt("swap");
                    self.v.swap(v, o)
                }
                pub fn compare_exchange(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    self.pt("cas");
                    self.v.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    self.pt("cas");
                    // the strong version: no spurious failures
                    self.v.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    f: Ordering,
                    mut func: F,
                ) -> Result<$t, $t> {
                    let mut prev = self.load(f);
                    while let Some(next) = func(prev) {
                        match self.compare_exchange_weak(prev, next, s, f) {
                            Ok(x) => return Ok(x),
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.v.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.v.into_inner()
                }
                pub const fn as_ptr(&self) -> *mut $t {
                    self.v.as_ptr()
                }
            }
            impl<$($g)*> fmt::Debug for $n<$($g)*> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    fmt::Debug::fmt(&self.v, f)
                }
            }
            impl<$($g)*> From<$t> for $n<$($g)*> {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }

    macro_rules! ints {
        ($($n:ident $t:ty;)*) => {$(
            #[derive(Default)]
            #[repr(transparent)]
            pub struct $n {
                v: real::$n,
            }
            common!($n, $t, []);
            impl $n {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.pt("fetch_add"); self.v.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.pt("fetch_sub"); self.v.fetch_sub(v, o) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.pt("fetch_and"); self.v.fetch_and(v, o) }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { self.pt("fetch_nand"); self.v.fetch_nand(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.pt("fetch_or"); self.v.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.pt("fetch_xor"); self.v.fetch_xor(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.pt("fetch_max"); self.v.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.pt("fetch_min"); self.v.fetch_min(v, o) }
            }
        )*};
    }
    ints! {
        AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize;
        AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize;
    }

    #[derive(Default)]
    #[repr(transparent)]
    pub struct AtomicBool {
        v: real::AtomicBool,
    }
    common!(AtomicBool, bool, []);
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
            self.pt("fetch_and");
            self.v.fetch_and(v, o)
        }
        pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
            self.pt("fetch_nand");
            self.v.fetch_nand(v, o)
        }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
            self.pt("fetch_or");
            self.v.fetch_or(v, o)
        }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
            self.pt("fetch_xor");
            self.v.fetch_xor(v, o)
        }
        pub fn fetch_not(&self, o: Ordering) -> bool {
            self.pt("fetch_not");
            self.v.fetch_xor(true, o)
        }
    }

    #[repr(transparent)]
    pub struct AtomicPtr<T> {
        v: real::AtomicPtr<T>,
    }
    common!(AtomicPtr, *mut T, [T]);
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            AtomicPtr::new(::std::ptr::null_mut())
        }
    }
}

// ------------------------------------------------------------------------------------- mpsc

pub mod mpsc {
    pub use std::sync::mpsc::*;

    use crate::mc;
    use ::std::collections::VecDeque;
    use ::std::fmt;
    use ::std::sync as real;
    use ::std::sync::mpsc as rm;
    use ::std::sync::Arc;
    use ::std::time::{Duration, Instant};

    pub use ::std::sync::mpsc::{
        RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
    };

    struct St<T> {
        q: VecDeque<T>,
        // None: unbounded; Some(0): rendezvous
        cap: Option<usize>,
        senders: usize,
        rx: bool,
        rx_waiting: bool,
        // items taken so far / pushed so far (rendezvous hand-over)
        taken: u64,
        pushed: u64,
    }
    struct Chan<T> {
        st: real::Mutex<St<T>>,
        can_recv: real::Condvar,
        can_send: real::Condvar,
    }
    impl<T> Chan<T> {
        fn key_r(&self) -> usize {
            &self.can_recv as *const _ as usize
        }
        fn key_s(&self) -> usize {
            &self.can_send as *const _ as usize
        }
        fn lock(&self) -> real::MutexGuard<'_, St<T>> {
            self.st.lock().unwrap_or_else(|e| e.into_inner())
        }
        fn wake_r(&self) {
            mc::wake_all(self.key_r());
            self.can_recv.notify_all();
        }
        fn wake_s(&self) {
            mc::wake_all(self.key_s());
            self.can_send.notify_all();
        }
        /// returns false on timeout
        fn wait(&self, send: bool, g: real::MutexGuard<'_, St<T>>, deadline: Option<Instant>) -> bool {
            let (cv, key, lbl) = if send {
                (&self.can_send, self.key_s(), "send")
            } else {
                (&self.can_recv, self.key_r(), "recv")
            };
            match deadline {
                None => {
                    if mc::controlled() {
                        mc::block_on(lbl, key, None, move || drop(g));
                    } else {
                        drop(cv.wait(g).unwrap_or_else(|e| e.into_inner()));
                    }
                    true
                }
                Some(d) => {
                    let now = Instant::now();
                    if mc::controlled() {
                        !mc::block_on(lbl, key, Some(d.saturating_duration_since(now)), move || drop(g))
                    } else {
                        if now >= d {
                            return false;
                        }
                        drop(cv.wait_timeout(g, d - now).unwrap_or_else(|e| e.into_inner()));
                        true
                    }
                }
            }
        }
        fn send(&self, v: T) -> Result<(), SendError<T>> {
            mc::point("send", self.key_r());
            let mut v = Some(v);
            loop {
                let mut g = self.lock();
                if !g.rx {
                    return Err(SendError(v.take().unwrap()));
                }
                let room = match g.cap {
                    None => true,
                    Some(0) => g.q.is_empty(),
                    Some(c) => g.q.len() < c,
                };
                if room {
                    g.q.push_back(v.take().unwrap());
                    g.pushed += 1;
                    let my = g.pushed;
                    let rendezvous = g.cap == Some(0);
                    drop(g);
                    self.wake_r();
                    if rendezvous {
                        loop {
                            let mut g = self.lock();
                            if g.taken >= my {
                                return Ok(());
                            }
                            if !g.rx {
                                return match g.q.pop_back() {
                                    Some(v) => Err(SendError(v)),
                                    None => Ok(()),
                                };
                            }
                            self.wait(true, g, None);
                        }
                    }
                    return Ok(());
                }
                self.wait(true, g, None);
            }
        }
        fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            mc::point("try_send", self.key_r());
            let mut g = self.lock();
            if !g.rx {
                return Err(TrySendError::Disconnected(v));
            }
            let room = match g.cap {
                None => true,
                Some(0) => g.q.is_empty() && g.rx_waiting,
                Some(c) => g.q.len() < c,
            };
            if !room {
                return Err(TrySendError::Full(v));
            }
            g.q.push_back(v);
            g.pushed += 1;
            drop(g);
            self.wake_r();
            Ok(())
        }
        fn pop(&self, g: &mut St<T>) -> Option<T> {
            let v = g.q.pop_front()?;
            g.taken += 1;
            Some(v)
        }
        fn try_recv(&self) -> Result<T, TryRecvError> {
            mc::point("try_recv", self.key_r());
            let mut g = self.lock();
            match self.pop(&mut g) {
                Some(v) => {
                    drop(g);
                    self.wake_s();
                    Ok(v)
                }
                None if g.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        fn recv(&self, deadline: Option<Instant>) -> Result<T, RecvTimeoutError> {
            mc::point("recv", self.key_r());
            loop {
                let mut g = self.lock();
                g.rx_waiting = false;
                if let Some(v) = self.pop(&mut g) {
                    drop(g);
                    self.wake_s();
                    return Ok(v);
                }
                if g.senders == 0 {
                    return Err(RecvTimeoutError::Disconnected);
                }
                g.rx_waiting = true;
                if !self.wait(false, g, deadline) {
                    let mut g = self.lock();
                    g.rx_waiting = false;
                    // like std: one last look
                    if let Some(v) = self.pop(&mut g) {
                        drop(g);
                        self.wake_s();
                        return Ok(v);
                    }
                    return Err(RecvTimeoutError::Timeout);
                }
            }
        }
        fn add_sender(&self) {
            self.lock().senders += 1;
        }
        fn drop_sender(&self) {
            mc::point("drop_sender", self.key_r());
            let last = {
                let mut g = self.lock();
                g.senders -= 1;
                g.senders == 0
            };
            if last {
                self.wake_r();
            }
        }
    }

    fn chan<T>(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan {
            st: real::Mutex::new(St {
                q: VecDeque::new(),
                cap,
                senders: 1,
                rx: true,
                rx_waiting: false,
                taken: 0,
                pushed: 0,
            }),
            can_recv: real::Condvar::new(),
            can_send: real::Condvar::new(),
        })
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = chan(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = chan(Some(bound));
        (SyncSender(c.clone()), Receiver(c))
    }

    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct SyncSender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);

    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            self.0.send(v)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            self.0.send(v)
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            self.0.try_send(v)
        }
    }
    macro_rules! sender {
        ($n:ident) => {
            impl<T> Clone for $n<T> {
                fn clone(&self) -> Self {
                    self.0.add_sender();
                    $n(self.0.clone())
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    self.0.drop_sender()
                }
            }
            impl<T> fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.debug_struct(stringify!($n)).finish_non_exhaustive()
                }
            }
        };
    }
    sender!(Sender);
    sender!(SyncSender);

    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            self.0.recv(None).map_err(|_| RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            self.0.try_recv()
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            match Instant::now().checked_add(d) {
                Some(t) => self.0.recv(Some(t)),
                None => self.recv().map_err(|_| RecvTimeoutError::Disconnected),
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { rx: self }
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter { rx: self }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            mc::point("drop_receiver", self.0.key_r());
            let q = {
                let mut g = self.0.lock();
                g.rx = false;
                if g.cap == Some(0) {
                    VecDeque::new()
                } else {
                    ::std::mem::take(&mut g.q)
                }
            };
            self.0.wake_s();
            drop(q);
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_struct("Receiver").finish_non_exhaustive()
        }
    }
    pub struct Iter<'a, T: 'a> {
        rx: &'a Receiver<T>,
    }
    pub struct TryIter<'a, T: 'a> {
        rx: &'a Receiver<T>,
    }
    pub struct IntoIter<T> {
        rx: Receiver<T>,
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.rx.recv().ok()
        }
    }
    impl<'a, T> Iterator for TryIter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.rx.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.rx.recv().ok()
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter { rx: self }
        }
    }
    #[allow(unused_imports)]
    use rm as _rm;
}
