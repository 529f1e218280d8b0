//! Drop-in replacement of the parts of `parking_lot` a library like yamux may use. Every acquisition
//! is a scheduling point of the explorer; contention blocks the calling coroutine, or, when nobody
//! else can run, is reported as a deadlock.
use mc_rt::Point;
use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};

/// 0 = free, -1 = exclusively held, n > 0 = n shared holders.
struct Raw(AtomicIsize);

impl Raw {
    const fn new() -> Self {
        Raw(AtomicIsize::new(0))
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn try_ex(&self) -> bool {
        self.0.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
    }
    fn try_sh(&self) -> bool {
        let v = self.0.load(SeqCst);
        v >= 0 && self.0.compare_exchange(v, v + 1, SeqCst, SeqCst).is_ok()
    }
    fn ex(&self) {
        mc_rt::point(Point::Lock);
        while !self.try_ex() {
            mc_rt::contended(self.addr())
        }
    }
    fn sh(&self) {
        mc_rt::point(Point::Lock);
        while !self.try_sh() {
            mc_rt::contended(self.addr())
        }
    }
    fn un_ex(&self) {
        self.0.store(0, SeqCst);
        mc_rt::released(self.addr())
    }
    fn un_sh(&self) {
        self.0.fetch_sub(1, SeqCst);
        mc_rt::released(self.addr())
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub type FairMutex<T> = Mutex<T>;

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.ex();
        MutexGuard { raw: &self.raw, data: self.data.get(), _p: PhantomData }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        mc_rt::point(Point::Lock);
        if self.raw.try_ex() {
            Some(MutexGuard { raw: &self.raw, data: self.data.get(), _p: PhantomData })
        } else {
            None
        }
    }
    pub fn is_locked(&self) -> bool {
        self.raw.0.load(SeqCst) != 0
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}

macro_rules! guard {
    ($name:ident, $unlock:ident, $($mutable:tt)?) => {
        pub struct $name<'a, T: ?Sized> {
            raw: &'a Raw,
            data: *mut T,
            _p: PhantomData<&'a mut T>,
        }
        unsafe impl<T: ?Sized + Sync> Sync for $name<'_, T> {}
        impl<T: ?Sized> Deref for $name<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.data }
            }
        }
        $(
        impl<T: ?Sized> DerefMut for $name<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                let _ = stringify!($mutable);
                unsafe { &mut *self.data }
            }
        }
        )?
        impl<T: ?Sized> Drop for $name<'_, T> {
            fn drop(&mut self) {
                self.raw.$unlock()
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&**self, f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Display::fmt(&**self, f)
            }
        }
    };
}
guard!(MutexGuard, un_ex, mutable);
guard!(MappedMutexGuard, un_ex, mutable);
guard!(RwLockWriteGuard, un_ex, mutable);
guard!(MappedRwLockWriteGuard, un_ex, mutable);
guard!(RwLockReadGuard, un_sh,);
guard!(MappedRwLockReadGuard, un_sh,);

macro_rules! mapped {
    ($name:ident, $mapped:ident) => {
        impl<'a, T: ?Sized> $name<'a, T> {
            pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> $mapped<'a, U> {
                let s = ManuallyDrop::new(s);
                let p = s.data;
                let d: *mut U = f(unsafe { &mut *p });
                $mapped { raw: s.raw, data: d, _p: PhantomData }
            }
        }
    };
}
mapped!(MutexGuard, MappedMutexGuard);
mapped!(MappedMutexGuard, MappedMutexGuard);
mapped!(RwLockWriteGuard, MappedRwLockWriteGuard);
mapped!(MappedRwLockWriteGuard, MappedRwLockWriteGuard);
impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> MappedRwLockReadGuard<'a, U> {
        let s = ManuallyDrop::new(s);
        let p = s.data;
        let d: *const U = f(unsafe { &*p });
        MappedRwLockReadGuard { raw: s.raw, data: d as *mut U, _p: PhantomData }
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.sh();
        RwLockReadGuard { raw: &self.raw, data: self.data.get(), _p: PhantomData }
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.ex();
        RwLockWriteGuard { raw: &self.raw, data: self.data.get(), _p: PhantomData }
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        mc_rt::point(Point::Lock);
        self.raw.try_sh().then(|| RwLockReadGuard { raw: &self.raw, data: self.data.get(), _p: PhantomData })
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        mc_rt::point(Point::Lock);
        self.raw.try_ex().then(|| RwLockWriteGuard { raw: &self.raw, data: self.data.get(), _p: PhantomData })
    }
    pub fn is_locked(&self) -> bool {
        self.raw.0.load(SeqCst) != 0
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
pub const fn const_mutex<T>(t: T) -> Mutex<T> {
    Mutex::new(t)
}
pub const fn const_rwlock<T>(t: T) -> RwLock<T> {
    RwLock::new(t)
}
