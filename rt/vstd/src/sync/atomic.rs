//! Atomic variables: a possible switch to another thread before every operation.
pub use std::sync::atomic::{compiler_fence, fence, Ordering};
use std::fmt;
use vrt::sched;

macro_rules! atomic {
    ($name:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $name(std::sync::atomic::$name);
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self(std::sync::atomic::$name::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                sched::point();
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                sched::point();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                sched::point();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                sched::point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                sched::point();
                self.0.compare_exchange(a, b, s, f)
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                sched::point();
                self.0.compare_and_swap(a, b, o)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut v = self.load(f);
                while let Some(n) = g(v) {
                    match self.compare_exchange_weak(v, n, s, f) {
                        Ok(v) => return Ok(v),
                        Err(w) => v = w,
                    }
                }
                Err(v)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::new(Default::default())
            }
        }
    };
}
macro_rules! fetch {
    ($name:ident, $t:ty, $($f:ident),*) => {
        impl $name {
            $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                sched::point();
                self.0.$f(v, o)
            })*
        }
    };
}
atomic!(AtomicBool, bool);
fetch!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
impl AtomicBool {
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}
atomic!(AtomicI8, i8);
fetch!(AtomicI8, i8, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicU8, u8);
fetch!(AtomicU8, u8, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicI16, i16);
fetch!(AtomicI16, i16, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicU16, u16);
fetch!(AtomicU16, u16, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicI32, i32);
fetch!(AtomicI32, i32, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicU32, u32);
fetch!(AtomicU32, u32, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicI64, i64);
fetch!(AtomicI64, i64, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicU64, u64);
fetch!(AtomicU64, u64, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicIsize, isize);
fetch!(AtomicIsize, isize, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
atomic!(AtomicUsize, usize);
fetch!(AtomicUsize, usize, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);

#[repr(transparent)]
pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self {
        Self(std::sync::atomic::AtomicPtr::new(v))
    }
    pub fn load(&self, o: Ordering) -> *mut T {
        sched::point();
        self.0.load(o)
    }
    pub fn store(&self, v: *mut T, o: Ordering) {
        sched::point();
        self.0.store(v, o)
    }
    pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T {
        sched::point();
        self.0.swap(v, o)
    }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        sched::point();
        self.0.compare_exchange(a, b, s, f)
    }
}
