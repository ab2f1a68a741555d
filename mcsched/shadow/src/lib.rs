//! `core`, except that atomics are accessed under the control of the scheduler.
pub use ::core::*;

pub mod hint {
    pub use ::core::hint::*;

    pub fn spin_loop() {
        if sched::active() {
            sched::spin();
        } else {
            ::core::hint::spin_loop();
        }
    }
}

pub mod sync {
    pub use ::core::sync::*;

    pub mod atomic {
        pub use ::core::sync::atomic::*;
        use sched::Access;

        pub fn fence(order: Ordering) {
            ::core::sync::atomic::fence(order);
            sched::fence(order);
        }

        macro_rules! common {
            ($Name:ident, $T:ty, [$($G:tt)*], $Real:ty, $to:expr, $from:expr) => {
                #[repr(transparent)]
                pub struct $Name<$($G)*>($Real);

                impl<$($G)*> $Name<$($G)*> {
                    #[inline]
                    pub const fn new(v: $T) -> Self {
                        Self(<$Real>::new(v))
                    }

                    #[inline]
                    pub fn get_mut(&mut self) -> &mut $T {
                        self.0.get_mut()
                    }

                    #[inline]
                    pub fn into_inner(self) -> $T {
                        self.0.into_inner()
                    }

                    #[inline]
                    pub const fn as_ptr(&self) -> *mut $T {
                        self.0.as_ptr()
                    }

                    fn access<R>(&self, f: impl FnOnce(Access<'_>) -> R) -> R {
                        let to: fn($T) -> u64 = $to;
                        let real = self as *const Self as usize;
                        f(Access {
                            addr: real,
                            real: to(self.0.load(Ordering::Relaxed)),
                            restore: &|| {
                                Box::new(move |v| {
                                    let from: fn(u64) -> $T = $from;
                                    unsafe { (*(real as *const Self)).0.store(from(v), Ordering::Relaxed) }
                                })
                            },
                        })
                    }

                    fn rmw(&self, order: Ordering, f: impl FnOnce(&$Real) -> $T) -> $T {
                        // Run on the latest value, which is what the real one contains.
                        let to: fn($T) -> u64 = $to;
                        let mut f = Some(f);
                        let mut old = None;
                        self.access(|a| {
                            sched::rmw(a, order, &mut |_| {
                                old = Some((f.take().unwrap())(&self.0));
                                to(self.0.load(Ordering::Relaxed))
                            })
                        });
                        old.unwrap()
                    }

                    #[inline]
                    pub fn load(&self, order: Ordering) -> $T {
                        if sched::active() {
                            let from: fn(u64) -> $T = $from;
                            from(self.access(|a| sched::load(a, order)))
                        } else {
                            self.0.load(order)
                        }
                    }

                    #[inline]
                    pub fn store(&self, v: $T, order: Ordering) {
                        if sched::active() {
                            let to: fn($T) -> u64 = $to;
                            self.access(|a| sched::store(a, to(v), order));
                            self.0.store(v, Ordering::Relaxed);
                        } else {
                            self.0.store(v, order);
                        }
                    }

                    #[inline]
                    pub fn swap(&self, v: $T, order: Ordering) -> $T {
                        if sched::active() {
                            self.rmw(order, |r| r.swap(v, Ordering::Relaxed))
                        } else {
                            self.0.swap(v, order)
                        }
                    }

                    fn cas(&self, old: $T, new: $T, s: Ordering, f: Ordering, weak: bool) -> Result<$T, $T> {
                        let to: fn($T) -> u64 = $to;
                        let from: fn(u64) -> $T = $from;
                        let r = self.access(|a| sched::compare_exchange(a, to(old), to(new), s, f, weak));
                        if r.is_ok() {
                            self.0.store(new, Ordering::Relaxed);
                        }
                        r.map(from).map_err(from)
                    }

                    #[inline]
                    pub fn compare_exchange(&self, old: $T, new: $T, s: Ordering, f: Ordering) -> Result<$T, $T> {
                        if sched::active() {
                            self.cas(old, new, s, f, false)
                        } else {
                            self.0.compare_exchange(old, new, s, f)
                        }
                    }

                    #[inline]
                    pub fn compare_exchange_weak(&self, old: $T, new: $T, s: Ordering, f: Ordering) -> Result<$T, $T> {
                        if sched::active() {
                            self.cas(old, new, s, f, true)
                        } else {
                            self.0.compare_exchange_weak(old, new, s, f)
                        }
                    }

                    pub fn fetch_update<F>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<$T, $T>
                    where
                        F: FnMut($T) -> Option<$T>,
                    {
                        let mut prev = self.load(fetch);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange_weak(prev, next, set, fetch) {
                                Ok(x) => return Ok(x),
                                Err(x) => prev = x,
                            }
                        }
                        Err(prev)
                    }

                    pub fn try_update(&self, set: Ordering, fetch: Ordering, f: impl FnMut($T) -> Option<$T>) -> Result<$T, $T> {
                        self.fetch_update(set, fetch, f)
                    }

                    pub fn update(&self, set: Ordering, fetch: Ordering, mut f: impl FnMut($T) -> $T) -> $T {
                        self.fetch_update(set, fetch, |x| Some(f(x))).unwrap_or_else(|x| x)
                    }
                }

                impl<$($G)*> ::core::fmt::Debug for $Name<$($G)*> {
                    fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                        self.0.fmt(f)
                    }
                }

                impl<$($G)*> Default for $Name<$($G)*> {
                    fn default() -> Self {
                        Self(Default::default())
                    }
                }

                impl<$($G)*> From<$T> for $Name<$($G)*> {
                    fn from(v: $T) -> Self {
                        Self::new(v)
                    }
                }
            };
        }

        macro_rules! fetch {
            ($T:ty, $($f:ident)*) => {
                $(
                    #[inline]
                    pub fn $f(&self, v: $T, order: Ordering) -> $T {
                        if sched::active() {
                            self.rmw(order, |r| r.$f(v, Ordering::Relaxed))
                        } else {
                            self.0.$f(v, order)
                        }
                    }
                )*
            };
        }

        macro_rules! int {
            ($($Name:ident $T:ident),*) => {
                $(
                    common!($Name, $T, [], ::core::sync::atomic::$Name, |x| x as u64, |x| x as $T);

                    impl $Name {
                        fetch!($T, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
                    }
                )*
            };
        }

        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize);
        int!(AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
        common!(AtomicBool, bool, [], ::core::sync::atomic::AtomicBool, |x| x as u64, |x| x != 0);

        impl AtomicBool {
            fetch!(bool, fetch_and fetch_or fetch_xor fetch_nand);
        }

        common!(AtomicPtr, *mut T, [T], ::core::sync::atomic::AtomicPtr<T>, |x| x as usize as u64, |x| x as usize as *mut T);
    }
}
