//! `std` with the synchronisation primitives, threads and clock replaced by
//! schedule-controlled ones (shuttle), so that code compiled against it runs under
//! every explored schedule. Everything else is the real standard library.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use shuttle::sync::{Arc, Barrier, Condvar, Mutex, MutexGuard, Once, RwLock, RwLockReadGuard, RwLockWriteGuard, Weak, mpsc};
    pub mod atomic {
        pub use ::std::sync::atomic::*;
        pub use shuttle::sync::atomic::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr, AtomicU16, AtomicU32, AtomicU64,
            AtomicU8, AtomicUsize, fence,
        };
    }
}
pub mod thread {
    pub use ::std::thread::*;
    pub use shuttle::thread::{Builder, JoinHandle, Thread, ThreadId, current, park, sleep, yield_now};
    thread_local! {
        /// Threads started by the code under test, so that the driver can wait for them.
        pub static STARTED: ::std::cell::RefCell<Vec<JoinHandle<()>>> = const { ::std::cell::RefCell::new(vec![]) };
        /// Messages of the panics that ended such threads.
        pub static DIED: ::std::cell::RefCell<Vec<String>> = const { ::std::cell::RefCell::new(vec![]) };
    }
    /// A thread whose panic ends that thread alone, as with the real `spawn`.
    pub struct Spawned<T>(::std::sync::Arc<::std::sync::Mutex<Option<Result<T>>>>, ::std::sync::Arc<(shuttle::sync::Mutex<bool>, shuttle::sync::Condvar)>);
    impl<T> Spawned<T> {
        pub fn join(self) -> Result<T> {
            let mut g = self.1.0.lock().unwrap();
            while !*g {
                g = self.1.1.wait(g).unwrap();
            }
            drop(g);
            self.0.lock().unwrap().take().unwrap()
        }
        pub fn is_finished(&self) -> bool {
            *self.1.0.lock().unwrap()
        }
    }
    pub fn spawn<F, T>(f: F) -> Spawned<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let cell = ::std::sync::Arc::new(::std::sync::Mutex::new(None));
        let done = ::std::sync::Arc::new((shuttle::sync::Mutex::new(false), shuttle::sync::Condvar::new()));
        let (c2, d2) = (cell.clone(), done.clone());
        let h = shuttle::thread::spawn(move || {
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
            if let Err(p) = &r {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                DIED.with(|d| d.borrow_mut().push(m));
            }
            *c2.lock().unwrap() = Some(r);
            *d2.0.lock().unwrap() = true;
            d2.1.notify_all();
        });
        STARTED.with(|s| s.borrow_mut().push(h));
        Spawned(cell, done)
    }
}
pub mod process {
    pub use ::std::process::*;
    thread_local! {
        /// What to do when the code under test ends the process.
        pub static ON_EXIT: ::std::cell::RefCell<Option<Box<dyn Fn(i32)>>> = const { ::std::cell::RefCell::new(None) };
    }
    pub struct Exited(pub i32);
    pub fn exit(code: i32) -> ! {
        ON_EXIT.with(|h| {
            if let Some(f) = &*h.borrow() {
                f(code)
            }
        });
        ::std::panic::resume_unwind(Box::new(Exited(code)))
    }
}
pub mod time {
    pub use ::std::time::*;
    use ::std::sync::atomic::{AtomicU64, Ordering};
    static CLOCK_MS: AtomicU64 = AtomicU64::new(0);
    pub fn advance(ms: u64) {
        CLOCK_MS.fetch_add(ms, Ordering::SeqCst);
    }
    pub fn reset() {
        CLOCK_MS.store(0, Ordering::SeqCst);
    }
    /// A clock that only moves when the test driver says so.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Instant(Duration::from_millis(CLOCK_MS.load(Ordering::SeqCst)))
        }
        pub fn elapsed(&self) -> Duration {
            Self::now().0.saturating_sub(self.0)
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            self.0.checked_sub(o.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl ::std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl ::std::ops::Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl ::std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
    }
}
