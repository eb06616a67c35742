//! The part of `crossbeam` the language server uses, on schedule-controlled primitives.
thread_local! {
    /// Called while a message is being appended to a channel.
    pub static ON_SEND: std::cell::RefCell<Option<Box<dyn Fn()>>> = const { std::cell::RefCell::new(None) };
}
thread_local! {
    /// Which of several ready channels `select!` prefers.
    pub static PRIORITY: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// `select!` over up to three receivers, with or without a `default` arm.
#[macro_export]
macro_rules! select {
    (recv($r0:expr) -> $p0:pat => $b0:expr $(,)?) => {{
        let $p0 = $r0.recv();
        $b0
    }};
    (recv($r0:expr) -> $p0:pat => $b0:block $(,)? recv($r1:expr) -> $p1:pat => $b1:block $(,)?) => {{
        let (__r0, __r1) = (&$r0, &$r1);
        let (mut __v0, mut __v1) = (None, None);
        loop {
            match $crate::channel::wait_any(&[__r0, __r1]) {
                0 => __v0 = __r0.take_ready(),
                _ => __v1 = __r1.take_ready(),
            }
            if __v0.is_some() || __v1.is_some() {
                break;
            }
        }
        if let Some($p0) = __v0 {
            $b0
        } else if let Some($p1) = __v1 {
            $b1
        } else {
            unreachable!()
        }
    }};
    (recv($r0:expr) -> $p0:pat => $b0:block $(,)? recv($r1:expr) -> $p1:pat => $b1:block $(,)? recv($r2:expr) -> $p2:pat => $b2:block $(,)?) => {{
        let (__r0, __r1, __r2) = (&$r0, &$r1, &$r2);
        let (mut __v0, mut __v1, mut __v2) = (None, None, None);
        loop {
            match $crate::channel::wait_any(&[__r0, __r1, __r2]) {
                0 => __v0 = __r0.take_ready(),
                1 => __v1 = __r1.take_ready(),
                _ => __v2 = __r2.take_ready(),
            }
            if __v0.is_some() || __v1.is_some() || __v2.is_some() {
                break;
            }
        }
        if let Some($p0) = __v0 {
            $b0
        } else if let Some($p1) = __v1 {
            $b1
        } else if let Some($p2) = __v2 {
            $b2
        } else {
            unreachable!()
        }
    }};
}
pub use select as select_biased;
fn sent() {
    ON_SEND.with(|h| {
        if let Some(f) = &*h.borrow() {
            f()
        }
    });
}
pub mod channel {
    use shuttle::sync::{Condvar, Mutex, atomic::{AtomicUsize, Ordering}};
    use std::sync::Arc;
    use std::collections::VecDeque;
    use std::fmt;

    struct State<T> {
        q: VecDeque<T>,
        senders: usize,
        receivers: usize,
        waiters: usize,
        watchers: Vec<Arc<Gate>>,
        cap: Option<usize>,
    }
    /// What a thread waiting for several channels sleeps on.
    struct Gate(Mutex<()>, Condvar);
    /// Every operation is one scheduling point followed by an atomic step.
    struct Chan<T> {
        st: std::sync::Mutex<State<T>>,
        turn: AtomicUsize,
        gate: Mutex<()>,
        cv: Condvar,
    }
    impl<T> Chan<T> {
        fn point(&self) {
            self.turn.load(Ordering::SeqCst);
        }
        fn st(&self) -> std::sync::MutexGuard<'_, State<T>> {
            self.st.lock().unwrap_or_else(|e| e.into_inner())
        }
        fn wake(&self) {
            if self.st().waiters > 0 {
                let g = self.gate.lock().unwrap();
                self.cv.notify_all();
                drop(g);
            }
            let ws = self.st().watchers.clone();
            for w in ws {
                let g = w.0.lock().unwrap();
                w.1.notify_all();
                drop(g);
            }
        }
        /// Runs `f` until it yields something, sleeping while it does not.
        fn block<R>(&self, f: impl Fn(&mut State<T>) -> Option<R>) -> R {
            self.point();
            loop {
                if let Some(r) = f(&mut self.st()) {
                    return r;
                }
                let g = self.gate.lock().unwrap();
                self.st().waiters += 1;
                let r = f(&mut self.st());
                if let Some(r) = r {
                    self.st().waiters -= 1;
                    return r;
                }
                let g = self.cv.wait(g).unwrap();
                drop(g);
                self.st().waiters -= 1;
            }
        }
    }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);

    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct SendError<T>(pub T);
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct RecvError;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum TryRecvError {
        Empty,
        Disconnected,
    }
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum TrySendError<T> {
        Full(T),
        Disconnected(T),
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum RecvTimeoutError {
        Timeout,
        Disconnected,
    }
    impl<T> fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("SendError(..)")
        }
    }
    impl<T> fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("sending on a disconnected channel")
        }
    }
    impl<T: Send> std::error::Error for SendError<T> {}
    impl<T> fmt::Debug for TrySendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("TrySendError(..)")
        }
    }
    impl<T> fmt::Display for TrySendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("channel full or disconnected")
        }
    }
    impl<T: Send> std::error::Error for TrySendError<T> {}
    impl fmt::Display for RecvError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("receiving on an empty and disconnected channel")
        }
    }
    impl std::error::Error for RecvError {}
    impl fmt::Display for TryRecvError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("receiving on an empty channel")
        }
    }
    impl std::error::Error for TryRecvError {}

    fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Chan {
            st: std::sync::Mutex::new(State { q: VecDeque::new(), senders: 1, receivers: 1, waiters: 0, watchers: vec![], cap }),
            turn: AtomicUsize::new(0),
            gate: Mutex::new(()),
            cv: Condvar::new(),
        });
        (Sender(c.clone()), Receiver(c))
    }
    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
        make(None)
    }
    pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        make(Some(cap.max(1)))
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            let t = std::cell::RefCell::new(Some(t));
            let r = self.0.block(|s| {
                if s.receivers == 0 {
                    return Some(Err(SendError(t.take().unwrap())));
                }
                if s.cap.is_some_and(|c| s.q.len() >= c) {
                    return None;
                }
                s.q.push_back(t.take().unwrap());
                crate::sent();
                Some(Ok(()))
            });
            self.0.wake();
            r
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            self.0.point();
            {
                let mut s = self.0.st();
                if s.receivers == 0 {
                    return Err(TrySendError::Disconnected(t));
                }
                if s.cap.is_some_and(|c| s.q.len() >= c) {
                    return Err(TrySendError::Full(t));
                }
                s.q.push_back(t);
                crate::sent();
            }
            self.0.wake();
            Ok(())
        }
        pub fn len(&self) -> usize {
            self.0.point();
            self.0.st().q.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let r = self.0.block(|s| match s.q.pop_front() {
                Some(t) => Some(Ok(t)),
                None if s.senders == 0 => Some(Err(RecvError)),
                None => None,
            });
            self.0.wake();
            r
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            self.0.point();
            let r = {
                let mut s = self.0.st();
                match s.q.pop_front() {
                    Some(t) => Ok(t),
                    None if s.senders == 0 => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            };
            self.0.wake();
            r
        }
        /// Under a controlled schedule a timeout may strike whenever nothing is queued.
        pub fn recv_timeout(&self, _d: std::time::Duration) -> Result<T, RecvTimeoutError> {
            match self.try_recv() {
                Ok(t) => Ok(t),
                Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => {
                    shuttle::thread::yield_now();
                    Err(RecvTimeoutError::Timeout)
                }
            }
        }
        pub fn len(&self) -> usize {
            self.0.point();
            self.0.st().q.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    /// A receiver `select!` waits for.
    pub trait Source {
        fn point(&self);
        fn ready(&self) -> bool;
        fn watch(&self, w: &Waiter);
        fn unwatch(&self, w: &Waiter);
    }
    pub struct Waiter(Arc<Gate>);
    impl<T> Source for Receiver<T> {
        fn point(&self) {
            self.0.point()
        }
        fn ready(&self) -> bool {
            let s = self.0.st();
            !s.q.is_empty() || s.senders == 0
        }
        fn watch(&self, w: &Waiter) {
            self.0.st().watchers.push(w.0.clone())
        }
        fn unwatch(&self, w: &Waiter) {
            self.0.st().watchers.retain(|x| !Arc::ptr_eq(x, &w.0))
        }
    }
    impl<T> Receiver<T> {
        /// Takes a message, or the disconnection, if there is one; no scheduling point.
        pub fn take_ready(&self) -> Option<Result<T, RecvError>> {
            let r = {
                let mut s = self.0.st();
                match s.q.pop_front() {
                    Some(t) => Some(Ok(t)),
                    None if s.senders == 0 => Some(Err(RecvError)),
                    None => None,
                }
            };
            if r.is_some() {
                self.0.wake();
            }
            r
        }
    }
    /// The first ready source, starting from a position that changes with `PRIORITY`.
    pub fn poll_any(rs: &[&dyn Source]) -> Option<usize> {
        let k = crate::PRIORITY.with(|p| p.get()) % rs.len();
        (0..rs.len()).map(|i| (i + k) % rs.len()).find(|i| rs[*i].ready())
    }
    pub fn wait_any(rs: &[&dyn Source]) -> usize {
        rs[0].point();
        if let Some(i) = poll_any(rs) {
            return i;
        }
        let w = Waiter(Arc::new(Gate(Mutex::new(()), Condvar::new())));
        for r in rs {
            r.watch(&w);
        }
        let i = loop {
            let g = w.0.0.lock().unwrap();
            if let Some(i) = poll_any(rs) {
                break i;
            }
            let g = w.0.1.wait(g).unwrap();
            drop(g);
        };
        for r in rs {
            r.unwatch(&w);
        }
        i
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.st().senders += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            self.0.st().receivers += 1;
            Receiver(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            if std::thread::panicking() {
                return;
            }
            self.0.st().senders -= 1;
            self.0.wake();
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            if std::thread::panicking() {
                return;
            }
            self.0.st().receivers -= 1;
            self.0.wake();
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("Receiver")
        }
    }
}
