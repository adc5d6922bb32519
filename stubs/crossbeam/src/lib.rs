//! Facade with the parts of crossbeam used for pipelines, on simulated threads.
//! Control passes between simulated threads only at `ve_yield` and `ve_block`.
extern "C" {
    fn ve_spawn(f: extern "C" fn(*mut u8), data: *mut u8) -> u64;
    fn ve_yield();
    fn ve_block();
    /// Waits with a time limit; true: the time is over.
    fn ve_wait() -> bool;
    /// Lets another thread run.
    fn ve_pass();
}

pub mod thread {
    use super::*;
    use std::any::Any;
    use std::cell::UnsafeCell;
    use std::marker::PhantomData;
    use std::sync::Arc;

    pub type Result<T> = std::result::Result<T, Box<dyn Any + Send + 'static>>;

    struct Slot<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Send for Slot<T> {}
    unsafe impl<T> Sync for Slot<T> {}

    struct Pending(UnsafeCell<usize>);
    unsafe impl Send for Pending {}
    unsafe impl Sync for Pending {}

    pub struct Scope<'env> {
        pending: Arc<Pending>,
        _m: PhantomData<&'env mut &'env ()>,
    }
    unsafe impl Sync for Scope<'_> {}

    pub struct ScopedJoinHandle<'scope, T> {
        slot: Arc<Slot<T>>,
        _m: PhantomData<&'scope ()>,
    }

    struct Start<F, T> {
        f: F,
        slot: Arc<Slot<T>>,
        pending: Arc<Pending>,
    }

    extern "C" fn trampoline<'env, F, T>(p: *mut u8)
    where
        F: FnOnce(&Scope<'env>) -> T,
    {
        unsafe {
            let s: Box<Start<F, T>> = Box::from_raw(p as *mut Start<F, T>);
            let Start { f, slot, pending } = *s;
            let scope = Scope { pending: pending.clone(), _m: PhantomData };
            let r = f(&scope);
            *slot.0.get() = Some(r);
            *pending.0.get() -= 1;
        }
    }

    impl<'env> Scope<'env> {
        pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
        where
            F: FnOnce(&Scope<'env>) -> T + Send + 'env,
            T: Send + 'env,
        {
            let slot = Arc::new(Slot(UnsafeCell::new(None)));
            let st = Box::new(Start { f, slot: slot.clone(), pending: self.pending.clone() });
            unsafe {
                *self.pending.0.get() += 1;
                ve_spawn(trampoline::<'env, F, T>, Box::into_raw(st) as *mut u8);
            }
            ScopedJoinHandle { slot, _m: PhantomData }
        }
        pub fn builder<'scope>(&'scope self) -> ScopedThreadBuilder<'scope, 'env> {
            ScopedThreadBuilder { scope: self }
        }
    }

    pub struct ScopedThreadBuilder<'scope, 'env> {
        scope: &'scope Scope<'env>,
    }
    impl<'scope, 'env> ScopedThreadBuilder<'scope, 'env> {
        pub fn name(self, _n: String) -> Self {
            self
        }
        pub fn stack_size(self, _n: usize) -> Self {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> std::io::Result<ScopedJoinHandle<'scope, T>>
        where
            F: FnOnce(&Scope<'env>) -> T + Send + 'env,
            T: Send + 'env,
        {
            Ok(self.scope.spawn(f))
        }
    }

    impl<T> ScopedJoinHandle<'_, T> {
        pub fn join(self) -> Result<T> {
            unsafe {
                while (*self.slot.0.get()).is_none() {
                    ve_block();
                }
                Ok((*self.slot.0.get()).take().unwrap())
            }
        }
    }

    pub fn scope<'env, F, R>(f: F) -> Result<R>
    where
        F: FnOnce(&Scope<'env>) -> R,
    {
        let scope = Scope { pending: Arc::new(Pending(UnsafeCell::new(0))), _m: PhantomData };
        let r = f(&scope);
        unsafe {
            while *scope.pending.0.get() != 0 {
                ve_block();
            }
        }
        Ok(r)
    }
}
pub use thread::scope;

pub mod channel {
    use super::*;
    use std::cell::UnsafeCell;
    use std::collections::VecDeque;
    use std::fmt;
    use std::sync::Arc;
    use std::time::{Duration, Instant};

    struct Chan<T> {
        q: VecDeque<T>,
        cap: Option<usize>,
        senders: usize,
        receivers: usize,
        waiting: usize,
        taken: u64,
        pushed: u64,
        empties: u64,
    }
    struct Inner<T>(UnsafeCell<Chan<T>>);
    unsafe impl<T: Send> Send for Inner<T> {}
    unsafe impl<T: Send> Sync for Inner<T> {}
    impl<T> Inner<T> {
        #[allow(clippy::mut_from_ref)]
        fn get(&self) -> &mut Chan<T> {
            unsafe { &mut *self.0.get() }
        }
    }

    pub struct Sender<T>(Arc<Inner<T>>);
    pub struct Receiver<T>(Arc<Inner<T>>);

    #[derive(PartialEq, Eq, Clone, Copy)]
    pub struct SendError<T>(pub T);
    impl<T> SendError<T> {
        pub fn into_inner(self) -> T {
            self.0
        }
    }
    impl<T> fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("SendError(..)")
        }
    }
    impl<T> fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("sending on a disconnected channel")
        }
    }
    impl<T: Send> std::error::Error for SendError<T> {}
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum TrySendError<T> {
        Full(T),
        Disconnected(T),
    }
    impl<T> TrySendError<T> {
        pub fn into_inner(self) -> T {
            match self {
                TrySendError::Full(v) | TrySendError::Disconnected(v) => v,
            }
        }
        pub fn is_full(&self) -> bool {
            matches!(self, TrySendError::Full(_))
        }
        pub fn is_disconnected(&self) -> bool {
            matches!(self, TrySendError::Disconnected(_))
        }
    }
    impl<T> fmt::Debug for TrySendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("TrySendError(..)")
        }
    }
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub struct RecvError;
    impl fmt::Display for RecvError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("receiving on an empty and disconnected channel")
        }
    }
    impl std::error::Error for RecvError {}
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum TryRecvError {
        Empty,
        Disconnected,
    }
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum RecvTimeoutError {
        Timeout,
        Disconnected,
    }

    impl fmt::Display for TryRecvError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("receiving on an empty channel")
        }
    }
    impl std::error::Error for TryRecvError {}
    impl fmt::Display for RecvTimeoutError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("timed out waiting on receive operation")
        }
    }
    impl std::error::Error for RecvTimeoutError {}
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum SendTimeoutError<T> {
        Timeout(T),
        Disconnected(T),
    }
    impl<T> SendTimeoutError<T> {
        pub fn into_inner(self) -> T {
            match self {
                SendTimeoutError::Timeout(v) | SendTimeoutError::Disconnected(v) => v,
            }
        }
    }
    impl<T> fmt::Debug for SendTimeoutError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("SendTimeoutError(..)")
        }
    }

    fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Inner(UnsafeCell::new(Chan {
            q: VecDeque::new(),
            cap,
            senders: 1,
            receivers: 1,
            waiting: 0,
            taken: 0,
            pushed: 0,
            empties: 0,
        })));
        (Sender(c.clone()), Receiver(c))
    }
    pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        make(Some(cap))
    }
    pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
        make(None)
    }

    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            unsafe { ve_yield() };
            loop {
                let c = self.0.get();
                if c.receivers == 0 {
                    return Err(SendError(v));
                }
                let room = match c.cap {
                    None => true,
                    Some(0) => c.waiting > c.q.len(),
                    Some(n) => c.q.len() < n,
                };
                if room {
                    c.q.push_back(v);
                    c.pushed += 1;
                    return Ok(());
                }
                unsafe { ve_block() };
            }
        }
        pub fn send_timeout(&self, v: T, _d: Duration) -> Result<(), SendTimeoutError<T>> {
            unsafe { ve_yield() };
            loop {
                let c = self.0.get();
                if c.receivers == 0 {
                    return Err(SendTimeoutError::Disconnected(v));
                }
                let room = match c.cap {
                    None => true,
                    Some(0) => c.waiting > c.q.len(),
                    Some(n) => c.q.len() < n,
                };
                if room {
                    c.q.push_back(v);
                    c.pushed += 1;
                    return Ok(());
                }
                if unsafe { ve_wait() } {
                    return Err(SendTimeoutError::Timeout(v));
                }
            }
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            unsafe { ve_yield() };
            let c = self.0.get();
            if c.receivers == 0 {
                return Err(TrySendError::Disconnected(v));
            }
            let room = match c.cap {
                None => true,
                Some(0) => c.waiting > c.q.len(),
                Some(n) => c.q.len() < n,
            };
            if room {
                c.q.push_back(v);
                c.pushed += 1;
                return Ok(());
            }
            Err(TrySendError::Full(v))
        }
        pub fn len(&self) -> usize {
            self.0.get().q.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn is_full(&self) -> bool {
            self.0.get().cap == Some(self.len())
        }
        pub fn capacity(&self) -> Option<usize> {
            self.0.get().cap
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            unsafe { ve_yield() };
            self.0.get().waiting += 1;
            loop {
                let c = self.0.get();
                if let Some(v) = c.q.pop_front() {
                    c.taken += 1;
                    c.waiting -= 1;
                    return Ok(v);
                }
                if c.senders == 0 {
                    c.waiting -= 1;
                    return Err(RecvError);
                }
                unsafe { ve_block() };
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            unsafe { ve_yield() };
            let c = self.0.get();
            if let Some(v) = c.q.pop_front() {
                c.taken += 1;
                return Ok(v);
            }
            if c.senders == 0 {
                Err(TryRecvError::Disconnected)
            } else {
                // somebody who polls must not keep the others from running
                c.empties += 1;
                if c.empties % 3 == 0 {
                    unsafe { ve_pass() };
                }
                Err(TryRecvError::Empty)
            }
        }
        pub fn recv_timeout(&self, _d: Duration) -> Result<T, RecvTimeoutError> {
            unsafe { ve_yield() };
            self.0.get().waiting += 1;
            loop {
                let c = self.0.get();
                if let Some(v) = c.q.pop_front() {
                    c.taken += 1;
                    c.waiting -= 1;
                    return Ok(v);
                }
                if c.senders == 0 {
                    c.waiting -= 1;
                    return Err(RecvTimeoutError::Disconnected);
                }
                if unsafe { ve_wait() } {
                    self.0.get().waiting -= 1;
                    return Err(RecvTimeoutError::Timeout);
                }
            }
        }
        pub fn recv_deadline(&self, _d: Instant) -> Result<T, RecvTimeoutError> {
            self.recv_timeout(Duration::from_secs(1))
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
        pub fn len(&self) -> usize {
            self.0.get().q.len()
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn is_full(&self) -> bool {
            self.0.get().cap == Some(self.len())
        }
        pub fn capacity(&self) -> Option<usize> {
            self.0.get().cap
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.get().senders += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            self.0.get().receivers += 1;
            Receiver(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            unsafe { ve_yield() };
            self.0.get().senders -= 1;
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            unsafe { ve_yield() };
            let c = self.0.get();
            c.receivers -= 1;
            if c.receivers == 0 {
                c.q.clear();
            }
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Sender { .. }")
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Receiver { .. }")
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            Iter(self)
        }
    }
}
