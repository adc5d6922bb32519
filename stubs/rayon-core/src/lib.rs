//! rayon-core on the calling simulated thread: a pool of `ve_threads()` workers whose jobs are
//! run one after another (in an order picked by `ve_join_mode`) or interleaved at blocking calls.
use std::any::Any;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;

extern "C" {
    fn ve_threads() -> u64;
    fn ve_join_mode() -> u64;
    fn ve_spawn(f: extern "C" fn(*mut u8), data: *mut u8) -> u64;
    fn ve_block();
}

pub fn max_num_threads() -> usize {
    255
}
pub fn current_num_threads() -> usize {
    unsafe { ve_threads() as usize }
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

struct Job<F, R> {
    f: Option<F>,
    r: Option<R>,
}
extern "C" fn run_job<F: FnOnce() -> R, R>(p: *mut u8) {
    let j = unsafe { &mut *(p as *mut Job<F, R>) };
    let f = j.f.take().unwrap();
    let r = f();
    j.r = Some(r);
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    match unsafe { ve_join_mode() } {
        0 => {
            let ra = a();
            let rb = b();
            (ra, rb)
        }
        1 => {
            let rb = b();
            let ra = a();
            (ra, rb)
        }
        _ => {
            let mut job = Job { f: Some(b), r: None };
            let p = &mut job as *mut Job<B, RB>;
            unsafe { ve_spawn(run_job::<B, RB>, p as *mut u8) };
            let ra = a();
            unsafe {
                while (*std::ptr::addr_of!((*p).r)).is_none() {
                    ve_block();
                }
                (ra, (*p).r.take().unwrap())
            }
        }
    }
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    join(
        move || a(FnContext { migrated: false }),
        move || b(FnContext { migrated: false }),
    )
}

pub struct Scope<'scope> {
    _m: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
impl<'scope> Scope<'scope> {
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        body(self)
    }
    pub fn spawn_broadcast<B>(&self, body: B)
    where
        B: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let n = current_num_threads();
        for i in 0..n {
            body(self, BroadcastContext { i, n, _m: PhantomData })
        }
    }
}
pub struct ScopeFifo<'scope> {
    _m: PhantomData<Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + Sync + 'scope>>,
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<B>(&self, body: B)
    where
        B: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        body(self)
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    op(&Scope { _m: PhantomData })
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    op(&Scope { _m: PhantomData })
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    op(&ScopeFifo { _m: PhantomData })
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    op(&ScopeFifo { _m: PhantomData })
}
pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}

pub struct BroadcastContext<'a> {
    i: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|i| op(BroadcastContext { i, n, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool")
    }
}
impl Error for ThreadPoolBuildError {}
pub struct ThreadBuilder;
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
#[derive(Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        op()
    }
}
pub struct DefaultSpawn;
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    _m: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { _m: PhantomData }
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
