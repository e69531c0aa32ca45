//! Verification stand-in for the thread pool: the same interface and the same semantics on real threads that run
//! one at a time. Every hand-over of control is a scheduling decision taken from `__sym_choice`, so a symbolic run
//! covers the schedules (within the preemption budget) and a replay repeats one.
pub mod command { pub trait Command { fn execute(&self) -> Result<(), anyhow::Error>; } }
pub mod shutdown_mode { #[derive(Clone)] pub enum ShutdownMode { Immediate, CompletePending } }
pub mod queue_type { #[derive(Clone, Copy)] pub enum QueueType { BlockingQueue, CrossbeamBlockingQueue } }
pub mod sched {
    use std::cell::Cell;
    use std::sync::{Condvar, Mutex, MutexGuard};
    extern "C" { fn __sym_choice(n: u64, tag: *const u8, len: u64) -> u64; fn __sym_fail(m: *const u8, len: u64) -> !; fn __sym_note(m: *const u8, len: u64); }
    #[derive(Clone, Copy, PartialEq)]
    pub enum St { Ready, Released, Idle(usize), Full(usize), Barrier(usize), Empty(usize), Join(usize), Lock(usize), Done }
    pub struct Pool { pub len: usize, pub cap: usize, pub stopped: bool, pub started: bool, pub lead: bool }
    pub struct S { pub cur: usize, pub th: Vec<St>, pub fresh: Vec<bool>, pub pools: Vec<Pool>, pub barriers: Vec<usize>, pub budget: u64, pub eager: bool, pub log: u64, pub hooks: bool, pub low: Vec<usize> }
    pub static S: Mutex<S> = Mutex::new(S { cur: 0, th: Vec::new(), fresh: Vec::new(), pools: Vec::new(), barriers: Vec::new(), budget: 0, eager: false, log: 0, hooks: false, low: Vec::new() });
    pub static CV: Condvar = Condvar::new();
    thread_local! { pub static ME: Cell<usize> = const { Cell::new(usize::MAX) }; static HOLD: Cell<bool> = const { Cell::new(false) }; }
    pub fn me() -> usize { ME.with(|m| m.get()) }
    pub struct G(Option<MutexGuard<'static, S>>);
    impl std::ops::Deref for G { type Target = S; fn deref(&self) -> &S { self.0.as_ref().unwrap() } }
    impl std::ops::DerefMut for G { fn deref_mut(&mut self) -> &mut S { self.0.as_mut().unwrap() } }
    impl Drop for G { fn drop(&mut self) { HOLD.with(|h| h.set(false)); } }
    impl G { fn sleep(&mut self) { let g = self.0.take().unwrap(); self.0 = Some(CV.wait(g).unwrap_or_else(|e| e.into_inner())); } }
    pub fn lock() -> G { let g = S.lock().unwrap_or_else(|e| e.into_inner()); HOLD.with(|h| h.set(true)); let mut g = G(Some(g)); if g.th.is_empty() { ME.with(|m| m.set(0)); g.th.push(St::Ready); g.fresh.push(false); } g }
    /// number of voluntary switches the explored schedules may contain; `eager` picks the first runnable thread at forced switches
    pub fn configure(budget: u64, eager: bool) { let mut g = lock(); g.budget = budget; g.eager = eager; }
    pub fn choose(n: usize, tag: &str) -> usize { if n <= 1 { 0 } else { unsafe { __sym_choice(n as u64, tag.as_ptr(), tag.len() as u64) as usize } } }
    impl S {
        fn runnable(&self, t: usize) -> bool { match self.th[t] { St::Ready | St::Released => true, St::Idle(p) => (self.pools[p].len > 0 || self.pools[p].stopped) && self.pools[p].started, St::Full(p) => self.pools[p].len < self.pools[p].cap, St::Barrier(b) => self.barriers[b] == 0, St::Empty(p) => self.pools[p].len == 0, St::Join(j) => self.th[j] == St::Done, St::Lock(a) => unsafe { *(a as *const u32) == 0 }, St::Done => false } }
        /// which of n threads runs next at a forced switch; eager: the first, any other one at the cost of one unit of the budget
        fn forced(&mut self, n: usize) -> usize { if !self.eager { return choose(n, "sched"); } if self.budget == 0 { return 0; } let k = choose(n, "delay"); if k > 0 { self.budget -= 1; } k }
        /// eager schedules: these threads run only when no other can
        fn delay(&mut self, v: &[usize]) { if self.eager { for t in v { self.low.retain(|x| x != t); self.low.push(*t); } } }
        fn candidates(&self) -> Vec<usize> {
            let n = self.th.len(); let mut v: Vec<usize> = vec![]; let mut seen: Vec<usize> = vec![];
            for t in 0..n { if !self.runnable(t) { continue; } if let St::Idle(p) = self.th[t] { if self.fresh[t] { if seen.contains(&p) { continue; } seen.push(p); } } v.push(t); }
            // threads that only leave a barrier or end have nothing observable left to do: run them first
            for &t in &v { let trivial = match self.th[t] { St::Barrier(_) => t != 0, St::Idle(p) => self.pools[p].stopped, St::Released => true, _ => false }; if trivial { return vec![t]; } }
            let low = &self.low; v.sort_by_key(|t| low.iter().position(|x| x == t).map_or(0, |i| i + 1));
            v
        }
    }
    /// give up control in state `st`; returns when this thread may run again
    pub fn wait(mut g: G, st: St) {
        let me = me(); g.th[me] = st;
        let v = g.candidates();
        if v.is_empty() { let m = "deadlock: every thread waits"; unsafe { __sym_fail(m.as_ptr(), m.len() as u64) } }
        let k = g.forced(v.len());
        g.delay(&v[..k]); g.cur = v[k]; go(g, me);
    }
    fn go(mut g: G, me: usize) {
        if g.cur != me { CV.notify_all(); while g.cur != me { g.sleep(); } }
        g.th[me] = St::Ready;
    }
    /// a point where another thread may be run instead (uses up the budget)
    pub fn yield_point() {
        let mut g = lock(); let me = me(); if g.budget == 0 { return; }
        g.th[me] = St::Ready;
        let mut v = g.candidates(); if v.len() == 1 && v[0] != me { let k = v[0]; g.cur = k; return go(g, me); }
        v.retain(|t| *t != me); if v.is_empty() { return; }
        let k = choose(v.len() + 1, "preempt"); if k == 0 { return; }
        g.budget -= 1; g.delay(&[me]); g.delay(&v[..k - 1]); g.cur = v[k - 1]; go(g, me);
    }
    pub fn end_thread() { let mut g = lock(); let me = me(); ME.with(|m| m.set(usize::MAX)); g.th[me] = St::Done; let v = g.candidates(); if v.is_empty() { let m = "deadlock: every thread waits"; unsafe { __sym_fail(m.as_ptr(), m.len() as u64) } } let k = g.forced(v.len()); g.delay(&v[..k]); g.cur = v[k]; CV.notify_all(); }
    pub fn enter(me: usize) { ME.with(|m| m.set(me)); let mut g = lock(); while g.cur != me { g.sleep(); } g.th[me] = St::Ready; }
    /// switch threads also where the code under test loads or stores an atomic or takes a lock (calls inserted by tools/hooks.py)
    pub fn hooks(on: bool) { lock().hooks = on; }
    // not while a thread starts or ends: it takes locks of the standard library then, at any time
    fn hooked() -> bool { me() != usize::MAX && !HOLD.with(|h| h.get()) && lock().hooks }
    #[no_mangle] pub extern "C" fn __osm_yield() { if hooked() { yield_point(); } }
    /// a lock of the code under test is held by a thread that was interrupted: let others run until it is free
    #[no_mangle] pub extern "C" fn __osm_wait(p: *const u32) {
        let a = p as usize; let s = &S as *const _ as usize;
        if a >= s && a < s + std::mem::size_of_val(&S) { return; }
        if hooked() && unsafe { *p } != 0 { wait(lock(), St::Lock(a)); }
    }
    /// wait until the word is 0, as an interrupted thread that waits for a lock of the harness
    pub fn wait_for(p: &std::sync::atomic::AtomicU32) { if p.load(std::sync::atomic::Ordering::SeqCst) != 0 { wait(lock(), St::Lock(p as *const _ as usize)) } }
    #[used] static KEEP: (extern "C" fn(), extern "C" fn(*const u32)) = (__osm_yield, __osm_wait);
    pub fn note(m: &str) { unsafe { __sym_note(m.as_ptr(), m.len() as u64) } }
}
pub mod thread_pool_builder {
    use crate::{queue_type::QueueType, shutdown_mode::ShutdownMode, thread_pool::ThreadPool};
    pub struct ThreadPoolBuilder { name: String, tasks: usize, queue_size: usize, h: fn(String, String), mode: ShutdownMode }
    impl Default for ThreadPoolBuilder { fn default() -> Self { Self::new() } }
    impl ThreadPoolBuilder {
        pub fn new() -> Self { ThreadPoolBuilder { name: "unnamed".to_string(), tasks: 1, queue_size: 16, h: |_, _| panic!("Thread ended with an error"), mode: ShutdownMode::Immediate } }
        pub fn with_name(&mut self, n: String) -> &mut Self { self.name = n; self }
        pub fn with_name_str(&mut self, n: &str) -> &mut Self { self.name = n.to_string(); self }
        pub fn with_tasks(&mut self, t: usize) -> &mut Self { self.tasks = t; self }
        pub fn with_shutdown_mode(&mut self, m: ShutdownMode) -> &mut Self { self.mode = m; self }
        pub fn with_queue_type(&mut self, _: QueueType) -> &mut Self { self }
        pub fn with_queue_size(&mut self, n: usize) -> &mut Self { self.queue_size = n; self }
        pub fn with_join_error_handler(&mut self, h: fn(String, String)) -> &mut Self { self.h = h; self }
        pub fn build(&self) -> Result<ThreadPool, anyhow::Error> { ThreadPool::new(self.name.clone(), self.tasks, self.queue_size, self.h, self.mode.clone()) }
    }
}
pub mod thread_pool {
    use crate::{command::Command, sched::*, shutdown_mode::ShutdownMode};
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::sync::{Arc, Mutex};
    use std::thread::{JoinHandle, LocalKey};
    use std::time::Duration;
    type Cmd = Box<dyn Command + Send + Sync>;
    enum Item { User(Cmd), All(Arc<dyn Fn() + Send + Sync>, usize), Nop }
    pub struct ThreadPool { name: String, tasks: usize, id: usize, q: Arc<Mutex<VecDeque<Item>>>, threads: Vec<(usize, JoinHandle<Result<(), anyhow::Error>>)>, h: fn(String, String), mode: ShutdownMode, expired: bool }
    fn barrier(b: usize) { let mut g = lock(); g.barriers[b] -= 1; let s = if g.barriers[b] == 0 { Some(()) } else { None }; let _ = s; wait(g, St::Barrier(b)); }
    fn worker(id: usize, me: usize, q: Arc<Mutex<VecDeque<Item>>>) -> Result<(), anyhow::Error> {
        struct End; impl Drop for End { fn drop(&mut self) { end_thread(); } }
        enter(me); let _end = End;
        let mut r = Ok(());
        loop {
            { let g = lock(); if g.pools[id].stopped { break; } if g.pools[id].len == 0 { wait(g, St::Idle(id)); continue; } }
            let it = { let mut g = lock(); g.pools[id].len -= 1; q.lock().unwrap().pop_front() };
            match it {
                Some(Item::User(c)) => { { let mut g = lock(); g.fresh[me] = false; let e = g.eager; drop(g); if e { yield_point(); } } if let Err(e) = c.execute() { r = Err(e); } drop(c); { let g = lock(); if !g.pools[id].stopped { wait(g, St::Idle(id)); } } }
                Some(Item::All(f, b)) => { f(); drop(f); barrier(b); }
                _ => {}
            }
        }
        r
    }
    impl ThreadPool {
        pub(crate) fn new(name: String, tasks: usize, cap: usize, h: fn(String, String), mode: ShutdownMode) -> Result<ThreadPool, anyhow::Error> {
            assert!(cap > 0);
            let q = Arc::new(Mutex::new(VecDeque::new())); let mut threads = vec![];
            let id = { let mut g = lock(); g.pools.push(Pool { len: 0, cap, stopped: false, started: true, lead: false }); g.pools.len() - 1 };
            for _ in 0..tasks {
                let me = { let mut g = lock(); g.th.push(St::Idle(id)); g.fresh.push(true); g.th.len() - 1 };
                let q = q.clone();
                threads.push((me, std::thread::Builder::new().spawn(move || worker(id, me, q))?));
            }
            Ok(ThreadPool { name, tasks, id, q, threads, h, mode, expired: false })
        }
        pub fn tasks(&self) -> usize { self.tasks }
        fn put(&self, it: Item) { loop { let mut g = lock(); if g.pools[self.id].len < g.pools[self.id].cap { g.pools[self.id].len += 1; self.q.lock().unwrap().push_back(it); return; } wait(g, St::Full(self.id)); } }
        pub fn in_all_threads(&self, f: Arc<dyn Fn() + Send + Sync>) {
            assert!(!self.expired);
            let b = { let mut g = lock(); g.barriers.push(self.tasks + 1); g.barriers.len() - 1 };
            for _ in 0..self.tasks { self.put(Item::All(f.clone(), b)); }
            drop(f);
            barrier(b);
        }
        pub fn in_all_threads_mut(&self, f: Arc<Mutex<dyn FnMut() + Send + Sync>>) { self.in_all_threads(Arc::new(move || { let mut g = f.lock().unwrap(); g() })); }
        pub fn set_thread_local<T>(&self, k: &'static LocalKey<RefCell<T>>, val: T) where T: Sync + Send + Clone {
            // the closure is not 'static for every T, as in the original it is wrapped; T here is always owned data
            let f: Arc<dyn Fn() + Send + Sync + '_> = Arc::new(move || { k.with(|v| { v.replace(val.clone()); }) });
            let f: Arc<dyn Fn() + Send + Sync> = unsafe { std::mem::transmute(f) };
            self.in_all_threads(f);
        }
        pub fn shutdown(&mut self) {
            self.expired = true;
            if let ShutdownMode::CompletePending = self.mode { let g = lock(); if g.pools[self.id].len > 0 { wait(g, St::Empty(self.id)); } }
            { lock().pools[self.id].stopped = true; }
            for _ in 0..self.tasks { self.put(Item::Nop); }
        }
        pub fn join(&mut self) -> Result<(), anyhow::Error> {
            let mut errs = Vec::<String>::new();
            while let Some((t, j)) = self.threads.pop() {
                { let g = lock(); if g.th[t] != St::Done { wait(g, St::Join(t)); } }
                let m = match j.join() { Ok(Ok(())) => continue, Ok(Err(e)) => format!("{e:?}"), Err(e) => e.downcast_ref::<&'static str>().map(|s| s.to_string()).unwrap_or("Unknown error".to_string()) };
                errs.push(m.clone()); (self.h)(self.name.clone(), m);
            }
            if errs.is_empty() { Ok(()) } else { Err(anyhow::anyhow!("Errors occurred while joining threads in the {} pool: {}", self.name, errs.join(", "))) }
        }
        pub fn submit(&self, c: Cmd) { assert!(!self.expired); yield_point(); self.put(Item::User(c)); }
        pub fn unchecked_submit(&self, c: Cmd) { self.put(Item::User(c)); }
        pub fn try_submit(&self, c: Cmd, _: Duration) -> Option<Cmd> { self.submit(c); None }
    }
}
