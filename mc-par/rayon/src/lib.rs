//! Stand-in for rayon: the tasks of a parallel operation run one at a time under a scheduler that
//! decides, task by task, which pending task runs next and on which of two worker threads.  The
//! decisions form a tree that `kmc::explore` walks completely (stateless model checking).
//!
//! Reductions additionally choose how the sequence is cut into contiguous pieces.
use std::sync::{Arc, Mutex};

pub mod kmc {
    use std::cell::RefCell;
    pub(crate) struct Ctl {
        /// (chosen, number of alternatives)
        pub path: Vec<(usize, usize)>,
        pub at: usize,
        pub deviations: usize,
        pub max_dev: usize,
        pub tasks: u64,
    }
    thread_local! {
        pub(crate) static CTL: RefCell<Option<Ctl>> = const { RefCell::new(None) };
    }
    /// Alternative 0 is the sequential one; any other is a deviation.
    pub(crate) fn choose(n: usize) -> usize {
        CTL.with(|c| {
            let mut c = c.borrow_mut();
            let Some(c) = c.as_mut() else { return 0 };
            let n = if c.deviations >= c.max_dev { 1 } else { n.max(1) };
            let k = if c.at < c.path.len() {
                // A replayed prefix must be offered the same alternatives.
                assert_eq!(c.path[c.at].1, n, "the program is not deterministic under a fixed schedule");
                c.path[c.at].0
            } else {
                c.path.push((0, n));
                0
            };
            c.at += 1;
            if k != 0 {
                c.deviations += 1;
            }
            k
        })
    }
    pub(crate) fn count_task() {
        CTL.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                c.tasks += 1;
            }
        })
    }
    #[derive(Default, Debug, Clone, Copy)]
    pub struct Stats {
        pub schedules: u64,
        pub tasks: u64,
        pub complete: bool,
    }
    /// Run `f` under every schedule with at most `max_dev` deviations from the sequential one.
    /// Stops early at `limit` schedules (then `complete` is false) or when `f` returns false.
    pub fn explore(max_dev: usize, limit: u64, mut f: impl FnMut(&str) -> bool) -> Stats {
        let mut path: Vec<(usize, usize)> = Vec::new();
        let mut st = Stats { complete: true, ..Default::default() };
        loop {
            CTL.with(|c| *c.borrow_mut() = Some(Ctl { path: path.clone(), at: 0, deviations: 0, max_dev, tasks: 0 }));
            let name: Vec<String> = path.iter().map(|p| p.0.to_string()).collect();
            let go = f(&name.join("."));
            let c = CTL.with(|c| c.borrow_mut().take()).unwrap();
            st.schedules += 1;
            st.tasks += c.tasks;
            path = c.path;
            if !go {
                return st;
            }
            while let Some(&(k, n)) = path.last() {
                if k + 1 < n {
                    break;
                }
                path.pop();
            }
            match path.last_mut() {
                None => return st,
                Some(l) => l.0 += 1,
            }
            if st.schedules >= limit {
                st.complete = false;
                return st;
            }
        }
    }
}

// ------------------------------------------------------------------ workers
type Job<'a> = Box<dyn FnOnce() + Send + 'a>;
struct Worker {
    tx: std::sync::mpsc::Sender<(Job<'static>, std::sync::mpsc::Sender<std::thread::Result<()>>)>,
}
thread_local! {
    /// The second worker of each exploring thread.
    static WORKER: std::cell::RefCell<Option<Worker>> = const { std::cell::RefCell::new(None) };
}
/// Run a task to completion on worker `w` (0 = the calling thread).
fn run_on<'a>(w: usize, job: Job<'a>) {
    kmc::count_task();
    if w == 0 {
        job();
        return;
    }
    let (dtx, drx) = std::sync::mpsc::channel();
    // Sound: this call does not return before the job has finished.
    let job: Job<'static> = unsafe { std::mem::transmute::<Job<'a>, Job<'static>>(job) };
    WORKER.with(|ws| {
        let mut ws = ws.borrow_mut();
        let w = ws.get_or_insert_with(|| {
            let (tx, rx) = std::sync::mpsc::channel::<(Job<'static>, std::sync::mpsc::Sender<std::thread::Result<()>>)>();
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn(move || {
                    while let Ok((j, d)) = rx.recv() {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j));
                        let _ = d.send(r);
                    }
                })
                .unwrap();
            Worker { tx }
        });
        w.tx.send((job, dtx)).unwrap();
    });
    if let Err(p) = drx.recv().unwrap() {
        std::panic::resume_unwind(p);
    }
}
fn nworkers(n: usize) -> usize {
    if n <= 6 {
        2
    } else {
        1
    }
}

// ------------------------------------------------------------------ parallel iterators
type Task<'a, T> = Box<dyn FnOnce() -> T + Send + 'a>;
/// A parallel iterator: one pending task per item (a task may yield nothing, for filters).
pub struct Par<'a, T> {
    tasks: Vec<Task<'a, Vec<T>>>,
}
impl<'a, T: Send + 'a> Par<'a, T> {
    fn of(items: impl Iterator<Item = T>) -> Self {
        Par { tasks: items.map(|v| Box::new(move || vec![v]) as Task<'a, Vec<T>>).collect() }
    }
    /// Execute every task, in a chosen order; `stop` tells whether a result allows the rest to be
    /// skipped (whether it is skipped is itself a choice).
    fn execute(self, stop: impl Fn(&[T]) -> bool) -> Vec<Option<Vec<T>>> {
        let n = self.tasks.len();
        let mut out: Vec<Option<Vec<T>>> = (0..n).map(|_| None).collect();
        let mut pending: Vec<(usize, Task<'a, Vec<T>>)> = self.tasks.into_iter().enumerate().collect();
        // Kept in order, popped from the front by index; large sets use a deque-like cursor.
        pending.reverse();
        let nw = nworkers(n);
        let mut may_stop = false;
        while !pending.is_empty() {
            if may_stop && kmc::choose(2) == 1 {
                break;
            }
            let k = pending.len();
            let c = kmc::choose(k * nw);
            let (i, t) = pending.remove(k - 1 - c / nw);
            let slot = Mutex::new(None);
            run_on(c % nw, Box::new(|| *slot.lock().unwrap() = Some(t())));
            let r = slot.into_inner().unwrap().unwrap();
            may_stop |= stop(&r);
            out[i] = Some(r);
        }
        out
    }
    fn run(self) -> Vec<T> {
        self.execute(|_| false).into_iter().flat_map(|v| v.unwrap()).collect()
    }
    fn run_grouped(self) -> Vec<Vec<T>> {
        self.execute(|_| false).into_iter().map(|v| v.unwrap()).collect()
    }
    /// Cut a sequence into contiguous non-empty pieces, each cut being a choice.
    fn cuts(n: usize) -> Vec<usize> {
        let mut v = Vec::new();
        for i in 1..n {
            if kmc::choose(2) == 1 {
                v.push(i);
            }
        }
        v.push(n);
        v
    }
}
pub trait FromPar<T>: Sized {
    fn from_par(p: Par<'_, T>) -> Self;
}
impl<T: Send> FromPar<T> for Vec<T> {
    fn from_par(p: Par<'_, T>) -> Self {
        p.run()
    }
}
impl<T: Send> FromPar<T> for std::collections::VecDeque<T> {
    fn from_par(p: Par<'_, T>) -> Self {
        p.run().into()
    }
}
impl<K: Send + Eq + std::hash::Hash, V: Send> FromPar<(K, V)> for std::collections::HashMap<K, V> {
    fn from_par(p: Par<'_, (K, V)>) -> Self {
        p.run().into_iter().collect()
    }
}
impl<K: Send + Ord, V: Send> FromPar<(K, V)> for std::collections::BTreeMap<K, V> {
    fn from_par(p: Par<'_, (K, V)>) -> Self {
        p.run().into_iter().collect()
    }
}
impl<E: Send> FromPar<Result<(), E>> for Result<(), E> {
    fn from_par(p: Par<'_, Result<(), E>>) -> Self {
        p.try_for_each(|r| r)
    }
}
impl<T: Send, E: Send> FromPar<Result<T, E>> for Result<Vec<T>, E> {
    fn from_par(p: Par<'_, Result<T, E>>) -> Self {
        let all = p.execute(|r| r.iter().any(|x| x.is_err()));
        let errs = all.iter().flatten().flatten().filter(|r| r.is_err()).count();
        if errs > 0 {
            let k = kmc::choose(errs);
            return Err(all.into_iter().flatten().flatten().filter_map(|r| r.err()).nth(k).unwrap());
        }
        all.into_iter().flatten().flatten().collect()
    }
}
impl<T: Send> FromPar<Option<T>> for Option<Vec<T>> {
    fn from_par(p: Par<'_, Option<T>>) -> Self {
        p.execute(|r| r.iter().any(|x| x.is_none())).into_iter().map(|v| v.map(|v| v.into_iter().next().unwrap())).map(|v| v.flatten()).collect()
    }
}
/// Marker traits so that `use rayon::prelude::*` and bounds naming them resolve.
pub trait ParallelIterator: Sized {
    type Item: Send;
}
pub trait IndexedParallelIterator: ParallelIterator {}
impl<T: Send> ParallelIterator for Par<'_, T> {
    type Item = T;
}
impl<T: Send> IndexedParallelIterator for Par<'_, T> {}

impl<'a, T: Send + 'a> Par<'a, T> {
    fn wrap<U: Send + 'a>(self, f: Arc<dyn Fn(Vec<T>) -> Vec<U> + Send + Sync + 'a>) -> Par<'a, U> {
        Par {
            tasks: self
                .tasks
                .into_iter()
                .map(|t| {
                    let f = f.clone();
                    Box::new(move || f(t())) as Task<'a, Vec<U>>
                })
                .collect(),
        }
    }
    pub fn map<U: Send + 'a, F: Fn(T) -> U + Send + Sync + 'a>(self, f: F) -> Par<'a, U> {
        self.wrap(Arc::new(move |v| v.into_iter().map(&f).collect()))
    }
    pub fn map_init<I: 'a, U: Send + 'a>(self, init: impl Fn() -> I + Send + Sync + 'a, f: impl Fn(&mut I, T) -> U + Send + Sync + 'a) -> Par<'a, U> {
        // The initial value is created anew for every task, or once for all of them.
        struct Shared<I>(Mutex<Option<I>>);
        unsafe impl<I> Send for Shared<I> {}
        unsafe impl<I> Sync for Shared<I> {}
        let reuse = kmc::choose(2) == 1;
        let s = Shared(Mutex::new(None));
        self.map(move |v| {
            let s = &s;
            let mut g = s.0.lock().unwrap();
            if !reuse || g.is_none() {
                *g = Some(init());
            }
            f(g.as_mut().unwrap(), v)
        })
    }
    pub fn for_each_init<I: 'a>(self, init: impl Fn() -> I + Send + Sync + 'a, f: impl Fn(&mut I, T) + Send + Sync + 'a) {
        self.map_init(init, f).run();
    }
    pub fn try_for_each_init<I: 'a, E: Send + 'a>(self, init: impl Fn() -> I + Send + Sync + 'a, f: impl Fn(&mut I, T) -> Result<(), E> + Send + Sync + 'a) -> Result<(), E> {
        self.map_init(init, f).collect()
    }
    pub fn filter<F: Fn(&T) -> bool + Send + Sync + 'a>(self, f: F) -> Par<'a, T> {
        self.wrap(Arc::new(move |v| v.into_iter().filter(|x| f(x)).collect()))
    }
    pub fn filter_map<U: Send + 'a, F: Fn(T) -> Option<U> + Send + Sync + 'a>(self, f: F) -> Par<'a, U> {
        self.wrap(Arc::new(move |v| v.into_iter().filter_map(&f).collect()))
    }
    pub fn flat_map_iter<U: Send + 'a, I: IntoIterator<Item = U>, F: Fn(T) -> I + Send + Sync + 'a>(self, f: F) -> Par<'a, U> {
        self.wrap(Arc::new(move |v| v.into_iter().flat_map(&f).collect()))
    }
    pub fn inspect<F: Fn(&T) + Send + Sync + 'a>(self, f: F) -> Par<'a, T> {
        self.map(move |v| {
            f(&v);
            v
        })
    }
    pub fn enumerate(self) -> Par<'a, (usize, T)> {
        Par {
            tasks: self
                .tasks
                .into_iter()
                .enumerate()
                .map(|(i, t)| Box::new(move || t().into_iter().map(|v| (i, v)).collect()) as Task<'a, Vec<(usize, T)>>)
                .collect(),
        }
    }
    pub fn zip<J: IntoParallelIterator<'a>>(self, o: J) -> Par<'a, (T, J::Item)>
    where
        J::Item: 'a,
    {
        let o = o.into_par_iter();
        Par {
            tasks: self
                .tasks
                .into_iter()
                .zip(o.tasks)
                .map(|(a, b)| Box::new(move || a().into_iter().zip(b()).collect()) as Task<'a, Vec<(T, J::Item)>>)
                .collect(),
        }
    }
    pub fn zip_eq<J: IntoParallelIterator<'a>>(self, o: J) -> Par<'a, (T, J::Item)>
    where
        J::Item: 'a,
    {
        self.zip(o)
    }
    pub fn chain<J: IntoParallelIterator<'a, Item = T>>(mut self, o: J) -> Par<'a, T> {
        self.tasks.extend(o.into_par_iter().tasks);
        self
    }
    pub fn rev(mut self) -> Par<'a, T> {
        self.tasks.reverse();
        self
    }
    pub fn skip(mut self, n: usize) -> Par<'a, T> {
        self.tasks.drain(..n.min(self.tasks.len()));
        self
    }
    pub fn take(mut self, n: usize) -> Par<'a, T> {
        self.tasks.truncate(n);
        self
    }
    pub fn step_by(self, n: usize) -> Par<'a, T> {
        Par { tasks: self.tasks.into_iter().step_by(n).collect() }
    }
    pub fn chunks(self, n: usize) -> Par<'a, Vec<T>> {
        let mut it = self.tasks.into_iter().peekable();
        let mut tasks = Vec::new();
        while it.peek().is_some() {
            let c: Vec<Task<'a, Vec<T>>> = it.by_ref().take(n).collect();
            tasks.push(Box::new(move || vec![c.into_iter().flat_map(|t| t()).collect::<Vec<T>>()]) as Task<'a, Vec<Vec<T>>>);
        }
        Par { tasks }
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
    pub fn len(&self) -> usize {
        self.tasks.len()
    }
    pub fn is_empty(&self) -> bool {
        self.tasks.is_empty()
    }
    pub fn for_each<F: Fn(T) + Send + Sync + 'a>(self, f: F) {
        self.map(f).run();
    }
    pub fn try_for_each<E: Send + 'a, F: Fn(T) -> Result<(), E> + Send + Sync + 'a>(self, f: F) -> Result<(), E> {
        self.map(f).collect::<Result<Vec<()>, E>>().map(|_| ())
    }
    pub fn collect<C: FromPar<T>>(self) -> C {
        C::from_par(self)
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.run();
    }
    pub fn count(self) -> usize {
        self.run().len()
    }
    pub fn sum<S: std::iter::Sum<T> + std::iter::Sum<S>>(self) -> S {
        let mut it = self.run().into_iter();
        let n = it.len();
        let mut from = 0;
        Self::cuts(n)
            .into_iter()
            .map(|c| {
                let s: S = it.by_ref().take(c - from).sum();
                from = c;
                s
            })
            .collect::<Vec<S>>()
            .into_iter()
            .sum()
    }
    pub fn reduce(self, id: impl Fn() -> T, op: impl Fn(T, T) -> T) -> T {
        let mut it = self.run().into_iter();
        let n = it.len();
        let mut from = 0;
        let parts: Vec<T> = Self::cuts(n)
            .into_iter()
            .map(|c| {
                let s = it.by_ref().take(c - from).fold(id(), &op);
                from = c;
                s
            })
            .collect();
        parts.into_iter().reduce(&op).unwrap_or_else(&id)
    }
    pub fn reduce_with(self, op: impl Fn(T, T) -> T) -> Option<T> {
        let mut it = self.run().into_iter();
        let n = it.len();
        if n == 0 {
            return None;
        }
        let mut from = 0;
        let parts: Vec<T> = Self::cuts(n)
            .into_iter()
            .map(|c| {
                let s = it.by_ref().take(c - from).reduce(&op).unwrap();
                from = c;
                s
            })
            .collect();
        parts.into_iter().reduce(&op)
    }
    pub fn fold<U: Send + 'a>(self, id: impl Fn() -> U, op: impl Fn(U, T) -> U) -> Par<'a, U> {
        let mut it = self.run_grouped().into_iter();
        let n = it.len();
        let mut from = 0;
        let parts: Vec<U> = Self::cuts(n)
            .into_iter()
            .map(|c| {
                let s = it.by_ref().take(c - from).flatten().fold(id(), &op);
                from = c;
                s
            })
            .collect();
        Par::of(parts.into_iter())
    }
    pub fn try_reduce_with<V: Send, E: Send>(self, op: impl Fn(V, V) -> Result<V, E>) -> Option<Result<V, E>>
    where
        T: Into<Result<V, E>>,
    {
        let mut it = self.run().into_iter().map(|v| v.into());
        let first = it.next()?;
        Some(it.fold(first, |a, b| op(a?, b?)))
    }
    pub fn any(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> bool {
        self.map(f).run().into_iter().any(|b| b)
    }
    pub fn all(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> bool {
        self.map(f).run().into_iter().all(|b| b)
    }
    pub fn find_any(self, f: impl Fn(&T) -> bool + Send + Sync + 'a) -> Option<T> {
        let mut v: Vec<T> = self.filter(f).run();
        if v.is_empty() {
            None
        } else {
            Some(v.remove(kmc::choose(v.len())))
        }
    }
    pub fn find_first(self, f: impl Fn(&T) -> bool + Send + Sync + 'a) -> Option<T> {
        self.filter(f).run().into_iter().next()
    }
    pub fn max_by(self, f: impl Fn(&T, &T) -> std::cmp::Ordering) -> Option<T> {
        self.run().into_iter().max_by(f)
    }
    pub fn min_by(self, f: impl Fn(&T, &T) -> std::cmp::Ordering) -> Option<T> {
        self.run().into_iter().min_by(f)
    }
    pub fn unzip<A: Send + 'a, B: Send + 'a>(self) -> (Vec<A>, Vec<B>)
    where
        T: Into<(A, B)>,
    {
        self.run().into_iter().map(|v| v.into()).unzip()
    }
}
impl<'a, 'b: 'a, T: Copy + Send + Sync + 'b> Par<'a, &'b T> {
    pub fn copied(self) -> Par<'a, T> {
        self.map(|v| *v)
    }
}
impl<'a, 'b: 'a, T: Clone + Send + Sync + 'b> Par<'a, &'b T> {
    pub fn cloned(self) -> Par<'a, T> {
        self.map(|v| v.clone())
    }
}

// ------------------------------------------------------------------ sources
pub trait IntoParallelIterator<'a> {
    type Item: Send;
    fn into_par_iter(self) -> Par<'a, Self::Item>;
}
impl<'a, T: Send + 'a> IntoParallelIterator<'a> for Par<'a, T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        self
    }
}
impl<'a, T: Send + 'a> IntoParallelIterator<'a> for Vec<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        Par::of(self.into_iter())
    }
}
impl<'a, T: Sync> IntoParallelIterator<'a> for &'a [T] {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<'a, &'a T> {
        Par::of(self.iter())
    }
}
impl<'a, T: Sync> IntoParallelIterator<'a> for &'a Vec<T> {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<'a, &'a T> {
        Par::of(self.iter())
    }
}
impl<'a, T: Send> IntoParallelIterator<'a> for &'a mut [T] {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<'a, &'a mut T> {
        Par::of(self.iter_mut())
    }
}
impl<'a, T: Send> IntoParallelIterator<'a> for &'a mut Vec<T> {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<'a, &'a mut T> {
        Par::of(self.iter_mut())
    }
}
macro_rules! ranges {
    ($($t:ty),*) => {$(
        impl<'a> IntoParallelIterator<'a> for std::ops::Range<$t> {
            type Item = $t;
            fn into_par_iter(self) -> Par<'a, $t> {
                Par::of(self)
            }
        }
        impl<'a> IntoParallelIterator<'a> for std::ops::RangeInclusive<$t> {
            type Item = $t;
            fn into_par_iter(self) -> Par<'a, $t> {
                Par::of(self)
            }
        }
    )*};
}
ranges!(usize, u32, u64, i32, i64);
pub trait IntoParallelRefIterator {
    type Elem;
    fn par_iter(&self) -> Par<'_, &Self::Elem>
    where
        Self::Elem: Sync;
}
pub trait IntoParallelRefMutIterator {
    type Elem;
    fn par_iter_mut(&mut self) -> Par<'_, &mut Self::Elem>
    where
        Self::Elem: Send;
}
impl<T> IntoParallelRefIterator for [T] {
    type Elem = T;
    fn par_iter(&self) -> Par<'_, &T>
    where
        T: Sync,
    {
        Par::of(self.iter())
    }
}
impl<T> IntoParallelRefMutIterator for [T] {
    type Elem = T;
    fn par_iter_mut(&mut self) -> Par<'_, &mut T>
    where
        T: Send,
    {
        Par::of(self.iter_mut())
    }
}
pub trait ParallelSlice<T: Sync> {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]>;
    fn par_chunks_exact(&self, n: usize) -> Par<'_, &[T]>;
    fn par_windows(&self, n: usize) -> Par<'_, &[T]>;
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
        Par::of(self.chunks(n))
    }
    fn par_chunks_exact(&self, n: usize) -> Par<'_, &[T]> {
        Par::of(self.chunks_exact(n))
    }
    fn par_windows(&self, n: usize) -> Par<'_, &[T]> {
        Par::of(self.windows(n))
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::of(self.chunks_mut(n))
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::of(self.chunks_exact_mut(n))
    }
}
pub fn join<A: Send, B: Send>(a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
    let (ra, rb) = (Mutex::new(None), Mutex::new(None));
    let ja: Job = Box::new(|| *ra.lock().unwrap() = Some(a()));
    let jb: Job = Box::new(|| *rb.lock().unwrap() = Some(b()));
    let c = kmc::choose(4);
    if c & 1 == 0 {
        run_on(c >> 1, ja);
        run_on(0, jb);
    } else {
        run_on(c >> 1, jb);
        run_on(0, ja);
    }
    (ra.into_inner().unwrap().unwrap(), rb.into_inner().unwrap().unwrap())
}
pub fn current_num_threads() -> usize {
    2
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub mod iter {
    pub use crate::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
}
pub mod slice {
    pub use crate::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
    pub use crate::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator, ParallelSlice, ParallelSliceMut,
    };
}
