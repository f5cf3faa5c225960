//! Stand-in for `rayon`: a thread pool whose schedule the simulator decides.
//!
//! Items become tasks. At the end of a chain the tasks of the whole chain run one by one in an order
//! drawn by the installed scheduler; indexed iterators still put results in index order, as rayon
//! does, while `par_bridge`, `for_each`, `reduce` and the like show the order of execution.
use std::cell::RefCell;

thread_local! {
    static SCHEDULE: RefCell<Option<Box<dyn FnMut(usize) -> usize>>> = const { RefCell::new(None) };
}
/// `f(n)` picks which of `n` tasks that are ready runs next
pub fn install_schedule(f: Option<Box<dyn FnMut(usize) -> usize>>) {
    SCHEDULE.with(|s| *s.borrow_mut() = f);
}
fn pick(n: usize) -> usize {
    // taken out while asked: the schedule must not be re-entered
    let f = SCHEDULE.with(|s| s.borrow_mut().take());
    match f {
        Some(mut f) => {
            let k = f(n).min(n - 1);
            SCHEDULE.with(|s| {
                let mut s = s.borrow_mut();
                if s.is_none() {
                    *s = Some(f)
                }
            });
            k
        }
        None => 0,
    }
}
type Task<'a, T> = Box<dyn FnOnce() -> Option<T> + 'a>;

/// a parallel iterator; `Option` because filters drop items
pub struct Par<'a, T> {
    tasks: Vec<Task<'a, T>>,
    ordered: bool,
}
impl<'a, T: 'a> Par<'a, T> {
    fn new(items: impl IntoIterator<Item = T>, ordered: bool) -> Self {
        Par { tasks: items.into_iter().map(|x| Box::new(move || Some(x)) as Task<'a, T>).collect(), ordered }
    }
    /// run everything; (order of execution, index, value)
    fn run(self) -> Vec<T> {
        let n = self.tasks.len();
        let mut left: Vec<(usize, Task<'a, T>)> = self.tasks.into_iter().enumerate().collect();
        let mut done: Vec<(usize, Option<T>)> = Vec::with_capacity(n);
        while !left.is_empty() {
            let k = pick(left.len());
            let (i, t) = left.swap_remove(k);
            done.push((i, t()));
        }
        if self.ordered {
            done.sort_by_key(|x| x.0);
        }
        done.into_iter().filter_map(|x| x.1).collect()
    }
    fn wrap<U: 'a>(self, f: impl Fn(Option<T>) -> Option<U> + 'a) -> Par<'a, U> {
        let f = std::rc::Rc::new(f);
        Par {
            ordered: self.ordered,
            tasks: self
                .tasks
                .into_iter()
                .map(|t| {
                    let f = f.clone();
                    Box::new(move || f(t())) as Task<'a, U>
                })
                .collect(),
        }
    }
    pub fn map<U: 'a>(self, f: impl Fn(T) -> U + 'a) -> Par<'a, U> {
        self.wrap(move |x| x.map(&f))
    }
    pub fn filter(self, f: impl Fn(&T) -> bool + 'a) -> Par<'a, T> {
        self.wrap(move |x| x.filter(|x| f(x)))
    }
    pub fn filter_map<U: 'a>(self, f: impl Fn(T) -> Option<U> + 'a) -> Par<'a, U> {
        self.wrap(move |x| x.and_then(&f))
    }
    pub fn inspect(self, f: impl Fn(&T) + 'a) -> Par<'a, T> {
        self.wrap(move |x| x.inspect(&f))
    }
    pub fn map_init<I, U: 'a>(self, init: impl Fn() -> I + 'a, f: impl Fn(&mut I, T) -> U + 'a) -> Par<'a, U> {
        self.wrap(move |x| x.map(|x| f(&mut init(), x)))
    }
    pub fn map_with<I: Clone + 'a, U: 'a>(self, init: I, f: impl Fn(&mut I, T) -> U + 'a) -> Par<'a, U> {
        self.wrap(move |x| x.map(|x| f(&mut init.clone(), x)))
    }
    pub fn flat_map_iter<I: IntoIterator>(self, f: impl Fn(T) -> I + 'a) -> Par<'a, I::Item>
    where
        I::Item: 'a,
    {
        let ordered = self.ordered;
        let all: Vec<Vec<I::Item>> = self.map(move |x| f(x).into_iter().collect()).run();
        Par::new(all.into_iter().flatten(), ordered)
    }
    pub fn flat_map<I: IntoParallelIterator<'a>>(self, f: impl Fn(T) -> I + 'a) -> Par<'a, I::Item>
    where
        I::Item: 'a,
    {
        let ordered = self.ordered;
        let all: Vec<Vec<I::Item>> = self.map(move |x| f(x).into_par_iter().run()).run();
        Par::new(all.into_iter().flatten(), ordered)
    }
    pub fn enumerate(self) -> Par<'a, (usize, T)> {
        Par {
            ordered: self.ordered,
            tasks: self
                .tasks
                .into_iter()
                .enumerate()
                .map(|(i, t)| Box::new(move || t().map(|x| (i, x))) as Task<'a, (usize, T)>)
                .collect(),
        }
    }
    pub fn zip<I: IntoParallelIterator<'a>>(self, other: I) -> Par<'a, (T, I::Item)>
    where
        I::Item: 'a,
    {
        Par {
            ordered: self.ordered,
            tasks: self
                .tasks
                .into_iter()
                .zip(other.into_par_iter().tasks)
                .map(|(a, b)| {
                    Box::new(move || {
                        let a = a();
                        let b = b();
                        Some((a?, b?))
                    }) as Task<'a, (T, I::Item)>
                })
                .collect(),
        }
    }
    pub fn chain<I: IntoParallelIterator<'a, Item = T>>(mut self, other: I) -> Par<'a, T> {
        self.tasks.extend(other.into_par_iter().tasks);
        self
    }
    pub fn rev(mut self) -> Self {
        self.tasks.reverse();
        self
    }
    pub fn take(mut self, n: usize) -> Self {
        self.tasks.truncate(n);
        self
    }
    pub fn skip(mut self, n: usize) -> Self {
        self.tasks.drain(..n.min(self.tasks.len()));
        self
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
    pub fn chunks(self, n: usize) -> Par<'a, Vec<T>> {
        let mut v = vec![];
        let mut it = self.tasks.into_iter().peekable();
        while it.peek().is_some() {
            let c: Vec<Task<'a, T>> = it.by_ref().take(n).collect();
            v.push(Box::new(move || Some(c.into_iter().filter_map(|t| t()).collect())) as Task<'a, Vec<T>>);
        }
        Par { tasks: v, ordered: self.ordered }
    }
    pub fn for_each(mut self, f: impl Fn(T) + 'a) {
        self.ordered = false;
        self.map(f).run();
    }
    pub fn for_each_with<I: Clone + 'a>(mut self, init: I, f: impl Fn(&mut I, T) + 'a) {
        self.ordered = false;
        self.map_with(init, f).run();
    }
    pub fn try_for_each<E: 'a>(mut self, f: impl Fn(T) -> Result<(), E> + 'a) -> Result<(), E> {
        self.ordered = false;
        self.map(f).run().into_iter().collect()
    }
    pub fn collect<C: FromIterator<T>>(self) -> C {
        self.run().into_iter().collect()
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.run();
    }
    pub fn unzip<A, B, X: Default + Extend<A>, Y: Default + Extend<B>>(self) -> (X, Y)
    where
        T: Into<(A, B)>,
    {
        let (mut x, mut y) = (X::default(), Y::default());
        for t in self.run() {
            let (a, b) = t.into();
            x.extend(Some(a));
            y.extend(Some(b));
        }
        (x, y)
    }
    pub fn unzip_into_vecs<A, B>(self, x: &mut Vec<A>, y: &mut Vec<B>)
    where
        T: Into<(A, B)>,
    {
        (*x, *y) = self.unzip();
    }
    pub fn reduce(self, id: impl Fn() -> T, op: impl Fn(T, T) -> T) -> T {
        self.run().into_iter().fold(id(), op)
    }
    pub fn fold<A: 'a>(self, id: impl Fn() -> A + 'a, op: impl Fn(A, T) -> A + 'a) -> Par<'a, A> {
        // every task its own split, the finest there is
        self.map(move |x| op(id(), x))
    }
    pub fn count(self) -> usize {
        self.run().len()
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.run().into_iter().sum()
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.run().into_iter().min()
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.run().into_iter().max()
    }
    pub fn any(mut self, f: impl Fn(T) -> bool + 'a) -> bool {
        self.ordered = false;
        self.run().into_iter().any(f)
    }
    pub fn all(mut self, f: impl Fn(T) -> bool + 'a) -> bool {
        self.ordered = false;
        self.run().into_iter().all(f)
    }
    pub fn find_any(mut self, f: impl Fn(&T) -> bool + 'a) -> Option<T> {
        self.ordered = false;
        self.run().into_iter().find(|x| f(x))
    }
    pub fn find_first(self, f: impl Fn(&T) -> bool + 'a) -> Option<T> {
        self.run().into_iter().find(|x| f(x))
    }
}
impl<'a, T: Clone + 'a> Par<'a, &'a T> {
    pub fn cloned(self) -> Par<'a, T> {
        self.map(|x| x.clone())
    }
}
impl<'a, T: Copy + 'a> Par<'a, &'a T> {
    pub fn copied(self) -> Par<'a, T> {
        self.map(|x| *x)
    }
}

pub trait IntoParallelIterator<'a> {
    type Item;
    fn into_par_iter(self) -> Par<'a, Self::Item>;
}
impl<'a, T: 'a> IntoParallelIterator<'a> for Par<'a, T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        self
    }
}
impl<'a, I> IntoParallelIterator<'a> for I
where
    I: IntoIterator + Seq,
    I::Item: 'a,
{
    type Item = I::Item;
    fn into_par_iter(self) -> Par<'a, I::Item> {
        Par::new(self, true)
    }
}
/// what rayon can split
pub trait Seq {}
impl<T> Seq for Vec<T> {}
impl<T> Seq for &Vec<T> {}
impl<T> Seq for &mut Vec<T> {}
impl<T> Seq for &[T] {}
impl<T> Seq for &mut [T] {}
impl<T, const N: usize> Seq for [T; N] {}
impl<T, const N: usize> Seq for &[T; N] {}
impl<T> Seq for Option<T> {}
impl<T> Seq for std::ops::Range<T> {}
impl<T> Seq for std::ops::RangeInclusive<T> {}

pub trait IntoParallelRefIterator<'a> {
    type Item: 'a;
    fn par_iter(&'a self) -> Par<'a, Self::Item>;
}
impl<'a, T: ?Sized + 'a> IntoParallelRefIterator<'a> for T
where
    &'a T: IntoIterator + Seq,
{
    type Item = <&'a T as IntoIterator>::Item;
    fn par_iter(&'a self) -> Par<'a, Self::Item> {
        Par::new(self, true)
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: 'a;
    fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item>;
}
impl<'a, T: ?Sized + 'a> IntoParallelRefMutIterator<'a> for T
where
    &'a mut T: IntoIterator + Seq,
{
    type Item = <&'a mut T as IntoIterator>::Item;
    fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item> {
        Par::new(self, true)
    }
}
pub trait ParallelBridge: Iterator + Sized {
    /// keeps no order
    fn par_bridge<'a>(self) -> Par<'a, Self::Item>
    where
        Self::Item: 'a,
    {
        Par::new(self, false)
    }
}
impl<I: Iterator> ParallelBridge for I {}
pub trait ParallelSlice<T> {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
        Par::new(self.chunks(n), true)
    }
}
pub trait ParallelSliceMut<T> {
    fn par_sort(&mut self)
    where
        T: Ord;
    fn par_sort_by_key<K: Ord>(&mut self, f: impl FnMut(&T) -> K);
    fn par_sort_unstable_by_key<K: Ord>(&mut self, f: impl FnMut(&T) -> K);
}
impl<T> ParallelSliceMut<T> for [T] {
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.sort()
    }
    fn par_sort_by_key<K: Ord>(&mut self, f: impl FnMut(&T) -> K) {
        self.sort_by_key(f)
    }
    fn par_sort_unstable_by_key<K: Ord>(&mut self, f: impl FnMut(&T) -> K) {
        self.sort_by_key(f)
    }
}
pub trait ParallelIterator {}
pub trait IndexedParallelIterator {}
impl<'a, T> ParallelIterator for Par<'a, T> {}
impl<'a, T> IndexedParallelIterator for Par<'a, T> {}

pub mod iter {
    pub use crate::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, Par, ParallelBridge, ParallelIterator};
}
pub mod prelude {
    pub use crate::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelIterator, ParallelSlice, ParallelSliceMut};
}

pub fn join<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
    if pick(2) == 0 {
        let a = a();
        (a, b())
    } else {
        let b = b();
        (a(), b)
    }
}
/// tasks spawned in a scope run when it ends, in an order drawn by the scheduler
pub struct Scope<'s>(RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>);
impl<'s> Scope<'s> {
    pub fn spawn(&self, f: impl FnOnce(&Scope<'s>) + 's) {
        self.0.borrow_mut().push(Box::new(f));
    }
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    let s = Scope(RefCell::new(vec![]));
    let r = f(&s);
    loop {
        let n = s.0.borrow().len();
        if n == 0 {
            return r;
        }
        let t = s.0.borrow_mut().swap_remove(pick(n));
        t(&s);
    }
}
pub fn current_num_threads() -> usize {
    4
}
