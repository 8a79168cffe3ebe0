//! Environment stub for `rayon`: runs the per-item pipelines one after the
//! other, in an order chosen by the solver (schedule mode 1), and reports an
//! arbitrary thread count chosen by the harness.  What is preserved from rayon
//! is its documented contract: every item is processed exactly once, indexed
//! `collect` keeps item order, everything else may happen in any order.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static MODE: AtomicUsize = AtomicUsize::new(0);
static THREADS: AtomicUsize = AtomicUsize::new(1);

/// 0: in order; 1: any permutation; 2: in order or reversed.
pub fn __set_schedule(mode: usize, threads: usize) {
    MODE.store(mode, Relaxed);
    THREADS.store(threads, Relaxed);
    sym::sched::preempt(0);
}
fn order(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match MODE.load(Relaxed) {
        1 => {
            for i in (1..n).rev() {
                let j = sym::choose(i + 1);
                v.swap(i, j);
            }
        }
        2 => {
            if n > 1 && sym::choose(2) == 1 {
                v.reverse()
            }
        }
        _ => {}
    }
    v
}
/// Items still to be run, each of which may also run while another one is
/// preempted (see `sym::sched`).
struct Items<'a, T> {
    left: std::cell::RefCell<Vec<(usize, T)>>,
    f: &'a dyn Fn(usize, T),
}
impl<T> sym::sched::Jobs for Items<'_, T> {
    fn pending(&self) -> usize {
        self.left.borrow().len()
    }
    fn run(&self, k: usize) {
        let (i, x) = self.left.borrow_mut().remove(k);
        (self.f)(i, x)
    }
}
fn run_all<T>(items: Vec<(usize, T)>, f: &dyn Fn(usize, T)) {
    sym::sched::run_all(&Items { left: std::cell::RefCell::new(items), f })
}
pub fn current_num_threads() -> usize {
    THREADS.load(Relaxed)
}
pub fn max_num_threads() -> usize {
    65535
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    if MODE.load(Relaxed) != 0 && sym::choose(2) == 1 {
        let rb = b();
        (a(), rb)
    } else {
        (a(), b())
    }
}
pub struct Scope;
impl Scope {
    pub fn spawn<F: FnOnce(&Scope)>(&self, f: F) {
        f(self)
    }
}
pub fn scope<F: FnOnce(&Scope) -> R, R>(f: F) -> R {
    f(&Scope)
}
pub fn spawn<F: FnOnce()>(f: F) {
    f()
}
#[derive(Default)]
pub struct ThreadPoolBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("ThreadPoolBuildError")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
pub struct ThreadPool;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, n: usize) -> Self {
        if n > 0 {
            THREADS.store(n, Relaxed);
        }
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl ThreadPool {
    pub fn install<F: FnOnce() -> R, R>(&self, f: F) -> R {
        f()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}

pub mod iter {
    use super::{order, run_all};
    use std::collections::*;
    use std::hash::{BuildHasher, Hash};

    /// `drive` hands every item to `f` together with the index of the source
    /// item it came from, in schedule order.
    pub trait ParallelIterator: Sized {
        type Item;
        fn drive<F: FnMut(usize, Self::Item)>(self, f: F);

        fn in_order(self) -> Vec<Self::Item> {
            let mut v: Vec<(usize, Self::Item)> = Vec::new();
            self.drive(|i, x| v.push((i, x)));
            v.sort_by_key(|(i, _)| *i);
            v.into_iter().map(|(_, x)| x).collect()
        }
        fn any_order(self) -> Vec<Self::Item> {
            let mut v = Vec::new();
            self.drive(|_, x| v.push(x));
            v
        }
        fn map<R, G: Fn(Self::Item) -> R>(self, g: G) -> Map<Self, G> {
            Map(self, g)
        }
        fn map_with<T, R, G: Fn(&mut T, Self::Item) -> R>(self, mut t: T, g: G) -> Seq<R> {
            let mut v = Vec::new();
            self.drive(|i, x| v.push((i, g(&mut t, x))));
            v.sort_by_key(|(i, _)| *i);
            Seq(v.into_iter().map(|(_, x)| x).collect())
        }
        fn map_init<T, I: Fn() -> T, R, G: Fn(&mut T, Self::Item) -> R>(self, init: I, g: G) -> Seq<R> {
            self.map_with(init(), g)
        }
        fn filter<G: Fn(&Self::Item) -> bool>(self, g: G) -> Filter<Self, G> {
            Filter(self, g)
        }
        fn filter_map<R, G: Fn(Self::Item) -> Option<R>>(self, g: G) -> FilterMap<Self, G> {
            FilterMap(self, g)
        }
        fn flat_map<R: IntoParallelIterator, G: Fn(Self::Item) -> R>(self, g: G) -> FlatMap<Self, G> {
            FlatMap(self, g)
        }
        fn flat_map_iter<R: IntoIterator, G: Fn(Self::Item) -> R>(self, g: G) -> FlatMapIter<Self, G> {
            FlatMapIter(self, g)
        }
        fn flatten(self) -> Seq<<Self::Item as IntoParallelIterator>::Item>
        where
            Self::Item: IntoParallelIterator,
        {
            Seq(self.in_order().into_iter().flat_map(|x| x.into_par_iter().in_order()).collect())
        }
        fn flatten_iter(self) -> Seq<<Self::Item as IntoIterator>::Item>
        where
            Self::Item: IntoIterator,
        {
            Seq(self.in_order().into_iter().flatten().collect())
        }
        fn inspect<G: Fn(&Self::Item)>(self, g: G) -> Seq<Self::Item> {
            let mut v = Vec::new();
            self.drive(|i, x| {
                g(&x);
                v.push((i, x))
            });
            v.sort_by_key(|(i, _)| *i);
            Seq(v.into_iter().map(|(_, x)| x).collect())
        }
        fn for_each<G: Fn(Self::Item)>(self, g: G) {
            if sym::sched::active() {
                let mut v = Vec::new();
                self.drive(|i, x| v.push((i, x)));
                return run_all(v, &|_, x| g(x));
            }
            self.drive(|_, x| g(x))
        }
        fn for_each_with<T, G: Fn(&mut T, Self::Item)>(self, mut t: T, g: G) {
            self.drive(|_, x| g(&mut t, x))
        }
        fn for_each_init<T, I: Fn() -> T, G: Fn(&mut T, Self::Item)>(self, init: I, g: G) {
            let mut t = init();
            self.drive(|_, x| g(&mut t, x))
        }
        fn try_for_each<E, G: Fn(Self::Item) -> Result<(), E>>(self, g: G) -> Result<(), E> {
            if sym::sched::active() {
                let mut v = Vec::new();
                self.drive(|i, x| v.push((i, x)));
                let r = std::cell::RefCell::new(Ok(()));
                run_all(v, &|_, x| {
                    if r.borrow().is_ok() {
                        let y = g(x);
                        if y.is_err() && r.borrow().is_ok() {
                            *r.borrow_mut() = y;
                        }
                    }
                });
                return r.into_inner();
            }
            let mut r = Ok(());
            self.drive(|_, x| {
                if r.is_ok() {
                    r = g(x);
                }
            });
            r
        }
        fn fold<T, ID: Fn() -> T, G: Fn(T, Self::Item) -> T>(self, id: ID, g: G) -> Seq<T> {
            let mut v = Vec::new();
            self.drive(|i, x| v.push((i, g(id(), x))));
            v.sort_by_key(|(i, _)| *i);
            Seq(v.into_iter().map(|(_, x)| x).collect())
        }
        fn try_fold<T, E, ID: Fn() -> T, G: Fn(T, Self::Item) -> Result<T, E>>(self, id: ID, g: G) -> Seq<Result<T, E>> {
            let mut v = Vec::new();
            self.drive(|i, x| v.push((i, g(id(), x))));
            v.sort_by_key(|(i, _)| *i);
            Seq(v.into_iter().map(|(_, x)| x).collect())
        }
        fn reduce<ID: Fn() -> Self::Item, G: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: ID, g: G) -> Self::Item {
            self.in_order().into_iter().fold(id(), |a, b| g(a, b))
        }
        fn reduce_with<G: Fn(Self::Item, Self::Item) -> Self::Item>(self, g: G) -> Option<Self::Item> {
            self.in_order().into_iter().reduce(|a, b| g(a, b))
        }
        fn try_reduce<T, E, ID: Fn() -> T, G: Fn(T, T) -> Result<T, E>>(self, id: ID, g: G) -> Result<T, E>
        where
            Self: ParallelIterator<Item = Result<T, E>>,
        {
            let mut acc = id();
            for x in self.in_order() {
                acc = g(acc, x?)?;
            }
            Ok(acc)
        }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
            self.any_order().into_iter().sum()
        }
        fn product<S: std::iter::Product<Self::Item>>(self) -> S {
            self.any_order().into_iter().product()
        }
        fn count(self) -> usize {
            self.any_order().len()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.in_order().into_iter().min()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.in_order().into_iter().max()
        }
        fn min_by_key<K: Ord, G: Fn(&Self::Item) -> K>(self, g: G) -> Option<Self::Item> {
            self.in_order().into_iter().min_by_key(|x| g(x))
        }
        fn max_by_key<K: Ord, G: Fn(&Self::Item) -> K>(self, g: G) -> Option<Self::Item> {
            self.in_order().into_iter().max_by_key(|x| g(x))
        }
        fn min_by<G: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, g: G) -> Option<Self::Item> {
            self.in_order().into_iter().min_by(|a, b| g(a, b))
        }
        fn max_by<G: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, g: G) -> Option<Self::Item> {
            self.in_order().into_iter().max_by(|a, b| g(a, b))
        }
        fn any<G: Fn(Self::Item) -> bool>(self, g: G) -> bool {
            self.any_order().into_iter().any(g)
        }
        fn all<G: Fn(Self::Item) -> bool>(self, g: G) -> bool {
            self.any_order().into_iter().all(g)
        }
        fn find_any<G: Fn(&Self::Item) -> bool>(self, g: G) -> Option<Self::Item> {
            self.any_order().into_iter().find(|x| g(x))
        }
        fn find_first<G: Fn(&Self::Item) -> bool>(self, g: G) -> Option<Self::Item> {
            self.in_order().into_iter().find(|x| g(x))
        }
        fn find_map_any<R, G: Fn(Self::Item) -> Option<R>>(self, g: G) -> Option<R> {
            self.any_order().into_iter().find_map(g)
        }
        fn cloned<'a, T: 'a + Clone>(self) -> Seq<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Seq(self.in_order().into_iter().cloned().collect())
        }
        fn copied<'a, T: 'a + Copy>(self) -> Seq<T>
        where
            Self: ParallelIterator<Item = &'a T>,
        {
            Seq(self.in_order().into_iter().copied().collect())
        }
        fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
        where
            Self: ParallelIterator<Item = (A, B)>,
        {
            self.in_order().into_iter().unzip()
        }
        fn partition<C: Default + Extend<Self::Item>, G: Fn(&Self::Item) -> bool>(self, g: G) -> (C, C) {
            self.in_order().into_iter().partition(|x| g(x))
        }
        fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
            C::from_par_iter(self)
        }
        fn chain<J: IntoParallelIterator<Item = Self::Item>>(self, j: J) -> Seq<Self::Item> {
            let mut v = self.in_order();
            v.extend(j.into_par_iter().in_order());
            Seq(v)
        }
        // IndexedParallelIterator
        fn enumerate(self) -> Enumerate<Self> {
            Enumerate(self)
        }
        fn zip<J: IntoParallelIterator>(self, j: J) -> Seq<(Self::Item, J::Item)> {
            Seq(self.in_order().into_iter().zip(j.into_par_iter().in_order()).collect())
        }
        fn rev(self) -> Seq<Self::Item> {
            let mut v = self.in_order();
            v.reverse();
            Seq(v)
        }
        fn take(self, n: usize) -> Seq<Self::Item> {
            Seq(self.in_order().into_iter().take(n).collect())
        }
        fn skip(self, n: usize) -> Seq<Self::Item> {
            Seq(self.in_order().into_iter().skip(n).collect())
        }
        fn chunks(self, n: usize) -> Seq<Vec<Self::Item>> {
            assert!(n != 0, "chunk_size must not be zero");
            let mut out = Vec::new();
            let mut cur = Vec::new();
            for x in self.in_order() {
                cur.push(x);
                if cur.len() == n {
                    out.push(std::mem::take(&mut cur));
                }
            }
            if !cur.is_empty() {
                out.push(cur);
            }
            Seq(out)
        }
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn with_max_len(self, _: usize) -> Self {
            self
        }
        fn len(self) -> usize {
            self.any_order().len()
        }
        fn collect_into_vec(self, out: &mut Vec<Self::Item>) {
            *out = self.in_order();
        }
    }
    pub use ParallelIterator as IndexedParallelIterator;

    pub struct Seq<T>(pub Vec<T>);
    impl<T> ParallelIterator for Seq<T> {
        type Item = T;
        fn drive<F: FnMut(usize, T)>(self, mut f: F) {
            let mut v: Vec<Option<T>> = self.0.into_iter().map(Some).collect();
            for i in order(v.len()) {
                f(i, v[i].take().unwrap());
            }
        }
    }
    /// Items whose source order is not kept (`par_bridge`).
    pub struct Unordered<T>(pub Vec<T>);
    impl<T> ParallelIterator for Unordered<T> {
        type Item = T;
        fn drive<F: FnMut(usize, T)>(self, mut f: F) {
            let mut v: Vec<Option<T>> = self.0.into_iter().map(Some).collect();
            for (k, i) in order(v.len()).into_iter().enumerate() {
                f(k, v[i].take().unwrap());
            }
        }
    }
    pub struct Map<I, G>(I, G);
    impl<I: ParallelIterator, R, G: Fn(I::Item) -> R> ParallelIterator for Map<I, G> {
        type Item = R;
        fn drive<F: FnMut(usize, R)>(self, mut f: F) {
            let g = self.1;
            if sym::sched::active() {
                let mut v = Vec::new();
                self.0.drive(|i, x| v.push((i, x)));
                let out = std::cell::RefCell::new(Vec::new());
                run_all(v, &|i, x| {
                    let y = g(x);
                    out.borrow_mut().push((i, y));
                });
                for (i, y) in out.into_inner() {
                    f(i, y)
                }
                return;
            }
            self.0.drive(|i, x| f(i, g(x)))
        }
    }
    pub struct Enumerate<I>(I);
    impl<I: ParallelIterator> ParallelIterator for Enumerate<I> {
        type Item = (usize, I::Item);
        fn drive<F: FnMut(usize, (usize, I::Item))>(self, mut f: F) {
            self.0.drive(|i, x| f(i, (i, x)))
        }
    }
    pub struct Filter<I, G>(I, G);
    impl<I: ParallelIterator, G: Fn(&I::Item) -> bool> ParallelIterator for Filter<I, G> {
        type Item = I::Item;
        fn drive<F: FnMut(usize, I::Item)>(self, mut f: F) {
            let g = self.1;
            self.0.drive(|i, x| {
                if g(&x) {
                    f(i, x)
                }
            })
        }
    }
    pub struct FilterMap<I, G>(I, G);
    impl<I: ParallelIterator, R, G: Fn(I::Item) -> Option<R>> ParallelIterator for FilterMap<I, G> {
        type Item = R;
        fn drive<F: FnMut(usize, R)>(self, mut f: F) {
            let g = self.1;
            self.0.drive(|i, x| {
                if let Some(y) = g(x) {
                    f(i, y)
                }
            })
        }
    }
    pub struct FlatMap<I, G>(I, G);
    impl<I: ParallelIterator, R: IntoParallelIterator, G: Fn(I::Item) -> R> ParallelIterator for FlatMap<I, G> {
        type Item = R::Item;
        fn drive<F: FnMut(usize, R::Item)>(self, mut f: F) {
            let g = self.1;
            self.0.drive(|i, x| {
                for y in g(x).into_par_iter().in_order() {
                    f(i, y)
                }
            })
        }
    }
    pub struct FlatMapIter<I, G>(I, G);
    impl<I: ParallelIterator, R: IntoIterator, G: Fn(I::Item) -> R> ParallelIterator for FlatMapIter<I, G> {
        type Item = R::Item;
        fn drive<F: FnMut(usize, R::Item)>(self, mut f: F) {
            let g = self.1;
            self.0.drive(|i, x| {
                for y in g(x) {
                    f(i, y)
                }
            })
        }
    }

    pub trait IntoParallelIterator {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: ParallelIterator> IntoParallelIterator for T {
        type Iter = T;
        type Item = T::Item;
        fn into_par_iter(self) -> T {
            self
        }
    }
    macro_rules! into_par {
        ($([$($g:tt)*] $t:ty => $item:ty;)*) => {$(
            impl<$($g)*> IntoParallelIterator for $t {
                type Iter = Seq<$item>;
                type Item = $item;
                fn into_par_iter(self) -> Seq<$item> { Seq(self.into_iter().collect()) }
            }
        )*};
    }
    into_par! {
        [T] Vec<T> => T;
        ['a, T] &'a Vec<T> => &'a T;
        ['a, T] &'a mut Vec<T> => &'a mut T;
        ['a, T] &'a [T] => &'a T;
        ['a, T] &'a mut [T] => &'a mut T;
        [T, const N: usize] [T; N] => T;
        ['a, T, const N: usize] &'a [T; N] => &'a T;
        [T] Option<T> => T;
        [K: Hash + Eq, V, S: BuildHasher] HashMap<K, V, S> => (K, V);
        ['a, K: Hash + Eq, V, S: BuildHasher] &'a HashMap<K, V, S> => (&'a K, &'a V);
        [K: Hash + Eq, S: BuildHasher] HashSet<K, S> => K;
        ['a, K: Hash + Eq, S: BuildHasher] &'a HashSet<K, S> => &'a K;
        [K: Ord, V] BTreeMap<K, V> => (K, V);
        [K: Ord] BTreeSet<K> => K;
        [T] VecDeque<T> => T;
        [] std::ops::Range<usize> => usize;
        [] std::ops::Range<u32> => u32;
        [] std::ops::Range<u64> => u64;
        [] std::ops::Range<i32> => i32;
        [] std::ops::RangeInclusive<usize> => usize;
        [] std::ops::RangeInclusive<u32> => u32;
    }
    pub trait IntoParallelRefIterator<'data> {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: 'data;
        fn par_iter(&'data self) -> Self::Iter;
    }
    impl<'data, I: 'data + ?Sized> IntoParallelRefIterator<'data> for I
    where
        &'data I: IntoParallelIterator,
        <&'data I as IntoParallelIterator>::Item: 'data,
    {
        type Iter = <&'data I as IntoParallelIterator>::Iter;
        type Item = <&'data I as IntoParallelIterator>::Item;
        fn par_iter(&'data self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait IntoParallelRefMutIterator<'data> {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: 'data;
        fn par_iter_mut(&'data mut self) -> Self::Iter;
    }
    impl<'data, I: 'data + ?Sized> IntoParallelRefMutIterator<'data> for I
    where
        &'data mut I: IntoParallelIterator,
        <&'data mut I as IntoParallelIterator>::Item: 'data,
    {
        type Iter = <&'data mut I as IntoParallelIterator>::Iter;
        type Item = <&'data mut I as IntoParallelIterator>::Item;
        fn par_iter_mut(&'data mut self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait ParallelBridge: Iterator + Sized {
        fn par_bridge(self) -> Unordered<Self::Item> {
            Unordered(self.collect())
        }
    }
    impl<I: Iterator> ParallelBridge for I {}

    pub trait FromParallelIterator<T>: Sized {
        fn from_par_iter<I: ParallelIterator<Item = T>>(i: I) -> Self;
    }
    macro_rules! from_par {
        ($([$($g:tt)*] $t:ty : $item:ty;)*) => {$(
            impl<$($g)*> FromParallelIterator<$item> for $t {
                fn from_par_iter<I: ParallelIterator<Item = $item>>(i: I) -> Self { i.in_order().into_iter().collect() }
            }
        )*};
    }
    from_par! {
        [T] Vec<T> : T;
        [T] VecDeque<T> : T;
        [T] Box<[T]> : T;
        [K: Eq + Hash, V, S: BuildHasher + Default] HashMap<K, V, S> : (K, V);
        [K: Eq + Hash, S: BuildHasher + Default] HashSet<K, S> : K;
        [K: Ord, V] BTreeMap<K, V> : (K, V);
        [K: Ord] BTreeSet<K> : K;
        [] String : String;
        [] String : char;
        ['a] String : &'a str;
        [] () : ();
    }
    /// On failure rayon returns *one* of the errors; the stub returns the one
    /// met first in schedule order.  Items after the error may or may not run;
    /// the stub stops handing their results on but still runs them.
    impl<T, E, C: FromParallelIterator<T>> FromParallelIterator<Result<T, E>> for Result<C, E> {
        fn from_par_iter<I: ParallelIterator<Item = Result<T, E>>>(i: I) -> Self {
            let mut v: Vec<(usize, T)> = Vec::new();
            let mut err = None;
            i.drive(|i, x| match x {
                Ok(x) => v.push((i, x)),
                Err(e) => {
                    if err.is_none() {
                        err = Some(e);
                    }
                }
            });
            if let Some(e) = err {
                return Err(e);
            }
            v.sort_by_key(|(i, _)| *i);
            Ok(C::from_par_iter(Direct(v.into_iter().map(|(_, x)| x).collect())))
        }
    }
    impl<T, C: FromParallelIterator<T>> FromParallelIterator<Option<T>> for Option<C> {
        fn from_par_iter<I: ParallelIterator<Item = Option<T>>>(i: I) -> Self {
            let mut v: Vec<T> = Vec::new();
            for x in i.in_order() {
                v.push(x?);
            }
            Some(C::from_par_iter(Direct(v)))
        }
    }
    struct Direct<T>(Vec<T>);
    impl<T> ParallelIterator for Direct<T> {
        type Item = T;
        fn drive<F: FnMut(usize, T)>(self, mut f: F) {
            for (i, x) in self.0.into_iter().enumerate() {
                f(i, x)
            }
        }
    }
    pub trait ParallelExtend<T> {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
    }
    impl<T, C: Extend<T>> ParallelExtend<T> for C {
        fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
            self.extend(i.into_par_iter().in_order())
        }
    }
}
pub mod slice {
    use super::iter::Seq;
    pub trait ParallelSlice<T> {
        fn as_par_slice(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Seq<&[T]> {
            assert!(n != 0, "chunk_size must not be zero");
            Seq(self.as_par_slice().chunks(n).collect())
        }
        fn par_chunks_exact(&self, n: usize) -> Seq<&[T]> {
            Seq(self.as_par_slice().chunks_exact(n).collect())
        }
        fn par_windows(&self, n: usize) -> Seq<&[T]> {
            Seq(self.as_par_slice().windows(n).collect())
        }
        fn par_rchunks(&self, n: usize) -> Seq<&[T]> {
            Seq(self.as_par_slice().rchunks(n).collect())
        }
    }
    impl<T> ParallelSlice<T> for [T] {
        fn as_par_slice(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T> {
        fn as_par_slice_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Seq<&mut [T]> {
            assert!(n != 0, "chunk_size must not be zero");
            Seq(self.as_par_slice_mut().chunks_mut(n).collect())
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.as_par_slice_mut().sort()
        }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
            self.as_par_slice_mut().sort_by(|a, b| f(a, b))
        }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            self.as_par_slice_mut().sort_by_key(|a| f(a))
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.as_par_slice_mut().sort_unstable()
        }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
            self.as_par_slice_mut().sort_unstable_by(|a, b| f(a, b))
        }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            self.as_par_slice_mut().sort_unstable_by_key(|a| f(a))
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn as_par_slice_mut(&mut self) -> &mut [T] {
            self
        }
    }
}
pub mod str {
    use super::iter::Seq;
    pub trait ParallelString {
        fn as_par_str(&self) -> &str;
        fn par_lines(&self) -> Seq<&str> {
            Seq(self.as_par_str().lines().collect())
        }
        fn par_chars(&self) -> Seq<char> {
            Seq(self.as_par_str().chars().collect())
        }
    }
    impl ParallelString for str {
        fn as_par_str(&self) -> &str {
            self
        }
    }
}
pub mod prelude {
    pub use crate::iter::*;
    pub use crate::slice::*;
    pub use crate::str::*;
}
