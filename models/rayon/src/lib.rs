//! Model of the used part of `rayon`: indexed parallel iterators in one thread; `reduce` combines
//! the elements in one of the groupings a parallel run may choose.
pub mod iter {
    pub struct Par<I>(pub I);
    pub trait ParallelIterator: Sized {
        type Item;
        type I: Iterator<Item = Self::Item>;
        fn seq(self) -> Self::I;
        fn map<R, F: Fn(Self::Item) -> R>(self, f: F) -> Par<std::iter::Map<Self::I, F>> { Par(self.seq().map(f)) }
        fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<Self::I, F>> { Par(self.seq().filter(f)) }
        fn filter_map<R, F: Fn(Self::Item) -> Option<R>>(self, f: F) -> Par<std::iter::FilterMap<Self::I, F>> { Par(self.seq().filter_map(f)) }
        fn with_min_len(self, _: usize) -> Self { self }
        fn collect<C: FromIterator<Self::Item>>(self) -> C { self.seq().collect() }
        fn for_each<F: Fn(Self::Item)>(self, f: F) { self.seq().for_each(f) }
        fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> bool { self.seq().any(f) }
        fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool { self.seq().all(f) }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S { self.seq().sum() }
        fn count(self) -> usize { self.seq().count() }
        fn reduce<ID: Fn() -> Self::Item, OP: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: ID, op: OP) -> Self::Item {
            let mut v: Vec<Self::Item> = self.seq().collect();
            // (first half) op (second half), each folded from its own identity
            let b = v.split_off(v.len() / 2);
            let l = v.into_iter().fold(id(), &op);
            let r = b.into_iter().fold(id(), &op);
            op(l, r)
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn enumerate(self) -> Par<std::iter::Enumerate<Self::I>> { Par(self.seq().enumerate()) }
        fn zip<Z: ParallelIterator>(self, z: Z) -> Par<std::iter::Zip<Self::I, Z::I>> { Par(self.seq().zip(z.seq())) }
    }
    impl<I: Iterator> ParallelIterator for Par<I> { type Item = I::Item; type I = I; fn seq(self) -> I { self.0 } }
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}
    pub trait IntoParallelRefIterator<'a> { type Item: 'a; fn par_iter(&'a self) -> Par<std::slice::Iter<'a, Self::Item>>; }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] { type Item = T; fn par_iter(&'a self) -> Par<std::slice::Iter<'a, T>> { Par(self.iter()) } }
    impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> { type Item = T; fn par_iter(&'a self) -> Par<std::slice::Iter<'a, T>> { Par(self.iter()) } }
    pub trait IntoParallelIterator { type Item; type I: Iterator<Item = Self::Item>; fn into_par_iter(self) -> Par<Self::I>; }
    impl<C: IntoIterator> IntoParallelIterator for C { type Item = C::Item; type I = C::IntoIter; fn into_par_iter(self) -> Par<C::IntoIter> { Par(self.into_iter()) } }
}
pub mod prelude { pub use super::iter::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, ParallelIterator}; }
