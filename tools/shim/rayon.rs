//! sequential stand-in
pub mod prelude {
    pub trait ParallelIterator: Iterator {}
    impl<I: Iterator> ParallelIterator for I {}
    pub trait IndexedParallelIterator: Iterator {}
    impl<I: Iterator> IndexedParallelIterator for I {}
    pub trait IntoParallelRefIterator { type T; fn par_iter(&self) -> std::slice::Iter<'_, Self::T>; }
    impl<T> IntoParallelRefIterator for [T] { type T = T; fn par_iter(&self) -> std::slice::Iter<'_, T> { self.iter() } }
    pub trait IntoParallelIterator { type I: Iterator; fn into_par_iter(self) -> Self::I; }
    impl<X: IntoIterator> IntoParallelIterator for X { type I = X::IntoIter; fn into_par_iter(self) -> Self::I { self.into_iter() } }
}
