pub trait Itertools: Iterator {
    fn sorted(self) -> std::vec::IntoIter<Self::Item> where Self: Sized, Self::Item: Ord { let mut v: Vec<_> = self.collect(); v.sort(); v.into_iter() }
    fn unique(self) -> std::vec::IntoIter<Self::Item> where Self: Sized, Self::Item: Clone + PartialEq { let mut v: Vec<Self::Item> = vec![]; for x in self { if !v.contains(&x) { v.push(x); } } v.into_iter() }
    fn unique_by<K: Clone + PartialEq>(self, f: impl Fn(&Self::Item) -> K) -> std::vec::IntoIter<Self::Item> where Self: Sized { let mut k: Vec<K> = vec![]; let mut v = vec![]; for x in self { let y = f(&x); if !k.contains(&y) { k.push(y); v.push(x); } } v.into_iter() }
    fn collect_vec(self) -> Vec<Self::Item> where Self: Sized { self.collect() }
    fn multi_unzip<A>(self) -> A where Self: Sized + MultiUnzip<A> { MultiUnzip::go(self) }
    fn join(&mut self, sep: &str) -> String where Self::Item: std::fmt::Display { self.map(|x| x.to_string()).collect::<Vec<_>>().join(sep) }
}
impl<I: Iterator> Itertools for I {}
pub trait MultiUnzip<A> { fn go(self) -> A; }
impl<X, Y, I: Iterator<Item = (X, Y)>> MultiUnzip<(Vec<X>, Vec<Y>)> for I { fn go(self) -> (Vec<X>, Vec<Y>) { self.unzip() } }
impl<X, Y, Z, I: Iterator<Item = (X, Y, Z)>> MultiUnzip<(Vec<X>, Vec<Y>, Vec<Z>)> for I {
    fn go(self) -> (Vec<X>, Vec<Y>, Vec<Z>) { let (mut a, mut b, mut c) = (vec![], vec![], vec![]); for (x, y, z) in self { a.push(x); b.push(y); c.push(z); } (a, b, c) }
}
