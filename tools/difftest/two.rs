use std::collections::HashMap;
pub fn a1(v: &[u64]) -> Vec<u64> { v.chunks(2).map(|c| c.iter().sum::<u64>()).collect() }
pub fn a2(v: &[u64]) -> Vec<u64> { let c = v.chunks_exact(2); let r = c.remainder().to_vec(); r }
pub fn a3(v: &[u64]) -> usize { let a = [1u64, 2, 3]; let mut n = 0; for c in a.chunks(2) { n += c.len(); } n + v.len() }
pub fn a4(x: u64) -> Vec<u8> { (x as u32 as u64).to_le_bytes().to_vec() }
pub fn a5(x: u64) -> Vec<u8> { let y = x as u16; y.to_be_bytes().to_vec() }
pub fn a6(x: u64) -> Vec<u8> { let y = x as u16 as u32; y.to_be_bytes().to_vec() }
pub fn a7(v: &[u8]) -> u64 { u64::from_le_bytes(v[..8].try_into().unwrap()) }
pub fn a8(v: &[u8]) -> Option<u64> { let (a, b) = v.split_at(8); let n: [u8; 8] = a.try_into().ok()?; Some(u64::from_be_bytes(n) + b.len() as u64) }
pub fn a9(v: &[u8]) -> Option<u64> { v.get(1..9).map(|x| u64::from_be_bytes(x.try_into().unwrap())) }
pub fn b1(v: &[u8]) -> Option<u64> { v.get(2..10).map(|x| u64::from_be_bytes(x.try_into().unwrap())) }
fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> { if b.len() < n { return None; } let (h, t) = b.split_at(n); *b = t; Some(h) }
pub fn b2(v: &[u8]) -> Option<u64> { let mut b = v; let x = take(&mut b, 2)?; let y = take(&mut b, 4)?; Some(u16::from_be_bytes(x.try_into().ok()?) as u64 + u32::from_le_bytes(y.try_into().ok()?) as u64 + b.len() as u64) }
pub fn b3(v: &[u8]) -> Option<u64> { let mut b = v; let mut s = 0u64; for _ in 0..3 { let y = take(&mut b, 3)?; s += y[0] as u64; } Some(s) }
pub fn b4(v: &[u8]) -> Option<u64> { let mut b = v; let mut s = 0u64; for _ in 0..4 { let y = take(&mut b, 3)?; s += y[0] as u64; } Some(s) }
struct R<'a> { b: &'a [u8], i: usize }
impl<'a> R<'a> {
  fn new(b: &'a [u8]) -> Self { R { b, i: 0 } }
  fn take(&mut self, n: usize) -> Result<&'a [u8], u64> { let e = self.i.checked_add(n).ok_or(7u64)?; let r = self.b.get(self.i..e).ok_or(8u64)?; self.i = e; Ok(r) }
  fn u16(&mut self) -> Result<u16, u64> { Ok(u16::from_be_bytes(self.take(2)?.try_into().map_err(|_| 9u64)?)) }
}
pub fn b5(v: &[u8]) -> Result<u64, u64> { let mut r = R::new(v); let a = r.u16()? as u64; let b = r.u16()? as u64; Ok(a * 3 + b) }
pub fn b6(v: &[u8], n: usize) -> Result<u64, u64> { let mut r = R::new(v); let mut s = 0; for _ in 0..n { s += r.u16()? as u64; } Ok(s) }
pub fn b7(v: &[u8], n: usize) -> Result<Vec<u64>, u64> { let mut r = R::new(v); (0..n).map(|_| Ok(r.u16()? as u64)).collect() }
pub fn b8(v: &[u8]) -> Vec<u64> { let mut o = vec![]; let mut b = v; while b.len() >= 2 { o.push(b[0] as u64 * 256 + b[1] as u64); b = &b[2..]; } o }
pub fn b9(v: &[u8]) -> Vec<u8> { let mut o = vec![0u8; 12]; o[2..11].copy_from_slice(v); o }
pub fn c1(v: &[u64]) -> Vec<u8> { let mut o = vec![]; o.extend((v.len() as u64).to_be_bytes()); for x in v { o.extend_from_slice(&x.to_be_bytes()); } o }
pub fn c2(v: &[u64]) -> Vec<u64> { let o: Vec<u8> = c1(v); let n = usize::from_be_bytes(o[0..8].try_into().unwrap()); (0..n).map(|i| u64::from_be_bytes(o[8 + 8 * i..16 + 8 * i].try_into().unwrap())).collect() }
pub fn c3(v: &[u64]) -> Vec<u64> { let o: Vec<u8> = c1(v); let mut s = &o[8..]; let mut r = vec![]; while !s.is_empty() { r.push(u64::from_be_bytes(s[..8].try_into().unwrap())); s = &s[8..]; } r }
pub fn c5(v: &[u64]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }
pub fn c6(v: &[u64]) -> Vec<u8> { [vec![v.len() as u8], v.iter().map(|x| *x as u8).collect::<Vec<_>>()].concat() }
pub fn c7(v: &[u8]) -> Option<u64> { let n = v.len(); let x = v.get(n.checked_sub(8)?..)?; Some(u64::from_be_bytes(x.try_into().ok()?)) }
pub fn c8(v: &[u8]) -> Option<u64> { let n = *v.first()? as usize; let x = v.get(1..1 + n)?; Some(x.len() as u64) }
pub fn c9(v: &[u8]) -> Result<u64, u64> { match v { [a, b, rest @ ..] => Ok(*a as u64 + *b as u64 + rest.len() as u64), _ => Err(3) } }
pub fn d1(v: &[u8]) -> u64 { let mut it = v.iter(); let mut s = 0; s += *it.next().unwrap() as u64; s += *it.next().unwrap() as u64 * 10; for x in it { s += *x as u64 * 100; } s }
pub fn d2(v: &[u8]) -> Vec<u64> { let mut it = v.chunks_exact(4); let a = it.next().unwrap(); let b = it.next().unwrap(); vec![a.len() as u64, b[0] as u64] }
pub fn d3(v: &[u8]) -> Option<Vec<u64>> { let mut c = v.chunks_exact(4); let r: Vec<u64> = c.by_ref().map(|x| x[0] as u64).collect(); if c.remainder().is_empty() { Some(r) } else { None } }
pub fn d4(v: &[u8]) -> Result<u64, u64> { v.first_chunk::<8>().map(|x| u64::from_le_bytes(*x)).ok_or(2) }
pub fn d5(v: &[u8]) -> Result<u64, u64> { let (a, b) = v.split_first_chunk::<4>().ok_or(1u64)?; Ok(u32::from_le_bytes(*a) as u64 + b.len() as u64) }
pub fn e1(x: u64) -> Vec<u8> { let t = match x { 0 => 0u8, _ => 1u8 }; t.to_be_bytes().to_vec() }
fn tag(x: u64) -> u16 { if x > 3 { 7 } else { 1 } }
pub fn e2(x: u64) -> Vec<u8> { tag(x).to_be_bytes().to_vec() }
pub fn e3(x: u64) -> Vec<u8> { let t = if x > 3 { tag(x) } else { 5 }; t.to_be_bytes().to_vec() }
pub fn e4(x: u64) -> Vec<u8> { let t: u32 = if x > 3 { 8 } else { 5 }; t.to_be_bytes().to_vec() }
pub fn e5(x: u64) -> Vec<u8> { (x as u8 & 1).to_be_bytes().to_vec() }
pub fn e6(x: bool) -> Vec<u8> { (x as u8).to_be_bytes().to_vec() }
pub fn e7(x: bool) -> Vec<u8> { u16::from(x).to_be_bytes().to_vec() }
pub fn e8(v: &[u64]) -> Vec<u8> { v.len().to_be_bytes().to_vec() }
pub fn e9(v: &[u64]) -> Vec<u8> { (v.len() as u32).to_be_bytes().to_vec() }
pub fn f1(v: &[u64]) -> Vec<u8> { let n = v.len() as u32; let mut o = vec![]; for b in n.to_be_bytes() { o.push(b); } o }
pub fn f2(x: u64) -> Vec<u8> { let (a, b) = (x as u16, x as u8); [a.to_be_bytes().to_vec(), b.to_be_bytes().to_vec()].concat() }
pub fn f3(x: Option<u64>) -> Vec<u8> { let (t, p) = match x { Some(v) => (1u8, v.to_be_bytes().to_vec()), None => (0u8, vec![]) }; let mut o = t.to_be_bytes().to_vec(); o.extend(p); o }
const T: u16 = 3;
pub fn f4(_x: u64) -> Vec<u8> { T.to_le_bytes().to_vec() }
fn put(o: &mut Vec<u8>, x: u32) { o.extend(x.to_be_bytes()); }
pub fn f5(x: u64) -> Vec<u8> { let mut o = vec![]; put(&mut o, 3); put(&mut o, x as u32); o }
pub fn f6(x: u64) -> Vec<u8> { [1u8, 2].iter().flat_map(|b| (b + x as u8 % 3).to_be_bytes()).collect() }
pub enum Sg { A, B }
pub fn g1(v: &[u64]) -> Vec<u8> { let mut o = vec![]; for x in v.iter() { let t = match x { 0 => 0u8, _ => 1u8 }; o.extend(t.to_be_bytes()); } o }
pub fn g2(v: &[u64]) -> Vec<u8> { let mut o = vec![]; let w: Vec<Sg> = v.iter().map(|x| if *x > 3 { Sg::A } else { Sg::B }).collect(); for x in w.iter() { let t = match x { Sg::A => 0u8, Sg::B => 1u8 }; o.extend(t.to_be_bytes()); } o }
pub fn g3(m: &HashMap<u64, u64>) -> Vec<u8> { let mut o = vec![]; for (k, v) in m.iter() { let t = match k { 1 => 0u8, _ => 1u8 }; o.extend(t.to_be_bytes()); o.extend(v.to_be_bytes()); } o.sort(); o }
