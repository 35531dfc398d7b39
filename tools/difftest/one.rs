use std::collections::*;
pub fn t01(v: &[u64]) -> u64 { v.iter().rev().skip(1).step_by(2).sum() }
pub fn t02(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.swap_remove(0); v }
pub fn t03(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.drain(1..2); v }
pub fn t04(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.retain(|x| *x > 3); v }
pub fn t05(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.dedup(); v }
pub fn t06(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.sort_unstable_by_key(|x| std::cmp::Reverse(*x)); v }
pub fn t07(v: &[u64]) -> Option<usize> { v.binary_search(&3).ok() }
pub fn t08(v: &[u64]) -> usize { v.partition_point(|x| *x < 3) }
pub fn t09(v: &[u64]) -> Option<&u64> { v.iter().max_by_key(|x| **x) }
pub fn t10(v: &[u64]) -> (Vec<u64>, Vec<u64>) { v.iter().partition(|x| **x > 2) }
pub fn t11(a: u64, b: u64) -> u64 { a.wrapping_mul(b) }
pub fn t12(a: u64, b: u64) -> u64 { a.saturating_sub(b) }
pub fn t13(a: u64, b: u64) -> u64 { a.rem_euclid(b) }
pub fn t14(a: u64) -> u64 { a.rotate_left(3) }
pub fn t15(a: u64) -> u32 { a.count_ones() }
pub fn t16(a: u64, b: u64) -> u64 { a.abs_diff(b) }
pub fn t17(a: u64, b: u64) -> (u64, bool) { a.overflowing_add(b) }
pub fn t18(a: u64) -> u64 { a.div_ceil(3) }
pub fn t19(a: u64) -> u64 { a.next_multiple_of(3) }
pub fn t20(a: u64) -> Option<u64> { a.checked_next_power_of_two() }
pub fn t21(v: &[u64]) -> Vec<u64> { v.rchunks(2).map(|c| c[0]).collect() }
pub fn t22(v: &[u64]) -> Vec<u64> { v.chunks(2).map(|c| c[0]).collect() }
pub fn t23(v: &[u64]) -> Vec<u64> { v.chunks_exact(2).map(|c| c[1]).collect() }
pub fn t24(v: &[u64]) -> Vec<u64> { v.windows(2).map(|w| w[0] + w[1]).collect() }
pub fn t25(v: &[u64]) -> Vec<u64> { v.iter().scan(0, |s, x| { *s += x; Some(*s) }).collect() }
pub fn t26(v: &[u64]) -> Vec<u64> { v.iter().take_while(|x| **x < 5).copied().collect() }
pub fn t27(v: &[u64]) -> Vec<u64> { v.iter().skip_while(|x| **x < 5).copied().collect() }
pub fn t28(v: &[u64]) -> Vec<u64> { v.iter().flat_map(|x| vec![*x, *x + 1]).collect() }
pub fn t29(v: &[u64]) -> Vec<u64> { v.iter().filter_map(|x| if *x > 1 { Some(x + 1) } else { None }).collect() }
pub fn t30(v: &[u64]) -> Option<u64> { v.iter().copied().reduce(|a, b| a + b) }
pub fn t31(v: &[u64]) -> Option<u64> { v.iter().try_fold(0u64, |a, b| a.checked_add(*b)) }
pub fn t32(v: &[u64]) -> u64 { v.iter().fold(0, |a, b| a * 2 + b) }
pub fn t33(v: &[u64]) -> bool { v.iter().any(|x| *x == 3) && v.iter().all(|x| *x < 8) }
pub fn t34(v: &[u64]) -> Option<usize> { v.iter().position(|x| *x == 3) }
pub fn t35(v: &[u64]) -> Option<u64> { v.iter().find(|x| **x == 3).copied() }
pub fn t36(v: &[u64]) -> Option<u64> { v.iter().find_map(|x| if *x == 3 { Some(x + 1) } else { None }) }
pub fn t37(v: &[u64]) -> Vec<u64> { std::iter::successors(Some(1u64), |x| Some(x * 2)).take(v.len()).collect() }
pub fn t38(v: &[u64]) -> Vec<u64> { std::iter::repeat(7).take(v.len()).collect() }
pub fn t39(v: &[u64]) -> Vec<u64> { std::iter::once(7).chain(v.iter().copied()).collect() }
pub fn t40(v: &[u64]) -> Vec<u64> { std::iter::repeat_with(|| 3).take(v.len()).collect() }
pub fn t41(v: &[u64]) -> Vec<u64> { let mut n = 0; std::iter::from_fn(|| { n += 1; if n < v.len() { Some(v[n]) } else { None } }).collect() }
pub fn t42(v: &[u64]) -> [u64; 3] { core::array::from_fn(|i| v[i] + 1) }
pub fn t43(v: &[u64]) -> [u64; 3] { [v[0], v[1], v[2]].map(|x| x + 1) }
pub fn t44(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.extend_from_within(1..); v }
pub fn t45(v: Vec<u64>) -> Vec<u64> { let mut v = v; let t = v.split_off(1); let _ = v; t }
pub fn t46(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.rotate_left(1); v }
pub fn t47(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.insert(0, 3); v.truncate(2); v.pop(); v }
pub fn t48(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.resize_with(4, Default::default); v }
pub fn t49(v: Vec<u64>) -> Vec<u64> { let mut v = v; v[1..].copy_from_slice(&[1, 2]); v }
pub fn t50(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.fill(3); v }
pub fn t51(v: Vec<u64>) -> Vec<u64> { let mut v = v; let (a, b) = v.split_at_mut(1); a[0] = b[0]; v }
pub fn t52(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.reverse(); v.swap(0, 1); v }
pub fn t53(v: &[u64]) -> Option<(&u64, &[u64])> { v.split_first() }
pub fn t54(v: &[u64]) -> Option<&u64> { v.last() }
pub fn t55(v: &[u64]) -> Vec<u64> { [v, v].concat() }
pub fn t56(v: &[Vec<u64>]) -> Vec<u64> { v.concat() }
pub fn t57(v: &[Vec<u64>]) -> Vec<u64> { v.iter().flatten().copied().collect() }
pub fn t58(v: &[u64]) -> Vec<(usize, u64)> { v.iter().copied().enumerate().collect() }
pub fn t59(v: &[u64]) -> Vec<u64> { let mut it = v.iter().peekable(); let mut o = vec![]; while let Some(x) = it.next() { if it.peek().is_some() { o.push(*x); } } o }
pub fn t60(v: &[u64]) -> Vec<u64> { v.iter().copied().cycle().take(7).collect() }
pub fn t61(v: &[u64]) -> bool { v.iter().eq([1u64, 2].iter()) }
pub fn t62(v: &[u64]) -> bool { v.contains(&3) && v.starts_with(&[1]) && !v.ends_with(&[1]) }
pub fn t63(a: Option<u64>) -> u64 { a.map_or(3, |x| x + 1) }
pub fn t64(a: Option<u64>) -> u64 { a.map_or_else(|| 3, |x| x + 1) }
pub fn t65(a: Option<u64>) -> Option<u64> { a.and_then(|x| x.checked_sub(1)).filter(|x| *x > 1).or(Some(3)) }
pub fn t66(a: Option<u64>) -> Option<u64> { a.xor(None).zip(Some(3)).map(|(a, b)| a + b) }
pub fn t67(a: Option<u64>) -> Result<u64, u64> { a.ok_or(3) }
pub fn t68(a: Option<u64>) -> bool { a.is_some_and(|x| x > 1) }
pub fn t69(a: Result<u64, u64>) -> u64 { a.unwrap_or_else(|e| e) }
pub fn t70(a: Result<u64, u64>) -> bool { a.is_ok() && matches!(a, Ok(x) if x > 1) }
pub fn t71(a: Result<u64, u64>) -> Result<u64, u64> { a.map_err(|e| e + 1)?; let x = a.or_else(|e| if e > 1 { Ok(e) } else { Err(e) })?; Ok(x) }
pub fn t72(mut a: Option<u64>) -> (Option<u64>, Option<u64>) { let t = a.take(); (a, t) }
pub fn t73(mut a: Option<u64>) -> u64 { *a.get_or_insert(3) }
pub fn t74(m: &HashMap<u64, u64>) -> u64 { m.get(&3).copied().unwrap_or_default() }
pub fn t75(m: &HashMap<u64, u64>) -> u64 { let mut m = m.clone(); *m.entry(3).or_insert(0) += 1; m[&3] }
pub fn t76(m: &HashMap<u64, u64>) -> bool { m.contains_key(&3) }
pub fn t77(m: &BTreeMap<u64, u64>) -> Vec<u64> { m.iter().map(|(k, v)| k + v).collect() }
pub fn t78(m: &HashMap<u64, u64>) -> u64 { m.values().sum::<u64>() + m.keys().count() as u64 }
pub fn t79(v: &[u64]) -> usize { v.iter().collect::<HashSet<_>>().len() }
pub fn t80(v: &[u64]) -> Vec<u64> { let s: BTreeSet<u64> = v.iter().copied().collect(); s.into_iter().collect() }
pub fn t81(v: &[u64]) -> Vec<u64> { let mut q: VecDeque<u64> = VecDeque::new(); for x in v { q.push_front(*x); } q.pop_back(); q.into_iter().collect() }
pub fn t82(a: u64) -> u64 { a.pow(3) + u64::pow(a, 2) + a.ilog2() as u64 }
pub fn t83(a: u64, b: u64) -> u64 { a.min(b).max(3).clamp(1, 9) }
pub fn t84(a: u64) -> u16 { a as u16 }
pub fn t85(a: u64) -> i64 { (a as i64).wrapping_neg() }
pub fn t86(a: i64) -> u64 { a.unsigned_abs() + a.signum() as u64 }
pub fn t87(a: u32) -> u32 { a.reverse_bits() ^ a.swap_bytes() }
pub fn t88(a: u64) -> [u8; 8] { a.to_le_bytes() }
pub fn t89(a: &[u8]) -> u64 { u64::from_le_bytes(a[..8].try_into().unwrap()) }
pub fn t90(a: u64) -> bool { a.is_power_of_two() }
pub fn t91(a: u64) -> Result<u8, ()> { u8::try_from(a).map_err(|_| ()) }
pub fn t92(a: u64) -> Option<usize> { usize::try_from(a).ok() }
pub fn t93(a: u64, b: u64) -> std::cmp::Ordering { a.cmp(&b).then(b.cmp(&3)).reverse() }
pub fn t94(v: &[u64]) -> Vec<u64> { let mut o = v.to_vec(); o.sort_by(|a, b| b.cmp(a)); o }
pub fn t95(v: &[u64]) -> u64 { v.iter().product::<u64>() + v.iter().copied().min().unwrap_or(0) }
pub fn t96(v: &[u64]) -> (Vec<u64>, Vec<u64>) { v.iter().map(|x| (*x, x + 1)).unzip() }
pub fn t97(v: &[u64]) -> Vec<u64> { v.iter().zip(v.iter().skip(1)).map(|(a, b)| a + b).collect() }
pub fn t98(v: &[u64]) -> Vec<Vec<u64>> { v.split(|x| *x == 3).map(|s| s.to_vec()).collect() }
pub fn t99(v: &[u64]) -> u64 { v.iter().nth(1).copied().unwrap_or(9) + v.first().copied().unwrap_or(0) }
pub fn u01(v: &[u64]) -> u64 { let mut i = 0; loop { if i >= v.len() { break 0; } if v[i] == 3 { break v[i]; } i += 1; } }
pub fn u02(v: &[u64]) -> u64 { 'a: for x in v { for y in v { if x == y { continue 'a; } } } 3 }
pub fn u03(v: &[u64]) -> u64 { let [a, b, ..] = v else { return 0 }; a + b }
pub fn u04(v: &[u64]) -> u64 { match v { [] => 0, [a] => *a, [a, .., b] => a + b } }
pub fn u05(v: &[u64]) -> u64 { if let Some((a, rest)) = v.split_first() { a + rest.len() as u64 } else { 0 } }
pub fn u06(v: &[u64]) -> Vec<u64> { v.iter().map_while(|x| x.checked_sub(1)).collect() }
pub fn u07(v: &[u64]) -> u64 { v.iter().rposition(|x| *x == 2).unwrap_or(0) as u64 + v.iter().rev().take(1).sum::<u64>() }
pub fn u08(v: &[u64]) -> u64 { v.iter().last().copied().unwrap_or(0) + v.iter().min_by(|a, b| a.cmp(b)).copied().unwrap_or(0) }
pub fn u09(v: &[u64]) -> Vec<u64> { let mut o = Vec::new(); v.iter().for_each(|x| o.push(*x)); o.append(&mut vec![1]); o.extend(v.iter()); o.extend_from_slice(v); o }
pub fn u10(v: &[u64]) -> Vec<u64> { v.chunks(2).rev().flat_map(|c| c.iter().rev()).cloned().collect() }
pub fn u11(v: &mut Vec<u64>) { for c in v.chunks_mut(2) { c[0] = 1; } for x in v.iter_mut() { *x += 1; } }
pub fn u12(v: &[u64]) -> Vec<u64> { let (a, b) = v.split_at(1); [b, a].concat() }
pub fn u13(v: &[u64]) -> bool { v.is_sorted() || v.windows(2).all(|w| w[0] <= w[1]) }
pub fn u14(a: u64) -> u64 { let mut x = a; while x > 10 { x /= 2; } x }
pub fn u15(a: u64) -> u64 { a.checked_mul(2).and_then(|x| x.checked_add(1)).unwrap_or(u64::MAX) }
pub fn u16_(a: u64) -> u64 { a.checked_shl(3).unwrap_or(0) | a.wrapping_shr(2) & !a }
pub fn u17(v: &[u64]) -> Vec<u64> { (0..v.len()).rev().map(|i| v[i]).collect() }
pub fn u18(v: &[u64]) -> Vec<u64> { (1..=v.len()).step_by(2).map(|i| v[i - 1]).collect() }
pub fn u19(v: &[u64]) -> Vec<u64> { v.iter().copied().sorted_thing() }
pub fn u20(v: &[u64]) -> u64 { v.iter().map(|&x| x as u128).sum::<u128>() as u64 }
pub fn u21(v: &[u64]) -> Vec<u64> { let mut v = v.to_vec(); v.sort(); v.dedup_by_key(|x| *x / 2); v }
pub fn u22(v: &[u64]) -> Vec<u64> { v.array_chunks::<2>().map(|[a, b]| a + b).collect() }
pub fn u23(v: &[u64]) -> Option<&[u64]> { v.get(1..3) }
pub fn u24(v: &[u64]) -> u64 { unsafe { *v.get_unchecked(1) } }
pub fn u25(v: &[u64]) -> Vec<u64> { v.repeat(2) }
pub fn u26(v: Vec<u64>) -> Vec<u64> { let mut v = v; v.splice(1..2, [9, 9]); v }
pub fn u27(v: &[u64]) -> Vec<u64> { let mut b = v.to_vec().into_boxed_slice(); b[0] = 1; b.into_vec() }
pub fn u28(v: &[u64]) -> u64 { std::mem::take(&mut v.to_vec()).len() as u64 }
pub fn u29(v: &[u64]) -> u64 { let mut a = 1; let mut b = 2; std::mem::swap(&mut a, &mut b); a + v[0] }
pub fn u30(v: &[u64]) -> u64 { let c = std::cell::Cell::new(1u64); for x in v { c.set(c.get() + x); } c.get() }
pub fn u31(v: &[u64]) -> Option<u64> { v.iter().copied().max().map(|m| m.leading_zeros() as u64) }
pub fn u32_(v: &[u64]) -> String { format!("{}", v.len()) }
pub fn u33(v: &[u64]) -> Vec<u64> { v.group_by(|a, b| a == b).map(|g| g[0]).collect() }
pub fn u34(v: &[u64]) -> Vec<u64> { v.iter().copied().inspect(|x| println!("{x}")).collect() }
pub fn u35(v: &[u64]) -> (u64, u64) { v.iter().fold((0, 1), |(a, b), x| (a + x, b * x)) }
pub fn u36(v: &[u64]) -> Vec<u64> { v.iter().min().into_iter().copied().chain(None).collect() }
pub fn u37(v: &[u64]) -> bool { v.iter().lt([3u64].iter()) || v < &[1][..] }
pub fn u38(a: u64) -> u64 { u64::from(a as u8) + u64::from(a > 3) + (a > 4) as u64 }
pub fn u39(a: i32) -> u64 { a.try_into().unwrap_or(0u64) }
pub fn u40(v: &[u64]) -> Vec<u8> { v.iter().flat_map(|x| x.to_be_bytes()).collect() }

pub fn w01(v: &[u64]) -> u64 { let c = std::cell::RefCell::new(vec![1u64]); for x in v { c.borrow_mut().push(*x); } let n = c.borrow().len() as u64; let m = c.borrow()[0]; n + m }
pub fn w02(v: &[u64]) -> u64 { let c = std::sync::Mutex::new(0u64); for x in v { *c.lock().unwrap() += x % 100; } let r = *c.lock().unwrap(); r }
pub fn w03(v: &[u64]) -> u64 { let c = std::rc::Rc::new(v.to_vec()); let d = std::rc::Rc::clone(&c); (d.len() + c.len()) as u64 }
pub fn w04(v: &[u64]) -> u64 { let b: Box<dyn Fn(u64) -> u64> = Box::new(|x| x / 2); v.iter().map(|x| b(*x)).sum() }
pub fn w05(v: &[u64]) -> u64 { use std::borrow::Cow; let c: Cow<[u64]> = Cow::Borrowed(v); c.len() as u64 + c.first().copied().unwrap_or(2) }
pub fn w06(v: &[u64]) -> Vec<u64> { let mut v = v.to_vec(); if let Some(x) = v.last_mut() { *x += 1; } if let Some(x) = v.first_mut() { *x = 7; } if let Some(x) = v.get_mut(2) { *x = 8; } v }
pub fn w07(v: &[u64]) -> Vec<u64> { let mut v = v.to_vec(); if let Some((a, b)) = v.split_first_mut() { *a = b.len() as u64; for x in b.iter_mut() { *x = 1; } } v }
pub fn w08(v: &[u64]) -> Vec<u64> { let mut v = v.to_vec(); for (i, c) in v.chunks_exact_mut(2).enumerate() { c[1] = i as u64; } v }
pub fn w09(v: &[u64]) -> Vec<u64> { let mut o = vec![0u64; v.len()]; for (a, b) in o.iter_mut().zip(v.iter().rev()) { *a = *b; } o }
pub fn w10(v: &[u64]) -> Vec<u64> { let mut o = Vec::with_capacity(v.len()); let mut it = v.iter(); while let Some(x) = it.next() { o.push(*x); } o }
pub fn w11(v: &[u64]) -> Vec<u64> { let mut o = Vec::new(); let mut s = v; while let Some((a, rest)) = s.split_first() { o.push(*a); s = rest; } o }
pub fn w12(v: &[u64]) -> Vec<u64> { let mut o = Vec::new(); let mut s = v; while !s.is_empty() { o.push(s[0]); s = &s[1..]; } o }
pub fn w13(v: &[u64]) -> Vec<u64> { let mut o = Vec::new(); let mut i = 0; while i < v.len() { o.push(v[i]); i += 2; } o }
pub fn w14(v: &[u64]) -> u64 { let mut m = u64::MAX; for x in v { if *x < m { m = *x; } } m }
pub fn w15(v: &[u64]) -> u64 { let mut m = 0; let mut k = 0; for (i, x) in v.iter().enumerate() { if *x >= m { m = *x; k = i; } } k as u64 }
pub fn w16(v: &[u64]) -> Vec<u64> { let mut o = vec![]; let mut p = None; for x in v { if p != Some(*x) { o.push(*x); } p = Some(*x); } o }
pub fn w17(v: &[u64]) -> Vec<u64> { let mut o = v.to_vec(); let n = o.len(); for i in 0..n / 2 { o.swap(i, n - 1 - i); } o }
pub fn w18(v: &[u64]) -> Option<u64> { let mut it = v.iter().copied(); let a = it.next()?; let b = it.next()?; Some(a.wrapping_sub(b)) }
pub fn w19(v: &[u64]) -> Result<u64, String> { let x = v.first().ok_or_else(|| "a".to_string())?; if *x > 4 { return Err("b".into()); } Ok(*x) }
pub fn w20(a: u64) -> u64 { match a { 0 => 1, 1..=3 => 2, x if x % 2 == 0 => 3, _ => 4 } }
pub fn w21(a: u64) -> u64 { let (mut lo, mut hi) = (0u64, 64u64); while lo < hi { let m = (lo + hi) / 2; if m * m >= a { hi = m; } else { lo = m + 1; } } lo }
pub fn w22(a: u64) -> u64 { let mut x = a; let mut c = 0; while x != 0 { c += x & 1; x >>= 1; } c }
pub fn w23(v: &[u64]) -> u64 { v.iter().fold(0u64, |acc, x| acc.wrapping_mul(31).wrapping_add(*x)) }
pub fn w24(v: &[u64]) -> Vec<Vec<u64>> { let mut o = vec![vec![]; 2]; for (i, x) in v.iter().enumerate() { o[i % 2].push(*x); } o }
pub fn w25(v: &[u64]) -> Vec<(u64, u64)> { let mut o = vec![]; for i in 0..v.len() { for j in 0..i { o.push((v[i], v[j])); } } o }
pub fn w26(v: &[u64]) -> bool { for x in v { if *x == 3 { return true; } } false }
pub fn w27(v: &[u64]) -> Vec<u64> { let mut it = v.chunks(2); let mut o = vec![]; while let Some([a, b]) = it.next() { o.push(a.wrapping_add(*b)); } o }
pub fn w28(v: &[u64]) -> (Vec<u64>, Vec<u64>) { let mut a = vec![]; let mut b = vec![]; for x in v { if x % 2 == 0 { a.push(*x) } else { b.push(*x) } } (a, b) }
pub fn w29(v: &[u64]) -> Vec<u64> { let mut v = v.to_vec(); while v.len() < 8 { v.push(0); } v }
pub fn w30(v: &[u64]) -> Vec<u64> { let mut v = v.to_vec(); v.resize(v.len().next_power_of_two(), 9); v }
pub fn w31(v: &[u64]) -> Vec<u64> { let mut out = vec![]; for w in v.windows(2) { if let [a, b] = w { out.push(a.max(b) - a.min(b)); } } out }
pub fn w32(v: &[u64]) -> Vec<u64> { let mut s = v.to_vec(); s.sort_by(|a, b| (b % 3).cmp(&(a % 3)).then_with(|| a.cmp(b))); s }
pub fn w33(v: &[u64]) -> Vec<u64> { let mut s = v.to_vec(); s.sort_by_key(|a| (a % 3, std::cmp::Reverse(*a))); s }
pub fn w34(v: &[u64]) -> u64 { let f = |x: u64| -> u64 { if x > 2 { return 1; } 0 }; v.iter().map(|x| f(*x)).sum() }
pub fn w35(v: &[u64]) -> u64 { fn g(x: u64, n: usize) -> u64 { if n == 0 { x } else { g(x / 2, n - 1) } } g(v.len() as u64, 3) }
pub fn w36(v: &[u64]) -> u64 { let mut acc = 0u64; let mut add = |x: u64| { acc = acc.wrapping_add(x); }; for x in v { add(*x); } acc }
pub fn w37(v: &[u64]) -> u64 { (0..v.len()).filter(|i| i % 2 == 0).map(|i| v[i] / 2).sum() }
pub fn w38(v: &[u64]) -> Vec<u64> { let n = v.len(); (0..n).map(|i| v[(i + 1) % n]).collect() }
pub fn w39(v: &[u64]) -> Vec<u64> { let mut d: VecDeque<u64> = v.iter().copied().collect(); d.rotate_left(if d.is_empty() { 0 } else { 1 }); if let Some(x) = d.pop_front() { d.push_back(x / 2); } d.into() }
pub fn w40(v: &[u64]) -> Vec<u64> { let mut m: BTreeMap<u64, u64> = BTreeMap::new(); for x in v { *m.entry(x % 3).or_default() += 1; } m.into_iter().flat_map(|(k, c)| [k, c]).collect() }
pub fn w41(v: &[u64]) -> Vec<u64> { let mut m: BTreeMap<u64, Vec<u64>> = BTreeMap::new(); for x in v { m.entry(x % 2).or_default().push(*x); } m.into_values().flatten().collect() }
pub fn w42(v: &[u64]) -> usize { let mut s = HashSet::new(); let mut n = 0; for x in v { if s.insert(*x) { n += 1; } } n }
pub fn w43(v: &[u64]) -> Vec<u64> { let mut it = v.iter().copied().peekable(); let mut o = vec![]; while let Some(x) = it.next() { if let Some(y) = it.peek() { o.push(x.abs_diff(*y)); } } o }
pub fn w44(v: &[u64]) -> Vec<u64> { v.iter().enumerate().filter_map(|(i, x)| (i % 2 == 1).then_some(*x)).collect() }
pub fn w45(v: &[u64]) -> Vec<u64> { v.iter().map(|x| { let y = x / 3; if y > 1 { y } else { 0 } }).skip_while(|y| *y == 0).collect() }
pub fn w46(a: u64) -> (u64, u64, u64) { (a >> 3, (a << 3) >> 3, a & 0xff | (a ^ 0x0f) & 0xf0) }
pub fn w47(a: u64) -> (u16, i8, u32, i64) { (a as u16, a as u8 as i8, (a >> 4) as u32, a as i64) }
pub fn w48(a: i64) -> (i64, i64, u64, i64) { (a / 2, a % 3, a as u64, a.rem_euclid(3)) }
pub fn w49(a: i32) -> (i64, u32, u8) { (a as i64, a as u32, a as u8) }
pub fn w50(v: &[u64]) -> u64 { let mut i = 0usize; let r = loop { if i == v.len() { break 1u64; } if v[i] % 2 == 0 { i += 1; continue; } break v[i]; }; r }
pub fn a0(v: u64, w: u64) -> u64 { let mut e = v % 9; while e < w % 13 { e += 1; } e }
pub fn a3(v: &[u64]) -> u64 { let mut e = 0u64; for x in v { while e < *x { e += 1; } } e }
