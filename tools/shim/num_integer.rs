pub fn div_ceil(a: usize, b: usize) -> usize { a / b + (a % b != 0) as usize }
