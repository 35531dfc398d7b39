#[macro_export] macro_rules! info { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
#[macro_export] macro_rules! error { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
