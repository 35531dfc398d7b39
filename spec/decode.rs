//! Reference decoding of a Cairo instruction word (Cairo whitepaper, section 4.4).

pub fn offset(word: u64, k: u32) -> i32 {
    ((word >> (16 * k)) & 0xffff) as i32 - 32768
}

pub fn raw_offset(word: u64, k: u32) -> FE {
    FE::from((word >> (16 * k)) & 0xffff)
}

pub fn flag(word: u64, k: u32) -> FE {
    FE::from((word >> (48 + k)) & 1)
}

pub fn is_flag(word: u64, k: u32) -> bool {
    (word >> (48 + k)) & 1 == 1
}

/// no two flags of a group are set
pub fn group_ok(word: u64, lo: u32, len: u32) -> bool {
    let g = (word >> (48 + lo)) & ((1 << len) - 1);
    g & g.wrapping_sub(1) == 0
}
