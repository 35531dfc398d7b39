//! Keccak256 with the interface of the sha3 crate that the repository uses.
#[derive(Clone, Default)]
pub struct Keccak256 {
    data: Vec<u8>,
}

pub struct Output(pub [u8; 32]);

impl std::ops::Deref for Output {
    type Target = [u8; 32];
    fn deref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<Output> for [u8; 32] {
    fn from(o: Output) -> [u8; 32] {
        o.0
    }
}
impl IntoIterator for Output {
    type Item = u8;
    type IntoIter = std::array::IntoIter<u8, 32>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}

pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> Output;
    fn finalize_reset(&mut self) -> Output;
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self {
        self.update(d);
        self
    }
    fn digest(d: impl AsRef<[u8]>) -> Output {
        let mut h = Self::new();
        h.update(d);
        h.finalize()
    }
}

impl Digest for Keccak256 {
    fn new() -> Self {
        Self { data: vec![] }
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.data.extend_from_slice(d.as_ref());
    }
    fn finalize(self) -> Output {
        Output(keccak256(&self.data))
    }
    fn finalize_reset(&mut self) -> Output {
        let r = Output(keccak256(&self.data));
        self.data.clear();
        r
    }
}

fn f1600(a: &mut [u64; 25]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let (mut x, mut y) = (1, 0);
        let mut cur = a[1];
        for t in 0..24u32 {
            let r = ((t + 1) * (t + 2) / 2) % 64;
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
            let tmp = a[x + 5 * y];
            a[x + 5 * y] = cur.rotate_left(r);
            cur = tmp;
        }
        for y in 0..5 {
            let row = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        for j in 0..7 {
            let bit = lfsr & 1;
            lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 };
            if bit == 1 {
                a[0] ^= 1u64 << ((1u32 << j) - 1);
            }
        }
    }
}

pub fn keccak256(data: &[u8]) -> [u8; 32] {
    let rate = 136;
    let mut st = [0u64; 25];
    let mut padded = data.to_vec();
    padded.push(1);
    while padded.len() % rate != 0 {
        padded.push(0);
    }
    *padded.last_mut().unwrap() |= 0x80;
    for block in padded.chunks(rate) {
        for (i, w) in block.chunks(8).enumerate() {
            st[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f1600(&mut st);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&st[i].to_le_bytes());
    }
    out
}
