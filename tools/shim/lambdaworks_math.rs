//! A small stand-in for lambdaworks-math: the same interface as far as the repository uses it.
pub mod errors {
    #[derive(Debug, PartialEq, Eq)]
    pub enum ByteConversionError { FromBEBytesError, FromLEBytesError }
    #[derive(Debug, PartialEq, Eq)]
    pub enum CreationError { InvalidHexString }
    #[derive(Debug, PartialEq, Eq)]
    pub enum DeserializationError { InvalidAmountOfBytes, FieldFromBytesError, PointerSizeError }
    impl From<ByteConversionError> for DeserializationError {
        fn from(_: ByteConversionError) -> Self { DeserializationError::FieldFromBytesError }
    }
}

pub mod traits {
    use crate::errors::{ByteConversionError, DeserializationError};
    pub trait ByteConversion {
        fn to_bytes_be(&self) -> Vec<u8>;
        fn to_bytes_le(&self) -> Vec<u8>;
        fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> where Self: Sized;
        fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> where Self: Sized;
    }
    pub trait Serializable {
        fn serialize(&self) -> Vec<u8>;
    }
    pub trait Deserializable {
        fn deserialize(bytes: &[u8]) -> Result<Self, DeserializationError> where Self: Sized;
    }
}

pub mod helpers {
    use crate::field::{element::FieldElement, traits::IsFFTField};
    pub fn resize_to_next_power_of_two<F: IsFFTField>(trace_colums: &mut [Vec<FieldElement<F>>]) {
        trace_colums.iter_mut().for_each(|col| {
            let n = col.len().next_power_of_two();
            col.resize(n, FieldElement::zero())
        })
    }
}

pub mod unsigned_integer {
    pub mod traits {
        pub trait IsUnsignedInteger: Copy + Eq + Ord + From<u16> + std::fmt::Debug + std::fmt::Display {
            fn bit(&self, i: usize) -> bool;
        }
    }
    pub mod element {
        use super::traits::IsUnsignedInteger;
        /// most significant limb first
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
        pub struct UnsignedInteger<const N: usize> { pub limbs: [u64; N] }
        pub type U256 = UnsignedInteger<4>;
        impl<const N: usize> UnsignedInteger<N> {
            pub fn from_hex_unchecked(v: &str) -> Self { Self::from_hex(v).unwrap() }
            pub fn from_hex(v: &str) -> Result<Self, crate::errors::CreationError> {
                let v = v.strip_prefix("0x").unwrap_or(v);
                let mut limbs = [0u64; N];
                for c in v.chars() {
                    let d = c.to_digit(16).ok_or(crate::errors::CreationError::InvalidHexString)? as u64;
                    for i in 0..N {
                        limbs[i] = limbs[i] << 4 | if i + 1 < N { limbs[i + 1] >> 60 } else { d };
                    }
                }
                Ok(Self { limbs })
            }
        }
        impl<const N: usize> std::fmt::Display for UnsignedInteger<N> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "0x")?;
                for l in self.limbs { write!(f, "{l:016x}")?; }
                Ok(())
            }
        }
        impl<const N: usize> IsUnsignedInteger for UnsignedInteger<N> {
            fn bit(&self, i: usize) -> bool { i < 64 * N && (self.limbs[N - 1 - i / 64] >> (i % 64)) & 1 == 1 }
        }
        macro_rules! from { ($($t:ty),*) => { $(impl<const N: usize> From<$t> for UnsignedInteger<N> {
            fn from(x: $t) -> Self { let mut limbs = [0; N]; limbs[N - 1] = x as u64; Self { limbs } } })* } }
        from!(u8, u16, u32, u64, usize);
        impl<const N: usize> From<u128> for UnsignedInteger<N> {
            fn from(x: u128) -> Self { let mut limbs = [0; N]; limbs[N - 1] = x as u64; limbs[N - 2] = (x >> 64) as u64; Self { limbs } }
        }
        impl<const N: usize> From<UnsignedInteger<N>> for u16 { fn from(x: UnsignedInteger<N>) -> u16 { x.limbs[N - 1] as u16 } }
        impl<const N: usize> std::ops::BitAnd for UnsignedInteger<N> {
            type Output = Self;
            fn bitand(self, o: Self) -> Self { let mut l = self.limbs; for i in 0..N { l[i] &= o.limbs[i]; } Self { limbs: l } }
        }
        impl<const N: usize> std::ops::Shr<usize> for UnsignedInteger<N> {
            type Output = Self;
            fn shr(self, k: usize) -> Self {
                let mut limbs = [0u64; N];
                for i in 0..64 * N - k.min(64 * N) {
                    if self.bit(i + k) { limbs[N - 1 - i / 64] |= 1 << (i % 64); }
                }
                Self { limbs }
            }
        }
        impl<const N: usize> std::ops::Shl<usize> for UnsignedInteger<N> {
            type Output = Self;
            fn shl(self, k: usize) -> Self {
                let mut limbs = [0u64; N];
                for i in k..64 * N {
                    if self.bit(i - k) { limbs[N - 1 - i / 64] |= 1 << (i % 64); }
                }
                Self { limbs }
            }
        }
        impl<const N: usize> std::ops::ShrAssign<usize> for UnsignedInteger<N> { fn shr_assign(&mut self, k: usize) { *self = *self >> k; } }
    }
}

pub mod field {
    pub mod errors {
        #[derive(Debug, PartialEq, Eq)]
        pub enum FieldError { DivisionByZero, RootOfUnityError(u64), InvZeroError }
    }
    pub mod traits {
        use crate::field::{element::FieldElement, errors::FieldError};
        use crate::unsigned_integer::traits::IsUnsignedInteger;
        pub trait IsField: std::fmt::Debug + Clone {
            type BaseType: Clone + std::fmt::Debug + Send + Sync;
            fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
            fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
            fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
            fn neg(a: &Self::BaseType) -> Self::BaseType { Self::sub(&Self::zero(), a) }
            fn inv(a: &Self::BaseType) -> Self::BaseType;
            fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool;
            fn zero() -> Self::BaseType { Self::from_u64(0) }
            fn one() -> Self::BaseType { Self::from_u64(1) }
            fn from_u64(x: u64) -> Self::BaseType;
            fn from_base_type(x: Self::BaseType) -> Self::BaseType;
        }
        pub trait IsPrimeField: IsField {
            type RepresentativeType: IsUnsignedInteger;
            fn representative(a: &Self::BaseType) -> Self::RepresentativeType;
            fn field_bit_size() -> usize;
        }
        pub trait IsFFTField: IsPrimeField {
            const TWO_ADICITY: u64;
            fn get_primitive_root_of_unity(order: u64) -> Result<FieldElement<Self>, FieldError>;
        }
    }
    pub mod element {
        use super::traits::*;
        use std::ops::*;
        #[derive(Debug, Clone)]
        pub struct FieldElement<F: IsField> { value: F::BaseType }
        impl<F: IsField> Copy for FieldElement<F> where F::BaseType: Copy {}
        impl<F: IsField> FieldElement<F> {
            pub fn new(value: F::BaseType) -> Self { Self { value: F::from_base_type(value) } }
            pub fn from_raw(value: &F::BaseType) -> Self { Self { value: value.clone() } }
            pub fn value(&self) -> &F::BaseType { &self.value }
            pub fn zero() -> Self { Self { value: F::zero() } }
            pub fn one() -> Self { Self { value: F::one() } }
            pub fn inv(&self) -> Self { Self { value: F::inv(&self.value) } }
            pub fn square(&self) -> Self { self * self }
            pub fn pow<T: crate::Exponent>(&self, e: T) -> Self {
                let mut e = e.to_u128();
                let (mut b, mut r) = (self.clone(), Self::one());
                while e > 0 {
                    if e & 1 == 1 { r = &r * &b; }
                    b = b.square();
                    e >>= 1;
                }
                r
            }
            pub fn inplace_batch_inverse(v: &mut [Self]) {
                if v.is_empty() { return; }
                for x in v.iter_mut() { *x = x.inv(); }
            }
        }
        impl<F: IsPrimeField> FieldElement<F> {
            pub fn representative(&self) -> F::RepresentativeType { F::representative(&self.value) }
        }
        impl<F: IsField> Default for FieldElement<F> { fn default() -> Self { Self::zero() } }
        impl<F: IsField> PartialEq for FieldElement<F> { fn eq(&self, o: &Self) -> bool { F::eq(&self.value, &o.value) } }
        impl<F: IsField> Eq for FieldElement<F> {}
        impl<F: IsPrimeField> std::hash::Hash for FieldElement<F> where F::RepresentativeType: std::hash::Hash {
            fn hash<H: std::hash::Hasher>(&self, s: &mut H) { self.representative().hash(s) }
        }
        impl<F: IsField> From<u64> for FieldElement<F> { fn from(x: u64) -> Self { Self { value: F::from_u64(x) } } }
        impl<F: IsField> From<&F::BaseType> for FieldElement<F> where F::BaseType: Clone {
            fn from(x: &F::BaseType) -> Self { Self { value: F::from_base_type(x.clone()) } }
        }
        macro_rules! op { ($t:ident, $m:ident, $ta:ident, $ma:ident) => {
            impl<F: IsField> $t<&FieldElement<F>> for &FieldElement<F> { type Output = FieldElement<F>;
                fn $m(self, o: &FieldElement<F>) -> FieldElement<F> { FieldElement { value: F::$m(&self.value, &o.value) } } }
            impl<F: IsField> $t<FieldElement<F>> for FieldElement<F> { type Output = FieldElement<F>;
                fn $m(self, o: FieldElement<F>) -> FieldElement<F> { $t::$m(&self, &o) } }
            impl<F: IsField> $t<&FieldElement<F>> for FieldElement<F> { type Output = FieldElement<F>;
                fn $m(self, o: &FieldElement<F>) -> FieldElement<F> { $t::$m(&self, o) } }
            impl<F: IsField> $t<FieldElement<F>> for &FieldElement<F> { type Output = FieldElement<F>;
                fn $m(self, o: FieldElement<F>) -> FieldElement<F> { $t::$m(self, &o) } }
            impl<F: IsField> $ta<FieldElement<F>> for FieldElement<F> { fn $ma(&mut self, o: FieldElement<F>) { *self = $t::$m(&*self, &o) } }
        } }
        op!(Add, add, AddAssign, add_assign);
        op!(Sub, sub, SubAssign, sub_assign);
        op!(Mul, mul, MulAssign, mul_assign);
        impl<F: IsField> Div<&FieldElement<F>> for &FieldElement<F> { type Output = FieldElement<F>;
            fn div(self, o: &FieldElement<F>) -> FieldElement<F> { self * o.inv() } }
        impl<F: IsField> Div<FieldElement<F>> for FieldElement<F> { type Output = FieldElement<F>;
            fn div(self, o: FieldElement<F>) -> FieldElement<F> { &self * o.inv() } }
        impl<F: IsField> Div<&FieldElement<F>> for FieldElement<F> { type Output = FieldElement<F>;
            fn div(self, o: &FieldElement<F>) -> FieldElement<F> { &self * o.inv() } }
        impl<F: IsField> Div<FieldElement<F>> for &FieldElement<F> { type Output = FieldElement<F>;
            fn div(self, o: FieldElement<F>) -> FieldElement<F> { self * o.inv() } }
        impl<F: IsField> Neg for &FieldElement<F> { type Output = FieldElement<F>; fn neg(self) -> FieldElement<F> { FieldElement { value: F::neg(&self.value) } } }
        impl<F: IsField> Neg for FieldElement<F> { type Output = FieldElement<F>; fn neg(self) -> FieldElement<F> { -&self } }
        impl<F: IsField> std::iter::Sum for FieldElement<F> {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) }
        }
        impl<F: IsField> std::iter::Product for FieldElement<F> {
            fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) }
        }
        impl<'a, F: IsField> std::iter::Product<&'a FieldElement<F>> for FieldElement<F> {
            fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) }
        }
    }
    pub mod fields {
        pub mod montgomery_backed_prime_fields {
            pub trait IsModulus<U>: std::fmt::Debug + Clone { const MODULUS: U; }
            pub use super::fft_friendly::stark_252_prime_field::{MontgomeryBackendPrimeField, U256PrimeField};
        }
        pub mod u64_prime_field {
            #[derive(Debug, Clone)]
            pub struct U64PrimeField<const P: u64>;
            pub type F17 = U64PrimeField<17>;
            pub type FE17 = crate::field::element::FieldElement<F17>;
        }
        pub mod fft_friendly { pub mod stark_252_prime_field {
            use crate::{errors::*, traits::*, field::{traits::*, element::*, errors::FieldError}, unsigned_integer::element::U256};
            pub trait Modulus: std::fmt::Debug + Clone {}
            #[derive(Debug, Clone)]
            pub struct MontgomeryConfigStark252PrimeField;
            impl Modulus for MontgomeryConfigStark252PrimeField {}
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct MontgomeryBackendPrimeField<M>(std::marker::PhantomData<M>);
            pub type U256PrimeField<M> = MontgomeryBackendPrimeField<M>;
            pub type Stark252PrimeField = U256PrimeField<MontgomeryConfigStark252PrimeField>;
            // p = 2^251 + 17 * 2^192 + 1, least significant limb first here
            const P: [u64; 4] = [1, 0, 0, 0x0800_0000_0000_0011];
            type L = [u64; 4];
            fn geq(a: &L) -> bool { for i in (0..4).rev() { if a[i] != P[i] { return a[i] > P[i]; } } true }
            fn subp(a: &L, b: &L) -> (L, bool) {
                let (mut r, mut br) = ([0; 4], false);
                for i in 0..4 { let (x, b1) = a[i].overflowing_sub(b[i]); let (x, b2) = x.overflowing_sub(br as u64); r[i] = x; br = b1 | b2; }
                (r, br)
            }
            fn addp(a: &L, b: &L) -> L {
                let (mut r, mut c) = ([0; 4], 0u128);
                for i in 0..4 { c += a[i] as u128 + b[i] as u128; r[i] = c as u64; c >>= 64; }
                r
            }
            fn mont(a: &L, b: &L) -> L {
                let mut t = [0u64; 6];
                for i in 0..4 {
                    let mut c = 0u128;
                    for j in 0..4 { c += t[j] as u128 + a[j] as u128 * b[i] as u128; t[j] = c as u64; c >>= 64; }
                    c += t[4] as u128; t[4] = c as u64; t[5] = (c >> 64) as u64;
                    let m = t[0].wrapping_neg();
                    let mut c = (t[0] as u128 + m as u128 * P[0] as u128) >> 64;
                    for j in 1..4 { c += t[j] as u128 + m as u128 * P[j] as u128; t[j - 1] = c as u64; c >>= 64; }
                    c += t[4] as u128; t[3] = c as u64; t[4] = t[5] + (c >> 64) as u64;
                }
                let r = [t[0], t[1], t[2], t[3]];
                if t[4] > 0 || geq(&r) { subp(&r, &P).0 } else { r }
            }
            // 2^512 mod p
            fn r2() -> L {
                static R: std::sync::OnceLock<L> = std::sync::OnceLock::new();
                *R.get_or_init(|| { let mut x: L = [1, 0, 0, 0]; for _ in 0..512 { x = addp(&x, &x); if geq(&x) { x = subp(&x, &P).0; } } x })
            }
            fn enter(mut a: L) -> L { while geq(&a) { a = subp(&a, &P).0; } mont(&a, &r2()) }
            fn le(u: &U256) -> L { [u.limbs[3], u.limbs[2], u.limbs[1], u.limbs[0]] }
            impl<M: Modulus> IsField for MontgomeryBackendPrimeField<M> {
                type BaseType = U256;
                fn add(a: &U256, b: &U256) -> U256 { let r = addp(&le(a), &le(b)); be(if geq(&r) { subp(&r, &P).0 } else { r }) }
                fn sub(a: &U256, b: &U256) -> U256 { let (r, br) = subp(&le(a), &le(b)); be(if br { addp(&r, &P) } else { r }) }
                fn mul(a: &U256, b: &U256) -> U256 { be(mont(&le(a), &le(b))) }
                fn inv(a: &U256) -> U256 {
                    assert!(a.limbs != [0; 4], "Division by zero element");
                    let e = subp(&P, &[2, 0, 0, 0]).0;
                    let (mut r, mut b) = (enter([1, 0, 0, 0]), le(a));
                    for i in 0..256 { if (e[i / 64] >> (i % 64)) & 1 == 1 { r = mont(&r, &b); } b = mont(&b, &b); }
                    be(r)
                }
                fn eq(a: &U256, b: &U256) -> bool { a == b }
                fn from_u64(x: u64) -> U256 { be(enter([x, 0, 0, 0])) }
                fn from_base_type(x: U256) -> U256 { be(enter(le(&x))) }
            }
            fn be(a: L) -> U256 { U256 { limbs: [a[3], a[2], a[1], a[0]] } }
            impl<M: Modulus> IsPrimeField for MontgomeryBackendPrimeField<M> {
                type RepresentativeType = U256;
                fn representative(a: &U256) -> U256 { be(mont(&le(a), &[1, 0, 0, 0])) }
                fn field_bit_size() -> usize { 252 }
            }
            impl<M: Modulus> IsFFTField for MontgomeryBackendPrimeField<M> {
                const TWO_ADICITY: u64 = 192;
                fn get_primitive_root_of_unity(order: u64) -> Result<FieldElement<Self>, FieldError> {
                    if order > 192 { return Err(FieldError::RootOfUnityError(order)); }
                    // 3 generates the multiplicative group
                    let mut e = subp(&P, &[1, 0, 0, 0]).0;
                    for _ in 0..order { for i in 0..4 { e[i] = e[i] >> 1 | if i < 3 { e[i + 1] << 63 } else { 0 }; } }
                    let (mut r, mut b) = (FieldElement::one(), FieldElement::from(3));
                    for i in 0..256 { if (e[i / 64] >> (i % 64)) & 1 == 1 { r = &r * &b; } b = b.square(); }
                    Ok(r)
                }
            }
            impl<M: Modulus> FieldElement<MontgomeryBackendPrimeField<M>> {
                pub fn from_hex_unchecked(s: &str) -> Self { Self::new(U256::from_hex_unchecked(s)) }
                pub fn from_hex(s: &str) -> Result<Self, CreationError> { Ok(Self::new(U256::from_hex(s)?)) }
                pub fn to_bytes_be(&self) -> Vec<u8> { ByteConversion::to_bytes_be(self) }
                pub fn to_bytes_le(&self) -> Vec<u8> { ByteConversion::to_bytes_le(self) }
                pub fn to_hex(&self) -> String { format!("{}", self.representative()) }
            }
            impl<M: Modulus> std::fmt::Display for FieldElement<MontgomeryBackendPrimeField<M>> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.representative()) }
            }
            impl<M: Modulus> ByteConversion for FieldElement<MontgomeryBackendPrimeField<M>> {
                fn to_bytes_be(&self) -> Vec<u8> { self.representative().limbs.iter().flat_map(|l| l.to_be_bytes()).collect() }
                fn to_bytes_le(&self) -> Vec<u8> { let mut v = self.to_bytes_be(); v.reverse(); v }
                fn from_bytes_be(b: &[u8]) -> Result<Self, ByteConversionError> {
                    let b = b.get(0..32).ok_or(ByteConversionError::FromBEBytesError)?;
                    let mut limbs = [0; 4];
                    for i in 0..4 { limbs[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
                    Ok(Self::new(U256 { limbs }))
                }
                fn from_bytes_le(b: &[u8]) -> Result<Self, ByteConversionError> {
                    let mut b = b.get(0..32).ok_or(ByteConversionError::FromLEBytesError)?.to_vec();
                    b.reverse();
                    Self::from_bytes_be(&b)
                }
            }
        } }
    }
}

pub trait Exponent: Copy { fn to_u128(self) -> u128; }
macro_rules! exponent { ($($t:ty),*) => { $(impl Exponent for $t { fn to_u128(self) -> u128 { self as u128 } })* } }
exponent!(u8, u16, u32, u64, u128, usize, i32);

pub mod polynomial {
    use crate::field::{element::FieldElement, traits::IsField};
    use std::ops::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Polynomial<FE> { pub coefficients: Vec<FE> }
    type Poly<F> = Polynomial<FieldElement<F>>;
    impl<F: IsField> Polynomial<FieldElement<F>> {
        pub fn new(c: &[FieldElement<F>]) -> Self {
            let mut c = c.to_vec();
            while c.last() == Some(&FieldElement::zero()) { c.pop(); }
            Self { coefficients: c }
        }
        pub fn new_monomial(c: FieldElement<F>, d: usize) -> Self { let mut v = vec![FieldElement::zero(); d]; v.push(c); Self::new(&v) }
        pub fn zero() -> Self { Self { coefficients: vec![] } }
        pub fn evaluate(&self, x: &FieldElement<F>) -> FieldElement<F> {
            self.coefficients.iter().rev().fold(FieldElement::zero(), |a, c| &a * x + c)
        }
        pub fn evaluate_slice(&self, xs: &[FieldElement<F>]) -> Vec<FieldElement<F>> { xs.iter().map(|x| self.evaluate(x)).collect() }
        pub fn degree(&self) -> usize { self.coefficients.len().saturating_sub(1) }
        pub fn leading_coefficient(&self) -> FieldElement<F> { self.coefficients.last().cloned().unwrap_or_else(FieldElement::zero) }
        pub fn coefficients(&self) -> &[FieldElement<F>] { &self.coefficients }
        pub fn coeff_len(&self) -> usize { self.coefficients.len() }
        pub fn pad_with_zero_coefficients_to_length(a: &mut Self, n: usize) { a.coefficients.resize(n.max(a.coefficients.len()), FieldElement::zero()) }
        pub fn pad_with_zero_coefficients(a: &Self, b: &Self) -> (Self, Self) {
            let (mut a, mut b) = (a.clone(), b.clone());
            let n = a.coefficients.len().max(b.coefficients.len());
            Self::pad_with_zero_coefficients_to_length(&mut a, n);
            Self::pad_with_zero_coefficients_to_length(&mut b, n);
            (a, b)
        }
        pub fn ruffini_division_inplace(&mut self, b: &FieldElement<F>) {
            let n = self.coefficients.len();
            if n == 0 { return; }
            for i in (0..n - 1).rev() { self.coefficients[i] = &self.coefficients[i] + b * &self.coefficients[i + 1]; }
            self.coefficients.remove(0);
        }
        pub fn mul_with_ref(&self, o: &Self) -> Self {
            if self.coefficients.is_empty() || o.coefficients.is_empty() { return Self::zero(); }
            let mut r = vec![FieldElement::zero(); self.coefficients.len() + o.coefficients.len() - 1];
            for (i, a) in self.coefficients.iter().enumerate() { for (j, b) in o.coefficients.iter().enumerate() { r[i + j] = &r[i + j] + a * b; } }
            Self::new(&r)
        }
        pub fn long_division_with_remainder(self, d: &Self) -> (Self, Self) {
            let mut r = self; let mut q = vec![FieldElement::zero(); (r.coefficients.len() + 1).saturating_sub(d.coefficients.len())];
            let inv = d.leading_coefficient().inv();
            while r.coefficients.len() >= d.coefficients.len() && !r.coefficients.is_empty() {
                let k = r.coefficients.len() - d.coefficients.len();
                let c = r.leading_coefficient() * &inv;
                for (j, b) in d.coefficients.iter().enumerate() { r.coefficients[k + j] = &r.coefficients[k + j] - &c * b; }
                r = Self::new(&r.coefficients); q[k] = c;
            }
            (Self::new(&q), r)
        }
        pub fn even_odd_decomposition(&self) -> (Self, Self) {
            (Self::new(&self.coefficients.iter().step_by(2).cloned().collect::<Vec<_>>()),
             Self::new(&self.coefficients.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>()))
        }
        fn zip(a: &Self, b: &Self, f: impl Fn(&FieldElement<F>, &FieldElement<F>) -> FieldElement<F>) -> Self {
            let (a, b) = Self::pad_with_zero_coefficients(a, b);
            Self::new(&a.coefficients.iter().zip(&b.coefficients).map(|(x, y)| f(x, y)).collect::<Vec<_>>())
        }
    }
    macro_rules! pp { ($t:ident, $m:ident, $f:expr) => {
        impl<F: IsField> $t<&Poly<F>> for &Poly<F> { type Output = Poly<F>; fn $m(self, o: &Poly<F>) -> Poly<F> { $f(self, o) } }
        impl<F: IsField> $t<Poly<F>> for Poly<F> { type Output = Poly<F>; fn $m(self, o: Poly<F>) -> Poly<F> { $f(&self, &o) } }
        impl<F: IsField> $t<&Poly<F>> for Poly<F> { type Output = Poly<F>; fn $m(self, o: &Poly<F>) -> Poly<F> { $f(&self, o) } }
        impl<F: IsField> $t<Poly<F>> for &Poly<F> { type Output = Poly<F>; fn $m(self, o: Poly<F>) -> Poly<F> { $f(self, &o) } }
    } }
    pp!(Add, add, |a: &Poly<F>, b: &Poly<F>| Poly::<F>::zip(a, b, |x, y| x + y));
    pp!(Sub, sub, |a: &Poly<F>, b: &Poly<F>| Poly::<F>::zip(a, b, |x, y| x - y));
    pp!(Mul, mul, |a: &Poly<F>, b: &Poly<F>| a.mul_with_ref(b));
    pp!(Div, div, |a: &Poly<F>, b: &Poly<F>| a.clone().long_division_with_remainder(b).0);
    macro_rules! pf { ($t:ident, $m:ident) => {
        impl<F: IsField> $t<&FieldElement<F>> for &Poly<F> { type Output = Poly<F>; fn $m(self, o: &FieldElement<F>) -> Poly<F> { $t::$m(self, &Poly::<F>::new(&[o.clone()])) } }
        impl<F: IsField> $t<FieldElement<F>> for Poly<F> { type Output = Poly<F>; fn $m(self, o: FieldElement<F>) -> Poly<F> { $t::$m(&self, &o) } }
        impl<F: IsField> $t<&FieldElement<F>> for Poly<F> { type Output = Poly<F>; fn $m(self, o: &FieldElement<F>) -> Poly<F> { $t::$m(&self, o) } }
        impl<F: IsField> $t<FieldElement<F>> for &Poly<F> { type Output = Poly<F>; fn $m(self, o: FieldElement<F>) -> Poly<F> { $t::$m(self, &o) } }
        impl<F: IsField> $t<&Poly<F>> for &FieldElement<F> { type Output = Poly<F>; fn $m(self, o: &Poly<F>) -> Poly<F> { $t::$m(&Poly::<F>::new(&[self.clone()]), o) } }
        impl<F: IsField> $t<Poly<F>> for FieldElement<F> { type Output = Poly<F>; fn $m(self, o: Poly<F>) -> Poly<F> { $t::$m(&self, &o) } }
        impl<F: IsField> $t<&Poly<F>> for FieldElement<F> { type Output = Poly<F>; fn $m(self, o: &Poly<F>) -> Poly<F> { $t::$m(&self, o) } }
        impl<F: IsField> $t<Poly<F>> for &FieldElement<F> { type Output = Poly<F>; fn $m(self, o: Poly<F>) -> Poly<F> { $t::$m(self, &o) } }
    } }
    pf!(Add, add); pf!(Sub, sub); pf!(Mul, mul);
    impl<F: IsField> Neg for Poly<F> { type Output = Poly<F>; fn neg(self) -> Poly<F> { Poly::<F>::zero() - self } }
}

pub mod fft {
    pub mod errors {
        #[derive(Debug, PartialEq, Eq)]
        pub enum FFTError { RootOfUnityError(u64), InputError(usize) }
    }
    pub mod cpu { pub mod roots_of_unity {
        use crate::field::{element::FieldElement, traits::IsFFTField};
        use crate::fft::errors::FFTError;
        pub fn get_powers_of_primitive_root_coset<F: IsFFTField>(n: u64, count: usize, offset: &FieldElement<F>) -> Result<Vec<FieldElement<F>>, FFTError> {
            let r = F::get_primitive_root_of_unity(n).map_err(|_| FFTError::RootOfUnityError(n))?;
            let mut x = offset.clone();
            Ok((0..count).map(|_| { let y = x.clone(); x = &x * &r; y }).collect())
        }
    } }
    pub mod polynomial {
        use crate::{polynomial::Polynomial, field::{element::FieldElement, traits::IsFFTField}, fft::errors::FFTError};
        pub trait FFTPoly<F: IsFFTField> {
            fn evaluate_fft(&self, blowup: usize, size: Option<usize>) -> Result<Vec<FieldElement<F>>, FFTError>;
            fn evaluate_offset_fft(&self, blowup: usize, size: Option<usize>, offset: &FieldElement<F>) -> Result<Vec<FieldElement<F>>, FFTError>;
            fn interpolate_fft(e: &[FieldElement<F>]) -> Result<Polynomial<FieldElement<F>>, FFTError>;
            fn interpolate_offset_fft(e: &[FieldElement<F>], offset: &FieldElement<F>) -> Result<Polynomial<FieldElement<F>>, FFTError>;
        }
        fn ntt<F: IsFFTField>(a: &[FieldElement<F>], w: &FieldElement<F>) -> Vec<FieldElement<F>> {
            if a.len() == 1 { return a.to_vec(); }
            let w2 = w.square();
            let e = ntt(&a.iter().step_by(2).cloned().collect::<Vec<_>>(), &w2);
            let o = ntt(&a.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>(), &w2);
            let n = a.len(); let mut x = FieldElement::one();
            let mut r = vec![FieldElement::zero(); n];
            for i in 0..n / 2 { let t = &x * &o[i]; r[i] = &e[i] + &t; r[i + n / 2] = &e[i] - &t; x = &x * w; }
            r
        }
        impl<F: IsFFTField> FFTPoly<F> for Polynomial<FieldElement<F>> {
            fn evaluate_fft(&self, blowup: usize, size: Option<usize>) -> Result<Vec<FieldElement<F>>, FFTError> {
                let size = size.unwrap_or(0);
                let len = self.coefficients.len().max(size).next_power_of_two() * blowup;
                let mut c = self.coefficients.clone();
                if c.is_empty() { return Ok(vec![FieldElement::zero(); len]); }
                c.resize(len, FieldElement::zero());
                let w = F::get_primitive_root_of_unity(len.trailing_zeros() as u64).map_err(|_| FFTError::RootOfUnityError(0))?;
                Ok(ntt(&c, &w))
            }
            fn evaluate_offset_fft(&self, blowup: usize, size: Option<usize>, offset: &FieldElement<F>) -> Result<Vec<FieldElement<F>>, FFTError> {
                let mut x = FieldElement::one();
                Polynomial::new(&self.coefficients.iter().map(|c| { let y = c * &x; x = &x * offset; y }).collect::<Vec<_>>()).evaluate_fft(blowup, size)
            }
            fn interpolate_fft(e: &[FieldElement<F>]) -> Result<Polynomial<FieldElement<F>>, FFTError> {
                if e.is_empty() || !e.len().is_power_of_two() { return Err(FFTError::InputError(e.len())); }
                let w = F::get_primitive_root_of_unity(e.len().trailing_zeros() as u64).map_err(|_| FFTError::RootOfUnityError(0))?.inv();
                let n = FieldElement::<F>::from(e.len() as u64).inv();
                Ok(Polynomial::new(&ntt(e, &w).iter().map(|x| x * &n).collect::<Vec<_>>()))
            }
            fn interpolate_offset_fft(e: &[FieldElement<F>], offset: &FieldElement<F>) -> Result<Polynomial<FieldElement<F>>, FFTError> {
                let p = Self::interpolate_fft(e)?;
                let (o, mut x) = (offset.inv(), FieldElement::one());
                Ok(Polynomial::new(&p.coefficients.iter().map(|c| { let y = c * &x; x = &x * &o; y }).collect::<Vec<_>>()))
            }
        }
    }
}
