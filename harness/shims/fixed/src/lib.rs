//! Stand-in for the fixed-point crate: the two types the program uses, with the semantics of
//! `fixed` 1.11 built with `debug-assert-in-release` (operators panic on overflow, products and
//! conversions to integers round down, conversions from floats round to nearest even).

pub mod traits {
    /// A number that can be turned into fixed-point bits and back. Bits are (negative, magnitude)
    /// of the value scaled by 2^frac.
    pub trait Num: Copy {
        /// None if it does not fit 128 bits of magnitude or is not finite.
        fn to_scaled(self, frac: u32) -> Option<(bool, u128)>;
        fn from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self>;
    }

    macro_rules! int_num {
        ($($t:ty),*) => {$(
            impl Num for $t {
                #[allow(unused_comparisons)]
                fn to_scaled(self, frac: u32) -> Option<(bool, u128)> {
                    let neg = self < 0;
                    let mag = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                    if mag != 0 && mag.leading_zeros() < frac {
                        return None;
                    }
                    Some((neg, if mag == 0 { 0 } else { mag << frac }))
                }
                fn from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self> {
                    let int = mag >> frac;
                    let has_frac = frac > 0 && (int << frac) != mag;
                    if neg {
                        // round down
                        let m = int + has_frac as u128;
                        if m > 1 << 127 {
                            return None;
                        }
                        let v = (m as i128).wrapping_neg();
                        <$t>::try_from(v).ok()
                    } else {
                        <$t>::try_from(int).ok()
                    }
                }
            }
        )*};
    }
    int_num!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

    fn pow2(e: u32) -> f64 {
        f64::from_bits(((1023 + e as u64) & 0x7ff) << 52)
    }

    impl Num for f64 {
        fn to_scaled(self, frac: u32) -> Option<(bool, u128)> {
            if !self.is_finite() {
                return None;
            }
            let neg = self < 0.0;
            let v = self.abs() * pow2(frac);
            if !v.is_finite() || v >= pow2(128) {
                return None;
            }
            let big = pow2(52);
            let rounded = if v < big { (v + big) - big } else { v };
            Some((neg, rounded as u128))
        }
        fn from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self> {
            let v = mag as f64 / pow2(frac);
            Some(if neg { -v } else { v })
        }
    }

    impl Num for f32 {
        fn to_scaled(self, frac: u32) -> Option<(bool, u128)> {
            (self as f64).to_scaled(frac)
        }
        fn from_scaled(neg: bool, mag: u128, frac: u32) -> Option<Self> {
            let v = (mag as f32) / pow2(frac) as f32;
            Some(if neg { -v } else { v })
        }
    }

    pub trait ToFixed: Num {}
    impl<T: Num> ToFixed for T {}
    pub trait FromFixed: Num {}
    impl<T: Num> FromFixed for T {}
}

pub mod types {
    use super::traits::Num;
    use bytemuck::{Pod, Zeroable};
    use std::cmp::Ordering;

    /// 256 bit product as (high, low)
    fn wide_mul(a: u128, b: u128) -> (u128, u128) {
        const M: u128 = u64::MAX as u128;
        let (a1, a0) = (a >> 64, a & M);
        let (b1, b0) = (b >> 64, b & M);
        let ll = a0 * b0;
        let lh = a0 * b1;
        let hl = a1 * b0;
        let hh = a1 * b1;
        let mid = (ll >> 64) + (lh & M) + (hl & M);
        let low = (ll & M) | (mid << 64);
        let high = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
        (high, low)
    }

    /// (value << shift) / d, None on overflow of 128 bits
    fn wide_shl_div(value: u128, shift: u32, d: u128) -> Option<u128> {
        if d == 0 {
            return None;
        }
        let mut rem = value % d;
        let mut quot = value / d;
        for _ in 0..shift {
            if quot >> 127 != 0 {
                return None;
            }
            let carry = rem >> 127 != 0;
            rem = rem.wrapping_shl(1);
            quot <<= 1;
            if carry || rem >= d {
                rem = rem.wrapping_sub(d);
                quot |= 1;
            }
        }
        Some(quot)
    }

    macro_rules! fixed_type {
        ($name:ident, $bits:ty, $frac:expr, $signed:expr) => {
            #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Pod, Zeroable)]
            #[cfg_attr(
                feature = "borsh",
                derive(borsh::BorshSerialize, borsh::BorshDeserialize)
            )]
            #[repr(transparent)]
            pub struct $name {
                bits: $bits,
            }

            impl $name {
                pub const FRAC_NBITS: u32 = $frac;
                pub const INT_NBITS: u32 = 128 - $frac;
                pub const ZERO: Self = Self { bits: 0 };
                pub const ONE: Self = Self { bits: 1 << $frac };
                pub const DELTA: Self = Self { bits: 1 };
                pub const EPSILON: Self = Self { bits: 1 };
                pub const MAX: Self = Self { bits: <$bits>::MAX };
                pub const MIN: Self = Self { bits: <$bits>::MIN };

                pub const fn from_bits(bits: $bits) -> Self {
                    Self { bits }
                }
                pub const fn to_bits(self) -> $bits {
                    self.bits
                }
                #[allow(unused_comparisons)]
                fn parts(self) -> (bool, u128) {
                    if self.bits < 0 {
                        (true, (self.bits as i128).unsigned_abs())
                    } else {
                        (false, self.bits as u128)
                    }
                }
                fn build(neg: bool, mag: u128) -> Option<Self> {
                    if neg && mag != 0 {
                        if !$signed || mag > 1 << 127 {
                            return None;
                        }
                        Some(Self { bits: (mag as i128).wrapping_neg() as $bits })
                    } else {
                        <$bits>::try_from(mag).ok().map(|bits| Self { bits })
                    }
                }
                pub fn checked_from_num<N: Num>(v: N) -> Option<Self> {
                    let (neg, mag) = v.to_scaled($frac)?;
                    Self::build(neg, mag)
                }
                pub fn from_num<N: Num>(v: N) -> Self {
                    Self::checked_from_num(v).expect("overflow")
                }
                pub fn saturating_from_num<N: Num + PartialOrd + Default>(v: N) -> Self {
                    Self::checked_from_num(v).unwrap_or(if v < N::default() {
                        Self::MIN
                    } else {
                        Self::MAX
                    })
                }
                pub fn checked_to_num<N: Num>(self) -> Option<N> {
                    let (neg, mag) = self.parts();
                    N::from_scaled(neg, mag, $frac)
                }
                pub fn to_num<N: Num>(self) -> N {
                    self.checked_to_num().expect("overflow")
                }
                pub fn checked_add(self, o: Self) -> Option<Self> {
                    self.bits.checked_add(o.bits).map(|bits| Self { bits })
                }
                pub fn checked_sub(self, o: Self) -> Option<Self> {
                    self.bits.checked_sub(o.bits).map(|bits| Self { bits })
                }
                pub fn checked_neg(self) -> Option<Self> {
                    self.bits.checked_neg().map(|bits| Self { bits })
                }
                pub fn checked_mul(self, o: Self) -> Option<Self> {
                    let (na, a) = self.parts();
                    let (nb, b) = o.parts();
                    let (hi, lo) = wide_mul(a, b);
                    if hi >> $frac != 0 {
                        return None;
                    }
                    let neg = na != nb;
                    let mut mag = (hi << (128 - $frac)) | (lo >> $frac);
                    if neg && (lo << (128 - $frac)) != 0 {
                        mag = mag.checked_add(1)?;
                    }
                    Self::build(neg, mag)
                }
                pub fn checked_div(self, o: Self) -> Option<Self> {
                    let (na, a) = self.parts();
                    let (nb, b) = o.parts();
                    Self::build(na != nb, wide_shl_div(a, $frac, b)?)
                }
                pub fn saturating_add(self, o: Self) -> Self {
                    Self { bits: self.bits.saturating_add(o.bits) }
                }
                pub fn saturating_sub(self, o: Self) -> Self {
                    Self { bits: self.bits.saturating_sub(o.bits) }
                }
                pub fn saturating_mul(self, o: Self) -> Self {
                    let neg = self.parts().0 != o.parts().0;
                    self.checked_mul(o).unwrap_or(if neg { Self::MIN } else { Self::MAX })
                }
                pub fn floor(self) -> Self {
                    Self { bits: self.bits >> $frac << $frac }
                }
                pub fn checked_ceil(self) -> Option<Self> {
                    let f = self.floor();
                    if f == self {
                        Some(self)
                    } else {
                        f.checked_add(Self::ONE)
                    }
                }
                pub fn ceil(self) -> Self {
                    self.checked_ceil().expect("overflow")
                }
                pub fn frac(self) -> Self {
                    Self { bits: self.bits - self.floor().bits }
                }
                pub fn int(self) -> Self {
                    self.floor()
                }
                pub fn is_zero(self) -> bool {
                    self.bits == 0
                }
                #[allow(unused_comparisons)]
                pub fn is_negative(self) -> bool {
                    self.bits < 0
                }
                pub fn is_positive(self) -> bool {
                    self.bits > 0
                }
            }

            impl std::ops::Add for $name {
                type Output = Self;
                fn add(self, o: Self) -> Self {
                    self.checked_add(o).expect("overflow")
                }
            }
            impl std::ops::Sub for $name {
                type Output = Self;
                fn sub(self, o: Self) -> Self {
                    self.checked_sub(o).expect("overflow")
                }
            }
            impl std::ops::Mul for $name {
                type Output = Self;
                fn mul(self, o: Self) -> Self {
                    self.checked_mul(o).expect("overflow")
                }
            }
            impl std::ops::Div for $name {
                type Output = Self;
                fn div(self, o: Self) -> Self {
                    assert!(o.bits != 0, "division by zero");
                    self.checked_div(o).expect("overflow")
                }
            }
            impl std::ops::AddAssign for $name {
                fn add_assign(&mut self, o: Self) {
                    *self = *self + o;
                }
            }
            impl std::ops::SubAssign for $name {
                fn sub_assign(&mut self, o: Self) {
                    *self = *self - o;
                }
            }
            impl std::ops::MulAssign for $name {
                fn mul_assign(&mut self, o: Self) {
                    *self = *self * o;
                }
            }
            impl std::ops::DivAssign for $name {
                fn div_assign(&mut self, o: Self) {
                    *self = *self / o;
                }
            }
            impl<N: Num> PartialEq<N> for $name {
                fn eq(&self, o: &N) -> bool {
                    self.partial_cmp(o) == Some(Ordering::Equal)
                }
            }
            impl<N: Num> PartialOrd<N> for $name {
                fn partial_cmp(&self, o: &N) -> Option<Ordering> {
                    match o.to_scaled($frac) {
                        Some((neg, mag)) => {
                            let (sneg, smag) = self.parts();
                            let neg = neg && mag != 0;
                            Some(match (sneg, neg) {
                                (false, false) => smag.cmp(&mag),
                                (true, true) => mag.cmp(&smag),
                                (true, false) => Ordering::Less,
                                (false, true) => Ordering::Greater,
                            })
                        }
                        // too large in magnitude: decide by the sign of the unscaled number
                        None => match o.to_scaled(0) {
                            Some((true, _)) => Some(Ordering::Greater),
                            Some((false, _)) => Some(Ordering::Less),
                            None => None,
                        },
                    }
                }
            }
            impl std::fmt::Display for $name {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "{}", self.to_num::<f64>())
                }
            }
            impl std::fmt::Debug for $name {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "{}", self.to_num::<f64>())
                }
            }
        };
    }

    fixed_type!(I80F48, i128, 48, true);
    fixed_type!(U64F64, u128, 64, false);

    impl std::ops::Neg for I80F48 {
        type Output = Self;
        fn neg(self) -> Self {
            self.checked_neg().expect("overflow")
        }
    }
    impl I80F48 {
        pub fn abs(self) -> Self {
            if self.is_negative() {
                -self
            } else {
                self
            }
        }
    }

    macro_rules! lossless {
        ($name:ident: $($t:ty),*) => {$(
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::from_num(v)
                }
            }
        )*};
    }
    lossless!(I80F48: i8, i16, i32, i64, u8, u16, u32, u64);
    lossless!(U64F64: u8, u16, u32, u64);
}

pub mod prelude {
    pub use crate::traits::{FromFixed, ToFixed};
}
