//! Prime fields small enough to enumerate completely.  The gadgets of the crate
//! are generic over `ff::PrimeField`, so the code that runs here is the code that
//! runs over the production fields.
use ff::derive::rand_core::RngCore;
use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use ff::{Field, PrimeField};
use num_bigint::{BigInt, Sign};
use std::iter::{Product, Sum};
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Fp<const P: u64>(pub u64);

impl<const P: u64> std::fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

const fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
const fn powmod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, b, p);
        }
        b = mulmod(b, b, p);
        e >>= 1;
    }
    r
}
const fn nbits(p: u64) -> u32 {
    64 - p.leading_zeros()
}
/// smallest multiplicative generator
const fn generator(p: u64) -> u64 {
    if p == 2 {
        return 1;
    }
    let mut g = 2;
    while g < p {
        let mut m = p - 1;
        let mut d = 2;
        let mut ok = true;
        while d * d <= m {
            if m % d == 0 {
                while m % d == 0 {
                    m /= d;
                }
                if powmod(g, (p - 1) / d, p) == 1 {
                    ok = false;
                }
            }
            d += 1;
        }
        if m > 1 && powmod(g, (p - 1) / m, p) == 1 {
            ok = false;
        }
        if ok {
            return g;
        }
        g += 1;
    }
    0
}
const fn hex(p: u64) -> [u8; 18] {
    let mut out = [b'0'; 18];
    out[1] = b'x';
    let mut i = 0;
    while i < 16 {
        let d = ((p >> (4 * (15 - i))) & 15) as u8;
        out[2 + i] = if d < 10 { b'0' + d } else { b'a' + d - 10 };
        i += 1;
    }
    out
}

impl<const P: u64> Fp<P> {
    const HEX: [u8; 18] = hex(P);
    const GEN: u64 = generator(P);
    const TWO_ADICITY: u32 = (P - 1).trailing_zeros();
    const ROOT: u64 = powmod(Self::GEN, (P - 1) >> Self::TWO_ADICITY, P);
}

impl<const P: u64> ConditionallySelectable for Fp<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Fp(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u64> ConstantTimeEq for Fp<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u64> Neg for Fp<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Fp(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
macro_rules! ops {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl<const P: u64> $tr for Fp<P> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let f: fn(u64, u64, u64) -> u64 = $e;
                Fp(f(self.0, o.0, P))
            }
        }
        impl<'a, const P: u64> $tr<&'a Fp<P>> for Fp<P> {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                self.$f(*o)
            }
        }
        impl<const P: u64> $tra for Fp<P> {
            fn $fa(&mut self, o: Self) {
                *self = (*self).$f(o)
            }
        }
        impl<'a, const P: u64> $tra<&'a Fp<P>> for Fp<P> {
            fn $fa(&mut self, o: &'a Self) {
                *self = (*self).$f(*o)
            }
        }
    };
}
ops!(Add, add, AddAssign, add_assign, |a, b, p| {
    let s = a + b;
    if s >= p { s - p } else { s }
});
ops!(Sub, sub, SubAssign, sub_assign, |a, b, p| if a >= b { a - b } else { a + p - b });
ops!(Mul, mul, MulAssign, mul_assign, |a, b, p| if p < (1 << 31) { a * b % p } else { mulmod(a, b, p) });
impl<const P: u64> Sum for Fp<P> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<'a, const P: u64> Sum<&'a Fp<P>> for Fp<P> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<const P: u64> Product for Fp<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<'a, const P: u64> Product<&'a Fp<P>> for Fp<P> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<const P: u64> From<u64> for Fp<P> {
    fn from(v: u64) -> Self {
        Fp(v % P)
    }
}
impl<const P: u64> Field for Fp<P> {
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);
    fn random(mut rng: impl RngCore) -> Self {
        Fp(rng.next_u64() % P)
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Fp(powmod(self.0, P - 2, P)), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        if div.0 == 0 {
            return (Choice::from((num.0 == 0) as u8), Fp(0));
        }
        let q = *num * Fp(powmod(div.0, P - 2, P));
        if P > 1 << 20 {
            assert!(P % 4 == 3);
            let r = powmod(q.0, (P + 1) / 4, P);
            return (Choice::from((mulmod(r, r, P) == q.0) as u8), Fp(r));
        }
        for r in 0..P {
            if mulmod(r, r, P) == q.0 {
                return (Choice::from(1), Fp(r));
            }
        }
        (Choice::from(0), Fp(0))
    }
}
impl<const P: u64> PrimeField for Fp<P> {
    type Repr = [u8; 8];
    fn from_repr(r: [u8; 8]) -> CtOption<Self> {
        let v = u64::from_le_bytes(r);
        CtOption::new(Fp(v % P), Choice::from((v < P) as u8))
    }
    fn to_repr(&self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = match std::str::from_utf8(&Self::HEX) {
        Ok(s) => s,
        Err(_) => "",
    };
    const NUM_BITS: u32 = nbits(P);
    const CAPACITY: u32 = nbits(P) - 1;
    const TWO_INV: Self = Fp((P + 1) / 2);
    const MULTIPLICATIVE_GENERATOR: Self = Fp(Self::GEN);
    const S: u32 = Self::TWO_ADICITY;
    const ROOT_OF_UNITY: Self = Fp(Self::ROOT);
    const ROOT_OF_UNITY_INV: Self = Fp(powmod(Self::ROOT, P - 2, P));
    const DELTA: Self = Fp(powmod(Self::GEN, 1 << Self::TWO_ADICITY, P));
}

/// The modulus, for fields of at most 62 bits.
const fn small_modulus(m: &str, bits: u32) -> u64 {
    if bits > 62 {
        return 0;
    }
    let b = m.as_bytes();
    let mut i = if b.len() > 1 && b[1] == b'x' { 2 } else { 0 };
    let base = if i == 2 { 16 } else { 10 };
    let mut v = 0;
    while i < b.len() {
        let d = match b[i] {
            c @ b'0'..=b'9' => c - b'0',
            c @ b'a'..=b'f' => c - b'a' + 10,
            c => c - b'A' + 10,
        };
        v = v * base + d as u64;
        i += 1;
    }
    v
}
/// What the explorer needs of a field.
pub trait XField: PrimeField {
    /// the modulus, if below 2^62 (0 otherwise)
    const P: u64;
    /// Number of elements when it is small enough to enumerate.
    const TINY: Option<u64>;
    /// Canonical representative in [0,p).
    fn nat(&self) -> BigInt;
    fn from_nat(n: &BigInt) -> Self;
    fn tiny(v: u64) -> Self {
        Self::from(v)
    }
    /// Small representative as i64, when |x| is small as a signed residue.
    fn small_signed(&self) -> Option<i64>;
    /// bit length of the absolute value, of numbers from -p/2 to p/2
    fn size(&self) -> u32;
    fn modulus() -> BigInt {
        (-Self::ONE).nat() + 1
    }
    fn name() -> String;
}
/// Fields whose representation is little endian.
impl<T: PrimeField> XField for T {
    const P: u64 = small_modulus(T::MODULUS, T::NUM_BITS);
    const TINY: Option<u64> = if Self::P != 0 && Self::P < 1 << 20 { Some(Self::P) } else { None };
    fn nat(&self) -> BigInt {
        BigInt::from_bytes_le(Sign::Plus, self.to_repr().as_ref())
    }
    fn from_nat(n: &BigInt) -> Self {
        let m = if n.sign() != Sign::Minus && (n.bits() as u32) < T::NUM_BITS {
            n.clone()
        } else {
            let p = Self::modulus();
            ((n % &p) + &p) % &p
        };
        let mut r = T::Repr::default();
        for (i, w) in m.iter_u64_digits().enumerate() {
            for (j, b) in w.to_le_bytes().iter().enumerate() {
                if *b != 0 {
                    r.as_mut()[8 * i + j] = *b;
                }
            }
        }
        T::from_repr(r).unwrap()
    }
    fn size(&self) -> u32 {
        fn bits(b: &[u8]) -> u32 {
            b.iter().rposition(|x| *x != 0).map(|i| 8 * i as u32 + 8 - b[i].leading_zeros()).unwrap_or(0)
        }
        bits(self.to_repr().as_ref()).min(bits((-*self).to_repr().as_ref()))
    }
    fn small_signed(&self) -> Option<i64> {
        fn low(b: &[u8]) -> Option<i64> {
            if b[7..].iter().all(|x| *x == 0) {
                let mut w = [0u8; 8];
                w[..7].copy_from_slice(&b[..7]);
                Some(i64::from_le_bytes(w))
            } else {
                None
            }
        }
        let r = self.to_repr();
        if Self::P != 0 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&r.as_ref()[..8]);
            let v = u64::from_le_bytes(w);
            return Some(if v > Self::P / 2 { v as i64 - Self::P as i64 } else { v as i64 });
        }
        if let Some(v) = low(r.as_ref()) {
            return Some(v);
        }
        let r = (-*self).to_repr();
        low(r.as_ref()).map(|v| -v)
    }
    fn name() -> String {
        if Self::P != 0 {
            return format!("F{}", Self::P);
        }
        let m = T::MODULUS.trim_start_matches("0x").to_lowercase();
        for (n, k) in [
            ("Pallas", "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"),
            ("Vesta", "40000000000000000000000000000000224698fc094cf91b992d30ed00000001"),
            ("Bn256", "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001"),
            ("Secp256k1", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
            ("Fr", "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"),
        ] {
            if k == m {
                return n.to_string();
            }
        }
        format!("F0x{}", m)
    }
}

pub type Pallas = pasta_curves::Fq;
pub type Vesta = pasta_curves::Fp;
pub type Bn = halo2curves::bn256::Fr;
pub type Secp = halo2curves::secp256k1::Fq;
