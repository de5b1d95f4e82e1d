//! Exact dyadic numbers n * 2^e with an arbitrary-precision n: the oracle arithmetic.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
struct Nat(Vec<u32>); // little endian, no trailing zeros

impl Nat {
    fn trim(mut self) -> Self {
        while let Some(&0) = self.0.last() {
            self.0.pop();
        }
        self
    }
    fn zero() -> Self {
        Nat(vec![])
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    fn from_u64(x: u64) -> Self {
        Nat(vec![x as u32, (x >> 32) as u32]).trim()
    }
    fn cmp(&self, o: &Nat) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
    fn add(&self, o: &Nat) -> Nat {
        let (a, b) = if self.0.len() >= o.0.len() { (self, o) } else { (o, self) };
        let mut r = Vec::with_capacity(a.0.len() + 1);
        let mut c = 0u64;
        for i in 0..a.0.len() {
            let s = a.0[i] as u64 + if i < b.0.len() { b.0[i] as u64 } else { 0 } + c;
            r.push(s as u32);
            c = s >> 32;
        }
        r.push(c as u32);
        Nat(r).trim()
    }
    fn sub(&self, o: &Nat) -> Nat {
        let mut r = Vec::with_capacity(self.0.len());
        let mut bor = 0i64;
        for i in 0..self.0.len() {
            let mut s = self.0[i] as i64 - if i < o.0.len() { o.0[i] as i64 } else { 0 } - bor;
            bor = 0;
            if s < 0 {
                s += 1 << 32;
                bor = 1;
            }
            r.push(s as u32);
        }
        Nat(r).trim()
    }
    fn mul(&self, o: &Nat) -> Nat {
        if self.is_zero() || o.is_zero() {
            return Nat::zero();
        }
        let mut r = vec![0u32; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            for j in 0..o.0.len() {
                let t = self.0[i] as u64 * o.0[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Nat(r).trim()
    }
    fn shl(&self, k: usize) -> Nat {
        if self.is_zero() || k == 0 {
            return self.clone();
        }
        let w = k / 32;
        let b = k % 32;
        let mut r = vec![0u32; w];
        if b == 0 {
            r.extend_from_slice(&self.0);
        } else {
            let mut c = 0u32;
            for &x in &self.0 {
                r.push((x << b) | c);
                c = x >> (32 - b);
            }
            r.push(c);
        }
        Nat(r).trim()
    }
    fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * 32 - t.leading_zeros() as usize,
        }
    }
}

/// sign * mag * 2^exp
#[derive(Clone, Debug)]
pub struct Dy {
    neg: bool,
    mag: Nat,
    exp: i64,
}

impl Dy {
    pub fn zero() -> Self {
        Dy { neg: false, mag: Nat::zero(), exp: 0 }
    }
    pub fn int(x: i64) -> Self {
        Dy { neg: x < 0, mag: Nat::from_u64(x.unsigned_abs()), exp: 0 }
    }
    pub fn f(x: f64) -> Self {
        assert!(x.is_finite(), "oracle given a non-finite number {x}");
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i64;
        let m = bits & ((1u64 << 52) - 1);
        let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        if m == 0 {
            return Dy::zero();
        }
        let tz = m.trailing_zeros();
        m >>= tz;
        e += tz as i64;
        Dy { neg: x < 0.0, mag: Nat::from_u64(m), exp: e }
    }
    pub fn sum(xs: &[f64]) -> Self {
        xs.iter().fold(Dy::zero(), |a, &x| &a + &Dy::f(x))
    }
    pub fn sign(&self) -> i32 {
        if self.mag.is_zero() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn abs(&self) -> Dy {
        Dy { neg: false, mag: self.mag.clone(), exp: self.exp }
    }
    pub fn neg(&self) -> Dy {
        Dy { neg: !self.neg, mag: self.mag.clone(), exp: self.exp }
    }
    pub fn cmp(&self, o: &Dy) -> Ordering {
        (self - o).sign().cmp(&0)
    }
    pub fn eq(&self, o: &Dy) -> bool {
        self.cmp(o) == Ordering::Equal
    }
    /// floor(log2(|x|)), None for zero
    pub fn log2(&self) -> Option<i64> {
        if self.mag.is_zero() {
            None
        } else {
            Some(self.mag.bits() as i64 - 1 + self.exp)
        }
    }
    pub fn mul_pow2(&self, k: i64) -> Dy {
        Dy { neg: self.neg, mag: self.mag.clone(), exp: self.exp + k }
    }
    pub fn approx(&self) -> f64 {
        // good to about 2^-50, for messages only
        let n = self.mag.bits() as i64;
        if n == 0 {
            return 0.0;
        }
        let mut acc = 0.0f64;
        for (i, &w) in self.mag.0.iter().enumerate().rev().take(4) {
            let k = i as i64 * 32 + self.exp;
            if k > 1000 || k < -1060 {
                return if self.neg { f64::NEG_INFINITY } else { f64::INFINITY };
            }
            acc += w as f64 * 2f64.powi(k as i32);
        }
        if self.neg {
            -acc
        } else {
            acc
        }
    }
}

impl<'a> std::ops::Add<&'a Dy> for &'a Dy {
    type Output = Dy;
    fn add(self, o: &Dy) -> Dy {
        if self.mag.is_zero() {
            return o.clone();
        }
        if o.mag.is_zero() {
            return self.clone();
        }
        let e = self.exp.min(o.exp);
        let a = self.mag.shl((self.exp - e) as usize);
        let b = o.mag.shl((o.exp - e) as usize);
        if self.neg == o.neg {
            Dy { neg: self.neg, mag: a.add(&b), exp: e }
        } else {
            match a.cmp(&b) {
                Ordering::Equal => Dy::zero(),
                Ordering::Greater => Dy { neg: self.neg, mag: a.sub(&b), exp: e },
                Ordering::Less => Dy { neg: o.neg, mag: b.sub(&a), exp: e },
            }
        }
    }
}
impl<'a> std::ops::Sub<&'a Dy> for &'a Dy {
    type Output = Dy;
    fn sub(self, o: &Dy) -> Dy {
        self + &o.neg()
    }
}
impl<'a> std::ops::Mul<&'a Dy> for &'a Dy {
    type Output = Dy;
    fn mul(self, o: &Dy) -> Dy {
        Dy { neg: self.neg != o.neg, mag: self.mag.mul(&o.mag), exp: self.exp + o.exp }
    }
}
macro_rules! own {
    ($tr:ident,$f:ident) => {
        impl std::ops::$tr<Dy> for Dy {
            type Output = Dy;
            fn $f(self, o: Dy) -> Dy {
                (&self).$f(&o)
            }
        }
        impl<'a> std::ops::$tr<&'a Dy> for Dy {
            type Output = Dy;
            fn $f(self, o: &'a Dy) -> Dy {
                (&self).$f(o)
            }
        }
        impl<'a> std::ops::$tr<Dy> for &'a Dy {
            type Output = Dy;
            fn $f(self, o: Dy) -> Dy {
                self.$f(&o)
            }
        }
    };
}
own!(Add, add);
own!(Sub, sub);
own!(Mul, mul);

/// determinant of a square matrix by cofactor expansion (division free)
pub fn det(m: &[Vec<Dy>]) -> Dy {
    let n = m.len();
    if n == 1 {
        return m[0][0].clone();
    }
    if n == 2 {
        return &(&m[0][0] * &m[1][1]) - &(&m[0][1] * &m[1][0]);
    }
    let mut r = Dy::zero();
    for j in 0..n {
        if m[0][j].sign() == 0 {
            continue;
        }
        let sub: Vec<Vec<Dy>> = (1..n)
            .map(|i| (0..n).filter(|&k| k != j).map(|k| m[i][k].clone()).collect())
            .collect();
        let t = &m[0][j] * &det(&sub);
        r = if j % 2 == 0 { &r + &t } else { &r - &t };
    }
    r
}
