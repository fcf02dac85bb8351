// Minimal exact integers (sign and magnitude), independent of the code under test.
use std::cmp::Ordering;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big {
    neg: bool,
    m: Vec<u32>,
}
fn trim(mut m: Vec<u32>) -> Vec<u32> {
    while m.last() == Some(&0) {
        m.pop();
    }
    m
}
fn cmpm(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn addm(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn subm(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![];
    let mut c = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 + c;
        c = 0;
        if s < 0 {
            s += 1 << 32;
            c = -1;
        }
        r.push(s as u32);
    }
    trim(r)
}
fn mulm(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len() + 1];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            let t = (*x as u64) * (*y as u64) + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        let mut k = i + b.len();
        while c > 0 {
            let t = r[k] as u64 + c;
            r[k] = t as u32;
            c = t >> 32;
            k += 1;
        }
    }
    trim(r)
}
fn bits(a: &[u32]) -> usize {
    match a.last() {
        None => 0,
        Some(x) => a.len() * 32 - x.leading_zeros() as usize,
    }
}
fn shl1(a: &mut Vec<u32>, bit: u32) {
    let mut c = bit;
    for x in a.iter_mut() {
        let n = *x >> 31;
        *x = (*x << 1) | c;
        c = n;
    }
    if c > 0 {
        a.push(c);
    }
}
fn divm(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let t = (r << 32) | a[i] as u64;
            q[i] = (t / d) as u32;
            r = t % d;
        }
        return (trim(q), trim(vec![r as u32]));
    }
    let n = bits(a);
    let mut q = vec![0u32; a.len()];
    let mut r: Vec<u32> = vec![];
    for i in (0..n).rev() {
        shl1(&mut r, (a[i / 32] >> (i % 32)) & 1);
        if cmpm(&r, b) != Ordering::Less {
            r = subm(&r, b);
            q[i / 32] |= 1 << (i % 32);
        }
    }
    (trim(q), r)
}
impl Big {
    pub fn u(x: u128) -> Big {
        let mut m = vec![];
        let mut y = x;
        while y > 0 {
            m.push(y as u32);
            y >>= 32;
        }
        Big { neg: false, m }
    }
    pub fn i(x: i128) -> Big {
        let mut b = Big::u(x.unsigned_abs());
        b.neg = x < 0;
        b
    }
    pub fn s(x: u128, neg: bool) -> Big {
        let mut b = Big::u(x);
        b.neg = neg && x != 0;
        b
    }
    pub fn p10(e: u32) -> Big {
        Big::u(10).pow(e)
    }
    pub fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
    pub fn is_neg(&self) -> bool {
        self.neg
    }
    fn mk(neg: bool, m: Vec<u32>) -> Big {
        let z = m.is_empty();
        Big { neg: neg && !z, m }
    }
    pub fn abs(&self) -> Big {
        Big { neg: false, m: self.m.clone() }
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big::mk(self.neg, addm(&self.m, &o.m));
        }
        match cmpm(&self.m, &o.m) {
            Ordering::Less => Big::mk(o.neg, subm(&o.m, &self.m)),
            _ => Big::mk(self.neg, subm(&self.m, &o.m)),
        }
    }
    pub fn negate(&self) -> Big {
        Big::mk(!self.neg, self.m.clone())
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.negate())
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::mk(self.neg != o.neg, mulm(&self.m, &o.m))
    }
    /// magnitude divided and truncated (towards zero)
    pub fn div(&self, o: &Big) -> Big {
        Big::mk(self.neg != o.neg, divm(&self.m, &o.m).0)
    }
    /// magnitude divided and rounded up (away from zero)
    pub fn div_up(&self, o: &Big) -> Big {
        let (q, r) = divm(&self.m, &o.m);
        Big::mk(self.neg != o.neg, if r.is_empty() { q } else { addm(&q, &[1]) })
    }
    pub fn divides(&self, o: &Big) -> bool {
        divm(&o.m, &self.m).1.is_empty()
    }
    pub fn pow(&self, e: u32) -> Big {
        let mut r = Big::u(1);
        let mut b = self.clone();
        let mut e = e;
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn isqrt(&self) -> Big {
        let mut r = Big::u(0);
        let n = bits(&self.m);
        for i in (0..=(n / 2)).rev() {
            let mut m = vec![0u32; i / 32 + 1];
            m[i / 32] = 1 << (i % 32);
            let c = r.add(&Big::mk(false, m));
            if c.mul(&c).cmp(self) != Ordering::Greater {
                r = c;
            }
        }
        r
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmpm(&self.m, &o.m),
            (true, true) => cmpm(&o.m, &self.m),
        }
    }
    pub fn le(&self, o: &Big) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn lt(&self, o: &Big) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn fits(&self) -> bool {
        !self.neg && bits(&self.m) <= 128
    }
    pub fn to_u128(&self) -> u128 {
        let mut r = 0u128;
        for (i, x) in self.m.iter().enumerate() {
            r |= (*x as u128) << (32 * i);
        }
        r
    }
}
impl std::fmt::Display for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut d = vec![];
        let mut x = self.m.clone();
        while !x.is_empty() {
            let (q, r) = divm(&x, &[1_000_000_000]);
            d.push(*r.first().unwrap_or(&0));
            x = q;
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        match d.pop() {
            None => s.push('0'),
            Some(t) => {
                s += &t.to_string();
                for t in d.iter().rev() {
                    s += &format!("{:09}", t);
                }
            }
        }
        f.write_str(&s)
    }
}
