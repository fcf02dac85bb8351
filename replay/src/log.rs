// The natural logarithm (D09).
//   ln v/s/sign        within 1.8e-10, or one unit of the scale; an error for negative numbers
use crate::big::Big;
use crate::rng::Rng;
use crate::{call, Case, Prop};
use hmmcl_sandbox::decimal::{Decimal, Ln};

pub fn prop(id: &str) -> Option<Box<dyn Prop>> {
    if id == "D09" {
        Some(Box::new(Log))
    } else {
        None
    }
}
struct Log;
const U: u128 = 1_000_000_000_000;
const Q: i128 = 1_000_000_000_000_000_000;

/// 10^18 ln(x / 10^12), within a few hundred
fn exact(x: u128) -> i128 {
    let (mut k, mut a, mut b) = (0i128, x, U);
    while a < b {
        a *= 2;
        k -= 1;
    }
    while a >= 2 * b {
        b *= 2;
        k += 1;
    }
    let z = Big::u(a - b).mul(&Big::u(Q as u128)).div(&Big::u(a + b)).to_u128() as i128;
    let zz = z * z / Q;
    let (mut t, mut s, mut n) = (z, 0i128, 1i128);
    while t > 0 {
        s += t / n;
        t = t * zz / Q;
        n += 2;
    }
    2 * s + k * 693_147_180_559_945_309
}
fn cut(v: i128, scale: u8) -> u128 {
    let v = v.max(0) as u128;
    if scale <= 12 {
        v / 10u128.pow(12 - scale as u32)
    } else {
        v * 10u128.pow(scale as u32 - 12)
    }
}

impl Prop for Log {
    fn fixed(&self) -> Vec<Case> {
        let mut v: Vec<Case> = vec![];
        for k in -39i32..49 {
            let p = if k >= 0 { U << k } else { U >> -k };
            for d in 0..3u128 {
                v.push(vec![format!("ln {}/12/+", p + d)]);
                if p > d {
                    v.push(vec![format!("ln {}/12/+", p - d)]);
                }
            }
        }
        for c in 1..13u32 {
            for m in 0..10u128 {
                for e in 0..3u128 {
                    let x = U + m * U / 10u128.pow(c) + e;
                    v.push(vec![format!("ln {}/12/+", x)]);
                    v.push(vec![format!("ln {}/12/+", x - 1)]);
                    v.push(vec![format!("ln {}/12/+", 2 * x - 1)]);
                    v.push(vec![format!("ln {}/12/+", 32 * x - 1)]);
                }
            }
        }
        for s in 0..13u8 {
            for x in [1u128, 2, 3, 7, 9, 10, 11, 99, 101, 999, 12345, 99999] {
                v.push(vec![format!("ln {}/{}/+", x, s)]);
                v.push(vec![format!("ln {}/{}/-", x, s)]);
            }
        }
        for s in [13u8, 15, 18] {
            for x in [10u128.pow(s as u32), 10u128.pow(s as u32 - 3) + 1, 7 * 10u128.pow(s as u32)] {
                v.push(vec![format!("ln {}/{}/+", x, s)]);
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let s = if r.chance(1, 2) { 12 } else { r.below(13) as u8 };
        let mut x = match r.below(4) {
            0 => r.mag(),
            1 => {
                let k = r.below(88) as u32;
                (1u128 << k) + r.below(1 << 20) as u128
            }
            2 => U + r.below(1_000_000_000_000) as u128,
            _ => r.below(1_000_000_000) as u128 * 10u128.pow(r.below(12) as u32),
        };
        let top = u128::MAX / U / 10u128.pow(12 - s as u32);
        if x > top {
            x %= top;
        }
        vec![format!("ln {}/{}/{}", x, s, if r.chance(1, 40) { '-' } else { '+' })]
    }
    fn run(&self, c: &Case) -> Result<bool, String> {
        let a = &c[0][3..];
        let v: Vec<&str> = a.split('/').collect();
        let d = Decimal { value: v[0].parse().unwrap(), scale: v[1].parse().unwrap(), negative: v[2] == "-" };
        let got = call(|| d.ln());
        if d.negative && d.value != 0 {
            return match got {
                Some(Err(_)) => Ok(true),
                Some(Ok(g)) => Err(format!("ln of {} is {}/{}", a, g.value, g.scale)),
                None => Err(format!("ln of {} aborted", a)),
            };
        }
        let x = if d.scale <= 12 {
            10u128.checked_pow(12 - d.scale as u32).and_then(|p| d.value.checked_mul(p))
        } else {
            10u128.checked_pow(d.scale as u32 - 12).map(|p| d.value / p)
        };
        let x = match x {
            Some(x) if x > 0 && x.checked_mul(U).is_some() => x,
            _ => return Ok(false),
        };
        match got {
            Some(Ok(g)) => {
                let e = exact(x);
                let m = e.abs() / 1_000_000;
                let (lo, hi) = (cut(m - 181, d.scale), cut(m + 182, d.scale));
                let sign = g.value == 0 || m <= 182 || g.negative == (e < 0);
                if g.scale != d.scale || g.value < lo || g.value > hi || !sign {
                    return Err(format!("ln of {} is {}{}/{}, exact {}{}/18", a, if g.negative { "-" } else { "" }, g.value, g.scale, if e < 0 { "-" } else { "" }, e.abs()));
                }
                Ok(true)
            }
            Some(Err(_)) if d.scale <= 12 => Err(format!("ln of {} is refused", a)),
            None if d.scale <= 12 => Err(format!("ln of {} aborted", a)),
            _ => Ok(false),
        }
    }
}
