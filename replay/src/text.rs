// Parsing and printing decimals (D08).
//   parse TEXT         the decimal denotes the number written, or the call fails
//   print v/s/sign     the text printed reads back as the same decimal
use crate::big::Big;
use crate::rng::Rng;
use crate::{call, Case, Prop};
use hmmcl_sandbox::decimal::Decimal;
use std::str::FromStr;

pub fn prop(id: &str) -> Option<Box<dyn Prop>> {
    if id == "D08" {
        Some(Box::new(Text))
    } else {
        None
    }
}
struct Text;

/// sign, digits with the point taken out, number of digits after the point, exponent
fn read(s: &str) -> Option<(bool, String, i64, Option<i128>)> {
    let (base, ex) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let ds = |t: &str| t.bytes().all(|b| b.is_ascii_digit());
    let strip = |t: &str| -> (bool, String) {
        if t.starts_with('-') || t.starts_with('+') {
            (t.starts_with('-'), t[1..].to_string())
        } else {
            (false, t.to_string())
        }
    };
    let (neg, u) = strip(base);
    let (l, t) = match u.find('.') {
        Some(i) => (u[..i].to_string(), u[i + 1..].to_string()),
        None => (u.clone(), String::new()),
    };
    if !ds(&l) || !ds(&t) || l.len() + t.len() == 0 {
        return None;
    }
    let e = match ex {
        None => None,
        Some(x) => {
            let (n, d) = strip(x);
            if d.is_empty() || !ds(&d) {
                return None;
            }
            let v: i128 = d.trim_start_matches('0').parse().unwrap_or(if d.trim_start_matches('0').is_empty() { 0 } else { 1 << 100 });
            Some(if n { -v } else { v })
        }
    };
    Some((neg, l + &t, t.len() as i64, e))
}
fn number(d: &str) -> Big {
    let mut r = Big::u(0);
    for b in d.bytes() {
        r = r.mul(&Big::u(10)).add(&Big::u((b - b'0') as u128));
    }
    r
}
fn show(d: &Decimal) -> String {
    format!("{}/{}/{}", d.value, d.scale, if d.negative { '-' } else { '+' })
}

impl Prop for Text {
    fn fixed(&self) -> Vec<Case> {
        let mut v: Vec<Case> = vec![];
        for s in [
            "0", "-0", "1", "42", "-42", "+7", ".5", "5.", "-.5", "+.5", "1.5", "0.000001", "1e6", "1.5e6", "-1.5e6", "1.5E6", "1.55e1", "1.555e2", "-12.345e1",
            "1e0", "1.5e0", "1e-3", "1.5e-3", "1e-255", "1e-256", "1e-257", "1e255", "1e256", "1e257", "1e262", "1.5e-254", "1.5e-255",
            "1e9223372036854775807", "1e-9223372036854775807", "1e-9223372036854775808", "1.5e-9223372036854775808",
            "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "3.40282366920938463463374607431768211455",
            "1e-9223372036854775809", "1e9223372036854775808", "2.5e18446744073709551616", "7e99999999999999999999999", "-3e-99999999999999999999999999999999999999999",
            "00012.500", "1e+2", "1.23e+2", "1e01",
        ] {
            v.push(vec![format!("parse {}", s)]);
        }
        for n in [1usize, 2, 38, 39, 40, 254, 255, 256, 257, 300, 512] {
            v.push(vec![format!("parse 0.{}1", "0".repeat(n - 1))]);
            v.push(vec![format!("parse 7.{}", "0".repeat(n))]);
            v.push(vec![format!("parse -{}.{}e{}", "0".repeat(n), "0".repeat(n), n)]);
        }
        for x in [0u128, 1, 9, 10, 42, 99, 100, 1_500_000, 10u128.pow(12), 10u128.pow(38), u128::MAX] {
            for s in [0u8, 1, 2, 3, 6, 7, 8, 12, 13, 38, 39, 40, 100, 254, 255] {
                for n in ['+', '-'] {
                    v.push(vec![format!("print {}/{}/{}", x, s, n)]);
                }
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng) -> Case {
        if r.chance(1, 3) {
            let v = r.mag();
            let s = if r.chance(1, 2) { r.below(256) as u8 } else { r.below(42) as u8 };
            return vec![format!("print {}/{}/{}", v, s, r.pick(&['+', '-']))];
        }
        let digs = |r: &mut Rng, n: u64| -> String { (0..n).map(|_| if r.chance(1, 3) { '0' } else { (b'0' + r.below(10) as u8) as char }).collect() };
        let mut s = r.pick(&["", "", "-", "-", "+"]).to_string();
        let n = if r.chance(1, 10) { r.below(42) } else { r.below(6) };
        s += &digs(r, n);
        if r.chance(2, 3) {
            s.push('.');
            let n = if r.chance(1, 20) { 250 + r.below(12) } else if r.chance(1, 8) { r.below(42) } else { r.below(6) };
            if n > 200 {
                s += &"0".repeat(n as usize - 1);
                s += &digs(r, 1);
            } else {
                s += &digs(r, n);
            }
        }
        if r.chance(1, 2) {
            s.push(r.pick(&['e', 'E']));
            s += r.pick(&["", "", "-", "+"]);
            if r.chance(1, 16) {
                let n = 17 + r.below(24);
                s.push('1');
                s += &digs(r, n);
                return vec![format!("parse {}", s)];
            }
            let e = match r.below(8) {
                0 => 250 + r.below(12),
                1 => r.below(600),
                2 => r.below(40),
                _ => r.below(8),
            };
            s += &e.to_string();
        }
        vec![format!("parse {}", s)]
    }
    fn run(&self, c: &Case) -> Result<bool, String> {
        let (op, a) = c[0].split_at(c[0].find(' ').unwrap());
        let a = &a[1..];
        if op == "print" {
            let v: Vec<&str> = a.split('/').collect();
            let d = Decimal { value: v[0].parse().unwrap(), scale: v[1].parse().unwrap(), negative: v[2] == "-" };
            let t = match call(|| d.to_string()) {
                Some(t) => t,
                None => return Err(format!("printing {} aborted", a)),
            };
            return match call(|| Decimal::from_str(&t)) {
                Some(Ok(g)) if g.value == d.value && g.scale == d.scale && g.negative == d.negative => Ok(true),
                Some(Ok(g)) => Err(format!("{} is printed as {} which parses as {}", a, t, show(&g))),
                _ => Err(format!("{} is printed as {} which does not parse", a, t)),
            };
        }
        let (neg, ds, f, e) = match read(a) {
            Some(x) => x,
            None => return Ok(false),
        };
        let m = number(&ds);
        match call(|| Decimal::from_str(a)) {
            Some(Ok(g)) => {
                if g.value != 0 && g.negative != neg {
                    return Err(format!("{} parsed as {}: wrong sign", a, show(&g)));
                }
                if e.is_none() {
                    if m.cmp(&Big::u(g.value)) != std::cmp::Ordering::Equal || g.scale as i64 != f || g.negative != neg {
                        return Err(format!("{} parsed as {}", a, show(&g)));
                    }
                    return Ok(true);
                }
                // value / 10^scale == m * 10^(e - f)
                let k = e.unwrap() - f as i128 + g.scale as i128;
                let ok = if m.is_zero() || g.value == 0 {
                    m.is_zero() && g.value == 0
                } else if k.abs() > 2000 {
                    false
                } else if k >= 0 {
                    Big::u(g.value).cmp(&m.mul(&Big::p10(k as u32))) == std::cmp::Ordering::Equal
                } else {
                    Big::u(g.value).mul(&Big::p10((-k) as u32)).cmp(&m) == std::cmp::Ordering::Equal
                };
                if ok {
                    Ok(true)
                } else {
                    Err(format!("{} parsed as {}, another number", a, show(&g)))
                }
            }
            _ if e.is_none() && m.fits() && f <= 255 => Err(format!("{} fits a decimal but is refused", a)),
            _ => Ok(false),
        }
    }
}
