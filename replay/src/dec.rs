// Decimals against exact integers (D01-D07).
use crate::big::Big;
use crate::rng::Rng;
use crate::{call, Case, Prop};
use hmmcl_sandbox::decimal::{
    Add, Compare, Decimal, Div, DivScale, DivUp, ErrorCode, Mul, MulUp, Pow, Sqrt, Sub,
};
use std::convert::Into;

pub fn prop(id: &str) -> Option<Box<dyn Prop>> {
    let ops: &[&str] = match id {
        "D01" => &[
            "mul", "mul", "mul128", "mul_up", "div", "div_up", "div_to_scale", "to_scale", "to_scale_up",
            "to_compute_scale", "denominator",
        ],
        "D02" => &["add", "sub", "neg"],
        "D03" => &["eq", "lt", "gt", "lte", "gte", "min", "max", "is_positive", "is_negative", "is_zero", "is_integer"],
        "D04" => &["ipow"],
        "D05" => &["sqrt"],
        "D06" => &["dpow"],
        "D07" => &[
            "new", "from_u64", "from_u128", "from_scaled_amount", "one", "two", "to_u64", "abs", "abs_up", "to_scaled_amount",
            "to_scaled_amount_up", "into_u64", "into_u128", "into_usize", "into_i32",
        ],
        _ => return None,
    };
    Some(Box::new(DecProp { ops: ops.iter().map(|s| s.to_string()).collect() }))
}

struct DecProp {
    ops: Vec<String>,
}

fn show(d: &Decimal) -> String {
    format!("{}/{}/{}", d.value, d.scale, if d.negative { '-' } else { '+' })
}
fn parse(s: &str) -> Decimal {
    let v: Vec<&str> = s.split('/').collect();
    Decimal { value: v[0].parse().unwrap(), scale: v[1].parse().unwrap(), negative: v[2] == "-" }
}
fn sv(d: &Decimal) -> Big {
    Big::s(d.value, d.negative)
}
fn p10(e: u32) -> Big {
    Big::p10(e)
}

#[derive(Debug)]
enum Want {
    /// must return exactly this magnitude, scale, sign
    Must(Big, u8, bool),
    /// must abort
    Abort,
    /// may abort, otherwise returns this
    May(Big, u8, bool),
}
fn check(op: &str, got: Option<Decimal>, want: Want) -> Result<bool, String> {
    let bad = |s: String| Err(format!("{}: {}", op, s));
    match (got, want) {
        (None, Want::Abort) => Ok(true),
        (None, Want::May(..)) => Ok(false),
        (None, Want::Must(v, s, n)) => bad(format!("aborted, expected {}{} at scale {}", if n { "-" } else { "" }, v, s)),
        (Some(g), Want::Abort) => bad(format!("returned {} although the result does not fit or is undefined", show(&g))),
        (Some(g), Want::Must(v, s, n)) | (Some(g), Want::May(v, s, n)) => {
            if !v.fits() || g.value != v.to_u128() || g.scale != s || (g.value != 0 && g.negative != n) {
                return bad(format!("returned {}, expected {}{} at scale {}", show(&g), if n { "-" } else { "" }, v, s));
            }
            Ok(true)
        }
    }
}
fn rescale(op: &str, d: &Decimal, s: u8, up: bool, got: Option<Decimal>) -> Result<bool, String> {
    check(op, got, want_scale(d, s, up))
}
fn want_scale(d: &Decimal, s: u8, up: bool) -> Want {
    let v = Big::u(d.value);
    if d.scale > s || (up && d.scale == s) {
        let p = p10((d.scale - s) as u32);
        if !p.fits() {
            return Want::Abort;
        }
        if up {
            let r = v.div_up(&p);
            if v.add(&p).sub(&Big::u(1)).fits() {
                Want::Must(r, s, d.negative)
            } else {
                Want::May(r, s, d.negative)
            }
        } else {
            Want::Must(v.div(&p), s, d.negative)
        }
    } else {
        let p = p10((s - d.scale) as u32);
        let r = v.mul(&p);
        if !r.fits() {
            Want::Abort
        } else if !p.fits() {
            Want::May(r, s, d.negative)
        } else {
            Want::Must(r, s, d.negative)
        }
    }
}

impl DecProp {
    fn dec(&self, r: &mut Rng) -> Decimal {
        Decimal { value: r.mag(), scale: r.scale(), negative: r.chance(2, 5) }
    }
}

impl Prop for DecProp {
    fn fixed(&self) -> Vec<Case> {
        let mut v = vec![];
        let vals: Vec<u128> = vec![
            0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 99, 100, 10u128.pow(12), 10u128.pow(12) + 1, 1_000_049_998_750, u64::MAX as u128,
            u64::MAX as u128 + 1, i32::MAX as u128, i32::MAX as u128 + 1, u128::MAX / 2, u128::MAX - 1, u128::MAX,
        ];
        let mut ops = self.ops.clone();
        ops.dedup();
        for op in ops {
            for a in &vals {
                for b in &vals {
                    for k in 0..4 {
                        let s = [12u8, 0, 6, 12][(*a % 4) as usize ^ k as usize];
                        let x = Decimal { value: *a, scale: s, negative: k & 1 == 1 };
                        let y = Decimal { value: *b, scale: s, negative: k & 2 == 2 };
                        let e = match op.as_str() {
                            "ipow" => (b % 200).to_string(),
                            _ => "0".into(),
                        };
                        v.push(vec![format!("{} {} {} {}", op, show(&x), show(&y), e)]);
                    }
                }
            }
        }
        if self.ops[0] == "ipow" {
            for e in [1u128 << 20, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, 1 << 64, u64::MAX as u128, u128::MAX, u128::MAX - 1] {
                for s in [0u8, 6, 12] {
                    for x in [0u128, 10u128.pow(s as u32)] {
                        for n in [false, true] {
                            v.push(vec![format!("ipow {} 0/0/+ {}", show(&Decimal { value: x, scale: s, negative: n }), e)]);
                        }
                    }
                }
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let op = r.pick(&self.ops);
        let mut x = self.dec(r);
        let mut y = self.dec(r);
        if r.chance(3, 5) || (op == "dpow") {
            y.scale = x.scale;
        }
        let mut e: u128 = r.below(256) as u128;
        match op.as_str() {
            "mul" | "mul_up" | "mul128" | "div" | "div_up" => {
                // products near the limit
                if r.chance(1, 3) && x.value > 0 {
                    y.value = (u128::MAX / x.value).wrapping_add(r.below(5) as u128).wrapping_sub(2);
                } else if r.chance(1, 2) {
                    x.value >>= r.below(100);
                    y.value >>= r.below(100);
                }
                if op.starts_with("div") && r.chance(1, 3) && y.scale <= 38 {
                    let d = 10u128.pow(y.scale as u32);
                    x.value = (u128::MAX / d).wrapping_add(r.below(3) as u128).wrapping_sub(1);
                }
            }
            "ipow" => {
                x.scale = r.pick(&[0u8, 1, 2, 3, 6, 6, 12, 12, 12, 18, 20]);
                let d = 10u128.pow(x.scale as u32);
                e = r.below(40) as u128;
                match r.below(6) {
                    0 => x.value = d.wrapping_add(r.below(1000) as u128).wrapping_sub(500),
                    1 => x.value = d / 2 + r.below(10) as u128,
                    2 => x.value = d * (1 + r.below(12) as u128),
                    3 => x.value = r.below(50) as u128,
                    4 => {
                        x.value = d + r.below((d / 100 + 2) as u64) as u128;
                        e = r.below(250) as u128
                    }
                    _ => x.value >>= r.below(128),
                }
            }
            "dpow" => {
                x.scale = r.pick(&[0u8, 1, 2, 3, 6, 6, 12, 12]);
                y.scale = x.scale;
                let d = 10u128.pow(x.scale as u32);
                x.value = match r.below(4) {
                    0 => d * (r.below(100) as u128),
                    1 => d + r.below(1000) as u128,
                    2 => r.below(1_000_000_000) as u128,
                    _ => r.mag() >> 64,
                };
                y.value = match r.below(12) {
                    0 => 0,
                    1 | 2 => d / 4,
                    3 | 4 => d / 2,
                    5 => d,
                    6 => 5 * d / 4,
                    7 => 3 * d / 2,
                    8 | 9 => d * (1 + r.below(6) as u128),
                    10 => d * 3 / 4 + r.below(3) as u128,
                    _ => r.below(3 * d as u64 + 1) as u128,
                };
                if r.chance(1, 8) {
                    y.scale = x.scale + 1;
                }
                if r.chance(3, 4) {
                    x.negative = false;
                }
            }
            "sqrt" => {
                if r.chance(4, 5) {
                    x.negative = false;
                }
                match r.below(4) {
                    0 => {
                        // close to a perfect square
                        x.scale = r.pick(&[0u8, 0, 2, 6, 12]);
                        let k = r.u128() >> (64 + r.below(64));
                        let d = 10u128.pow(x.scale as u32);
                        x.value = (k.wrapping_mul(k) / d).wrapping_add(r.below(5) as u128).wrapping_sub(2);
                    }
                    1 => {
                        x.scale = r.pick(&[0u8, 6, 12, 18, 19, 20, 30]);
                        let d = 10u128.pow(x.scale as u32);
                        x.value = (u128::MAX / d).wrapping_add(r.below(3) as u128).wrapping_sub(1);
                    }
                    _ => x.value >>= r.below(128),
                }
            }
            "add" | "sub" => {
                if r.chance(1, 3) {
                    y.value = (u128::MAX - x.value).wrapping_add(r.below(5) as u128).wrapping_sub(2);
                } else if r.chance(1, 2) {
                    y.value = x.value.wrapping_add(r.below(5) as u128).wrapping_sub(2);
                }
            }
            "eq" | "lt" | "gt" | "lte" | "gte" | "min" | "max" => {
                if r.chance(1, 2) {
                    y.value = x.value.wrapping_add(r.below(3) as u128).wrapping_sub(1);
                }
                if r.chance(1, 8) {
                    x.value = 0;
                    y.value = r.below(2) as u128;
                }
            }
            "into_i32" => {
                x.value = match r.below(3) {
                    0 => i32::MAX as u128 + r.below(5) as u128 - 2,
                    1 => (1u128 << 32) + r.below(5) as u128 - 2,
                    _ => x.value,
                }
            }
            _ => {}
        }
        vec![format!("{} {} {} {}", op, show(&x), show(&y), e)]
    }
    fn run(&self, c: &Case) -> Result<bool, String> {
        let w: Vec<&str> = c[0].split_whitespace().collect();
        let op = w[0];
        let (x, y) = (parse(w[1]), parse(w[2]));
        let e: u128 = w[3].parse().unwrap();
        let bx = Big::u(x.value);
        let by = Big::u(y.value);
        let dx = p10(x.scale as u32);
        let dy = p10(y.scale as u32);
        let neg = x.negative != y.negative;
        let one = Big::u(1);
        match op {
            "mul" => {
                let p = bx.mul(&by);
                let want = if !p.fits() || !dy.fits() { Want::Abort } else { Want::Must(p.div(&dy), x.scale, neg) };
                check(op, call(|| x.mul(y)), want)
            }
            "mul128" => {
                let p = bx.mul(&by);
                let want = if !p.fits() { Want::Abort } else { Want::Must(p, x.scale, x.negative) };
                check(op, call(|| x.mul(y.value)), want)
            }
            "mul_up" => {
                let p = bx.mul(&by);
                let want = if !p.fits() || !dy.fits() {
                    Want::Abort
                } else if p.add(&dy).sub(&one).fits() {
                    Want::Must(p.div_up(&dy), x.scale, neg)
                } else {
                    Want::May(p.div_up(&dy), x.scale, neg)
                };
                check(op, call(|| x.mul_up(y)), want)
            }
            "div" | "div_up" => {
                let p = bx.mul(&dy);
                let up = op == "div_up";
                let want = if !p.fits() || !dy.fits() || by.is_zero() {
                    Want::Abort
                } else if !up {
                    Want::Must(p.div(&by), x.scale, neg)
                } else if p.add(&by).sub(&one).fits() {
                    Want::Must(p.div_up(&by), x.scale, neg)
                } else {
                    Want::May(p.div_up(&by), x.scale, neg)
                };
                check(op, if up { call(|| x.div_up(y)) } else { call(|| x.div(y)) }, want)
            }
            "div_to_scale" => {
                let to = (e % 41) as u8;
                let k = x.scale as i32 - to as i32 - y.scale as i32;
                let want = if by.is_zero() {
                    Want::Abort
                } else if k > 0 {
                    let p = p10(k as u32);
                    let r = bx.div(&by.mul(&p));
                    if p.fits() { Want::Must(r, to, neg) } else { Want::May(r, to, neg) }
                } else {
                    let p = p10((-k) as u32);
                    let n = bx.mul(&p);
                    if !n.fits() {
                        Want::Abort
                    } else if p.fits() {
                        Want::Must(n.div(&by), to, neg)
                    } else {
                        Want::May(n.div(&by), to, neg)
                    }
                };
                check(op, call(|| x.div_to_scale(y, to)), want)
            }
            "to_scale" => {
                let s = (e % 50) as u8;
                rescale(op, &x, s, false, call(|| x.to_scale(s)))
            }
            "to_scale_up" => {
                let s = (e % 50) as u8;
                rescale(op, &x, s, true, call(|| x.to_scale_up(s)))
            }
            "to_compute_scale" => rescale(op, &x, 12, false, call(|| x.to_compute_scale())),
            "denominator" => {
                let g = call(|| x.denominator());
                let want = if dx.fits() { Some(dx.to_u128()) } else { None };
                same(op, g, want)
            }
            "add" | "sub" => {
                let g = call(|| if op == "add" { x.add(y) } else { x.sub(y) });
                if x.scale != y.scale {
                    return match g {
                        Some(Err(ErrorCode::DifferentScale)) => Ok(true),
                        _ => Err(format!("{}: different scales gave {:?}", op, g)),
                    };
                }
                let r = if op == "add" { sv(&x).add(&sv(&y)) } else { sv(&x).sub(&sv(&y)) };
                match g {
                    None if !r.abs().fits() => Ok(true),
                    Some(Ok(g)) if sv(&g) == r && g.scale == x.scale => Ok(true),
                    g => Err(format!("{}: got {:?}, expected {} at scale {}", op, g, r, x.scale)),
                }
            }
            "neg" => {
                let g = call(|| -x);
                match g {
                    Some(g) if sv(&g) == sv(&x).negate() && g.scale == x.scale => Ok(true),
                    g => Err(format!("neg: got {:?}", g)),
                }
            }
            "eq" | "lt" | "gt" | "lte" | "gte" => {
                let g = call(|| match op {
                    "eq" => Compare::eq(x, y),
                    "lt" => Compare::lt(x, y),
                    "gt" => Compare::gt(x, y),
                    "lte" => Compare::lte(x, y),
                    _ => Compare::gte(x, y),
                });
                if x.scale != y.scale {
                    return match g {
                        Some(Err(ErrorCode::DifferentScale)) => Ok(true),
                        _ => Err(format!("{}: different scales gave {:?}", op, g)),
                    };
                }
                use std::cmp::Ordering::*;
                let o = sv(&x).cmp(&sv(&y));
                let want = match op {
                    "eq" => o == Equal,
                    "lt" => o == Less,
                    "gt" => o == Greater,
                    "lte" => o != Greater,
                    _ => o != Less,
                };
                match g {
                    Some(Ok(b)) if b == want => Ok(true),
                    g => Err(format!("{}: got {:?}, expected {}", op, g, want)),
                }
            }
            "min" | "max" => {
                let g = call(|| if op == "min" { Compare::min(x, y) } else { Compare::max(x, y) });
                if x.scale != y.scale {
                    return if g.is_none() { Ok(true) } else { Err(format!("{}: different scales gave {:?}", op, g)) };
                }
                let le = sv(&x).le(&sv(&y));
                let want = if (op == "min") == le { sv(&x) } else { sv(&y) };
                match g {
                    Some(g) if sv(&g) == want && g.scale == x.scale => Ok(true),
                    g => Err(format!("{}: got {:?}, expected {}", op, g, want)),
                }
            }
            "is_positive" => same(op, call(|| x.is_positive()), Some(!x.negative && x.value > 0)),
            "is_negative" => same(op, call(|| x.is_negative()), Some(x.negative && x.value > 0)),
            "is_zero" => same(op, call(|| x.is_zero()), Some(x.value == 0)),
            "is_integer" => {
                let g = call(|| x.is_integer());
                if !dx.fits() {
                    return if g.is_none() { Ok(false) } else { same(op, g, Some(dx.divides(&bx))) };
                }
                same(op, g, Some(dx.divides(&bx)))
            }
            "ipow" => ipow(&x, e),
            "sqrt" => {
                if !dx.fits() {
                    return match call(|| x.sqrt()) {
                        None => Ok(false),
                        g => root(&x, g),
                    };
                }
                root(&x, call(|| x.sqrt()))
            }
            "dpow" => dpow(&x, &y),
            "new" => check(op, call(|| Decimal::new(x.value, x.scale, x.negative)), Want::Must(bx, x.scale, x.negative)),
            "from_u64" => check(op, call(|| Decimal::from_u64(x.value as u64)), Want::Must(Big::u(x.value as u64 as u128), 0, false)),
            "from_u128" => check(op, call(|| Decimal::from_u128(x.value)), Want::Must(bx, 0, false)),
            "from_scaled_amount" => check(
                op,
                call(|| Decimal::from_scaled_amount(x.value as u64, x.scale)),
                Want::Must(Big::u(x.value as u64 as u128), x.scale, false),
            ),
            "one" => check(op, call(Decimal::one), Want::Must(p10(12), 12, false)),
            "two" => check(op, call(Decimal::two), Want::Must(p10(12).mul(&Big::u(2)), 12, false)),
            "to_u64" => conv(op, call(|| x.to_u64() as u128), Want::Must(bx, 0, false), u64::MAX as u128),
            "abs" => conv(op, call(|| x.abs() as u128), want_scale(&x, 0, false), u64::MAX as u128),
            "abs_up" => conv(op, call(|| x.abs_up() as u128), want_scale(&x, 0, true), u64::MAX as u128),
            "to_scaled_amount" => {
                let s = (e % 41) as u8;
                conv(op, call(|| x.to_scaled_amount(s) as u128), want_scale(&x, s, false), u64::MAX as u128)
            }
            "to_scaled_amount_up" => {
                let s = (e % 41) as u8;
                conv(op, call(|| x.to_scaled_amount_up(s) as u128), want_scale(&x, s, true), u64::MAX as u128)
            }
            "into_u64" => conv(op, call(|| { let r: u64 = x.into(); r as u128 }), Want::Must(bx, 0, false), u64::MAX as u128),
            "into_u128" => conv(op, call(|| { let r: u128 = x.into(); r }), Want::Must(bx, 0, false), u128::MAX),
            "into_usize" => conv(op, call(|| { let r: usize = x.into(); r as u128 }), Want::Must(bx, 0, false), usize::MAX as u128),
            "into_i32" => {
                let g: Option<i32> = call(|| x.into());
                let fits = x.value <= i32::MAX as u128;
                match g {
                    None if !fits => Ok(true),
                    Some(g) if Big::i(g as i128) == sv(&x) => Ok(true),
                    g => Err(format!("into_i32: got {:?}", g)),
                }
            }
            _ => Err(format!("unknown op {}", op)),
        }
    }
}

fn same<T: PartialEq + std::fmt::Debug>(op: &str, got: Option<T>, want: Option<T>) -> Result<bool, String> {
    if got == want {
        Ok(true)
    } else {
        Err(format!("{}: got {:?}, expected {:?}", op, got, want))
    }
}
/// a conversion into an unsigned integer type with the given maximum
fn conv(op: &str, got: Option<u128>, want: Want, max: u128) -> Result<bool, String> {
    let want = match want {
        Want::Must(v, s, n) if !v.le(&Big::u(max)) => {
            let _ = (s, n);
            Want::Abort
        }
        Want::May(v, _, _) if !v.le(&Big::u(max)) => Want::Abort,
        w => w,
    };
    match (got, want) {
        (None, Want::Abort) => Ok(true),
        (None, Want::May(..)) => Ok(false),
        (Some(g), Want::Must(v, _, _)) | (Some(g), Want::May(v, _, _)) if Big::u(g) == v => Ok(true),
        (g, w) => Err(format!("{}: got {:?}, expected {:?}", op, g, w)),
    }
}

fn ipow(x: &Decimal, n: u128) -> Result<bool, String> {
    let d = p10(x.scale as u32);
    let v = Big::u(x.value);
    let g = call(|| x.pow(n));
    let neg = x.negative && n % 2 == 1;
    if !d.fits() {
        return if g.is_none() { Ok(false) } else { Err("pow: returned at a scale whose unit does not fit".into()) };
    }
    if n == 0 {
        return check("pow", g, Want::Must(d, x.scale, false));
    }
    // large exponents only for zero and one
    if n > 400 {
        if x.value == 0 {
            return check("pow", g, Want::Must(Big::u(0), x.scale, false));
        }
        if v == d {
            if !d.mul(&d).fits() {
                return Ok(false);
            }
            return check("pow", g, Want::Must(d, x.scale, neg));
        }
        return Ok(false);
    }
    let n = n as u32;
    let m = if d.le(&v) { v.clone() } else { d.clone() };
    let room = m.pow(n).mul(&d).mul(&d).le(&Big::u(u128::MAX).mul(&d.pow(n)));
    match g {
        None => {
            if room {
                Err(format!("pow: {}^{} aborted although all quantities fit", show(x), n))
            } else {
                Ok(false)
            }
        }
        Some(g) => {
            if g.scale != x.scale || (g.value != 0 && g.negative != neg) {
                return Err(format!("pow: {}^{} has scale or sign of {}", show(x), n, show(&g)));
            }
            let exact = v.pow(n);
            let got = Big::u(g.value).mul(&d.pow(n - 1));
            if !got.le(&exact) {
                return Err(format!("pow: {}^{} = {} exceeds the exact power", show(x), n, show(&g)));
            }
            let slack = Big::u(n as u128 - 1).mul(&m.pow(n - 1));
            if !exact.sub(&got).le(&slack) || (x.scale == 0 && got != exact) {
                return Err(format!("pow: {}^{} = {} is too small", show(x), n, show(&g)));
            }
            Ok(n > 1)
        }
    }
}

/// the values a square root may return
fn roots(v: &Big) -> [Big; 2] {
    let s = v.isqrt();
    let t = s.add(&Big::u(1));
    [s, t]
}
fn root(x: &Decimal, g: Option<Result<Decimal, ErrorCode>>) -> Result<bool, String> {
    let v = Big::u(x.value).mul(&p10(x.scale as u32));
    match g {
        None => Err(format!("sqrt: {} aborted", show(x))),
        Some(Err(_)) => {
            if (x.negative && x.value > 0) || !v.fits() {
                Ok(true)
            } else {
                Err(format!("sqrt: {} failed", show(x)))
            }
        }
        Some(Ok(r)) => {
            if x.negative && x.value > 0 {
                return Err(format!("sqrt: {} returned {}", show(x), show(&r)));
            }
            if r.scale != x.scale || (r.negative && r.value > 0) || !roots(&v).contains(&Big::u(r.value)) {
                return Err(format!("sqrt: {} returned {}", show(x), show(&r)));
            }
            Ok(true)
        }
    }
}

fn dpow(x: &Decimal, e: &Decimal) -> Result<bool, String> {
    let g = call(|| x.pow(*e));
    let d = p10(x.scale as u32);
    let g = match g {
        None => {
            // aborts are only wrong where everything plainly fits
            let small = x.value < 1 << 40 && x.scale <= 12 && (x.scale == e.scale || e.value == 0) && !x.negative;
            let ev = Big::u(e.value);
            let known = e.value == 0 || specials(&d).contains(&ev) || (d.divides(&ev) && ev == d);
            if small && known && !(e.negative && e.value != 0) {
                return Err(format!("pow: {}^{} aborted", show(x), show(e)));
            }
            return Ok(false);
        }
        Some(g) => g,
    };
    if e.value == 0 {
        return check("pow", Some(g), Want::Must(d, x.scale, false));
    }
    if e.scale != x.scale {
        return Err(format!("pow: exponent {} of another scale accepted for {}", show(e), show(x)));
    }
    if !Big::u(e.value).le(&d.mul(&Big::u(400))) {
        return Ok(false);
    }
    let ok = if e.negative {
        // one of the candidates q of the opposite exponent has g = 1/q
        cands(x, e.value).iter().any(|q| {
            !q.0.is_zero() && g.scale == x.scale && Big::u(g.value) == d.mul(&d).div(&q.0) && (g.value == 0 || g.negative == q.1)
        })
    } else {
        cands(x, e.value).iter().any(|q| g.scale == x.scale && Big::u(g.value) == q.0 && (g.value == 0 || g.negative == q.1))
    };
    if ok {
        Ok(true)
    } else {
        Err(format!("pow: {}^{} returned {}", show(x), show(e), show(&g)))
    }
}
fn specials(d: &Big) -> Vec<Big> {
    let f = |a: u128, b: u128| Big::u(a).mul(d).div(&Big::u(b));
    vec![f(1, 4), f(1, 2), f(5, 4), f(3, 2)]
}
/// (magnitude, sign) pairs allowed for x^(e/10^scale), e > 0
fn cands(x: &Decimal, e: u128) -> Vec<(Big, bool)> {
    let d = p10(x.scale as u32);
    let e = Big::u(e);
    let s = specials(&d);
    let v = Big::u(x.value);
    let isneg = x.negative && x.value > 0;
    let sq = |v: &Big| roots(&v.mul(&d)).to_vec();
    if e == s[0] && !isneg {
        return sq(&v).iter().flat_map(|r| sq(r)).map(|r| (r, false)).collect();
    }
    if e == s[1] && !isneg {
        return sq(&v).into_iter().map(|r| (r, false)).collect();
    }
    if e == d {
        return vec![(v, x.negative)];
    }
    if e == s[2] && !isneg {
        return sq(&v).iter().flat_map(|r| sq(r)).map(|r| (v.mul(&r).div(&d), false)).collect();
    }
    if e == s[3] && !isneg {
        return sq(&v).into_iter().map(|r| (v.mul(&r).div(&d), false)).collect();
    }
    if d.divides(&e) {
        let k = e.div(&d);
        if k.le(&Big::u(400)) {
            // relational: accept whatever the integer power gives if it is accurate
            let k = k.to_u128();
            if let Some(r) = call(|| x.pow(k)) {
                if ipow(x, k).is_ok() {
                    return vec![(Big::u(r.value), r.negative)];
                }
            }
        }
    }
    vec![]
}
