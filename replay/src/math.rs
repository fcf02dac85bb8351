// Prices, ticks and amounts against exact integers (M01-M05).
use crate::big::Big;
use crate::rng::Rng;
use crate::{call, Case, Prop};
use hmmcl_sandbox::cl_pool::cl_math::PoolMath;
use hmmcl_sandbox::decimal::Decimal;

pub struct Pm;
impl PoolMath for Pm {}

pub fn prop(id: &str) -> Option<Box<dyn Prop>> {
    match id {
        "M01" | "M02" | "M03" | "M04" | "M05" => Some(Box::new(Math(id[2..].parse().unwrap()))),
        _ => None,
    }
}
struct Math(u8);

const U: u128 = 1_000_000_000_000;
fn d(v: u128) -> Decimal {
    Decimal { value: v, scale: 12, negative: false }
}
fn b(v: u128) -> Big {
    Big::u(v)
}
fn sv(x: &Decimal) -> Big {
    Big::s(x.value, x.negative)
}
fn u() -> Big {
    b(U)
}
/// (v/U)^n with 40 digits
fn hp(v: u128, n: u128) -> Big {
    let one = Big::p10(40);
    let (mut r, mut base, mut e) = (one.clone(), b(v).mul(&Big::p10(28)), n);
    while e > 0 {
        if e & 1 == 1 {
            r = r.mul(&base).div(&one);
        }
        base = base.mul(&base).div(&one);
        e >>= 1;
    }
    r
}
fn rp(t: u128) -> Option<Decimal> {
    call(|| Pm::tick_to_rp(t))
}
fn price(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => 1 + r.below(5) as u128,
        1 => U - 3 + r.below(6) as u128,
        2 => U + r.below(1_000_000_000) as u128,
        3 => U * (1 + r.below(1000) as u128) + r.below(U as u64) as u128,
        4 => 1 + (r.u128() >> (70 + r.below(58))),
        _ => rp(r.below(200_000) as u128).map(|x| x.value).unwrap_or(U),
    }
}
fn amount(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => r.below(4) as u128,
        1 => U * r.below(1_000_000) as u128,
        2 => r.below(1 << 40) as u128,
        _ => r.u128() >> (48 + r.below(80)),
    }
}
fn near(r: &mut Rng, p: u128) -> u128 {
    match r.below(4) {
        0 => p + r.below(4) as u128,
        1 => p + p / (2 + r.below(2000) as u128),
        2 => p.saturating_mul(1 + r.below(50) as u128),
        _ => price(r),
    }
}
impl Prop for Math {
    fn fixed(&self) -> Vec<Case> {
        let mut v = vec![];
        match self.0 {
            1 => {
                for t in (0..400u128).chain((1..22).map(|k| 1 << k)).chain((1..22).map(|k| (1 << k) - 1)) {
                    v.push(vec![t.to_string()]);
                }
            }
            2 => {
                for t in 0..40u128 {
                    for s in 0..12u128 {
                        v.push(vec![t.to_string(), s.to_string()]);
                    }
                }
                for s in [0u128, 1, 2, 10, u128::MAX] {
                    v.push(vec![(u128::MAX / 2).to_string(), s.to_string()]);
                }
            }
            3 => {
                for t in 0..30i128 {
                    for dv in -1..2i128 {
                        for back in 0..3i128 {
                            if t >= back {
                                v.push(vec![t.to_string(), dv.to_string(), (t - back).to_string(), "7".into()]);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        v
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let s: Vec<String> = match self.0 {
            1 => vec![match r.below(3) {
                0 => r.below(2_000) as u128,
                1 => r.below(900_000) as u128,
                _ => (1u128 << r.below(20)) * (1 + r.below(7) as u128) - r.below(2) as u128,
            }
            .to_string()],
            2 => {
                let s = r.mag() >> r.below(100);
                let t = if r.chance(1, 2) { s.saturating_mul(r.below(1000) as u128).saturating_add(r.below(3) as u128).saturating_sub(1) } else { r.mag() };
                vec![t.to_string(), s.to_string()]
            }
            3 => {
                let t = r.below(250_000);
                let dv = match r.below(4) {
                    0 => r.range(-2, 2),
                    1 => 0,
                    _ => r.range(-60_000_000, 60_000_000),
                };
                vec![t.to_string(), dv.to_string(), t.saturating_sub(r.below(12)).to_string(), (1 + r.below(20)).to_string()]
            }
            4 => {
                let a = price(r);
                let bb = near(r, a).max(a + 1);
                let p = match r.below(5) {
                    0 => a,
                    1 => bb,
                    2 => near(r, a),
                    3 => a + r.u128() % (bb - a),
                    _ => price(r),
                };
                vec![amount(r), amount(r), p, a, bb].iter().map(|x| x.to_string()).collect()
            }
            _ => {
                let p = price(r);
                let q = if r.chance(1, 2) { near(r, p) } else { p.saturating_sub(p / (2 + r.below(500) as u128)).max(1) };
                vec![amount(r), p, q, amount(r)].iter().map(|x| x.to_string()).collect()
            }
        };
        s
    }
    fn run(&self, c: &Case) -> Result<bool, String> {
        let n = |i: usize| -> u128 { c[i].parse().unwrap() };
        match self.0 {
            1 => {
                let t = n(0);
                let base = Pm::tick_base_root();
                if base.scale != 12 || base.negative || !(1_000_049_998_750..=1_000_049_998_751).contains(&base.value) {
                    return Err(format!("root-price base is {:?}", base));
                }
                let r = match rp(t) {
                    None => return if t <= 300_000 { Err(format!("tick_to_rp({}) aborted", t)) } else { Ok(false) },
                    Some(r) => r,
                };
                if r.scale != 12 || r.negative || r.value < U || (t == 0 && r.value != U) {
                    return Err(format!("tick_to_rp({}) = {:?}", t, r));
                }
                let ex = hp(base.value, t); // 40 digits
                let got = b(r.value).mul(&Big::p10(28));
                if !got.le(&ex.add(&ex.div(&Big::p10(30)))) {
                    return Err(format!("tick_to_rp({}) = {} is above the power {}e-40", t, r.value, ex));
                }
                let slack = ex.div(&Big::p10(12)).mul(&b(t)).add(&Big::p10(12));
                if !ex.sub(&slack).le(&got) {
                    return Err(format!("tick_to_rp({}) = {} is too far below the power {}e-40", t, r.value, ex));
                }
                if let Some(q) = rp(t + 1) {
                    if q.value <= r.value {
                        return Err(format!("tick_to_rp({}) = {} but tick_to_rp({}) = {}", t, r.value, t + 1, q.value));
                    }
                }
                Ok(true)
            }
            2 => {
                let (t, s) = (n(0), n(1));
                let lo = call(|| Pm::tk_to_possible_tk(t, s, false));
                let hi = call(|| Pm::tk_to_possible_tk(t, s, true));
                if s == 0 {
                    return if lo.is_some() || hi.is_some() { Err("zero spacing did not abort".into()) } else { Ok(true) };
                }
                let wl = t / s * s;
                let wh = b(t).div_up(&b(s)).mul(&b(s));
                if let Some(l) = lo {
                    if l != wl {
                        return Err(format!("tick {} spacing {} rounds down to {}, expected {}", t, s, l, wl));
                    }
                }
                if let Some(h) = hi {
                    if b(h) != wh {
                        return Err(format!("tick {} spacing {} rounds up to {}, expected {}", t, s, h, wh));
                    }
                }
                Ok(lo.is_some() || hi.is_some())
            }
            3 => {
                let t = n(0);
                let dv: i128 = c[1].parse().unwrap();
                let start = n(2);
                let sp = n(3);
                let q = match rp(t) {
                    Some(q) => d((q.value as i128 + dv) as u128),
                    None => return Ok(false),
                };
                // reference search by the definition
                let (mut dn, mut up) = (start, start + 1);
                for _ in 0..200 {
                    match rp(dn + 1) {
                        Some(x) if x.value <= q.value => dn += 1,
                        _ => break,
                    }
                }
                for _ in 0..200 {
                    match rp(up) {
                        Some(x) if x.value < q.value => up += 1,
                        _ => break,
                    }
                }
                if dn - start > 100 || up - start > 100 {
                    return Ok(false);
                }
                for (dir, want) in [(false, dn), (true, up)] {
                    match call(|| Pm::rp_to_tick_loop(q, dir, start)) {
                        Some(g) if g != want => {
                            return Err(format!("tick of root price {} from {} rounding {}: {}, expected {}", q.value, start, if dir { "up" } else { "down" }, g, want))
                        }
                        None => return Err(format!("tick search of {} from {} aborted", q.value, start)),
                        _ => {}
                    }
                    let wp = if dir { (want + sp - 1) / sp * sp } else { want / sp * sp };
                    match call(|| Pm::rp_to_possible_tk(q, sp, dir, start)) {
                        Some(g) if g != wp => return Err(format!("possible tick of {} spacing {}: {}, expected {}", q.value, sp, g, wp)),
                        _ => {}
                    }
                }
                Ok(true)
            }
            4 => {
                let (x, y, p, a, bb) = (n(0), n(1), n(2), n(3), n(4));
                if a >= bb || a == 0 || p == 0 {
                    return Ok(false);
                }
                let l = match call(|| Pm::liq_from_x_y_rp_rng(d(x), d(y), d(p), d(a), d(bb))) {
                    Some(l) => l,
                    None => return Ok(false),
                };
                if l.scale != 12 || (l.negative && l.value != 0) {
                    return Err(format!("liquidity {:?}", l));
                }
                let pc = p.min(bb).max(a);
                if let Some(rx) = call(|| Pm::x_from_l_rp_rng(l, d(p), d(a), d(bb))) {
                    if rx.scale != 12 || (rx.negative && rx.value != 0) || (p >= bb && rx.value != 0) {
                        return Err(format!("x amount {:?}", rx));
                    }
                    if rx.value > x {
                        return Err(format!("liquidity {} needs x {} of {} offered", l.value, rx.value, x));
                    }
                    if !b(rx.value).mul(&b(pc)).mul(&b(bb)).le(&b(l.value).mul(&b(bb - pc)).mul(&u())) {
                        return Err(format!("x amount {} above the worth of {}", rx.value, l.value));
                    }
                }
                if let Some(ry) = call(|| Pm::y_from_l_rp_rng(l, d(p), d(a), d(bb))) {
                    if ry.scale != 12 || (ry.negative && ry.value != 0) || (p <= a && ry.value != 0) {
                        return Err(format!("y amount {:?}", ry));
                    }
                    if ry.value > y {
                        return Err(format!("liquidity {} needs y {} of {} offered", l.value, ry.value, y));
                    }
                    if !b(ry.value).mul(&u()).le(&b(l.value).mul(&b(pc - a))) {
                        return Err(format!("y amount {} above the worth of {}", ry.value, l.value));
                    }
                }
                // the same through ticks
                let t0 = (x % 5_000, a % 5_000, 1 + bb % 200);
                let (t, ta, tb) = (t0.0, t0.1, t0.1 + t0.2);
                if let Some(l) = call(|| Pm::liq_from_x_y_tick_rng(d(x), d(y), t, ta, tb)) {
                    let rx = call(|| Pm::x_from_l_tick_rng(l, t, ta, tb));
                    let ry = call(|| Pm::y_from_l_tick_rng(l, t, ta, tb));
                    for (r, o, none) in [(rx, x, t >= tb), (ry, y, t <= ta)] {
                        if let Some(r) = r {
                            if (r.negative && r.value != 0) || r.value > o || (none && r.value != 0) {
                                return Err(format!("ticks {} {} {}: liquidity {} needs {:?} of {} offered", t, ta, tb, l.value, r, o));
                            }
                        }
                    }
                }
                Ok(true)
            }
            _ => {
                let (l, p, q, a) = (n(0), n(1), n(2), n(3));
                if p == 0 || q == 0 {
                    return Ok(false);
                }
                let up = q >= p;
                let diff = if up { q - p } else { p - q };
                let mut ok = false;
                if let Some(g) = call(|| Pm::dy_from_l_drp(d(l), d(p), d(q))) {
                    let w = b(l).mul(&b(diff)).div(&u());
                    let w = if up { w } else { w.negate() };
                    if sv(&g) != w || g.scale != 12 {
                        return Err(format!("dy = {:?}, expected {}", g, w));
                    }
                    ok = true;
                }
                if let Some(g) = call(|| Pm::dx_from_l_drp(d(l), d(p), d(q))) {
                    let s = sv(&g);
                    if g.scale != 12 || (up && b(0).lt(&s)) || (!up && s.lt(&b(0))) {
                        return Err(format!("dx = {:?} has the wrong sign", g));
                    }
                    if !b(g.value).mul(&b(p)).mul(&b(q)).le(&b(l).mul(&b(diff)).mul(&u())) {
                        return Err(format!("dx = {:?} exceeds L*|1/q-1/p|", g));
                    }
                    ok = true;
                }
                if let Some(g) = call(|| Pm::rp_new_from_l_dx(d(l), d(p), d(a))) {
                    if g.scale != 12 || (g.negative && g.value != 0) || g.value > p {
                        return Err(format!("adding x {} at liquidity {} moves the root price from {} to {:?}", a, l, p, g));
                    }
                    ok = true;
                }
                if let Some(g) = call(|| Pm::rp_new_from_l_dy(d(l), d(p), d(a))) {
                    if g.scale != 12 || (g.negative && g.value != 0) || g.value < p {
                        return Err(format!("adding y {} at liquidity {} moves the root price from {} to {:?}", a, l, p, g));
                    }
                    ok = true;
                }
                for (s, f) in [(0, Pm::rp_new_from_l_dx as fn(Decimal, Decimal, Decimal) -> Decimal), (1, Pm::rp_new_from_l_dy)] {
                    let neg = Decimal { value: a, scale: 12, negative: true };
                    if let Some(g) = call(|| f(d(l), d(p), neg)) {
                        if g.negative && g.value != 0 {
                            return Err(format!("removing {} of token {} gives the negative root price {:?}", a, s, g));
                        }
                    }
                }
                Ok(ok)
            }
        }
    }
}
