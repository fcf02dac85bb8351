// ---- prices, ticks and amounts at compute scale (12 decimals) --------------------
pub spec const U: int = 1_000_000_000_000;
/// 1.0001 at compute scale
pub open spec fn base_sq() -> Decimal { Decimal { value: 1_000_100_000_000, scale: 12, negative: false } }
/// the root-price base
pub open spec fn rp_base() -> Decimal { det_sqrt(base_sq())->Ok_0 }
/// results as functions of the arguments (only used where these functions are assumed)
pub uninterp spec fn det_liq(x: Decimal, y: Decimal, rp: Decimal, rpa: Decimal, rpb: Decimal) -> Decimal;
pub uninterp spec fn det_x(l: Decimal, rp: Decimal, rpa: Decimal, rpb: Decimal) -> Decimal;
pub uninterp spec fn det_y(l: Decimal, rp: Decimal, rpa: Decimal, rpb: Decimal) -> Decimal;
pub uninterp spec fn det_dx(l: Decimal, rp_old: Decimal, rp_new: Decimal) -> Decimal;
pub uninterp spec fn det_dy(l: Decimal, rp_old: Decimal, rp_new: Decimal) -> Decimal;
pub uninterp spec fn det_rp_dx(l: Decimal, rp_old: Decimal, dx: Decimal) -> Decimal;
pub uninterp spec fn det_rp_dy(l: Decimal, rp_old: Decimal, dy: Decimal) -> Decimal;
/// the root price of a tick
pub open spec fn rp_of(t: u128) -> Decimal { det_ipow(rp_base(), t) }
pub open spec fn c12(d: Decimal) -> bool { d.scale == 12 }
/// non-negative, at compute scale
pub open spec fn nn(d: Decimal) -> bool { d.scale == 12 && !dneg(d) }
pub open spec fn price(d: Decimal) -> bool { d.scale == 12 && !dneg(d) && d.value != 0 }

/// what is known of a root price that was computed
pub open spec fn rp_ok(t: u128, r: Decimal) -> bool {
    &&& base_ok(rp_base())
    &&& r == rp_of(t)
    &&& r.scale == 12
    &&& signed(r, false)
    &&& approx(r.value as int, rp_base().value as int, U, t as nat)
    &&& t >= 1 ==> ipow_room(rp_base(), t as nat)
}
pub open spec fn base_ok(b: Decimal) -> bool {
    &&& b.scale == 12 && signed(b, false)
    &&& 1_000_049_998_750 <= b.value <= 1_000_049_998_751
}
pub proof fn lemma_base(r: Decimal)
    requires root_within(r.value as int, 1_000_100_000_000 * U),
    ensures 1_000_049_998_750 <= r.value <= 1_000_049_998_751,
{
    let v = r.value as int;
    if v < 1_000_049_998_750 {
        assert((v + 1) * (v + 1) <= 1_000_049_998_750 * 1_000_049_998_750) by (nonlinear_arith) requires 0 <= v, v + 1 <= 1_000_049_998_750;
        assert(false);
    }
    if v > 1_000_049_998_751 {
        assert((v - 1) * (v - 1) >= 1_000_049_998_751 * 1_000_049_998_751) by (nonlinear_arith) requires v - 1 >= 1_000_049_998_751;
        assert(false);
    }
}
/// lower bounds of (v/U)^(2^k), times U
pub open spec fn low(k: nat) -> int
    decreases k,
{
    if k == 0 { 1_000_049_998_750 } else { low_sq(low((k - 1) as nat)) }
}
pub open spec fn low_sq(c: int) -> int { (c * c) / 1_000_000_000_000 }
pub proof fn lemma_low(v: int, k: nat)
    requires v >= 1_000_049_998_750,
    ensures low(k) >= 0, pow(v, pow(2, k) as nat) * U >= low(k) * pow(U, pow(2, k) as nat), pow(2, k) >= 1,
    decreases k,
{
    lemma_pow_positive(2, k);
    if k == 0 {
        lemma_pow0(2); lemma_pow1(v); lemma_pow1(U);
    } else {
        let j = (k - 1) as nat;
        lemma_low(v, j);
        let e = pow(2, j) as nat;
        assert(pow(2, k) == 2 * pow(2, j)) by { reveal_with_fuel(pow, 2); };
        lemma_pow_adds(v, e, e);
        lemma_pow_adds(U, e, e);
        let (a, f, c) = (pow(v, e), pow(U, e), low(j));
        lemma_pow_positive(U, e); lemma_pow_positive(v, e);
        assert((a * U) * (a * U) >= (c * f) * (c * f)) by (nonlinear_arith) requires a * U >= c * f, c >= 0, f >= 0, a >= 0;
        let g = (c * c) / U;
        assert(c * c >= 0) by (nonlinear_arith);
        lemma_fundamental_div_mod(c * c, U); lemma_mod_bound(c * c, U);
        assert(c * c >= g * U) by (nonlinear_arith) requires c * c == U * g + (c * c) % U, (c * c) % U >= 0;
        let (aa, ff, cc) = (a * a, f * f, c * c);
        assert((a * U) * (a * U) == (aa * U) * U) by (nonlinear_arith) requires aa == a * a;
        assert((c * f) * (c * f) == cc * ff) by (nonlinear_arith) requires ff == f * f, cc == c * c;
        assert(ff >= 0) by (nonlinear_arith) requires ff == f * f;
        assert(cc * ff >= (g * U) * ff) by (nonlinear_arith) requires cc >= g * U, ff >= 0;
        assert((g * U) * ff == (g * ff) * U) by (nonlinear_arith);
        assert(aa * U >= g * ff) by (nonlinear_arith) requires (aa * U) * U >= (g * ff) * U, U > 0;
    }
}
/// a root price is representable only up to 2^21 ticks
pub proof fn lemma_tick_max(t: u128, r: Decimal)
    requires rp_ok(t, r),
    ensures t < 2_097_152,
{
    if t >= 2_097_152 {
        assert(pow(2, 21) == 2_097_152) by { reveal(pow); assert(pow(2, 21) == 2_097_152) by (compute); };
        let x = rp_base();
        p10_12();
        assert(pw_ok(x, 21));
        let v = x.value as int;
        let p: nat = 2_097_152;
        let b = choose|b: int| b <= u128::MAX && #[trigger] approx(b, v, den(x) as int, pow(2, 21) as nat);
        assert(approx(b, v, U, p));
        lemma_low(v, 21);
        assert(low(21) >= 1_000_000_000_000_000_000_000_000_000_000_000_000_000_000_000_000_000_000_000) by (compute);
        let c = low(21);
        let q = (p - 1) as nat;
        let (vq, uq) = (pow(v, q), pow(U, q));
        assert(pow(v, p) == v * vq) by { reveal_with_fuel(pow, 2); };
        assert(pow(U, p) == U * uq) by { reveal_with_fuel(pow, 2); };
        lemma_pow_positive(U, q); lemma_pow_positive(v, q);
        // vq * v * U >= c * U * uq
        assert((v * vq) * U >= c * (U * uq));
        assert(v * vq >= c * uq) by (nonlinear_arith) requires (v * vq) * U >= c * (U * uq), U > 0;
        // b * uq >= vq * (v - q)
        assert(b * uq >= v * vq - q * vq);
        let w = v - q;
        assert(v * vq - q * vq == w * vq) by (nonlinear_arith) requires w == v - q;
        assert(w * vq * 2 >= v * vq) by (nonlinear_arith) requires 2 * w >= v, vq >= 0;
        assert(2 * b * uq >= c * uq) by (nonlinear_arith) requires 2 * (w * vq) >= v * vq, v * vq >= c * uq, b * uq >= w * vq;
        assert(2 * b >= c) by (nonlinear_arith) requires 2 * b * uq >= c * uq, uq >= 1;
        assert(false);
    }
}
/// M01: computed root prices strictly increase with the tick
pub proof fn lemma_rp_strict(t: u128, a: Decimal, s: u128, b: Decimal)
    requires rp_ok(t, a), rp_ok(s, b), t < s,
    ensures a.value < b.value, sv(a) < sv(b),
{
    lemma_tick_max(s, b);
    let v = rp_base().value as int;
    let q = (s - 1) as nat;
    let (vq, uq) = (pow(v, q), pow(U, q));
    assert(pow(v, s as nat) == v * vq) by { reveal_with_fuel(pow, 2); };
    lemma_pow_positive(U, q); lemma_pow_positive(v, q);
    let w = v - q;
    assert(v * vq - q * vq == w * vq) by (nonlinear_arith) requires w == v - q;
    assert(b.value * uq >= w * vq);
    assert(w > U);
    if t == 0 {
        lemma_ipow_mono(U, v, q);
        assert(w * vq > U * uq) by (nonlinear_arith) requires w > U, vq >= uq, uq >= 1;
        assert(b.value > U) by (nonlinear_arith) requires b.value * uq > U * uq, uq >= 1;
    } else {
        let tp = (t - 1) as nat;
        let d = (s - t) as nat;     // >= 1
        let d1 = (d - 1) as nat;
        // a * U^(t-1) <= v^t
        let ut = pow(U, tp); let vt = pow(v, t as nat);
        let (ud, vd) = (pow(U, d1), pow(v, d1));
        lemma_pow_adds(U, tp, d);      // U^(t-1) U^d == U^(s-1)
        lemma_pow_adds(v, t as nat, d1);     // v^t v^(d-1) == v^(s-1)
        assert(pow(U, d) == U * ud) by { reveal_with_fuel(pow, 2); };
        lemma_ipow_mono(U, v, d1); lemma_pow_positive(U, d1); lemma_pow_positive(v, d1); lemma_pow_positive(v, t as nat); lemma_pow_positive(U, tp);
        let av = a.value as int;
        assert(av * ut <= vt);
        // av * uq == av * ut * (U * ud) <= vt * U * ud <= vt * U * vd = U * vq < w * vq
        assert(uq == ut * (U * ud));
        assert(vq == vt * vd);
        assert(av * uq <= vt * (U * ud)) by (nonlinear_arith) requires av * ut <= vt, uq == ut * (U * ud), ud >= 1, U > 0;
        assert(vt * (U * ud) <= U * vq) by (nonlinear_arith) requires vq == vt * vd, ud <= vd, vt >= 0, U > 0;
        assert(U * vq < w * vq) by (nonlinear_arith) requires U < w, vq >= 1;
        assert(av < b.value) by (nonlinear_arith) requires av * uq < b.value * uq, uq >= 1;
    }
}
pub proof fn lemma_rp_one(t: u128, r: Decimal)
    requires rp_ok(t, r),
    ensures r.value >= U, t == 0 ==> r.value == U, t < 2_097_152, price(r), sv(r) >= U,
{
    lemma_tick_max(t, r);
    lemma_pow0(U); lemma_pow0(rp_base().value as int);
    if t >= 1 {
        let v = rp_base().value as int;
        let q = (t - 1) as nat;
        let (vq, uq) = (pow(v, q), pow(U, q));
        assert(pow(v, t as nat) == v * vq) by { reveal_with_fuel(pow, 2); };
        lemma_pow_positive(U, q); lemma_pow_positive(v, q); lemma_ipow_mono(U, v, q);
        let w = v - q;
        assert(v * vq - q * vq == w * vq) by (nonlinear_arith) requires w == v - q;
        assert(w * vq >= U * uq) by (nonlinear_arith) requires w > U, vq >= uq, uq >= 1;
        assert(r.value >= U) by (nonlinear_arith) requires r.value * uq >= U * uq, uq >= 1;
    }
}
/// M03: the price of a tick searched from an earlier start leads back to the tick
pub open spec fn found_down(start: u128, x: u128, rp: Decimal) -> bool {
    &&& start <= x < u128::MAX && sv(rp_of((x + 1) as u128)) > sv(rp)
    &&& rp_ok((x + 1) as u128, rp_of((x + 1) as u128))
    &&& forall|t: u128| start < t <= x ==> sv(#[trigger] rp_of(t)) <= sv(rp) && rp_ok(t, rp_of(t))
}
pub open spec fn found_up(start: u128, x: u128, rp: Decimal) -> bool {
    &&& start < x && sv(rp_of(x)) >= sv(rp)
    &&& rp_ok(x, rp_of(x))
    &&& forall|t: u128| start < t < x ==> sv(#[trigger] rp_of(t)) < sv(rp)
}
pub proof fn lemma_roundtrip(start: u128, t: u128, x: u128)
    requires rp_ok(t, rp_of(t)),
    ensures
        start <= t && found_down(start, x, rp_of(t)) ==> x == t,
        start < t && found_up(start, x, rp_of(t)) ==> x == t,
{
    if start <= t && found_down(start, x, rp_of(t)) {
        let n = (x + 1) as u128;
        if n < t { lemma_rp_strict(n, rp_of(n), t, rp_of(t)); }
        if x > t { let m = (t + 1) as u128; let _ = rp_of(m); lemma_rp_strict(t, rp_of(t), m, rp_of(m)); }
    }
    if start < t && found_up(start, x, rp_of(t)) {
        if x < t { lemma_rp_strict(x, rp_of(x), t, rp_of(t)); }
    }
}
// ---- amounts and liquidity ------------------------------------------------------
/// x / b*b <= x
pub proof fn lemma_floor(x: int, b: int)
    requires x >= 0, b >= 1,
    ensures (x / b) * b <= x, x / b >= 0, x < (x / b) * b + b, x / b <= x,
{
    lemma_fundamental_div_mod(x, b); lemma_mod_bound(x, b); lemma_div_pos_is_pos(x, b);
    assert((x / b) * b == b * (x / b)) by (nonlinear_arith);
    lemma_div_is_ordered_by_denominator(x, 1, b);
}
pub proof fn lemma_ceil(x: int, b: int)
    requires x >= 0, b >= 1,
    ensures cdiv(x, b) * b >= x, cdiv(x, b) >= 0, x > 0 ==> cdiv(x, b) > 0,
{
    lemma_fundamental_div_mod(x + b - 1, b); lemma_mod_bound(x + b - 1, b); lemma_div_pos_is_pos(x + b - 1, b);
    let q = cdiv(x, b);
    assert(q * b == b * q) by (nonlinear_arith);
    if q == 0 { assert(q * b == 0) by (nonlinear_arith) requires q == 0; }
}
pub proof fn lemma_prod_pos(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures a * b >= 0, a > 0 && b > 0 ==> a * b > 0, a == 0 || b == 0 ==> a * b == 0,
{
    assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0;
    assert(a > 0 && b > 0 ==> a * b > 0) by (nonlinear_arith);
    assert(a == 0 || b == 0 ==> a * b == 0) by (nonlinear_arith);
}
/// l is at most x*a*b/(b-a)
pub open spec fn liq_x_at_most(l: int, x: int, a: int, b: int) -> bool { (l * (b - a)) * U <= (x * a) * b }
/// l is at most y/(b-a)
pub open spec fn liq_y_at_most(l: int, y: int, a: int, b: int) -> bool { l * (b - a) <= y * U }
/// r is at most l/a - l/b
pub open spec fn x_worth(r: int, l: int, a: int, b: int) -> bool { (r * a) * b <= (l * (b - a)) * U }
/// r is at most l*b - l*a
pub open spec fn y_worth(r: int, l: int, a: int, b: int) -> bool { r * U <= l * (b - a) }
/// what a chain of truncated operations computes for x*a*b/(b-a)
pub proof fn lemma_liq_x(x: int, a: int, b: int)
    requires x >= 0, a > 0, b > a,
    ensures ({
        let l = (((x * a) / U * b) / U * U) / (b - a);
        &&& l >= 0
        &&& liq_x_at_most(l, x, a, b)
        &&& x == 0 ==> l == 0
        &&& x * a >= 0
        &&& (x * a) / U >= 0 && ((x * a) / U * b) / U >= 0
    }),
{
    let xa = x * a; let s = xa / U; let sb = s * b; let t = sb / U; let tu = t * U; let d = b - a; let l = tu / d;
    lemma_prod_pos(x, a); lemma_floor(xa, U);
    lemma_prod_pos(s, b); lemma_floor(sb, U);
    lemma_floor(tu, d);
    assert((l * d) * U <= sb * U) by (nonlinear_arith) requires l * d <= tu, tu <= sb;
    assert(sb * U <= xa * b) by (nonlinear_arith) requires sb == s * b, s * U <= xa, b > 0;
    if x == 0 { assert(s == 0); lemma_prod_pos(s, b); assert(t == 0); }
}
pub proof fn lemma_liq_y(y: int, a: int, b: int)
    requires y >= 0, b > a,
    ensures ({ let l = (y * U) / (b - a); l >= 0 && liq_y_at_most(l, y, a, b) && (y == 0 ==> l == 0) }),
{
    lemma_floor(y * U, b - a);
    if y == 0 { assert(0int / (b - a) == 0) by { lemma_div_basics(b - a); } }
}
pub proof fn lemma_x_from_l(l: int, p: int, b: int)
    requires l >= 0, p > 0, b >= p,
    ensures ({
        let m = cdiv(p * b, U);
        let r = ((l * (b - p)) / U * U) / m;
        &&& m > 0
        &&& r >= 0
        &&& x_worth(r, l, p, b)
        &&& x_worth_low(r, l, p, b)
        &&& (l == 0 || b == p) ==> r == 0
        &&& l * (b - p) >= 0
    }),
{
    let pb = p * b; let m = cdiv(pb, U); let d = b - p; let ld = l * d; let t = (ld / U) * U; let r = t / m;
    lemma_prod_pos(p, b); lemma_ceil(pb, U); lemma_prod_pos(l, d); lemma_floor(ld, U);
    lemma_floor(t, m);
    assert((r * p) * b == r * pb) by (nonlinear_arith) requires pb == p * b;
    assert(r * pb <= r * (m * U)) by (nonlinear_arith) requires pb <= m * U, r >= 0;
    assert(r * (m * U) == (r * m) * U) by (nonlinear_arith);
    assert((r * m) * U <= ld * U) by (nonlinear_arith) requires r * m <= ld;
    assert((r + 1) * m > t) by { lemma_fundamental_div_mod(t, m); lemma_mod_bound(t, m); assert((r + 1) * m == m * r + m) by (nonlinear_arith); }
    assert(t > ld - U) by { lemma_fundamental_div_mod(ld, U); lemma_mod_bound(ld, U); }
    assert(m * U <= pb + U) by { lemma_fundamental_div_mod(pb + U - 1, U); lemma_mod_bound(pb + U - 1, U); }
    assert((r + 1) * (pb + U) >= (r + 1) * (m * U)) by (nonlinear_arith) requires m * U <= pb + U, r >= 0;
    assert((r + 1) * (m * U) == ((r + 1) * m) * U) by (nonlinear_arith);
    assert(((r + 1) * m) * U > (ld - U) * U) by (nonlinear_arith) requires (r + 1) * m > ld - U;
    if l == 0 || d == 0 { assert(ld == 0); assert(t == 0); assert(r * m <= 0); assert(r == 0) by (nonlinear_arith) requires r * m <= 0, r >= 0, m > 0; }
}
pub proof fn lemma_y_from_l(l: int, a: int, p: int)
    requires l >= 0, p >= a,
    ensures ({
        let r = (l * (p - a)) / U;
        &&& r >= 0
        &&& y_worth(r, l, a, p)
        &&& y_worth_low(r, l, a, p)
        &&& l * (p - a) >= 0
        &&& (l == 0 || p == a) ==> r == 0
    }),
{
    lemma_prod_pos(l, p - a); lemma_floor(l * (p - a), U);
    lemma_fundamental_div_mod(l * (p - a), U); lemma_mod_bound(l * (p - a), U);
}
/// a smaller liquidity is still covered
pub proof fn lemma_liq_mono(l: int, m: int, x: int, y: int, a: int, b: int)
    requires 0 <= l <= m, b > a,
    ensures liq_x_at_most(m, x, a, b) ==> liq_x_at_most(l, x, a, b), liq_y_at_most(m, y, a, b) ==> liq_y_at_most(l, y, a, b),
{
    assert(l * (b - a) <= m * (b - a)) by (nonlinear_arith) requires l <= m, b > a;
}
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn clamp(p: int, a: int, b: int) -> int { imax(imin(p, b), a) }
/// the liquidity of two amounts at root price p in the range a..b
pub open spec fn liq_ok(l: int, x: int, y: int, p: int, a: int, b: int) -> bool {
    &&& l >= 0
    &&& p < b ==> liq_x_at_most(l, x, imax(p, a), b)
    &&& p > a ==> liq_y_at_most(l, y, a, imin(p, b))
}
/// the x amount of a liquidity
pub open spec fn x_amt_ok(r: int, l: int, p: int, a: int, b: int) -> bool {
    &&& r >= 0
    &&& x_worth(r, l, clamp(p, a, b), b)
    &&& p >= b ==> r == 0
}
pub open spec fn y_amt_ok(r: int, l: int, p: int, a: int, b: int) -> bool {
    &&& r >= 0
    &&& y_worth(r, l, a, clamp(p, a, b))
    &&& p <= a ==> r == 0
}
/// r falls short of l/a - l/b by no more than the rounding of its three steps
pub open spec fn x_worth_low(r: int, l: int, a: int, b: int) -> bool { (r + 1) * (a * b + U) > (l * (b - a) - U) * U }
/// r falls short of l*b - l*a by less than one unit
pub open spec fn y_worth_low(r: int, l: int, a: int, b: int) -> bool { (r + 1) * U > l * (b - a) }
pub open spec fn x_amt_low(r: int, l: int, p: int, a: int, b: int) -> bool { r >= 0 && x_worth_low(r, l, clamp(p, a, b), b) }
pub open spec fn y_amt_low(r: int, l: int, p: int, a: int, b: int) -> bool { r >= 0 && y_worth_low(r, l, a, clamp(p, a, b)) }
/// M04: the amounts of the liquidity of two amounts are at most these amounts
pub proof fn lemma_amounts_covered(l: int, x: int, y: int, p: int, a: int, b: int, rx: int, ry: int)
    requires 0 < a < b, p > 0, x >= 0, y >= 0, liq_ok(l, x, y, p, a, b), x_amt_ok(rx, l, p, a, b), y_amt_ok(ry, l, p, a, b),
    ensures 0 <= rx <= x, 0 <= ry <= y,
{
    if p < b {
        let q = imax(p, a);
        assert((rx * q) * b <= (x * q) * b);
        assert(rx * q <= x * q) by (nonlinear_arith) requires (rx * q) * b <= (x * q) * b, b > 0;
        assert(rx <= x) by (nonlinear_arith) requires rx * q <= x * q, q > 0;
    }
    if p > a {
        assert(ry * U <= y * U);
    }
}
