/// what is left of the place value after its digit: 10^12 / place
pub open spec fn unit_of(col: int) -> int { if col == 0 { 100_000_000_000 } else if col == 1 { 10_000_000_000 } else if col == 2 { 1_000_000_000 } else if col == 3 { 100_000_000 } else if col == 4 { 10_000_000 } else if col == 5 { 1_000_000 } else if col == 6 { 100_000 } else if col == 7 { 10_000 } else if col == 8 { 1_000 } else { 100 } }
pub open spec fn step_in(s: Decimal, t: Decimal) -> bool { s.scale == 12 && t.scale == 12 && t.value > 0 && !dneg(s) && !dneg(t) && fits(s.value * U12) }
pub open spec fn step_q(s: Decimal, t: Decimal) -> int { (s.value * U12) / (t.value as int) }
pub open spec fn step_ok(s: Decimal, t: Decimal, col: int) -> bool {
    step_in(s, t) && 0 <= col <= 9 && U12 <= step_q(s, t) < U12 + 10 * unit_of(col)
}
/// q and its leading digits t, whose logarithm is lx
pub open spec fn step_out(q: int, col: int, t: Decimal, lx: int) -> bool {
    let m = q / unit_of(col) - place(col);
    &&& 0 <= m <= 9
    &&& t.scale == 12 && !t.negative && t.value == (place(col) + m) * unit_of(col)
    &&& U12 <= t.value <= q < t.value + unit_of(col)
    &&& U12 <= (q * U12) / (t.value as int) < U12 + unit_of(col)
    &&& if m == 0 { lx == 0 } else { log_12(lx, m, 2 * place(col) + m, 2) }
    &&& 0 <= lx <= 700_000_000_000
}
pub open spec fn ln_dom(x: Decimal) -> bool {
    &&& x.scale <= 12
    &&& x.value > 0
    &&& fits(x.value * p10((12 - x.scale) as nat) * U12)
}
pub open spec fn ln_near(w: int, x: int) -> bool {
    forall|l: spec_fn(real) -> real| #[trigger] is_log(l) ==> (w - 180) as real <= elog(l, x) && elog(l, x) <= (w + 180) as real
}
pub open spec fn mag(w: int) -> int { if w < 0 { -w } else { w } }
/// within 180 units of 10^-12 of the logarithm of x, x cut to twelve digits; then cut to the scale of x
pub open spec fn ln_result(x: Decimal, r: Decimal) -> bool {
    let v = to_scale_val(x, 12);
    &&& v > 0
    &&& r.scale == x.scale
    &&& exists|w: int| {
        &&& #[trigger] ln_near(w, v)
        &&& mag(w) <= u128::MAX
        &&& r.value == to_scale_val(Decimal { value: mag(w) as u128, scale: 12, negative: false }, x.scale)
        &&& signed(r, w < 0)
    }
}
pub proof fn lemma_place(col: int)
    requires 0 <= col <= 9,
    ensures place(col) * unit_of(col) == U12, unit_of(col) >= 100, place(col) >= 10,
{
    let (p, d) = (place(col), unit_of(col));
    assert(p * d == U12) by (nonlinear_arith) requires p == place(col), d == unit_of(col), 0 <= col <= 9;
}
pub proof fn lemma_digits(q: int, col: int)
    requires 0 <= col <= 9, U12 <= q < U12 + 10 * unit_of(col),
    ensures ({
        let d = unit_of(col); let p = place(col); let g = q / d;
        &&& pow(10, (col + 1) as nat) == p && p * d == U12
        &&& p <= g <= p + 9
        &&& (q * p) / U12 == g
        &&& (g * U12) / p == g * d
        &&& (g * d * p) / U12 == g
        &&& g * d <= q < g * d + d
        &&& q * p <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff && g * U12 <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff && g * d * p <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff
    }),
{
    reveal_with_fuel(pow, 11);
    let d = unit_of(col); let p = place(col);
    lemma_fundamental_div_mod(q, d); lemma_mod_bound(q, d);
    let g = q / d;
    assert(d * g == g * d) by (nonlinear_arith);
    assert(p * d == U12);
    assert(p <= g <= p + 9) by (nonlinear_arith) requires g * d <= q, q < g * d + d, p * d == U12, q < U12 + 10 * d, U12 <= q, d > 0;
    assert((q * p) / (d * p) == g) by { lemma_div_denominator(q * p, p, d); lemma_div_multiples_vanish(q, p); assert(q * p == p * q && d * p == p * d) by (nonlinear_arith); }
    assert(d * p == p * d) by (nonlinear_arith);
    assert(g * U12 == p * (g * d)) by (nonlinear_arith) requires p * d == U12;
    lemma_div_multiples_vanish(g * d, p);
    assert(g * d * p == U12 * g) by (nonlinear_arith) requires p * d == U12;
    lemma_div_multiples_vanish(g, U12);
    assert(q * p <= 2_000_000_000_000 * 10_000_000_000) by (nonlinear_arith) requires 0 <= q <= 2_000_000_000_000, 0 <= p <= 10_000_000_000;
}

/// the greatest power of two below v / d, from the leading bit of the quotient
pub proof fn lemma_halves(v: int, d: int, n: nat)
    requires v > 0, d > 0,
    ensures
        pow(2, n) <= v / d < pow(2, n + 1) ==> pow(2, n) * d <= v < 2 * pow(2, n) * d,
        n >= 1 && v < d && pow(2, (n - 1) as nat) <= (d - 1) / v < pow(2, n) ==> d <= v * pow(2, n) < 2 * d,
        v < d ==> (d - 1) / v >= 1,
        v >= d ==> v / d >= 1,
{
    lemma_fundamental_div_mod(v, d); lemma_mod_bound(v, d);
    lemma_fundamental_div_mod(d - 1, v); lemma_mod_bound(d - 1, v);
    let (q, e, p) = (v / d, (d - 1) / v, pow(2, n));
    assert(pow(2, n + 1) == 2 * p) by { reveal(pow); }
    if p <= q && q < 2 * p {
        assert(p * d <= v && v < 2 * p * d) by (nonlinear_arith) requires p <= q, q < 2 * p, d * q <= v, v < d * q + d, d > 0;
    }
    if v < d { assert(e >= 1) by (nonlinear_arith) requires d - 1 < v * e + v, v <= d - 1, v > 0; }
    if v >= d { assert(q >= 1) by (nonlinear_arith) requires v < d * q + d, v >= d, d > 0; }
    if n >= 1 && v < d {
        let h = pow(2, (n - 1) as nat);
        assert(p == 2 * h) by { reveal(pow); }
        if h <= e && e < p {
            assert(d <= v * p && v * p < 2 * d) by (nonlinear_arith) requires h <= e, e < p, p == 2 * h, v * e <= d - 1, d - 1 < v * e + v, v > 0;
        }
    }
}

pub proof fn lemma_next(q: int, t: int, d: int)
    requires U12 <= t <= q < t + d, d <= U12,
    ensures U12 <= (q * U12) / t < U12 + d,
{
    let n = q * U12;
    lemma_fundamental_div_mod(n, t); lemma_mod_bound(n, t);
    let e = n / t;
    assert(U12 <= e && e < U12 + d) by (nonlinear_arith) requires n == q * U12, t * e <= n, n < t * e + t, U12 <= t, t <= q, q < t + d, d <= U12, U12 == 1_000_000_000_000;
}
pub proof fn lemma_start(x: int, n: nat, up: bool)
    requires
        0 < x <= u128::MAX,
        up ==> U12 <= x * pow(2, n) < 2 * U12,
        !up ==> pow(2, n) * U12 <= x < 2 * pow(2, n) * U12,
    ensures
        1 <= pow(2, n) <= u128::MAX,
        ipow_fits(2, 1, n),
        up ==> ((x * pow(2, n)) * U12) / U12 == x * pow(2, n),
        up ==> n <= 48,
        (x * pow(2, n)) / 1 == x * pow(2, n),
        !up ==> (x * U12) / (pow(2, n) * U12) == x / pow(2, n) && U12 <= x / pow(2, n) < 2 * U12 && pow(2, n) * U12 <= u128::MAX,
        !up && x * U12 <= u128::MAX ==> n <= 48,
{
    lemma_pow_positive(2, n);
    let p = pow(2, n);
    let m = x * p;
    lemma_div_multiples_vanish(m, U12);
    assert(m * U12 == U12 * m);
    if n > 48 {
        lemma_pow_adds(2, 49, (n - 49) as nat);
        lemma_pow_positive(2, (n - 49) as nat);
        assert(pow(2, 49) == 0x2_0000_0000_0000) by { reveal(pow); assert(pow(2, 49) == 0x2_0000_0000_0000) by (compute); }
        let w = pow(2, (n - 49) as nat);
        assert(p >= 0x2_0000_0000_0000) by (nonlinear_arith) requires p == 0x2_0000_0000_0000 * w, w >= 1;
        if up { assert(m >= p) by (nonlinear_arith) requires m == x * p, x >= 1, p >= 1; }
        else { assert(x * U12 >= 0x2_0000_0000_0000 * (U12 * U12)) by (nonlinear_arith) requires x >= p * U12, p >= 0x2_0000_0000_0000, U12 == 1_000_000_000_000; }
    }
    if up { assert(p <= m) by (nonlinear_arith) requires m == x * p, x >= 1, p >= 1; }
    else {
        assert(p <= p * U12) by (nonlinear_arith) requires p >= 1, U12 == 1_000_000_000_000;
        assert(p * U12 == U12 * p && x * U12 == U12 * x);
        lemma_div_denominator(x * U12, U12, p);
        lemma_div_multiples_vanish(x, U12);
        lemma_fundamental_div_mod(x, p); lemma_mod_bound(x, p);
        let q = x / p;
        assert(U12 <= q && q < 2 * U12) by (nonlinear_arith) requires p * U12 <= x, x < 2 * p * U12, p * q <= x, x < p * q + p, p >= 1;
    }
    lemma_pow_positive(1, n);
    let o = pow(1, n);
    assert(dmax(1, 2) == 2);
    assert(p * (1 * 1) <= u128::MAX * o) by (nonlinear_arith) requires p <= u128::MAX, o >= 1;
}
pub proof fn lemma_digit(q: int, col: int, t: Decimal, lx: int, l: spec_fn(real) -> real)
    requires is_log(l), 0 <= col <= 9, step_out(q, col, t, lx),
    ensures ({ let e = elog(l, (q * U12) / (t.value as int)); e + lx as real - 2real <= elog(l, q) <= e + lx as real + 3real }),
{
    let (d, p) = (unit_of(col), place(col));
    let m = q / d - p;
    let tv = t.value as int;
    lemma_place(col);
    let (tr, ur, mr, pr, dr) = (tv as real, U12 as real, m as real, p as real, d as real);
    lemma_cast(p + m, d); lemma_cast(p, d);
    assert(tr == (pr + mr) * dr && ur == pr * dr);
    let c = 2 * p + m;
    let (nr, er) = ((c + m) as real, (c - m) as real);
    assert(nr == 2real * (pr + mr) && er == 2real * pr);
    let x = nr / er;
    assert(tr / ur == x) by (nonlinear_arith) requires tr == (pr + mr) * dr, ur == pr * dr, x == nr / er, nr == 2real * (pr + mr), er == 2real * pr, pr > 0real, dr > 0real;
    if m == 0 {
        lemma_one(l);
        assert(tr / ur == 1real) by (nonlinear_arith) requires tr == ur, ur > 0real;
        assert(ur * l(1real) == 0real) by (nonlinear_arith) requires l(1real) == 0real;
    } else {
        lemma_log(lx, m, c, 2, l);
    }
    assert(e_near(l, tv, lx, 2, 2));
    lemma_step(q, tv, (q * U12) / tv, lx, l);
}
/// the digits together
pub proof fn lemma_sum(x: int, n: nat, up: bool, q: int, next: int, sum: int, w: int, l: spec_fn(real) -> real)
    requires
        is_log(l), x > 0, n <= 48, q >= U12,
        up ==> q == x * pow(2, n) && w == sum - 693147180559 * n,
        !up ==> q == x / pow(2, n) && w == sum + 693147180559 * n,
        U12 <= next <= U12 + 100,
        elog(l, next) + sum as real - 20real <= elog(l, q) <= elog(l, next) + sum as real + 30real,
    ensures (w - 180) as real <= elog(l, x) && elog(l, x) <= (w + 180) as real,
{
    lemma_rest(next, l);
    lemma_powers(n, l);
    if up { lemma_scaled_up(x, q, n, l); } else { lemma_scaled_down(x, q, n, l); }
}

pub proof fn lemma_dom(x: Decimal)
    requires ln_dom(x),
    ensures to_scale_req(x, 12), to_scale_val(x, 12) > 0, fits(to_scale_val(x, 12) * U12),
{
    p10_pos((12 - x.scale) as nat);
    let (v, p) = (x.value as int, p10((12 - x.scale) as nat) as int);
    assert(v * p >= v) by (nonlinear_arith) requires v > 0, p >= 1;
    assert(v * p <= v * p * U12) by (nonlinear_arith) requires v * p >= 0, U12 == 1_000_000_000_000;
    p10_zero();
    assert(p <= v * p) by (nonlinear_arith) requires v > 0, p >= 1;
    if x.scale == 12 { assert(v * p == v) by (nonlinear_arith) requires p == 1; }
}

pub proof fn lemma_nonzero(x: Decimal)
    ensures to_scale_val(x, 12) != 0 ==> x.value != 0,
{
    if x.value == 0 {
        let p = p10((12 - x.scale) as nat) as int;
        let d = p10((x.scale - 12) as nat) as int;
        assert(0 * p == 0 && 0int / d == 0) by { p10_pos((x.scale - 12) as nat); lemma_div_basics(d); }
    }
}

pub proof fn lemma_zero_cut(x: Decimal, s: u8)
    ensures x.value == 0 ==> to_scale_val(x, s) == 0,
{
    if x.value == 0 {
        let p = p10((s - x.scale) as nat) as int;
        let d = p10((x.scale - s) as nat) as int;
        assert(0 * p == 0 && 0int / d == 0) by { p10_pos((x.scale - s) as nat); lemma_div_basics(d); }
    }
}
