// ---- integer powers: accuracy of repeated squaring with truncation ------------
pub open spec fn dmax(a: int, b: int) -> int { if a >= b { a } else { b } }

/// r approximates v^n / D^(n-1) (all in units of the last place) from below
pub open spec fn approx(r: int, v: int, d: int, n: nat) -> bool {
    &&& r >= 0
    &&& n == 0 ==> r == d
    &&& n >= 1 ==> r * pow(d, (n - 1) as nat) <= pow(v, n)
    &&& n >= 1 ==> pow(v, n) - r * pow(d, (n - 1) as nat) <= (n - 1) * pow(dmax(d, v), (n - 1) as nat)
    &&& d == 1 ==> r == pow(v, n)
}
/// every intermediate product of a power of exponent n fits
pub open spec fn ipow_fits(v: int, d: int, n: nat) -> bool {
    n >= 1 ==> pow(dmax(d, v), n) * (d * d) <= u128::MAX * pow(d, n)
}

pub proof fn lemma_ipow_mono(a: int, b: int, n: nat)
    requires 0 <= a <= b,
    ensures 0 <= pow(a, n) <= pow(b, n),
    decreases n,
{
    if n == 0 {
        lemma_pow0(a); lemma_pow0(b);
    } else {
        lemma_ipow_mono(a, b, (n - 1) as nat);
        reveal(pow);
        let x = pow(a, (n - 1) as nat);
        let y = pow(b, (n - 1) as nat);
        assert(0 <= a * x <= b * y) by (nonlinear_arith) requires 0 <= a <= b, 0 <= x <= y;
    }
}
pub proof fn lemma_pow_ge1(b: int, n: nat)
    requires b >= 1,
    ensures pow(b, n) >= 1,
{
    lemma_pow_positive(b, n);
}

/// the rounding errors of two factors and of their truncated product
pub proof fn lemma_combine(r1: int, e1: nat, r2: int, e2: nat, v: int, d: int)
    requires approx(r1, v, d, e1), approx(r2, v, d, e2), e2 >= 1, v >= 0, d >= 1,
    ensures approx((r1 * r2) / d, v, d, e1 + e2),
{
    let r3 = (r1 * r2) / d;
    assert(r1 * r2 >= 0) by (nonlinear_arith) requires r1 >= 0, r2 >= 0;
    lemma_fundamental_div_mod(r1 * r2, d);
    lemma_mod_bound(r1 * r2, d);
    lemma_div_pos_is_pos(r1 * r2, d);
    if e1 == 0 {
        assert(r3 == r2) by { lemma_div_multiples_vanish(r2, d); assert(r1 * r2 == d * r2); }
    } else {
        let m = dmax(d, v);
        let a = pow(v, e1); let b = pow(v, e2);
        let x = pow(d, (e1 - 1) as nat); let y = pow(d, (e2 - 1) as nat);
        let p = pow(m, (e1 - 1) as nat); let q = pow(m, (e2 - 1) as nat);
        let n = e1 + e2;
        lemma_pow_adds(v, e1, e2);
        lemma_pow_adds(d, (e1 - 1) as nat, (e2 - 1) as nat);
        lemma_pow_adds(m, (e1 - 1) as nat, (e2 - 1) as nat);
        assert(pow(d, (n - 1) as nat) == d * (x * y)) by { reveal_with_fuel(pow, 2); };
        assert(pow(m, (n - 1) as nat) == m * (p * q)) by { reveal_with_fuel(pow, 2); };
        lemma_pow_ge1(d, (e1 - 1) as nat); lemma_pow_ge1(d, (e2 - 1) as nat);
        lemma_ipow_mono(d, m, (e1 - 1) as nat); lemma_ipow_mono(d, m, (e2 - 1) as nat);
        lemma_ipow_mono(v, m, (e1 - 1) as nat); lemma_ipow_mono(v, m, (e2 - 1) as nat);
        lemma_ipow_mono(0, v, e1); lemma_ipow_mono(0, v, e2);
        // a <= m*p, b <= m*q
        lemma_ipow_mono(v, m, e1); lemma_ipow_mono(v, m, e2);
        assert(a <= m * p) by { reveal_with_fuel(pow, 2); };
        assert(b <= m * q) by { reveal_with_fuel(pow, 2); };
        lemma_zero_pow(0);
        let xy = x * y;
        let pq = p * q;
        assert(0 <= xy <= pq) by (nonlinear_arith) requires 1 <= x <= p, 1 <= y <= q, xy == x * y, pq == p * q;
        // upper bound
        let r1x = r1 * x; let r2y = r2 * y;
        assert(0 <= r1x) by (nonlinear_arith) requires r1 >= 0, x >= 1, r1x == r1 * x;
        assert(0 <= r2y) by (nonlinear_arith) requires r2 >= 0, y >= 1, r2y == r2 * y;
        assert(r1x * r2y <= a * b) by (nonlinear_arith) requires 0 <= r1x <= a, 0 <= r2y <= b;
        assert(r1x * r2y == (r1 * r2) * xy) by (nonlinear_arith) requires r1x == r1 * x, r2y == r2 * y, xy == x * y;
        let s = r3 * (d * xy);
        assert(s == (d * r3) * xy) by (nonlinear_arith) requires s == r3 * (d * xy);
        let rem = (r1 * r2) % d;
        assert((r1 * r2) * xy == s + rem * xy) by (nonlinear_arith)
            requires s == (d * r3) * xy, r1 * r2 == d * r3 + rem;
        assert(0 <= rem * xy <= m * pq) by (nonlinear_arith) requires 0 <= rem < d, d <= m, 0 <= xy <= pq;
        assert(s <= a * b);
        // lower bound
        let ea = a - r1x; let eb = b - r2y;
        assert(a * b - r1x * r2y == a * eb + r2y * ea) by (nonlinear_arith) requires ea == a - r1x, eb == b - r2y;
        let k1 = e1 - 1; let k2 = e2 - 1;
        assert(a * eb <= (m * p) * (k2 * q)) by (nonlinear_arith) requires 0 <= a <= m * p, 0 <= eb <= k2 * q;
        assert(r2y * ea <= (m * q) * (k1 * p)) by (nonlinear_arith) requires 0 <= r2y <= m * q, 0 <= ea <= k1 * p;
        assert((m * p) * (k2 * q) == k2 * (m * pq)) by (nonlinear_arith) requires pq == p * q;
        assert((m * q) * (k1 * p) == k1 * (m * pq)) by (nonlinear_arith) requires pq == p * q;
        assert(k1 * (m * pq) + k2 * (m * pq) + m * pq == (k1 + k2 + 1) * (m * pq)) by (nonlinear_arith);
        assert(a * b - s <= (n - 1) * (m * pq));
        assert(r3 * pow(d, (n - 1) as nat) == s);
    }
    if d == 1 {
        lemma_pow_adds(v, e1, e2);
        lemma_div_by_one(r1 * r2);
    }
}
pub proof fn lemma_zero_pow(n: nat) ensures n >= 0 { }

/// r1*r2 <= v^(e1+e2) / D^(e1+e2-2), hence it fits when ipow_fits
pub proof fn lemma_ipow_product_fits(r1: int, e1: nat, r2: int, e2: nat, v: int, d: int, n: nat)
    requires approx(r1, v, d, e1), approx(r2, v, d, e2), e2 >= 1, v >= 0, d >= 1, e1 + e2 <= n, ipow_fits(v, d, n),
    ensures 0 <= r1 * r2 <= u128::MAX,
{
    let m = dmax(d, v);
    let k = e1 + e2;
    let a = pow(v, e1); let b = pow(v, e2);
    let x = pow(d, e1); let y = pow(d, e2);
    assert(r1 * r2 >= 0) by (nonlinear_arith) requires r1 >= 0, r2 >= 0;
    lemma_pow_ge1(d, e1); lemma_pow_ge1(d, e2); lemma_pow_ge1(d, n); lemma_pow_ge1(d, (n - k) as nat);
    lemma_ipow_mono(0, v, e1); lemma_ipow_mono(0, v, e2);
    // r1 * x <= d * a   (also for e1 == 0)
    assert(r1 * x <= d * a) by {
        if e1 == 0 { lemma_pow0(v); lemma_pow0(d); }
        else {
            let z = pow(d, (e1 - 1) as nat);
            assert(x == d * z) by { reveal_with_fuel(pow, 2); };
            assert(r1 * (d * z) <= d * a) by (nonlinear_arith) requires r1 * z <= a, d >= 1;
        }
    };
    assert(r2 * y <= d * b) by {
        let z = pow(d, (e2 - 1) as nat);
        assert(y == d * z) by { reveal_with_fuel(pow, 2); };
        assert(r2 * (d * z) <= d * b) by (nonlinear_arith) requires r2 * z <= b, d >= 1;
    };
    assert((r1 * r2) * (x * y) <= (d * d) * (a * b)) by (nonlinear_arith)
        requires 0 <= r1, 0 <= r2, 1 <= x, 1 <= y, 0 <= a, 0 <= b, d >= 1, r1 * x <= d * a, r2 * y <= d * b;
    lemma_pow_adds(v, e1, e2); lemma_pow_adds(d, e1, e2);
    // extend to n: v^k * d^(n-k) <= m^n
    let w = pow(d, (n - k) as nat);
    lemma_pow_adds(d, k, (n - k) as nat);
    lemma_pow_adds(m, k, (n - k) as nat);
    lemma_ipow_mono(v, m, k); lemma_ipow_mono(d, m, (n - k) as nat); lemma_ipow_mono(0, v, k);
    let vk = pow(v, k); let mk = pow(m, k); let mw = pow(m, (n - k) as nat); let dk = pow(d, k);
    assert(vk * w <= mk * mw) by (nonlinear_arith) requires 0 <= vk <= mk, 1 <= w <= mw;
    let rr = r1 * r2; let dd = d * d;
    assert(rr * dk <= dd * vk);
    assert(rr * (dk * w) <= dd * (vk * w)) by (nonlinear_arith) requires rr * dk <= dd * vk, w >= 1;
    assert(dd * (vk * w) <= (mk * mw) * dd) by (nonlinear_arith) requires vk * w <= mk * mw, dd == d * d;
    let dn = pow(d, n);
    assert(rr * dn <= u128::MAX * dn);
    assert(rr <= u128::MAX) by (nonlinear_arith) requires rr * dn <= u128::MAX * dn, dn >= 1;
}
pub open spec fn ipow_inv(p: nat, r: Decimal, b: Decimal, cur: int, x: Decimal, n: nat) -> bool {
    &&& p >= 1 && 0 <= cur && p * cur <= n
    &&& r.scale == x.scale && b.scale == x.scale
    &&& approx(r.value as int, x.value as int, den(x) as int, (n - p * cur) as nat)
    &&& cur > 0 ==> approx(b.value as int, x.value as int, den(x) as int, p)
    &&& cur > 0 ==> signed(b, x.negative && p == 1)
    &&& p > 1 ==> p % 2 == 0
    &&& signed(r, x.negative && (n - p * cur) as nat % 2 == 1)
    &&& r.value == 0 || true
}
pub open spec fn ipow_post(x: Decimal, n: nat, r: Decimal) -> bool {
    &&& r.scale == x.scale
    &&& signed(r, x.negative && n % 2 == 1)
    &&& approx(r.value as int, x.value as int, den(x) as int, n)
}

/// the 2^k-th power of x was computed on the way, so it fits
pub open spec fn pw_ok(x: Decimal, k: nat) -> bool {
    exists|b: int| b <= u128::MAX && #[trigger] approx(b, x.value as int, den(x) as int, pow(2, k) as nat)
}
pub open spec fn ipow_room(x: Decimal, n: nat) -> bool {
    forall|k: nat| pow(2, k) <= n ==> #[trigger] pw_ok(x, k)
}
