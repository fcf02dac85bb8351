// ---- the natural logarithm (D09) ------------------------------------------------------
/// what is used of the natural logarithm; the clauses of D09 hold for every function with
/// these properties, the natural logarithm is the one that has them
pub open spec fn is_log(l: spec_fn(real) -> real) -> bool {
    &&& forall|x: real, y: real| x > 0real && y > 0real ==> #[trigger] product(l, x, y)
    &&& forall|x: real, d: real| x > 0real && d >= 0real ==> #[trigger] slope(l, x, d)
    // log((1 + z) / (1 - z)) = 2 (z + z^3/3 + z^5/5 + ..)
    &&& forall|z: real, k: nat| 0real <= z <= 1real / 2real ==> 2real * #[trigger] ser(z, k) <= l((1real + z) / (1real - z)) <= 2real * ser(z, k) + 4real * odd(z, k)
}
pub open spec fn product(l: spec_fn(real) -> real, x: real, y: real) -> bool { l(x * y) == l(x) + l(y) }
/// the slope of the logarithm beyond x is at most 1 / x
pub open spec fn slope(l: spec_fn(real) -> real, x: real, d: real) -> bool { l(x) <= l(x + d) <= l(x) + d / x }
/// z^(2j+1)
pub open spec fn odd(z: real, j: nat) -> real
    decreases j,
{ if j == 0 { z } else { odd(z, (j - 1) as nat) * (z * z) } }
/// the sum of the first k terms z^(2j+1) / (2j+1)
pub open spec fn ser(z: real, k: nat) -> real
    decreases k,
{ if k == 0 { 0real } else { ser(z, (k - 1) as nat) + odd(z, (k - 1) as nat) / ((2 * k - 1) as real) } }

// the same for z = a/c, in units of 10^-24, rounded down and up
pub spec const P: int = 1_000_000_000_000_000_000_000_000;
pub open spec fn odd_lo(a: int, c: int, j: nat) -> int
    decreases j,
{ if j == 0 { (a * P) / c } else { (odd_lo(a, c, (j - 1) as nat) * (a * a)) / (c * c) } }
pub open spec fn odd_hi(a: int, c: int, j: nat) -> int
    decreases j,
{ if j == 0 { (a * P) / c + 1 } else { (odd_hi(a, c, (j - 1) as nat) * (a * a)) / (c * c) + 1 } }
pub open spec fn ser_lo(a: int, c: int, k: nat) -> int
    decreases k,
{ if k == 0 { 0 } else { ser_lo(a, c, (k - 1) as nat) + odd_lo(a, c, (k - 1) as nat) / (2 * k - 1) } }
pub open spec fn ser_hi(a: int, c: int, k: nat) -> int
    decreases k,
{ if k == 0 { 0 } else { ser_hi(a, c, (k - 1) as nat) + odd_hi(a, c, (k - 1) as nat) / (2 * k - 1) + 1 } }
pub spec const TERMS: nat = 20;
/// 10^24 log((c + a) / (c - a)) lies between
pub open spec fn log_lo(a: int, c: int) -> int { 2 * ser_lo(a, c, TERMS) }
pub open spec fn log_hi(a: int, c: int) -> int { 2 * ser_hi(a, c, TERMS) + 4 * odd_hi(a, c, TERMS) }
/// 10^12 log((c + a) / (c - a)) is at most e away from v
pub open spec fn log_12(v: int, a: int, c: int, e: int) -> bool {
    &&& (v - e) * 1_000_000_000_000 <= log_lo(a, c)
    &&& log_hi(a, c) <= (v + e) * 1_000_000_000_000
}

pub proof fn lemma_cast(a: int, b: int)
    ensures (a * b) as real == (a as real) * (b as real),
{ assert((a * b) as real == (a as real) * (b as real)) by (nonlinear_arith); }
pub open spec fn floor_of(q: int, g: real) -> bool { q as real <= g && g < q as real + 1real }
pub proof fn lemma_floor(n: int, d: int)
    requires d > 0,
    ensures floor_of(n / d, (n as real) / (d as real)),
{
    lemma_fundamental_div_mod(n, d); lemma_mod_bound(n, d);
    let q = n / d;
    let (nr, dr, qr) = (n as real, d as real, q as real);
    assert(d * q <= n < d * q + d);
    lemma_cast(d, q);
    assert(dr * qr <= nr && nr < dr * qr + dr);
    assert(dr > 0real);
    assert(qr <= nr / dr) by (nonlinear_arith) requires dr * qr <= nr, dr > 0real;
    assert(nr / dr < qr + 1real) by (nonlinear_arith) requires nr < dr * qr + dr, dr > 0real;
}
pub proof fn lemma_odd(a: int, c: int, j: nat)
    requires 0 <= a, 0 < c,
    ensures
        0 <= odd_lo(a, c, j), 0 <= odd_hi(a, c, j),
        odd_lo(a, c, j) as real <= (P as real) * odd((a as real) / (c as real), j) <= odd_hi(a, c, j) as real,
        0real <= odd((a as real) / (c as real), j),
    decreases j,
{
    let z = (a as real) / (c as real);
    let pr = P as real;
    let (ar, cr) = (a as real, c as real);
    assert(z >= 0real) by (nonlinear_arith) requires z == ar / cr, ar >= 0real, cr > 0real;
    if j == 0 {
        lemma_floor(a * P, c);
        lemma_cast(a, P);
        assert((ar * pr) / cr == pr * z) by (nonlinear_arith) requires z == ar / cr, cr > 0real;
        assert(a * P >= 0) by (nonlinear_arith) requires a >= 0;
        lemma_div_pos_is_pos(a * P, c);
    } else {
        let i = (j - 1) as nat;
        lemma_odd(a, c, i);
        let (lo, hi, o) = (odd_lo(a, c, i), odd_hi(a, c, i), odd(z, i));
        let (aa, cc) = (a * a, c * c);
        assert(aa >= 0) by (nonlinear_arith) requires aa == a * a;
        assert(cc > 0) by (nonlinear_arith) requires cc == c * c, c > 0;
        let (ax, cx) = (aa as real, cc as real);
        lemma_cast(a, a); lemma_cast(c, c);
        let zz = z * z;
        assert(zz == ax / cx) by (nonlinear_arith) requires zz == z * z, z == ar / cr, ax == ar * ar, cx == cr * cr, cr > 0real;
        assert(zz >= 0real) by (nonlinear_arith) requires zz == z * z;
        lemma_floor(lo * aa, cc); lemma_floor(hi * aa, cc);
        let (lr, hr) = (lo as real, hi as real);
        lemma_cast(lo, aa); lemma_cast(hi, aa);
        assert((lr * ax) / cx == lr * zz && (hr * ax) / cx == hr * zz) by (nonlinear_arith) requires zz == ax / cx, cx > 0real;
        let po = pr * o;
        assert(lr * zz <= po * zz && po * zz <= hr * zz) by (nonlinear_arith) requires lr <= po, po <= hr, zz >= 0real;
        assert(po * zz == pr * (o * zz)) by (nonlinear_arith) requires po == pr * o;
        assert(o * zz >= 0real) by (nonlinear_arith) requires o >= 0real, zz >= 0real;
        assert(lo * aa >= 0 && hi * aa >= 0) by (nonlinear_arith) requires lo >= 0, hi >= 0, aa >= 0;
        lemma_div_pos_is_pos(lo * aa, cc); lemma_div_pos_is_pos(hi * aa, cc);
    }
}
pub proof fn lemma_ser(a: int, c: int, k: nat)
    requires 0 <= a, 0 < c,
    ensures ser_lo(a, c, k) as real <= (P as real) * ser((a as real) / (c as real), k) <= ser_hi(a, c, k) as real,
    decreases k,
{
    let z = (a as real) / (c as real);
    let pr = P as real;
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_ser(a, c, j); lemma_odd(a, c, j);
        let n = 2 * k - 1;
        let nr = n as real;
        let (lo, hi, o) = (odd_lo(a, c, j), odd_hi(a, c, j), odd(z, j));
        lemma_floor(lo, n); lemma_floor(hi, n);
        let t = o / nr;
        let (lr, hr) = (lo as real, hi as real);
        let po = pr * o;
        assert(po / nr == pr * t) by (nonlinear_arith) requires po == pr * o, t == o / nr, nr > 0real;
        assert(lr / nr <= po / nr && po / nr <= hr / nr) by (nonlinear_arith) requires lr <= po, po <= hr, nr > 0real;
        let s = ser(z, j);
        assert(pr * (s + t) == pr * s + pr * t) by (nonlinear_arith);
    }
}
/// r times 10^-12 and the logarithm of (c + a) / (c - a)
pub proof fn lemma_log(v: int, a: int, c: int, e: int, l: spec_fn(real) -> real)
    requires is_log(l), 0 <= a, 2 * a <= c, 0 < c, log_12(v, a, c, e),
    ensures
        (v - e) as real <= (U12 as real) * l(((c + a) as real) / ((c - a) as real)) <= (v + e) as real,
{
    let z = (a as real) / (c as real);
    let (ar, cr) = (a as real, c as real);
    assert(0real <= z <= 1real / 2real) by (nonlinear_arith) requires z == ar / cr, ar >= 0real, 2real * ar <= cr, cr > 0real;
    lemma_ser(a, c, TERMS); lemma_odd(a, c, TERMS);
    let x = ((c + a) as real) / ((c - a) as real);
    assert(x == (1real + z) / (1real - z)) by {
        assert((c + a) as real == cr + ar && (c - a) as real == cr - ar);
        assert((cr + ar) / (cr - ar) == (1real + z) / (1real - z)) by (nonlinear_arith) requires z == ar / cr, ar >= 0real, 2real * ar <= cr, cr > 0real;
    }
    let s = ser(z, TERMS); let o = odd(z, TERMS);
    let lx = l(x);
    assert(2real * s <= lx && lx <= 2real * s + 4real * o);
    let pr = P as real; let ur = U12 as real;
    assert(pr == ur * 1_000_000_000_000real);
    assert((log_lo(a, c)) as real <= pr * (2real * s)) by { assert(pr * (2real * s) == 2real * (pr * s)) by (nonlinear_arith); }
    assert(pr * (2real * s + 4real * o) <= log_hi(a, c) as real) by { assert(pr * (2real * s + 4real * o) == 2real * (pr * s) + 4real * (pr * o)) by (nonlinear_arith); }
    assert(pr * (2real * s) <= pr * lx && pr * lx <= pr * (2real * s + 4real * o)) by (nonlinear_arith) requires 2real * s <= lx, lx <= 2real * s + 4real * o, pr > 0real;
    let ul = ur * lx;
    assert(pr * lx == ul * 1_000_000_000_000real) by (nonlinear_arith) requires pr == ur * 1_000_000_000_000real, ul == ur * lx;
    assert(((v - e) * 1_000_000_000_000) as real <= ul * 1_000_000_000_000real && ul * 1_000_000_000_000real <= ((v + e) * 1_000_000_000_000) as real);
}
pub spec const U12: int = 1_000_000_000_000;
/// 10^12 times the logarithm of s units of 10^-12
pub open spec fn elog(l: spec_fn(real) -> real, s: int) -> real { (U12 as real) * l((s as real) / (U12 as real)) }
pub open spec fn e_near(l: spec_fn(real) -> real, s: int, v: int, lo: int, hi: int) -> bool { (v - lo) as real <= elog(l, s) && elog(l, s) <= (v + hi) as real }
/// the exact quotient
#[verifier::opaque]
pub open spec fn quo(n: real, d: int) -> real { n / (d as real) }
pub proof fn lemma_quotient(q: int, n: int, d: int)
    requires d > 0, q == n / d,
    ensures quo(n as real, d) * (d as real) == n as real, q as real <= quo(n as real, d), quo(n as real, d) < q as real + 1real,
{
    reveal(quo);
    lemma_floor(n, d);
    let (g, nr, dr) = (quo(n as real, d), n as real, d as real);
    assert(g * dr == nr) by (nonlinear_arith) requires g == nr / dr, dr > 0real;
}
pub proof fn lemma_product_quotient(q: int, n: int, d: int, a: int, b: int)
    requires d > 0, n == a * b, q == n / d,
    ensures ({ let g = quo((a as real) * (b as real), d); g * (d as real) == (a as real) * (b as real) && q as real <= g && g < q as real + 1real }),
{
    lemma_cast(a, b);
    lemma_quotient(q, n, d);
    assert(n as real == (a as real) * (b as real));
}
/// one step: the leading digits of s and what is left over
pub proof fn lemma_step(s: int, t: int, q: int, v: int, l: spec_fn(real) -> real)
    requires is_log(l), U12 <= t <= s, q == (s * U12) / t, e_near(l, t, v, 2, 2),
    ensures elog(l, q) + v as real - 2real <= elog(l, s) <= elog(l, q) + v as real + 3real,
{
    let (sr, tr, ur, qr) = (s as real, t as real, U12 as real, q as real);
    let (x, y, z, w) = (sr / ur, tr / ur, sr / tr, qr / ur);
    assert(x == y * z) by (nonlinear_arith) requires x == sr / ur, y == tr / ur, z == sr / tr, ur > 0real, tr > 0real;
    assert(y > 0real) by (nonlinear_arith) requires y == tr / ur, ur > 0real, tr > 0real;
    assert(z >= 1real) by (nonlinear_arith) requires z == sr / tr, tr > 0real, sr >= tr;
    assert(product(l, y, z));
    assert(l(y * z) == l(y) + l(z));
    lemma_product_quotient(q, s * U12, t, s, U12);
    let sur = sr * ur;
    let g = quo(sur, t);
    assert(qr <= g && g < qr + 1real);
    assert(g == z * ur) by (nonlinear_arith) requires g * tr == sur, sur == sr * ur, z == sr / tr, tr > 0real;
    assert(g >= ur) by (nonlinear_arith) requires g == z * ur, z >= 1real, ur > 0real;
    assert(q >= U12);
    assert(w >= 1real) by (nonlinear_arith) requires w == qr / ur, ur > 0real, qr >= ur;
    let d = z - w;
    assert(w * ur == qr) by (nonlinear_arith) requires w == qr / ur, ur > 0real;
    assert(0real <= d && d * ur <= 1real) by (nonlinear_arith) requires d == z - w, w * ur == qr, g == z * ur, qr <= g, g < qr + 1real, ur > 0real;
    lemma_close(w, d, l);
    assert(w + d == z);
    assert(ur * l(x) == ur * l(y) + ur * l(z)) by (nonlinear_arith) requires l(x) == l(y) + l(z);
}
pub proof fn lemma_close(w: real, d: real, l: spec_fn(real) -> real)
    requires is_log(l), w >= 1real, 0real <= d, d * (U12 as real) <= 1real,
    ensures (U12 as real) * l(w) <= (U12 as real) * l(w + d) <= (U12 as real) * l(w) + 1real,
{
    let ur = U12 as real;
    let (a, b) = (l(w), l(w + d));
    let f = d / w;
    assert(slope(l, w, d));
    assert(a <= b && b <= a + f);
    assert(f <= d) by (nonlinear_arith) requires f == d / w, w >= 1real, d >= 0real;
    assert(ur * a <= ur * b && ur * b <= ur * a + 1real) by (nonlinear_arith) requires a <= b, b <= a + d, d * ur <= 1real, ur > 0real;
}
pub proof fn lemma_one(l: spec_fn(real) -> real)
    requires is_log(l),
    ensures l(1real) == 0real,
{
    assert(product(l, 1real, 1real));
    assert(l(1real * 1real) == l(1real) + l(1real));
}
/// what is left after ten steps
pub proof fn lemma_rest(q: int, l: spec_fn(real) -> real)
    requires is_log(l), U12 <= q <= U12 + 100,
    ensures 0real <= elog(l, q) <= 100real,
{
    let (ur, qr) = (U12 as real, q as real);
    let w = qr / ur;
    let d = w - 1real;
    assert(0real <= d && d * ur <= 100real) by (nonlinear_arith) requires w == qr / ur, d == w - 1real, ur <= qr, qr <= ur + 100real, ur > 0real;
    lemma_one(l);
    let b = l(1real + d);
    assert(1real + d == w);
    let f = d / 1real;
    assert(f == d);
    assert(slope(l, 1real, d));
    assert(0real <= b && b <= d);
    assert(0real <= ur * b && ur * b <= 100real) by (nonlinear_arith) requires 0real <= b, b <= d, d * ur <= 100real, ur > 0real;
}
/// 10^12 log 2^n
pub proof fn lemma_powers(n: nat, l: spec_fn(real) -> real)
    requires is_log(l),
    ensures
        pow(2, n) >= 1,
        (n * 693147180558) as real <= (U12 as real) * l(pow(2, n) as real) <= (n * 693147180560) as real,
    decreases n,
{
    lemma_pow_positive(2, n);
    if n == 0 { lemma_pow0(2); lemma_one(l); }
    else {
        let m = (n - 1) as nat;
        lemma_powers(m, l);
        assert(pow(2, n) == 2 * pow(2, m)) by { reveal(pow); }
        let p = pow(2, m) as real;
        assert(pow(2, n) as real == 2real * p);
        lemma_two();
        lemma_log(693147180559, 1, 3, 1, l);
        assert(4real / 2real == 2real) by (nonlinear_arith);
        assert((3 + 1) as real == 4real && (3 - 1) as real == 2real);
        assert(((3 + 1) as real) / ((3 - 1) as real) == 2real);
        assert(product(l, 2real, p));
    assert(l(2real * p) == l(2real) + l(p));
        let (a, b, ur) = (l(2real), l(p), U12 as real);
        assert(ur * (a + b) == ur * a + ur * b) by (nonlinear_arith);
        assert(n * 693147180558 == m * 693147180558 + 693147180558 && n * 693147180560 == m * 693147180560 + 693147180560);
    }
}
/// the value was divided by p
pub proof fn lemma_scaled_down_by(x: int, s: int, p: int, l: spec_fn(real) -> real)
    requires is_log(l), s >= U12, s == x / p, x >= 0, p >= 1,
    ensures (U12 as real) * l(p as real) + elog(l, s) <= elog(l, x) <= (U12 as real) * l(p as real) + elog(l, s) + 1real,
{
    let (xr, sr, ur, pr) = (x as real, s as real, U12 as real, p as real);
    let g = quo(xr, p);
    lemma_quotient(s, x, p);
    assert(sr <= g && g < sr + 1real);
    let (v, z, w) = (xr / ur, g / ur, sr / ur);
    assert(v == pr * z) by (nonlinear_arith) requires v == xr / ur, z == g / ur, g * pr == xr, ur > 0real, pr > 0real;
    assert(w >= 1real) by (nonlinear_arith) requires w == sr / ur, ur > 0real, sr >= ur;
    let d = z - w;
    assert(0real <= d && d * ur <= 1real) by (nonlinear_arith) requires d == z - w, z == g / ur, w == sr / ur, sr <= g, g < sr + 1real, ur > 0real;
    assert(product(l, pr, z));
    assert(l(pr * z) == l(pr) + l(z));
    lemma_close(w, d, l);
    assert(w + d == z);
    let (a, b) = (l(pr), l(z));
    assert(ur * (a + b) == ur * a + ur * b) by (nonlinear_arith);
}
pub proof fn lemma_scaled_down(x: int, s: int, n: nat, l: spec_fn(real) -> real)
    requires is_log(l), s >= U12, s == x / pow(2, n), x >= 0,
    ensures (U12 as real) * l(pow(2, n) as real) + elog(l, s) <= elog(l, x) <= (U12 as real) * l(pow(2, n) as real) + elog(l, s) + 1real,
{
    lemma_pow_positive(2, n);
    lemma_scaled_down_by(x, s, pow(2, n), l);
}
/// the value was multiplied by 2^n
pub proof fn lemma_scaled_up(x: int, s: int, n: nat, l: spec_fn(real) -> real)
    requires is_log(l), x > 0, s == x * pow(2, n),
    ensures elog(l, s) == (U12 as real) * l(pow(2, n) as real) + elog(l, x),
{
    lemma_pow_positive(2, n);
    let p = pow(2, n);
    let (xr, sr, ur, pr) = (x as real, s as real, U12 as real, p as real);
    lemma_cast(x, p);
    let (v, w) = (xr / ur, sr / ur);
    assert(w == pr * v && v > 0real) by (nonlinear_arith) requires w == sr / ur, v == xr / ur, sr == xr * pr, ur > 0real, xr > 0real;
    assert(product(l, pr, v));
    assert(l(pr * v) == l(pr) + l(v));
    let (a, b) = (l(pr), l(v));
    assert(ur * (a + b) == ur * a + ur * b) by (nonlinear_arith);
}
