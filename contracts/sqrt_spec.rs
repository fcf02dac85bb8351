// ---- square root -----------------------------------------------------------------
/// r is the exact root of v rounded down, or one above
pub open spec fn root_within(r: int, v: int) -> bool {
    &&& (r + 1) * (r + 1) > v
    &&& r >= 1 ==> (r - 1) * (r - 1) <= v
    &&& r >= 0
}
pub open spec fn newton(y: int, v: int) -> int { (y + v / y) / 2 }
pub open spec fn near(y: int, z: int) -> bool { -1 <= y - z <= 1 }
pub open spec fn root_inv(y: int, y0: int, v: int) -> bool {
    &&& v >= 1 && y >= 1 && y <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff
    &&& y0 == 0 || (y0 >= 1 && y == newton(y0, v) && (y + 1) * (y + 1) > v)
    &&& y == 1 ==> v < 4
    &&& v <= u128::MAX
}
pub open spec fn root_measure(y: int, y0: int) -> int {
    if y0 == 0 { 0x2_0000_0000_0000_0000_0000_0000_0000_0000 as int } else if near(y, y0) { 0 } else { y }
}
pub proof fn lemma_newton_step(y: int, y0: int, v: int)
    requires root_inv(y, y0, v),
    ensures
        v / y >= 0,
        y0 != 0 ==> near(y, y0) ==> root_within(y, v),
        y0 == 0 && y == 1 ==> root_within(y, v),
        y + v / y <= u128::MAX,
        !near(y, y0) ==> root_inv(newton(y, v), y, v),
        !near(y, y0) ==> root_measure(newton(y, v), y) < root_measure(y, y0),
        root_measure(y, y0) >= 0,
{
    let q = v / y; let r = v % y;
    lemma_fundamental_div_mod(v, y);
    lemma_mod_bound(v, y);
    lemma_div_pos_is_pos(v, y);
    if y >= 2 {
        assert(q <= 0x8000_0000_0000_0000_0000_0000_0000_0000) by (nonlinear_arith)
            requires y >= 2, v == y * q + r, r >= 0, q >= 0, v <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff;
    } else {
        assert(q <= 3) by (nonlinear_arith) requires y == 1, v == y * q + r, r >= 0, v < 4;
    }
    let n = newton(y, v);
    assert(n >= 1) by {
        if y == 1 { assert(q >= 1) by (nonlinear_arith) requires y == 1, v == y * q + r, 0 <= r < y, v >= 1; }
    };
    // the new value is at least the root
    assert((n + 1) * (n + 1) > v) by {
        assert(2 * n + 1 >= y + q);
        let t = 2 * n + 2 - y;
        assert(t >= q + 1);
        assert(y * (q + 1) > v) by (nonlinear_arith) requires v == y * q + r, r < y;
        assert(y * t > v) by (nonlinear_arith) requires t >= q + 1, y >= 1, y * (q + 1) > v;
        assert((n + 1) * (n + 1) >= y * t) by (nonlinear_arith) requires t == 2 * (n + 1) - y;
    };
    if n == 1 {
        assert((n + 1) * (n + 1) == 4) by (nonlinear_arith) requires n == 1;
    }
    if y0 != 0 {
        let q0 = v / y0; let r0 = v % y0;
        lemma_fundamental_div_mod(v, y0);
        lemma_mod_bound(v, y0);
        if near(y, y0) {
            if y >= y0 {
                assert(q0 >= y0);
                assert(y0 * y0 <= v) by (nonlinear_arith) requires v == y0 * q0 + r0, r0 >= 0, q0 >= y0, y0 >= 1;
                assert((y - 1) * (y - 1) <= y0 * y0) by (nonlinear_arith) requires y >= 1, y <= y0 + 1, y >= y0, y0 >= 1;
            } else {
                assert(y0 == y + 1);
                assert(q0 >= y - 1);
                assert((y + 1) * (y - 1) <= v) by (nonlinear_arith) requires v == (y + 1) * q0 + r0, r0 >= 0, q0 >= y - 1, y >= 1;
                assert((y - 1) * (y - 1) <= (y + 1) * (y - 1)) by (nonlinear_arith) requires y >= 1;
            }
        } else {
            // q <= y + 2, so the new value is at most y + 1
            assert(q <= y + 2) by (nonlinear_arith) requires v == y * q + r, r >= 0, (y + 1) * (y + 1) > v, y >= 1;
        }
    }
}
/// the first guess V >> (bits/2)
pub proof fn lemma_first_guess(v: int, lz: u32)
    ensures
        v >= 1 && lz <= 127 && v < pow(2, (128 - lz) as nat) && v >= pow(2, (127 - lz) as nat) && v <= u128::MAX ==> {
        let mid = (128 - lz) / 2;
        let a = pow(2, mid as nat);
        &&& mid <= 64
        &&& 1 <= a <= u128::MAX
        &&& root_inv(v / a, 0, v)
    },
{
  if v >= 1 && lz <= 127 && v < pow(2, (128 - lz) as nat) && v >= pow(2, (127 - lz) as nat) && v <= u128::MAX {
    let l = 128 - lz;
    let mid = l / 2;
    let a = pow(2, mid as nat);
    lemma_pow_positive(2, mid as nat);
    let h = l - mid;
    lemma_pow_adds(2, mid as nat, h as nat);
    let b = pow(2, h as nat);
    lemma_pow_increases(2, mid as nat, 64);
    lemma_pow_increases(2, h as nat, 64);
    lemma_pow_positive(2, h as nat);
    assert(pow(2, 64) == 0x1_0000_0000_0000_0000) by { reveal(pow); assert(pow(2, 64) == 0x1_0000_0000_0000_0000) by (compute); };
    let y = v / a;
    lemma_fundamental_div_mod(v, a); lemma_mod_bound(v, a);
    assert(y < b) by (nonlinear_arith) requires v == a * y + v % a, v % a >= 0, v < a * b, a >= 1;
    // v >= 2^(l-1) >= 2^mid
    assert(mid <= l - 1);
    lemma_pow_increases(2, mid as nat, (l - 1) as nat);
    assert(y >= 1) by (nonlinear_arith) requires v == a * y + v % a, v % a < a, v >= a, a >= 1;
    if y == 1 {
        assert(v < 2 * a) by (nonlinear_arith) requires y == 1, v == a * y + v % a, v % a < a;
        if l >= 3 {
            lemma_pow_increases(2, (mid + 1) as nat, (l - 1) as nat);
            assert(pow(2, (mid + 1) as nat) == 2 * a) by { reveal_with_fuel(pow, 2); };
            assert(false);
        }
        lemma_pow_increases(2, l as nat, 2);
        assert(pow(2, 2) == 4) by { reveal_with_fuel(pow, 3); };
    }
}
}
