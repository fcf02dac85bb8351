@opt units decimal
@opt assume dec
@opt mathto Pm
@use decimal.vc
@src mth programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@src pool programs/hmmcl-sandbox/src/cl_pool/mod.rs
@src wdr programs/hmmcl-sandbox/src/instructions/withdraw.rs
@src dep programs/hmmcl-sandbox/src/instructions/deposit.rs
@src ipl programs/hmmcl-sandbox/src/instructions/initialize_pool.rs
@include math_spec.rs
@const mth::trait PoolMath::FLOOR_LIQ
@const mth::trait PoolMath::ADJ_WITHDRAWAL
@impl impl Ln<Decimal> for Decimal
open spec fn ln_req(self) -> bool { !nopanic() }
@fn dec::Ln<Decimal> for Decimal::ln | traitimpl novis assume
@endimpl
/// stands for any implementor of the trait PoolMath (none overrides a method)
pub struct Pm;
@impl impl Pm
@fn mth::trait PoolMath::zero
@requires
  !nopanic(),
@ensures
  r == (Decimal { value: 0, scale: 12, negative: r.negative }),
@entry
  proof { p10_12(); p10_zero(); }
@fn mth::trait PoolMath::one
@requires
  !nopanic(),
@ensures
  r == (Decimal { value: 1_000_000_000_000, scale: 12, negative: false }),
@entry
  proof { p10_12(); p10_zero(); }
@fn mth::trait PoolMath::two
@requires
  !nopanic(),
@ensures
  r == (Decimal { value: 2_000_000_000_000, scale: 12, negative: false }),
@entry
  proof { p10_12(); p10_zero(); }
@fn mth::trait PoolMath::tick_base
@requires
  !nopanic(),
@ensures
  [M01] r == base_sq(),
@entry
  proof { p10_12(); assert(pow(10, 8) == 100_000_000) by { reveal_with_fuel(pow, 9); }; }
@fn mth::trait PoolMath::tick_base_root
@requires
  !nopanic(),
@ensures
  [M01] r == rp_base(),
  [M01] base_ok(r),
@entry
  proof { p10_12(); assert forall|q: Decimal| root_within(q.value as int, 1_000_100_000_000 * U) implies 1_000_049_998_750 <= #[trigger] q.value <= 1_000_049_998_751 by { lemma_base(q); } }
@fn mth::trait PoolMath::tick_to_rp
@args tick
@requires
  !nopanic(),
@ensures
  [M01] rp_ok(tick, r),
  [M01] tick == 0 ==> r.value == U,
  [M01] tick < 2_097_152,
  [M01] price(r) && r.value >= U,
@entry
  proof { p10_12(); assert forall|q: Decimal| #[trigger] approx(q.value as int, rp_base().value as int, U, tick as nat) && rp_ok(tick, q) implies q.value >= U && tick < 2_097_152 && price(q) && (tick == 0 ==> q.value == U) by { lemma_rp_one(tick, q); } }
@fn mth::trait PoolMath::rp_to_tick_loop
@args rp, left_to_right, start
@requires
  !nopanic(),
@ensures
  [M03] !left_to_right ==> found_down(start, r, rp),
  [M03] left_to_right ==> found_up(start, r, rp),
  [M03] rp.scale == 12,
@loop 0
  invariant
    x >= start,
    forall|t: u128| start < t <= x ==> (if left_to_right { sv(#[trigger] rp_of(t)) < sv(rp) } else { sv(rp_of(t)) <= sv(rp) }) && rp_ok(t, rp_of(t)),
  decreases u128::MAX - x
@fn mth::trait PoolMath::tk_to_possible_tk
@args tick, spacing, left_to_right
@requires
  !nopanic(),
@ensures
  [M02] spacing != 0,
  [M02] !left_to_right ==> r == (tick as int / spacing as int) * spacing,
  [M02] left_to_right ==> r == cdiv(tick as int, spacing as int) * spacing,
  [M02] !left_to_right ==> r <= tick && tick < r + spacing,
  [M02] left_to_right ==> r >= tick && r < tick + spacing,
  [M02] r as int % spacing as int == 0,
@entry
  proof { p10_zero(); if spacing != 0 { lemma_spacing(tick as int, spacing as int); }
    assert(tick * 1 == tick); assert(spacing * 1 == spacing);
    assert(forall|x: int| #[trigger] (x / 1) == x); }
@fn mth::trait PoolMath::rp_to_possible_tk
@args rp, spacing, left_to_right, start
@requires
  !nopanic(),
@ensures
  [M02] spacing != 0 && r as int % spacing as int == 0,
  [M02,M03] left_to_right ==> exists|t: u128| #[trigger] found_up(start, t, rp) && r == cdiv(t as int, spacing as int) * spacing,
  [M02,M03] !left_to_right ==> exists|t: u128| #[trigger] found_down(start, t, rp) && r == (t as int / spacing as int) * spacing,
@at tick_theo
  proof { assert(left_to_right ==> found_up(start, tick_theo, rp)); assert(!left_to_right ==> found_down(start, tick_theo, rp)); }
@fn mth::trait PoolMath::liq_x_only
@args x, rpa, rpb
@requires
  !nopanic(),
@ensures
  [M04] nn(x) && price(rpa) && c12(rpb) ==> sv(rpb) > sv(rpa) && nn(r) && liq_x_at_most(sv(r), sv(x), sv(rpa), sv(rpb)),
  x.scale == 12 ==> r.scale == 12,
@entry
  proof { p10_12(); if nn(x) && price(rpa) && c12(rpb) && sv(rpb) > sv(rpa) { lemma_liq_x(sv(x), sv(rpa), sv(rpb)); } }
@fn mth::trait PoolMath::liq_y_only
@args y, rpa, rpb
@requires
  !nopanic(),
@ensures
  [M04] nn(y) && c12(rpa) && c12(rpb) ==> sv(rpb) > sv(rpa) && nn(r) && liq_y_at_most(sv(r), sv(y), sv(rpa), sv(rpb)),
  y.scale == 12 ==> r.scale == 12,
@entry
  proof { p10_12(); if nn(y) && sv(rpb) > sv(rpa) { lemma_liq_y(sv(y), sv(rpa), sv(rpb)); } }
@fn mth::trait PoolMath::liq_from_x_y_rp_rng | det=det_liq
@args x, y, rp, rpa, rpb
@requires
  !nopanic(),
@ensures
  [M04] nn(x) && nn(y) && price(rp) && price(rpa) && price(rpb) ==> sv(rpa) < sv(rpb) && nn(r) && liq_ok(sv(r), sv(x), sv(y), sv(rp), sv(rpa), sv(rpb)),
@entry
  proof { assert forall|l: int, m: int, a: int, b: int| 0 <= l <= m && a < b && (#[trigger] liq_x_at_most(m, sv(x), a, b)) implies (#[trigger] liq_x_at_most(l, sv(x), a, b)) by { lemma_liq_mono(l, m, sv(x), sv(y), a, b); }
    assert forall|l: int, m: int, a: int, b: int| 0 <= l <= m && a < b && (#[trigger] liq_y_at_most(m, sv(y), a, b)) implies (#[trigger] liq_y_at_most(l, sv(y), a, b)) by { lemma_liq_mono(l, m, sv(x), sv(y), a, b); } }
@fn mth::trait PoolMath::liq_from_x_y_tick_rng
@args x, y, t, ta, tb
@requires
  !nopanic(),
@ensures
  [M04] nn(x) && nn(y) ==> sv(rp_of(ta)) < sv(rp_of(tb)) && nn(r) && liq_ok(sv(r), sv(x), sv(y), sv(rp_of(t)), sv(rp_of(ta)), sv(rp_of(tb))),
@fn mth::trait PoolMath::x_from_l_rp_rng | det=det_x
@args l, rp, rpa, rpb
@requires
  !nopanic(),
@ensures
  [M04] nn(l) && price(rp) && price(rpa) && price(rpb) && sv(rpa) <= sv(rpb) ==> nn(r) && x_amt_ok(sv(r), sv(l), sv(rp), sv(rpa), sv(rpb)),
  [C03] nn(l) && price(rp) && price(rpa) && price(rpb) && sv(rpa) <= sv(rpb) ==> nn(r) && x_amt_low(sv(r), sv(l), sv(rp), sv(rpa), sv(rpb)),
@entry
  proof { p10_12(); if nn(l) && price(rp) && price(rpa) && price(rpb) && sv(rpa) <= sv(rpb) { lemma_x_from_l(sv(l), clamp(sv(rp), sv(rpa), sv(rpb)), sv(rpb)); } }
@fn mth::trait PoolMath::x_from_l_tick_rng
@args l, t, ta, tb
@requires
  !nopanic(),
@ensures
  [M04] nn(l) && ta <= tb ==> nn(r) && x_amt_ok(sv(r), sv(l), sv(rp_of(t)), sv(rp_of(ta)), sv(rp_of(tb))),
@entry
  proof { assert(ta < tb && rp_ok(ta, rp_of(ta)) && rp_ok(tb, rp_of(tb)) ==> sv(rp_of(ta)) < sv(rp_of(tb))) by { if ta < tb && rp_ok(ta, rp_of(ta)) && rp_ok(tb, rp_of(tb)) { lemma_rp_strict(ta, rp_of(ta), tb, rp_of(tb)); } } }
@fn mth::trait PoolMath::y_from_l_rp_rng | det=det_y
@args l, rp, rpa, rpb
@requires
  !nopanic(),
@ensures
  [M04] nn(l) && c12(rp) && c12(rpa) && c12(rpb) && sv(rpa) <= sv(rpb) ==> nn(r) && y_amt_ok(sv(r), sv(l), sv(rp), sv(rpa), sv(rpb)),
  [C03] nn(l) && c12(rp) && c12(rpa) && c12(rpb) && sv(rpa) <= sv(rpb) ==> nn(r) && y_amt_low(sv(r), sv(l), sv(rp), sv(rpa), sv(rpb)),
@entry
  proof { p10_12(); if nn(l) && sv(rpa) <= sv(rpb) { lemma_y_from_l(sv(l), sv(rpa), clamp(sv(rp), sv(rpa), sv(rpb))); } }
@fn mth::trait PoolMath::y_from_l_tick_rng
@args l, t, ta, tb
@requires
  !nopanic(),
@ensures
  [M04] nn(l) && ta <= tb ==> nn(r) && y_amt_ok(sv(r), sv(l), sv(rp_of(t)), sv(rp_of(ta)), sv(rp_of(tb))),
@entry
  proof { assert(ta < tb && rp_ok(ta, rp_of(ta)) && rp_ok(tb, rp_of(tb)) ==> sv(rp_of(ta)) < sv(rp_of(tb))) by { if ta < tb && rp_ok(ta, rp_of(ta)) && rp_ok(tb, rp_of(tb)) { lemma_rp_strict(ta, rp_of(ta), tb, rp_of(tb)); } } }
@fn mth::trait PoolMath::dx_from_l_drp | det=det_dx
@args l, rp_old, rp_new
@requires
  !nopanic(),
@ensures
  [M05] nn(l) && price(rp_old) && price(rp_new) ==> r.scale == 12,
  [M05] nn(l) && price(rp_old) && price(rp_new) && sv(rp_new) <= sv(rp_old) ==> sv(r) >= 0 && x_worth(sv(r), sv(l), sv(rp_new), sv(rp_old)),
  [M05] nn(l) && price(rp_old) && price(rp_new) && sv(rp_new) >= sv(rp_old) ==> sv(r) <= 0 && x_worth(-sv(r), sv(l), sv(rp_old), sv(rp_new)),
@entry
  proof { p10_12(); assert(rp_old.value * rp_new.value == rp_new.value * rp_old.value) by (nonlinear_arith);
    if nn(l) && price(rp_old) && price(rp_new) {
      if sv(rp_new) <= sv(rp_old) { lemma_x_from_l(sv(l), sv(rp_new), sv(rp_old)); } 
      if sv(rp_new) >= sv(rp_old) { lemma_x_from_l(sv(l), sv(rp_old), sv(rp_new)); } } }
@fn mth::trait PoolMath::dy_from_l_drp | det=det_dy
@args l, rp_old, rp_new
@requires
  !nopanic(),
@ensures
  [M05] nn(l) && c12(rp_old) && c12(rp_new) ==> r.scale == 12,
  [M05] nn(l) && c12(rp_old) && c12(rp_new) && sv(rp_new) >= sv(rp_old) ==> sv(r) == (sv(l) * (sv(rp_new) - sv(rp_old))) / U,
  [M05] nn(l) && c12(rp_old) && c12(rp_new) && sv(rp_new) <= sv(rp_old) ==> sv(r) == -((sv(l) * (sv(rp_old) - sv(rp_new))) / U),
@entry
  proof { p10_12(); let (v, d) = (sv(l), sv(rp_new) - sv(rp_old));
    assert(v * d == d * v) by (nonlinear_arith); assert(v * (-d) == (-d) * v) by (nonlinear_arith);
    assert(v == 0 || d == 0 ==> v * d == 0 && v * (-d) == 0) by (nonlinear_arith); }
@fn mth::trait PoolMath::rp_new_from_l_dx | det=det_rp_dx
@args l, rp_old, dx
@requires
  !nopanic(),
@ensures
  [M05] !dneg(r),
  [M05] nn(l) && nn(rp_old) && nn(dx) ==> r.scale == 12 && sv(r) <= sv(rp_old),
@entry
  proof { p10_12(); if nn(l) && nn(rp_old) && nn(dx) { lemma_rp_dx(sv(l), sv(rp_old), sv(dx)); } }
@fn mth::trait PoolMath::rp_new_from_l_dy | det=det_rp_dy
@args l, rp_old, dy
@requires
  !nopanic(),
@ensures
  [M05] !dneg(r),
  [M05] nn(l) && c12(rp_old) && nn(dy) ==> r.scale == 12 && sv(r) >= sv(rp_old),
@entry
  proof { p10_12(); if nn(l) && nn(dy) && l.value != 0 { lemma_floor(sv(dy) * U, sv(l)); } }
@fn mth::trait PoolMath::dx_from_l_drp_hmm
@args l, rp_old, rp_new, c, rp_oracle
@requires
  !nopanic(),
@ensures
  l.scale == 12 ==> r.scale == 12,
  sv(rp_old) == sv(rp_new) && rp_old.scale == rp_new.scale ==> sv(r) == 0 && r.scale == 12,
@fn mth::trait PoolMath::dy_from_l_drp_hmm
@args l, rp_old, rp_new, c, rp_oracle
@requires
  !nopanic(),
@ensures
  l.scale == 12 ==> r.scale == 12,
  sv(rp_old) == sv(rp_new) && rp_old.scale == rp_new.scale ==> sv(r) == 0 && r.scale == 12,
@endimpl
/// adding x: the new root price l*p/(dx*p + l) is at most p
pub proof fn lemma_rp_dx(l: int, p: int, dx: int)
    requires l >= 0, p >= 0, dx >= 0,
    ensures ({
        let den = (dx * p) / U + l;
        &&& (dx * p) / U >= 0 && (l * p) / U >= 0 && l * p >= 0 && dx * p >= 0
        &&& den > 0 ==> (((l * p) / U) * U) / den <= p && (((l * p) / U) * U) / den >= 0
    }),
{
    lemma_prod_pos(dx, p); lemma_prod_pos(l, p); lemma_floor(dx * p, U); lemma_floor(l * p, U);
    let den = (dx * p) / U + l; let n = ((l * p) / U) * U;
    if den > 0 {
        lemma_floor(n, den);
        let r = n / den;
        assert(l * p <= den * p) by (nonlinear_arith) requires l <= den, p >= 0;
        assert(r <= p) by (nonlinear_arith) requires r * den <= den * p, den > 0;
    }
}
pub proof fn lemma_spacing(t: int, s: int)
    requires t >= 0, s >= 1,
    ensures
        (t / s) * s <= t < (t / s) * s + s,
        ((t / s) * s) % s == 0,
        t / s >= 0,
        t <= cdiv(t, s) * s < t + s,
        (cdiv(t, s) * s) % s == 0,
        cdiv(t, s) >= 0,
        t % s == 0 ==> (t / s) * s == t && cdiv(t, s) * s == t,
{
    lemma_fundamental_div_mod(t, s); lemma_mod_bound(t, s); lemma_div_pos_is_pos(t, s);
    let u = t + s - 1;
    let p = t / s;
    let q = u / s;
    lemma_fundamental_div_mod(u, s); lemma_mod_bound(u, s); lemma_div_pos_is_pos(u, s);
    let ps = p * s;
    let qs = q * s;
    assert(ps == s * p) by (nonlinear_arith) requires ps == p * s;
    assert(qs == s * q) by (nonlinear_arith) requires qs == q * s;
    lemma_mod_multiples_basic(p, s); lemma_mod_multiples_basic(q, s);
    assert(cdiv(t, s) == q);
    if t % s == 0 {
        assert(qs <= ps + s - 1);
        assert(q <= p) by (nonlinear_arith) requires q * s <= p * s + s - 1, s >= 1;
        assert(q * s <= p * s) by (nonlinear_arith) requires q <= p, s >= 1;
    }
}
@end
