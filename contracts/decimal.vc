@typemap Self::Output => Decimal
@src dec programs/hmmcl-sandbox/src/decimal.rs
@include prelude.rs
@include ints.rs
@const dec::COMPUTE_SCALE
@type dec::ErrorCode
@type dec::Decimal
@include decimal_spec.rs
@include decimal_traits.rs
@include pow_spec.rs
@include sqrt_spec.rs

impl VxInto<ErrorCode> for ErrorCode {
    open spec fn vx_into_req(self) -> bool { true }
    open spec fn vx_into_post(self, r: ErrorCode) -> bool { r == self }
    fn vx_into(self) -> (r: ErrorCode) { self }
}

@impl impl Decimal
@fn dec::Default for Decimal::default
@ensures
  r.value == 0, r.scale == 0, !r.negative,
@fn dec::Decimal::new
@args value, scale, negative
@ensures
  [D07] r.value == value && r.scale == scale && r.negative == negative,
@fn dec::Decimal::from_u64
@args integer
@ensures
  [D07] r.value == integer && r.scale == 0 && !r.negative,
@fn dec::Decimal::from_u128
@args integer
@ensures
  [D07] r.value == integer && r.scale == 0 && !r.negative,
@fn dec::Decimal::from_scaled_amount
@args amount, scale
@ensures
  [D07] r.value == amount && r.scale == scale && !r.negative,
@fn dec::Decimal::one
@ensures
  [D07] r.value == 1_000_000_000_000 && r.scale == 12 && !r.negative,
@entry
  proof { p10_12(); }
@fn dec::Decimal::two
@ensures
  [D07] r.value == 2_000_000_000_000 && r.scale == 12 && !r.negative,
@entry
  proof { p10_12(); }
@fn dec::Decimal::to_u64
@requires
  nopanic() ==> self.value <= u64::MAX,
@ensures
  [D07] r == self.value,
@fn dec::Decimal::abs
@requires
  nopanic() ==> fits(den(self) as int) && self.value as int / den(self) as int <= u64::MAX,
@ensures
  [D07] r == self.value as int / den(self) as int,
@entry
  proof { lemma_scale_zero(self); }
@fn dec::Decimal::abs_up
@requires
  nopanic() ==> fits(den(self) as int) && fits(self.value + den(self) - 1) && cdiv(self.value as int, den(self) as int) <= u64::MAX,
@ensures
  [D07] r == cdiv(self.value as int, den(self) as int),
@entry
  proof { lemma_scale_zero(self); }
@fn dec::Decimal::to_scaled_amount
@args scale
@requires
  nopanic() ==> to_scale_req(self, scale) && to_scale_val(self, scale) <= u64::MAX,
@ensures
  [D07] r == to_scale_val(self, scale),
@fn dec::Decimal::to_scaled_amount_up
@args scale
@requires
  nopanic() ==> to_scale_up_req(self, scale) && to_scale_up_val(self, scale) <= u64::MAX,
@ensures
  [D07] r == to_scale_up_val(self, scale),
@fn dec::Decimal::to_scale
@args scale
@requires
  nopanic() ==> to_scale_req(self, scale),
@ensures
  [D01] to_scale_req(self, scale),
  [D01] r.scale == scale,
  [D01] r.value == to_scale_val(self, scale),
  [D01] signed(r, self.negative),
@entry
  proof { p10_zero(); assert(self.value * 1 == self.value); p10_pos((self.scale - scale) as nat); p10_pos((scale - self.scale) as nat); }
@fn dec::Decimal::to_scale_up
@args scale
@requires
  nopanic() ==> to_scale_up_req(self, scale),
@ensures
  [D01] self.scale >= scale ==> fits(p10((self.scale - scale) as nat) as int),
  [D01] self.scale < scale ==> fits(self.value * p10((scale - self.scale) as nat)),
  [D01] r.scale == scale,
  [D01] r.value == to_scale_up_val(self, scale),
  [D01] signed(r, self.negative),
@entry
  proof { p10_pos((self.scale - scale) as nat); p10_pos((scale - self.scale) as nat); p10_zero(); lemma_div_by_one(self.value * p10((scale - self.scale) as nat));
    assert(self.value * 1 == self.value);
    assert(cdiv(self.value * p10((scale - self.scale) as nat), 1) == self.value * p10((scale - self.scale) as nat)); }
@fn dec::Decimal::to_compute_scale
@requires
  nopanic() ==> to_scale_req(self, 12),
@ensures
  [D01] to_scale_req(self, 12),
  [D01] r.scale == 12,
  [D01] r.value == to_scale_val(self, 12),
  [D01] signed(r, self.negative),
@fn dec::Decimal::denominator
@requires
  nopanic() ==> fits(den(self) as int),
@ensures
  [D01] r == den(self),
@fn dec::Decimal::is_positive
@ensures
  [D03] r == dpos(self),
@fn dec::Decimal::is_negative
@ensures
  [D03] r == dneg(self),
@fn dec::Decimal::is_zero
@ensures
  [D03] r == (self.value == 0),
@fn dec::Decimal::is_integer
@requires
  nopanic() ==> fits(den(self) as int),
@ensures
  [D03] r == (self.value as int % den(self) as int == 0),
@entry
  proof { p10_pos(self.scale as nat); p10_zero(); lemma_int_part(self.value as int, den(self) as int);
    lemma_scale_zero(self); let z = to_scale_val(self, 0);
    assert(z * p10(self.scale as nat) <= self.value); assert(z * 1 == z);
    assert(z == 0 ==> z * p10(self.scale as nat) == 0) by (nonlinear_arith);
    assert(self.value as int - z * p10(self.scale as nat) == self.value as int % den(self) as int); }
@endimpl

pub open spec fn to_scale_req(d: Decimal, s: u8) -> bool {
    if d.scale == s { true }
    else if d.scale > s { fits(p10((d.scale - s) as nat) as int) }
    else { fits(p10((s - d.scale) as nat) as int) && fits(d.value * p10((s - d.scale) as nat)) }
}
pub open spec fn to_scale_val(d: Decimal, s: u8) -> int {
    if d.scale == s { d.value as int }
    else if d.scale > s { d.value as int / p10((d.scale - s) as nat) as int }
    else { d.value * p10((s - d.scale) as nat) }
}
pub open spec fn to_scale_up_req(d: Decimal, s: u8) -> bool {
    if d.scale == s { true }
    else if d.scale > s { fits(d.value + p10((d.scale - s) as nat) - 1) && fits(p10((d.scale - s) as nat) as int) }
    else { fits(p10((s - d.scale) as nat) as int) && fits(d.value * p10((s - d.scale) as nat)) }
}
pub open spec fn to_scale_up_val(d: Decimal, s: u8) -> int {
    if d.scale == s { d.value as int }
    else if d.scale > s { cdiv(d.value as int, p10((d.scale - s) as nat) as int) }
    else { d.value * p10((s - d.scale) as nat) }
}
pub proof fn lemma_scale_zero(d: Decimal)
    ensures
        to_scale_req(d, 0) <==> fits(den(d) as int),
        to_scale_val(d, 0) == d.value as int / den(d) as int,
        to_scale_val(d, 0) <= d.value,
        to_scale_up_val(d, 0) == cdiv(d.value as int, den(d) as int),
        fits(den(d) as int) && fits(d.value + den(d) - 1) ==> to_scale_up_req(d, 0),
{
    p10_pos(d.scale as nat); p10_zero();
    lemma_div_by_one(d.value as int);
    assert(d.value * 1 == d.value);
    lemma_int_part(d.value as int, den(d) as int);
}
pub proof fn lemma_div_by_one(x: int) ensures x / 1 == x { }
pub proof fn lemma_int_part(v: int, d: int)
    requires v >= 0, d >= 1,
    ensures (v / d) * d <= v, (v / d) >= 0, v - (v / d) * d == v % d, v/d <= v, v % d >= 0,
        v / d == (v/d) * 1,
{
    lemma_fundamental_div_mod(v, d);
    assert((v / d) * d == d * (v / d)) by (nonlinear_arith);
    lemma_div_is_ordered_by_denominator(v, 1, d);
    lemma_mod_bound(v, d);
    lemma_div_pos_is_pos(v, d);
}

@impl impl Mul<Decimal> for Decimal
open spec fn mul_req(self, rhs: Decimal) -> bool { nopanic() ==> fits(den(rhs) as int) && fits(self.value * rhs.value) }
@fn dec::Mul<Decimal> for Decimal::mul | traitimpl novis
@args rhs
@ensures
  [D01] fits(self.value * rhs.value) && fits(den(rhs) as int),
  [D01] r.scale == self.scale,
  [D01] r.value == (self.value * rhs.value) / den(rhs) as int,
  [D01] signed(r, self.negative != rhs.negative),
  [D01] self.value * rhs.value == rhs.value * self.value,
@entry
  proof { p10_pos(rhs.scale as nat); assert(self.value * rhs.value == rhs.value * self.value) by (nonlinear_arith); }
@endimpl
@impl impl Mul<u128> for Decimal
open spec fn mul_req(self, rhs: u128) -> bool { nopanic() ==> fits(self.value * rhs) }
@fn dec::Mul<u128> for Decimal::mul | traitimpl novis
@args rhs
@ensures
  [D01] r.scale == self.scale,
  [D01] r.value == self.value * rhs,
  [D01] signed(r, self.negative),
@endimpl
@impl impl MulUp<Decimal> for Decimal
open spec fn mul_up_req(self, rhs: Decimal) -> bool { nopanic() ==> fits(den(rhs) as int) && fits(self.value * rhs.value + den(rhs) - 1) }
@fn dec::MulUp<Decimal> for Decimal::mul_up | traitimpl novis
@args rhs
@ensures
  [D01] fits(self.value * rhs.value) && fits(den(rhs) as int),
  [D01] r.scale == self.scale,
  [D01] r.value == cdiv(self.value * rhs.value, den(rhs) as int),
  [D01] signed(r, self.negative != rhs.negative),
@entry
  proof { p10_pos(rhs.scale as nat); }
@endimpl
@impl impl Add<Decimal> for Decimal
open spec fn add_req(self, rhs: Decimal) -> bool {
    nopanic() ==> self.scale == rhs.scale ==> -(u128::MAX as int) <= sv(self) + sv(rhs) <= u128::MAX
}
@fn dec::Add<Decimal> for Decimal::add | traitimpl novis
@args rhs
@ensures
  [D02] r is Ok <==> self.scale == rhs.scale,
  [D02] r is Err ==> r->Err_0 is DifferentScale,
  [D02] r is Ok ==> sv(r->Ok_0) == sv(self) + sv(rhs),
  [D02] r is Ok ==> r->Ok_0.scale == self.scale,
@endimpl
@impl impl Sub<Decimal> for Decimal
open spec fn sub_req(self, rhs: Decimal) -> bool {
    nopanic() ==> self.scale == rhs.scale ==> -(u128::MAX as int) <= sv(self) - sv(rhs) <= u128::MAX
}
@fn dec::Sub<Decimal> for Decimal::sub | traitimpl novis
@args rhs
@ensures
  [D02] r is Ok <==> self.scale == rhs.scale,
  [D02] r is Err ==> r->Err_0 is DifferentScale,
  [D02] r is Ok ==> sv(r->Ok_0) == sv(self) - sv(rhs),
  [D02] r is Ok ==> r->Ok_0.scale == self.scale,
@endimpl
@impl impl Div<Decimal> for Decimal
open spec fn div_req(self, rhs: Decimal) -> bool { nopanic() ==> fits(den(rhs) as int) && fits(self.value * den(rhs)) && rhs.value != 0 }
@fn dec::Div<Decimal> for Decimal::div | traitimpl novis
@args rhs
@ensures
  [D01] fits(self.value * den(rhs)) && fits(den(rhs) as int) && rhs.value != 0,
  [D01] r.scale == self.scale,
  [D01] r.value == (self.value * den(rhs)) / rhs.value as int,
  [D01] signed(r, self.negative != rhs.negative),
@endimpl
@impl impl DivUp<Decimal> for Decimal
open spec fn div_up_req(self, rhs: Decimal) -> bool { nopanic() ==> fits(den(rhs) as int) && fits(self.value * den(rhs) + rhs.value - 1) && rhs.value != 0 }
@fn dec::DivUp<Decimal> for Decimal::div_up | traitimpl novis
@args rhs
@ensures
  [D01] fits(self.value * den(rhs)) && fits(den(rhs) as int) && rhs.value != 0,
  [D01] r.scale == self.scale,
  [D01] r.value == cdiv(self.value * den(rhs), rhs.value as int),
  [D01] signed(r, self.negative != rhs.negative),
@endimpl
@impl impl DivScale<Decimal> for Decimal
open spec fn div_scale_req(self, rhs: Decimal, to_scale: u8) -> bool {
    let e = self.scale as int - to_scale as int - rhs.scale as int;
    nopanic() ==> rhs.value != 0 && (if e > 0 { fits(p10(e as nat) as int) } else { fits(p10((-e) as nat) as int) && fits(self.value * p10((-e) as nat)) })
}
@fn dec::DivScale<Decimal> for Decimal::div_to_scale | traitimpl novis
@args rhs, to_scale
@ensures
  [D01] rhs.value != 0,
  [D01] r.scale == to_scale,
  [D01] ({ let e = self.scale as int - to_scale as int - rhs.scale as int; e > 0 ==> r.value == self.value as int / (rhs.value * p10(e as nat)) }),
  [D01] ({ let e = self.scale as int - to_scale as int - rhs.scale as int; e <= 0 ==> fits(self.value * p10((-e) as nat)) && r.value == (self.value * p10((-e) as nat)) / rhs.value as int }),
  [D01] signed(r, self.negative != rhs.negative),
@entry
  proof {
    let e = self.scale as int - to_scale as int - rhs.scale as int;
    p10_pos(e as nat); p10_pos((-e) as nat);
    if rhs.value != 0 && e > 0 { lemma_div_denominator(self.value as int, rhs.value as int, p10(e as nat) as int); }
  }
@endimpl

@impl impl VxInto<u64> for Decimal
open spec fn vx_into_req(self) -> bool { nopanic() ==> self.value <= u64::MAX }
open spec fn vx_into_post(self, r: u64) -> bool { r == self.value }
@fn dec::Into<u64> for Decimal::into | traitimpl novis name=vx_into group=D07
@endimpl
@impl impl VxInto<u128> for Decimal
open spec fn vx_into_req(self) -> bool { true }
open spec fn vx_into_post(self, r: u128) -> bool { r == self.value }
@fn dec::Into<u128> for Decimal::into | traitimpl novis name=vx_into group=D07
@endimpl
@impl impl VxInto<usize> for Decimal
open spec fn vx_into_req(self) -> bool { nopanic() ==> self.value <= usize::MAX }
open spec fn vx_into_post(self, r: usize) -> bool { r == self.value }
@fn dec::Into<usize> for Decimal::into | traitimpl novis name=vx_into group=D07
@endimpl
@impl impl VxInto<i32> for Decimal
open spec fn vx_into_req(self) -> bool { nopanic() ==> self.value <= i32::MAX }
open spec fn vx_into_post(self, r: i32) -> bool { r == sv(self) }
@fn dec::Into<i32> for Decimal::into | traitimpl novis name=vx_into group=D07
@endimpl

@impl impl Compare<Decimal> for Decimal
open spec fn minmax_req(self, rhs: Decimal) -> bool { nopanic() ==> self.scale == rhs.scale }
@fn dec::Compare<Decimal> for Decimal::eq | traitimpl novis
@args rhs
@ensures
  [D03] r is Ok <==> self.scale == rhs.scale,
  [D03] r is Err ==> r->Err_0 is DifferentScale,
  [D03] r is Ok ==> r->Ok_0 == (sv(self) == sv(rhs)),
@fn dec::Compare<Decimal> for Decimal::lt | traitimpl novis
@args rhs
@ensures
  [D03] r is Ok <==> self.scale == rhs.scale,
  [D03] r is Err ==> r->Err_0 is DifferentScale,
  [D03] r is Ok ==> r->Ok_0 == (sv(self) < sv(rhs)),
@fn dec::Compare<Decimal> for Decimal::gt | traitimpl novis
@args rhs
@ensures
  [D03] r is Ok <==> self.scale == rhs.scale,
  [D03] r is Err ==> r->Err_0 is DifferentScale,
  [D03] r is Ok ==> r->Ok_0 == (sv(self) > sv(rhs)),
@fn dec::Compare<Decimal> for Decimal::gte | traitimpl novis
@args rhs
@ensures
  [D03] r is Ok <==> self.scale == rhs.scale,
  [D03] r is Err ==> r->Err_0 is DifferentScale,
  [D03] r is Ok ==> r->Ok_0 == (sv(self) >= sv(rhs)),
@fn dec::Compare<Decimal> for Decimal::lte | traitimpl novis
@args rhs
@ensures
  [D03] r is Ok <==> self.scale == rhs.scale,
  [D03] r is Err ==> r->Err_0 is DifferentScale,
  [D03] r is Ok ==> r->Ok_0 == (sv(self) <= sv(rhs)),
@fn dec::Compare<Decimal> for Decimal::min | traitimpl novis
@args rhs
@ensures
  [D03] self.scale == rhs.scale && r.scale == self.scale,
  [D03] sv(r) == if sv(self) <= sv(rhs) { sv(self) } else { sv(rhs) },
@fn dec::Compare<Decimal> for Decimal::max | traitimpl novis
@args rhs
@ensures
  [D03] self.scale == rhs.scale && r.scale == self.scale,
  [D03] sv(r) == if sv(self) >= sv(rhs) { sv(self) } else { sv(rhs) },
@endimpl
@impl impl Neg for Decimal
@fn dec::Neg for Decimal::neg | traitimpl novis
@ensures
  [D02] sv(r) == -sv(self),
  [D02] r.scale == self.scale,
@endimpl

@impl impl Pow<u128> for Decimal
open spec fn pow_req(self, exp: u128) -> bool {
    nopanic() ==> fits(den(self) as int) && ipow_fits(self.value as int, den(self) as int, exp as nat)
}
@fn dec::Pow<u128> for Decimal::pow | traitimpl novis group=D04 det=det_ipow
@args exp
@ensures
  [D04] r.scale == self.scale,
  [D04] signed(r, self.negative && exp as int % 2 == 1),
  [D04] exp == 0 ==> r.value == den(self) && !r.negative,
  [D04] approx(r.value as int, self.value as int, den(self) as int, exp as nat),
  [D04] ipow_post(self, exp as nat, r),
  fits(den(self) as int),
  exp >= 1 ==> ipow_room(self, exp as nat),
@entry
  let ghost n = exp as nat;
  let ghost mut p: nat = 1;
  let ghost mut j: nat = 0;
  proof { lemma_pow0(2); lemma_room(self, exp as nat);
    p10_pos(self.scale as nat);
    assert(approx(self.value as int, self.value as int, den(self) as int, 1)) by { lemma_pow0(den(self) as int); lemma_pow1(self.value as int); }
    lemma_pow0(self.value as int);
  }
@loop 0
  invariant
    n == exp, den(self) >= 1, fits(den(self) as int),
    nopanic() ==> ipow_fits(self.value as int, den(self) as int, n),
    [D04] ipow_inv(p, result, base, current_exp as int, self, n),
    p == pow(2, j), n < p * (current_exp + 1),
    forall|k: nat| k < j ==> #[trigger] pw_ok(self, k),
  decreases current_exp
@loopentry 0
  proof { assert(approx(base.value as int, self.value as int, den(self) as int, pow(2, j) as nat)); assert(pw_ok(self, j)); }
  let ghost (r0, b0, c0) = (result, base, current_exp as int);
  proof { lemma_ipow_step(p, r0, b0, c0, self, n); }
@loopend 0
  proof {
    lemma_ipow_halve(p, c0); lemma_room_halve(p, c0, n); lemma_room(self, n);
    assert(pow(2, j + 1) == 2 * p) by { reveal_with_fuel(pow, 2); };
    p = 2 * p;
    j = j + 1;
  }
@loopexit 0
  proof { assert(p * (current_exp + 1) == p) by (nonlinear_arith) requires current_exp == 0; lemma_room(self, n); }
@endimpl

/// what one round of square-and-multiply may rely on and achieves
pub proof fn lemma_ipow_step(p: nat, r: Decimal, b: Decimal, cur: int, x: Decimal, n: nat)
    requires ipow_inv(p, r, b, cur, x, n), cur > 0, den(x) >= 1,
    ensures ({
        let d = den(x) as int; let v = x.value as int;
        &&& approx((r.value * b.value) / d, v, d, (n - p * cur + p) as nat)
        &&& approx((b.value * b.value) / d, v, d, 2 * p)
        &&& ipow_fits(v, d, n) ==> fits(r.value * b.value)
        &&& ipow_fits(v, d, n) && cur >= 2 ==> fits(b.value * b.value)
        &&& r.value == 0 || b.value == 0 ==> (r.value * b.value) / d == 0
        &&& b.value == 0 ==> (b.value * b.value) / d == 0
    }),
{
    let d = den(x) as int; let v = x.value as int;
    let e = (n - p * cur) as nat;
    assert(p * cur >= p) by (nonlinear_arith) requires cur >= 1, p >= 1;
    lemma_combine(r.value as int, e, b.value as int, p, v, d);
    lemma_combine(b.value as int, p, b.value as int, p, v, d);
    if ipow_fits(v, d, n) {
        lemma_ipow_product_fits(r.value as int, e, b.value as int, p, v, d, n);
        if cur >= 2 {
            assert(p * cur >= 2 * p) by (nonlinear_arith) requires cur >= 2, p >= 1;
            lemma_ipow_product_fits(b.value as int, p, b.value as int, p, v, d, n);
        }
    }
    assert(r.value == 0 || b.value == 0 ==> r.value * b.value == 0) by (nonlinear_arith);
    assert(b.value == 0 ==> b.value * b.value == 0) by (nonlinear_arith);
    lemma_div_basics(d);
}
/// the powers of two below n are below 2^j when n is
pub proof fn lemma_room(x: Decimal, n: nat)
    ensures forall|j: nat| n < #[trigger] pow(2, j) && (forall|k: nat| k < j ==> #[trigger] pw_ok(x, k)) ==> ipow_room(x, n),
{
    assert forall|j: nat| n < #[trigger] pow(2, j) && (forall|k: nat| k < j ==> #[trigger] pw_ok(x, k)) implies ipow_room(x, n) by {
        assert forall|k: nat| pow(2, k) <= n implies #[trigger] pw_ok(x, k) by {
            if k >= j { lemma_pow_increases(2, j, k); }
        }
    }
}
pub proof fn lemma_room_halve(p: nat, c: int, n: nat)
    requires c > 0, n < p * (c + 1),
    ensures n < (2 * p) * (c / 2 + 1),
{
    assert((2 * p) * (c / 2 + 1) >= p * (c + 1)) by (nonlinear_arith) requires 2 * (c / 2 + 1) >= c + 1, p >= 0;
}
pub proof fn lemma_ipow_halve(p: nat, c: int)
    requires c >= 0,
    ensures c % 2 == 0 ==> (2 * p) * (c / 2) == p * c,
        c % 2 != 0 ==> (2 * p) * (c / 2) == p * c - p,
        p >= 1 && c > 0 ==> p * c >= p,
{
    let h = c / 2;
    assert((2 * p) * h == p * (2 * h)) by (nonlinear_arith);
    if c % 2 == 0 { assert(c == 2 * h); } else { assert(c == 2 * h + 1); assert(p * c == p * (2 * h) + p) by (nonlinear_arith) requires c == 2 * h + 1; }
    assert(p >= 1 && c > 0 ==> p * c >= p) by (nonlinear_arith);
}

@impl impl Sqrt<Decimal> for Decimal
open spec fn sqrt_req(self) -> bool { nopanic() ==> fits(den(self) as int) }
@fn dec::Sqrt<Decimal> for Decimal::sqrt | traitimpl novis group=D05 det=det_sqrt
@ensures
  [D05] dneg(self) ==> r is Err,
  [D05] r is Err ==> dneg(self) || !fits(self.value * den(self)),
  [D05] r is Ok ==> r->Ok_0.scale == self.scale,
  [D05] r is Ok ==> !dneg(r->Ok_0),
  [D05] r is Ok ==> root_within(r->Ok_0.value as int, self.value * den(self)),
  [D05] r is Ok ==> sqrt_ok(self, r->Ok_0),
  fits(den(self) as int),
@entry
  proof { p10_pos(self.scale as nat); p10_zero(); lemma_sqrt_ends(self.value as int, den(self) as int);
    assert(forall|x: u128| #[trigger] (x >> 1) == x / 2) by (bit_vector); }
@at value_scaled
  proof { lemma_sqrt_pos(self.value as int, den(self) as int); lemma_first_guess(value_scaled as int, vx_lz(value_scaled)); }
@loop 0
  invariant
    [D05] root_inv(y as int, y_0 as int, value_scaled as int),
    value_scaled == self.value * den(self), threshold == 1,
  decreases root_measure(y as int, y_0 as int)
@loopentry 0
  proof { lemma_newton_step(y as int, y_0 as int, value_scaled as int); }
@loopexit 0
  proof { lemma_newton_step(y as int, y_0 as int, value_scaled as int); }
@endimpl
pub proof fn lemma_sqrt_ends(v: int, d: int)
    requires v >= 0, d >= 1,
    ensures v == 0 ==> root_within(v, v * d), v == d ==> root_within(v, v * d),
        v * d >= 0,
{
    assert(v * d >= 0) by (nonlinear_arith) requires v >= 0, d >= 1;
    if v == 0 { assert(v * d == 0) by (nonlinear_arith) requires v == 0; assert((v + 1) * (v + 1) == 1) by (nonlinear_arith) requires v == 0; }
    assert(v == d ==> (v + 1) * (v + 1) > v * d && (v - 1) * (v - 1) <= v * d) by (nonlinear_arith) requires d >= 1;
}
pub proof fn lemma_sqrt_pos(v: int, d: int)
    requires v >= 0, d >= 1,
    ensures v >= 1 ==> v * d >= 1,
{
    assert(v >= 1 ==> v * d >= 1) by (nonlinear_arith) requires d >= 1;
}

/// what `sqrt` promises about a result
pub open spec fn sqrt_ok(x: Decimal, r: Decimal) -> bool {
    &&& !dneg(x) && !dneg(r) && r.scale == x.scale
    &&& root_within(r.value as int, x.value * den(x))
}
pub open spec fn mul_ok(x: Decimal, y: Decimal, r: Decimal) -> bool {
    &&& r.scale == x.scale && r.value == (x.value * y.value) / den(y) as int
    &&& signed(r, x.negative != y.negative)
}
/// r == 1 / y truncated, at the scale of y
pub open spec fn recip_ok(y: Decimal, r: Decimal) -> bool {
    &&& y.value != 0
    &&& r.scale == y.scale && r.value == (den(y) * den(y)) / y.value as nat
    &&& signed(r, y.negative)
}
pub open spec fn quarter(x: Decimal) -> int { den(x) as int / 4 }
pub open spec fn half(x: Decimal) -> int { den(x) as int / 2 }
pub open spec fn five_quarters(x: Decimal) -> int { (5 * den(x)) as int / 4 }
pub open spec fn three_halves(x: Decimal) -> int { (3 * den(x)) as int / 2 }
/// x^(e / 10^scale) for a non-negative e, by the documented special cases
pub open spec fn dpow_pos(x: Decimal, e: int, r: Decimal) -> bool {
    let d = den(x) as int;
    if e == 0 { r.value == d && r.scale == x.scale && !r.negative }
    else if e == quarter(x) { exists|s: Decimal| sqrt_ok(x, s) && #[trigger] sqrt_ok(s, r) }
    else if e == half(x) { sqrt_ok(x, r) }
    else if e == d { r.value == x.value && r.scale == x.scale && signed(r, x.negative) }
    else if e == five_quarters(x) { exists|s: Decimal, q: Decimal| #[trigger] sqrt_ok(x, s) && #[trigger] sqrt_ok(s, q) && mul_ok(x, q, r) }
    else if e == three_halves(x) { exists|s: Decimal| #[trigger] sqrt_ok(x, s) && mul_ok(x, s, r) }
    else { e % d == 0 && ipow_post(x, (e / d) as nat, r) }
}
pub open spec fn dpow_known(x: Decimal, e: int) -> bool {
    let d = den(x) as int;
    e == 0 || e == quarter(x) || e == half(x) || e == five_quarters(x) || e == three_halves(x) || e % d == 0
}
pub open spec fn dpow_ok(x: Decimal, e: Decimal, r: Decimal) -> bool {
    if dneg(e) { exists|q: Decimal| #[trigger] dpow_pos(x, e.value as int, q) && recip_ok(q, r) }
    else { dpow_pos(x, e.value as int, r) }
}
/// enough room for the non-negative exponents
pub open spec fn dpow_room(x: Decimal, e: int) -> bool {
    let d = den(x) as int;
    &&& fits(5 * (d * d))
    &&& e % d == 0 && e > 0 && e != d ==> ipow_fits(x.value as int, d, (e / d) as nat) && e / d <= u64::MAX && fits(e + 0)
    &&& e % d != 0 || e == 0 ==> false || e == 0 || (!dneg(x) && fits(x.value * d * 4 + 4) && e == half(x))
}
@impl impl Pow<Decimal> for Decimal
open spec fn pow_req(self, exp: Decimal) -> bool {
    nopanic() ==> exp.scale == self.scale && !exp.negative && dpow_room(self, exp.value as int)
}
@fn dec::Pow<Decimal> for Decimal::pow | traitimpl novis group=D06
@args exp
@ensures
  [D06] exp.value != 0 ==> exp.scale == self.scale,
  [D06] exp.value == 0 || dpow_known(self, exp.value as int),
  [D06] dpow_ok(self, exp, r),
@decreases
  (if exp.negative { 1int } else { 0 })
@entry
  let ghost d = den(self) as int;
  proof { p10_pos(self.scale as nat); p10_zero(); lemma_scale_zero(exp); lemma_fundamental_div_mod(exp.value as int, d); lemma_dpow_cases(exp.value as int, d);
    assert(fits(5 * (d * d)) ==> fits(5 * d) && fits(4 * d) && fits(3 * d) && fits(2 * d) && fits(d * d) && fits(d)) by (nonlinear_arith) requires d >= 1;
    let (x, e) = (self, exp.value as int);
    if e > 0 && e % d == 0 {
      assert forall|q: Decimal| #[trigger] ipow_post(x, (e / d) as nat, q) implies dpow_pos(x, e, q) by {
        if e == d { lemma_pow0(d); lemma_pow1(x.value as int); lemma_pow0(dmax(d, x.value as int)); }
      }
    }
  }
@at one
  proof { assert(one.value == d); lemma_dpow(d); }
@at zero_point_two_five
  proof { assert(zero_point_two_five.value == quarter(self)); }
@at zero_point_five
  proof { assert(zero_point_five.value == half(self)); }
@at one_point_two_five
  proof { assert(one_point_two_five.value == five_quarters(self)); }
@at one_point_five
  proof { assert(one_point_five.value == three_halves(self)); }
@endimpl
pub proof fn lemma_dpow(d: int)
    requires d >= 1,
    ensures
        (d * d) / (4 * d) == d / 4, (d * d) / (2 * d) == d / 2,
        ((5 * d) * d) / (4 * d) == (5 * d) / 4, ((3 * d) * d) / (2 * d) == (3 * d) / 2,
        (5 * d) * d == 5 * (d * d), (3 * d) * d == 3 * (d * d), d * d >= 1,
{
    lemma_div_cancel_common(d, 4, d); lemma_div_cancel_common(d, 2, d);
    lemma_div_cancel_common(5 * d, 4, d); lemma_div_cancel_common(3 * d, 2, d);
    assert((5 * d) * d == 5 * (d * d)) by (nonlinear_arith);
    assert((3 * d) * d == 3 * (d * d)) by (nonlinear_arith);
    assert(d * d >= 1) by (nonlinear_arith) requires d >= 1;
}
/// whole numbers are none of the fractional special cases
pub proof fn lemma_dpow_cases(e: int, d: int)
    requires d >= 1, e >= 0,
    ensures e % d == 0 && 0 < e < 2 * d ==> e == d,
        e == d ==> e % d == 0 && e / d == 1,
{
    if e % d == 0 && 0 < e < 2 * d {
        lemma_fundamental_div_mod(e, d);
        let k = e / d;
        assert(k == 1) by (nonlinear_arith) requires e == d * k, 0 < e < 2 * d, d >= 1;
    }
    if e == d { lemma_div_multiples_vanish(1, d); lemma_mod_self_0(d); }
}
pub proof fn lemma_div_cancel_common(a: int, b: int, d: int)
    requires d >= 1, b >= 1, a >= 0,
    ensures (a * d) / (b * d) == a / b,
{
    lemma_div_denominator(a * d, d, b);
    lemma_div_multiples_vanish(a, d);
    assert(a * d == d * a) by (nonlinear_arith);
    assert(b * d == d * b) by (nonlinear_arith);
}
