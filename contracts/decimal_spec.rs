// ---- decimal: the number a Decimal denotes, and exact arithmetic on it --------
pub const MAX128: u128 = 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff;

/// signed value in units of the last place
pub open spec fn sv(d: Decimal) -> int { if d.negative { -(d.value as int) } else { d.value as int } }
/// the sign flag of a non-zero number
pub open spec fn signed(d: Decimal, neg: bool) -> bool { d.value != 0 ==> d.negative == neg }
pub open spec fn dneg(d: Decimal) -> bool { d.negative && d.value != 0 }
pub open spec fn dpos(d: Decimal) -> bool { !d.negative && d.value != 0 }
pub open spec fn den(d: Decimal) -> nat { p10(d.scale as nat) }
pub open spec fn fits(x: int) -> bool { x <= u128::MAX }
/// division rounded up
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }

pub proof fn p10_pos(n: nat)
    ensures pow(10, n) >= 1, p10(n) >= 1, p10(n) == pow(10, n),
{
    lemma_pow_positive(10, n);
}
pub proof fn p10_zero()
    ensures p10(0) == 1, pow(10, 0) == 1,
{
    lemma_pow0(10);
}
pub proof fn p10_12()
    ensures p10(12) == 1_000_000_000_000, pow(10, 12) == 1_000_000_000_000,
{
    reveal_with_fuel(pow, 13);
}
pub mod vx_facts {
    use vstd::prelude::*;
    use vstd::arithmetic::power::*;
    pub open spec fn p10(n: nat) -> nat { pow(10, n) as nat }
    pub broadcast proof fn p10_zero_b()
        ensures #[trigger] p10(0) == 1,
    {
        lemma_pow0(10);
    }
    pub broadcast proof fn pow10_zero_b()
        ensures #[trigger] pow(10, 0) == 1,
    {
        lemma_pow0(10);
    }
    pub broadcast proof fn p10_12_b()
        ensures #[trigger] p10(12) == 1_000_000_000_000,
    {
        reveal_with_fuel(pow, 13);
    }
    pub broadcast proof fn p10_pos_b(n: nat)
        ensures #[trigger] p10(n) >= 1,
    {
        lemma_pow_positive(10, n);
    }
}
pub use vx_facts::p10;
broadcast use {vx_facts::p10_zero_b, vx_facts::pow10_zero_b, vx_facts::p10_12_b, vx_facts::p10_pos_b};
/// results as functions of the arguments (only used where these functions are assumed)
pub uninterp spec fn det_ipow(x: Decimal, n: u128) -> Decimal;
pub uninterp spec fn det_sqrt(x: Decimal) -> Result<Decimal, ErrorCode>;
