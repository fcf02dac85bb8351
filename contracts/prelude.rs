// ---- prelude: aborts, conversions, arithmetic specifications -----------------
// A call may end in three ways: return, return an Err/None, or abort (panic).
// `nopanic()` is an uninterpreted mode flag: contracts are checked for both
// values.  Under `nopanic()` every potential abort is an obligation; without it
// an abort just ends the execution, so postconditions speak of returning calls.
global size_of usize == 8;
pub uninterp spec fn nopanic() -> bool;

#[verifier::external_body]
pub fn vx_panic() -> !
    requires !nopanic(),
    ensures false,
{ panic!() }

pub trait VxUnwrap: Sized {
    type T;
    spec fn vx_ok(self) -> bool;
    spec fn vx_val(self) -> Self::T;
    fn vx_unwrap(self) -> (r: Self::T)
        requires nopanic() ==> self.vx_ok(),
        ensures self.vx_ok(), r == self.vx_val();
}
impl<T> VxUnwrap for Option<T> {
    type T = T;
    open spec fn vx_ok(self) -> bool { self is Some }
    open spec fn vx_val(self) -> T { self->Some_0 }
    fn vx_unwrap(self) -> (r: T) { match self { Some(x) => x, None => vx_panic() } }
}
impl<T, E> VxUnwrap for Result<T, E> {
    type T = T;
    open spec fn vx_ok(self) -> bool { self is Ok }
    open spec fn vx_val(self) -> T { self->Ok_0 }
    fn vx_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_panic() } }
}

// conversions between integers (std From/TryFrom), spelled as own traits
pub trait VxInto<U>: Sized {
    spec fn vx_into_req(self) -> bool;
    spec fn vx_into_post(self, r: U) -> bool;
    fn vx_into(self) -> (r: U) requires self.vx_into_req() ensures self.vx_into_post(r);
}
pub struct VxErr;
pub trait VxTryInto<U>: Sized {
    spec fn vx_fits(self) -> bool;
    spec fn vx_conv(self) -> U;
    fn vx_try_into(self) -> (r: Result<U, VxErr>)
        ensures r is Ok <==> self.vx_fits(), r is Ok ==> r->Ok_0 == self.vx_conv();
}


pub assume_specification [u128::checked_pow] (b: u128, e: u32) -> (r: Option<u128>)
    ensures match r {
        Some(x) => x == pow(b as int, e as nat),
        None => pow(b as int, e as nat) > u128::MAX,
    };
pub uninterp spec fn vx_lz(b: u128) -> u32;
pub assume_specification [u128::leading_zeros] (b: u128) -> (r: u32)
    ensures r == vx_lz(b), r <= 128, b == 0 <==> r == 128,
        b != 0 ==> pow(2, (127 - r) as nat) <= b < pow(2, (128 - r) as nat);

// further std operations that a change may use; overflow aborts or wraps
pub assume_specification [u64::pow] (b: u64, e: u32) -> (r: u64)
    requires nopanic() ==> pow(b as int, e as nat) <= u64::MAX,
    ensures pow(b as int, e as nat) <= u64::MAX ==> r == pow(b as int, e as nat);
pub assume_specification [u128::pow] (b: u128, e: u32) -> (r: u128)
    requires nopanic() ==> pow(b as int, e as nat) <= u128::MAX,
    ensures pow(b as int, e as nat) <= u128::MAX ==> r == pow(b as int, e as nat);
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64)
    ensures r == if a >= b { a - b } else { b - a };
pub assume_specification [u128::abs_diff] (a: u128, b: u128) -> (r: u128)
    ensures r == if a >= b { a - b } else { b - a };
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64)
    requires nopanic() ==> b != 0,
    ensures b != 0, r == (a + b - 1) / (b as int);
pub assume_specification [u128::div_ceil] (a: u128, b: u128) -> (r: u128)
    requires nopanic() ==> b != 0,
    ensures b != 0, r == (a + b - 1) / (b as int);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T)
    ensures r == match a { Ok(x) => x, Err(_) => d };
pub assume_specification<T: core::default::Default, E> [Result::<T, E>::unwrap_or_default] (a: Result<T, E>) -> (r: T)
    ensures match a { Ok(x) => r == x, Err(_) => call_ensures(T::default, (), r) };
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b };
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (a: Option<T>, f: F) -> (r: bool)
    requires a is Some ==> f.requires((a->0,)),
    ensures match a { None => !r, Some(x) => f.ensures((x,), r) };
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (a: Option<T>, d: U, f: F) -> (r: U)
    requires a is Some ==> f.requires((a->0,)),
    ensures match a { None => r == d, Some(x) => f.ensures((x,), r) };
pub assume_specification [u128::isqrt] (b: u128) -> (r: u128)
    ensures r * r <= b < (r + 1) * (r + 1);
pub assume_specification [u128::ilog2] (b: u128) -> (r: u32)
    requires nopanic() ==> b != 0,
    ensures b != 0, r < 128, pow(2, r as nat) <= b < pow(2, (r + 1) as nat);
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;

/// only used by the vacuity probe: nothing is known about it
pub uninterp spec fn vx_probe(k: int) -> bool;
