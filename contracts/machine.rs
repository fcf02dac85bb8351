// ---- machine arithmetic and indexing ------------------------------------------
// Unchecked + - * << abort in debug builds and wrap in release builds: the result is
// only known when it fits.  Indexing outside the bounds aborts.
pub trait VxNum: Sized {
    spec fn vi(self) -> int;
    spec fn vmin() -> int;
    spec fn vmax() -> int;
}
pub open spec fn vx_fits<T: VxNum>(x: int) -> bool { T::vmin() <= x <= T::vmax() }
impl VxNum for u8 { open spec fn vi(self) -> int { self as int } open spec fn vmin() -> int { 0 } open spec fn vmax() -> int { 0xff } }
impl VxNum for u32 { open spec fn vi(self) -> int { self as int } open spec fn vmin() -> int { 0 } open spec fn vmax() -> int { 0xffff_ffff } }
impl VxNum for i32 { open spec fn vi(self) -> int { self as int } open spec fn vmin() -> int { -0x8000_0000 } open spec fn vmax() -> int { 0x7fff_ffff } }
impl VxNum for usize { open spec fn vi(self) -> int { self as int } open spec fn vmin() -> int { 0 } open spec fn vmax() -> int { 0xffff_ffff_ffff_ffff } }
impl VxNum for u64 { open spec fn vi(self) -> int { self as int } open spec fn vmin() -> int { 0 } open spec fn vmax() -> int { 0xffff_ffff_ffff_ffff } }
impl VxNum for i64 { open spec fn vi(self) -> int { self as int } open spec fn vmin() -> int { -0x8000_0000_0000_0000 } open spec fn vmax() -> int { 0x7fff_ffff_ffff_ffff } }
impl VxNum for u128 { open spec fn vi(self) -> int { self as int } open spec fn vmin() -> int { 0 } open spec fn vmax() -> int { u128::MAX as int } }

#[verifier::external_body]
pub fn vx_add<T: VxNum>(a: T, b: T) -> (r: T)
    requires nopanic() ==> vx_fits::<T>(a.vi() + b.vi()),
    ensures vx_fits::<T>(a.vi() + b.vi()) ==> r.vi() == a.vi() + b.vi(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_sub<T: VxNum>(a: T, b: T) -> (r: T)
    requires nopanic() ==> vx_fits::<T>(a.vi() - b.vi()),
    ensures vx_fits::<T>(a.vi() - b.vi()) ==> r.vi() == a.vi() - b.vi(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_mul<T: VxNum>(a: T, b: T) -> (r: T)
    requires nopanic() ==> vx_fits::<T>(a.vi() * b.vi()),
    ensures vx_fits::<T>(a.vi() * b.vi()) ==> r.vi() == a.vi() * b.vi(),
{ unimplemented!() }

// shifts: an amount outside the width aborts (debug) or is masked (release)
pub trait VxShift: Sized {
    spec fn vx_width() -> int;
    spec fn vx_shl_spec(self, s: int) -> Self;
    spec fn vx_shr_spec(self, s: int) -> Self;
    /// what `<<` keeps
    spec fn vx_shl_known(self, s: int) -> bool;
}
impl VxShift for u8 {
    open spec fn vx_width() -> int { 8 }
    open spec fn vx_shl_spec(self, s: int) -> u8 { self << (s as u8) }
    open spec fn vx_shr_spec(self, s: int) -> u8 { self >> (s as u8) }
    open spec fn vx_shl_known(self, s: int) -> bool { true }
}
impl VxShift for i32 {
    open spec fn vx_width() -> int { 32 }
    open spec fn vx_shl_spec(self, s: int) -> i32 { (self * pow(2, s as nat)) as i32 }
    open spec fn vx_shr_spec(self, s: int) -> i32 { (self as int / pow(2, s as nat)) as i32 }
    open spec fn vx_shl_known(self, s: int) -> bool { i32::MIN <= self * pow(2, s as nat) <= i32::MAX }
}
impl VxShift for usize {
    open spec fn vx_width() -> int { 64 }
    open spec fn vx_shl_spec(self, s: int) -> usize { (self * pow(2, s as nat)) as usize }
    open spec fn vx_shr_spec(self, s: int) -> usize { (self as int / pow(2, s as nat)) as usize }
    open spec fn vx_shl_known(self, s: int) -> bool { self * pow(2, s as nat) <= usize::MAX }
}
#[verifier::external_body]
pub fn vx_shl<T: VxShift, S: VxNum>(a: T, s: S) -> (r: T)
    requires nopanic() ==> 0 <= s.vi() < T::vx_width(),
    ensures 0 <= s.vi() < T::vx_width() && a.vx_shl_known(s.vi()) ==> r == a.vx_shl_spec(s.vi()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_shr<T: VxShift, S: VxNum>(a: T, s: S) -> (r: T)
    requires nopanic() ==> 0 <= s.vi() < T::vx_width(),
    ensures 0 <= s.vi() < T::vx_width() ==> r == a.vx_shr_spec(s.vi()),
{ unimplemented!() }

// slices and arrays
pub trait VxSeq<T> { spec fn vx_seq(&self) -> Seq<T>; }
impl<T, const N: usize> VxSeq<T> for [T; N] { open spec fn vx_seq(&self) -> Seq<T> { self@ } }
impl<T> VxSeq<T> for [T] { open spec fn vx_seq(&self) -> Seq<T> { self@ } }
impl<T> VxSeq<T> for Vec<T> { open spec fn vx_seq(&self) -> Seq<T> { self@ } }
impl<'a, T, C: VxSeq<T> + ?Sized> VxSeq<T> for &'a C { open spec fn vx_seq(&self) -> Seq<T> { (**self).vx_seq() } }

#[verifier::external_body]
pub fn vx_index<T: Copy, C: VxSeq<T> + ?Sized>(c: &C, i: usize) -> (r: T)
    requires nopanic() ==> i < c.vx_seq().len(),
    ensures i < c.vx_seq().len(), r == c.vx_seq()[i as int],
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_index_set<T: Copy, const N: usize>(c: &mut [T; N], i: usize, v: T)
    requires nopanic() ==> i < old(c)@.len(),
    ensures i < old(c)@.len(), final(c)@ == old(c)@.update(i as int, v),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_slice<T, C: VxSeq<T> + ?Sized>(c: &C, lo: usize, hi: usize) -> (r: &[T])
    requires nopanic() ==> lo <= hi <= c.vx_seq().len(),
    ensures lo <= hi <= c.vx_seq().len(), r@ == c.vx_seq().subrange(lo as int, hi as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_len<T, C: VxSeq<T> + ?Sized>(c: &C) -> (r: usize)
    ensures r == c.vx_seq().len(),
{ unimplemented!() }

pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32)
    requires nopanic() ==> b != 0,
    ensures b > 0 ==> r == a as int % b as int, b != 0;
pub assume_specification [i32::div_euclid] (a: i32, b: i32) -> (r: i32)
    requires nopanic() ==> b != 0,
    ensures b > 0 ==> r == a as int / b as int, b != 0;
