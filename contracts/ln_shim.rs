// ---- division, ranges and two-dimensional arrays -----------------------------------------
#[verifier::external_body]
pub fn vx_div<T: VxNum>(a: T, b: T) -> (r: T)
    requires nopanic() ==> b.vi() != 0 && a.vi() >= 0 && b.vi() >= 0,
    ensures b.vi() != 0, a.vi() >= 0 && b.vi() > 0 ==> r.vi() == a.vi() / b.vi(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_rem<T: VxNum>(a: T, b: T) -> (r: T)
    requires nopanic() ==> b.vi() != 0 && a.vi() >= 0 && b.vi() >= 0,
    ensures b.vi() != 0, a.vi() >= 0 && b.vi() > 0 ==> r.vi() == a.vi() % b.vi(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_range_has(r: &core::ops::Range<usize>, x: &usize) -> (b: bool)
    ensures b == (r.start <= *x && *x < r.end),
{ unimplemented!() }
/// ndarray::Array2
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Array2<T> { x: core::marker::PhantomData<T> }
impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> int;
    pub uninterp spec fn cols(&self) -> int;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;
}
#[verifier::external_body]
pub fn vx_arr2<T: Copy, const M: usize, const N: usize>(a: &[[T; M]; N]) -> (r: Array2<T>)
    ensures r.rows() == N, r.cols() == M, forall|i: int, j: int| 0 <= i < N && 0 <= j < M ==> #[trigger] r.at(i, j) == a@[i]@[j],
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_index2<T: Copy>(a: &Array2<T>, i: usize, j: usize) -> (r: T)
    requires nopanic() ==> i < a.rows() && j < a.cols(),
    ensures i < a.rows(), j < a.cols(), r == a.at(i as int, j as int),
{ unimplemented!() }
