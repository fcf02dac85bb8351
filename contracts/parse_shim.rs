// ---- strings, seen as their UTF-8 bytes ---------------------------------------------
// str and String methods (trusted: the documented behaviour of the standard library)
pub uninterp spec fn sb(s: &str) -> Seq<u8>;
pub uninterp spec fn tb(s: &String) -> Seq<u8>;
/// a char that is one byte
pub open spec fn ascii(c: char) -> bool { (c as u32) < 128 }
pub trait VxPat { spec fn hits(&self, x: u8) -> bool; spec fn small(&self) -> bool; }
impl VxPat for char {
    open spec fn hits(&self, x: u8) -> bool { *self as u32 == x as u32 }
    open spec fn small(&self) -> bool { ascii(*self) }
}
impl<'a> VxPat for &'a [char] {
    open spec fn hits(&self, x: u8) -> bool { exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] as u32 == x as u32 }
    open spec fn small(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> ascii(#[trigger] self@[i]) }
}
impl<const N: usize> VxPat for [char; N] {
    open spec fn hits(&self, x: u8) -> bool { exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] as u32 == x as u32 }
    open spec fn small(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> ascii(#[trigger] self@[i]) }
}
pub trait VxFromText: Sized { spec fn minus_ok() -> bool; spec fn lo() -> int; spec fn hi() -> int; spec fn num(self) -> int; }
impl VxFromText for i64 { open spec fn minus_ok() -> bool { true } open spec fn lo() -> int { i64::MIN as int } open spec fn hi() -> int { i64::MAX as int } open spec fn num(self) -> int { self as int } }
impl VxFromText for i32 { open spec fn minus_ok() -> bool { true } open spec fn lo() -> int { i32::MIN as int } open spec fn hi() -> int { i32::MAX as int } open spec fn num(self) -> int { self as int } }
impl VxFromText for i128 { open spec fn minus_ok() -> bool { true } open spec fn lo() -> int { i128::MIN as int } open spec fn hi() -> int { i128::MAX as int } open spec fn num(self) -> int { self as int } }
impl VxFromText for u128 { open spec fn minus_ok() -> bool { false } open spec fn lo() -> int { 0 } open spec fn hi() -> int { u128::MAX as int } open spec fn num(self) -> int { self as int } }
pub trait VxStr {
    spec fn b(&self) -> Seq<u8>;
    fn vx_s_len(&self) -> (r: usize) ensures r == self.b().len(), r <= isize::MAX;
    fn vx_s_is_empty(&self) -> (r: bool) ensures r == (self.b().len() == 0);
    fn vx_s_find<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        requires nopanic() ==> p.small(),
        ensures self.b().len() <= isize::MAX, p.small() ==> match r {
            None => forall|i: int| 0 <= i < self.b().len() ==> !p.hits(#[trigger] self.b()[i]),
            Some(l) => l < self.b().len() && p.hits(self.b()[l as int]) && forall|i: int| 0 <= i < l ==> !p.hits(#[trigger] self.b()[i]),
        };
    fn vx_s_contains<P: VxPat>(&self, p: P) -> (r: bool)
        ensures p.small() ==> r == (exists|i: int| 0 <= i < self.b().len() && p.hits(#[trigger] self.b()[i]));
    fn vx_s_starts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures p.small() ==> r == (self.b().len() > 0 && p.hits(self.b()[0]));
    fn vx_s_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures p.small() ==> match r {
            None => !(self.b().len() > 0 && p.hits(self.b()[0])),
            Some(t) => self.b().len() > 0 && p.hits(self.b()[0]) && sb(t) == self.b().skip(1),
        };
    fn vx_s_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures p.small() ==> match r {
            None => forall|i: int| 0 <= i < self.b().len() ==> !p.hits(#[trigger] self.b()[i]),
            Some(t) => {
                let l = sb(t.0).len() as int;
                &&& l < self.b().len() && sb(t.0) == self.b().subrange(0, l) && sb(t.1) == self.b().subrange(l + 1, self.b().len() as int)
                &&& p.hits(self.b()[l]) && forall|i: int| 0 <= i < l ==> !p.hits(#[trigger] self.b()[i])
            },
        };
    // a slice that cuts a character aborts as well: without the no-abort flag only
    fn vx_s_slice(&self, lo: usize, hi: usize) -> (r: &str)
        requires nopanic() ==> lo <= hi <= self.b().len() && forall|i: int| 0 <= i < self.b().len() ==> #[trigger] self.b()[i] < 128,
        ensures lo <= hi <= self.b().len(), sb(r) == self.b().subrange(lo as int, hi as int);
    fn vx_s_as_str(&self) -> (r: &str) ensures sb(r) == self.b();
    fn vx_s_to_string(&self) -> (r: String) ensures tb(&r) == self.b();
    fn vx_s_to_owned(&self) -> (r: String) ensures tb(&r) == self.b();
    fn vx_s_repeat(&self, n: usize) -> (r: String)
        ensures self.b().len() == 1 ==> tb(&r) == Seq::new(n as nat, |i: int| self.b()[0]);
    fn vx_s_parse<T: VxFromText>(&self) -> (r: Result<T, VxParseErr>)
        ensures r is Ok <==> text_ok(self.b(), T::minus_ok()) && T::lo() <= int_of(self.b()) <= T::hi(), r is Ok ==> r->Ok_0.num() == int_of(self.b());
}
impl VxStr for str {
    open spec fn b(&self) -> Seq<u8> { sb(self) }
    #[verifier::external_body] fn vx_s_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_s_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_s_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_s_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_s_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_s_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_s_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_s_slice(&self, lo: usize, hi: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_s_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_s_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_s_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_s_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_s_parse<T: VxFromText>(&self) -> (r: Result<T, VxParseErr>) { unimplemented!() }
}
impl VxStr for String {
    open spec fn b(&self) -> Seq<u8> { tb(self) }
    #[verifier::external_body] fn vx_s_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_s_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_s_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_s_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_s_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_s_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_s_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_s_slice(&self, lo: usize, hi: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_s_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_s_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_s_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_s_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_s_parse<T: VxFromText>(&self) -> (r: Result<T, VxParseErr>) { unimplemented!() }
}
pub trait VxBuf: Sized {
    spec fn bb(&self) -> Seq<u8>;
    fn vx_s_clone(&self) -> (r: Self) ensures r.bb() == self.bb();
    fn vx_s_push_str<S: VxStr + ?Sized>(&mut self, s: &S) ensures final(self).bb() == old(self).bb() + s.b();
    fn vx_s_push(&mut self, c: char) ensures ascii(c) ==> final(self).bb() == old(self).bb().push(c as u32 as u8);
    fn vx_s_insert(&mut self, at: usize, c: char)
        requires nopanic() ==> at <= old(self).bb().len() && forall|i: int| 0 <= i < old(self).bb().len() ==> #[trigger] old(self).bb()[i] < 128,
        ensures at <= old(self).bb().len(), ascii(c) ==> final(self).bb() == old(self).bb().take(at as int).push(c as u32 as u8) + old(self).bb().skip(at as int);
    fn vx_s_insert_str<S: VxStr + ?Sized>(&mut self, at: usize, s: &S)
        requires nopanic() ==> at <= old(self).bb().len() && forall|i: int| 0 <= i < old(self).bb().len() ==> #[trigger] old(self).bb()[i] < 128,
        ensures at <= old(self).bb().len(), final(self).bb() == old(self).bb().take(at as int) + s.b() + old(self).bb().skip(at as int);
}
impl VxBuf for String {
    open spec fn bb(&self) -> Seq<u8> { tb(self) }
    #[verifier::external_body] fn vx_s_clone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_s_push_str<S: VxStr + ?Sized>(&mut self, s: &S) { unimplemented!() }
    #[verifier::external_body] fn vx_s_push(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] fn vx_s_insert(&mut self, at: usize, c: char) { unimplemented!() }
    #[verifier::external_body] fn vx_s_insert_str<S: VxStr + ?Sized>(&mut self, at: usize, s: &S) { unimplemented!() }
}
pub assume_specification [i64::is_positive] (x: i64) -> (r: bool) ensures r == (x > 0);
pub assume_specification [i64::is_negative] (x: i64) -> (r: bool) ensures r == (x < 0);
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
// the absolute value of i64::MIN aborts or wraps
pub assume_specification [i64::abs] (x: i64) -> (r: i64)
    requires nopanic() ==> x != i64::MIN,
    ensures x != i64::MIN ==> r as int == (if x < 0 { -(x as int) } else { x as int });
/// a literal and its bytes (written out by the extractor)
#[verifier::external_body]
pub fn vx_lit<'a>(s: &'a str, g: &[u8]) -> (r: &'a str) ensures sb(r) == g@ { s }
#[verifier::external_body]
pub fn vx_str_eq<A: VxStr + ?Sized, B: VxStr + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.b() == b.b()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_string_new() -> (r: String) ensures tb(&r) == Seq::<u8>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_string_from<S: VxStr + ?Sized>(s: &S) -> (r: String) ensures tb(&r) == s.b() { unimplemented!() }
#[verifier::external_body]
pub fn vx_with_capacity(n: usize) -> (r: String) ensures tb(&r) == Seq::<u8>::empty() { String::new() }
// iter::repeat(s).take(n).collect::<String>()
pub struct VxRepeat { pub of: Ghost<Seq<u8>> }
pub struct VxTake { pub of: Ghost<Seq<u8>>, pub n: usize }
#[verifier::external_body]
pub fn vx_repeat<S: VxStr + ?Sized>(s: &S) -> (r: VxRepeat) ensures r.of@ == s.b() { unimplemented!() }
pub trait VxCollect: Sized { spec fn got(&self) -> Seq<u8>; }
impl VxCollect for String { open spec fn got(&self) -> Seq<u8> { tb(self) } }
impl VxRepeat {
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: VxTake) ensures r.of == self.of, r.n == n { unimplemented!() }
}
impl VxTake {
    #[verifier::external_body] pub fn collect<T: VxCollect>(self) -> (r: T) ensures self.of@.len() == 1 ==> r.got() == Seq::new(self.n as nat, |i: int| self.of@[0]) { unimplemented!() }
}
// integers from text: an optional sign (only + for unsigned ones) and digits
pub struct VxParseErr;
pub open spec fn text_ok(s: Seq<u8>, signed: bool) -> bool { (minus(s) ==> signed) && wf_int(s) }
#[verifier::external_body]
pub fn vx_u128_from_str_radix<S: VxStr + ?Sized>(s: &S, radix: u32) -> (r: Result<u128, VxParseErr>)
    ensures radix == 10 ==> (r is Ok <==> text_ok(s.b(), false) && int_of(s.b()) <= u128::MAX), radix == 10 && r is Ok ==> r->Ok_0 == int_of(s.b()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_u128_from_str<S: VxStr + ?Sized>(s: &S) -> (r: Result<u128, VxParseErr>)
    ensures r is Ok <==> text_ok(s.b(), false) && int_of(s.b()) <= u128::MAX, r is Ok ==> r->Ok_0 == int_of(s.b()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_i64_from_str<S: VxStr + ?Sized>(s: &S) -> (r: Result<i64, VxParseErr>)
    ensures r is Ok <==> text_ok(s.b(), true) && i64::MIN <= int_of(s.b()) <= i64::MAX, r is Ok ==> r->Ok_0 == int_of(s.b()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_i32_from_str<S: VxStr + ?Sized>(s: &S) -> (r: Result<i32, VxParseErr>)
    ensures r is Ok <==> text_ok(s.b(), true) && i32::MIN <= int_of(s.b()) <= i32::MAX, r is Ok ==> r->Ok_0 == int_of(s.b()),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_i128_from_str<S: VxStr + ?Sized>(s: &S) -> (r: Result<i128, VxParseErr>)
    ensures r is Ok <==> text_ok(s.b(), true) && i128::MIN <= int_of(s.b()) <= i128::MAX, r is Ok ==> r->Ok_0 == int_of(s.b()),
{ unimplemented!() }
pub trait VxNumText: Sized {
    spec fn num(self) -> nat;
    fn vx_s_to_string(&self) -> (r: String) ensures tb(&r) == dec_digits(self.num());
}
impl VxNumText for u128 { open spec fn num(self) -> nat { self as nat } #[verifier::external_body] fn vx_s_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxNumText for u8 { open spec fn num(self) -> nat { self as nat } #[verifier::external_body] fn vx_s_to_string(&self) -> (r: String) { unimplemented!() } }
// ---- formatters ---------------------------------------------------------------------
pub struct VxFmtError;
/// plain: no width, fill, sign or other flags, as used by to_string and {}
pub struct VxFmt { pub out: Ghost<Seq<u8>>, pub plain: Ghost<bool> }
impl VxFmt {
    #[verifier::external_body]
    pub fn pad_integral<S: VxStr + ?Sized>(&mut self, nonnegative: bool, prefix: &str, buf: &S) -> (r: Result<(), VxFmtError>)
        ensures final(self).plain == old(self).plain,
            old(self).plain@ && r is Ok ==> final(self).out@ == old(self).out@ + (if nonnegative { Seq::<u8>::empty() } else { seq![45u8] }) + buf.b(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pad<S: VxStr + ?Sized>(&mut self, buf: &S) -> (r: Result<(), VxFmtError>)
        ensures final(self).plain == old(self).plain, old(self).plain@ && r is Ok ==> final(self).out@ == old(self).out@ + buf.b(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str<S: VxStr + ?Sized>(&mut self, buf: &S) -> (r: Result<(), VxFmtError>)
        ensures final(self).plain == old(self).plain, r is Ok ==> final(self).out@ == old(self).out@ + buf.b(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), VxFmtError>)
        ensures final(self).plain == old(self).plain, r is Ok && ascii(c) ==> final(self).out@ == old(self).out@.push(c as u32 as u8),
    { unimplemented!() }
}
