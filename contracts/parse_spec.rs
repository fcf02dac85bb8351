// ---- the number a string denotes ----------------------------------------------------
//   [+|-] digits [. digits] [(e|E) [+|-] digits]     with a digit before or after the point
pub open spec fn digit(x: u8) -> bool { 48 <= x <= 57 }
pub open spec fn digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
pub open spec fn number(s: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { number(s.drop_last()) * 10 + (s.last() - 48) }
}
pub open spec fn is_e(x: u8) -> bool { x == 101 || x == 69 }
/// where the exponent starts (the length when there is none)
pub open spec fn e_at(s: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if is_e(s[0]) { 0 } else { 1 + e_at(s.subrange(1, s.len() as int)) }
}
pub open spec fn dot_at(s: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else if s[0] == 46 { 0 } else { 1 + dot_at(s.subrange(1, s.len() as int)) }
}
pub open spec fn minus(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 45 }
pub open spec fn sign_len(s: Seq<u8>) -> int { if s.len() > 0 && (s[0] == 45 || s[0] == 43) { 1 } else { 0 } }
pub open spec fn unsigned(s: Seq<u8>) -> Seq<u8> { s.subrange(sign_len(s), s.len() as int) }
pub open spec fn lead(s: Seq<u8>) -> Seq<u8> { unsigned(s).subrange(0, dot_at(unsigned(s))) }
pub open spec fn trail(s: Seq<u8>) -> Seq<u8> {
    let u = unsigned(s);
    if dot_at(u) < u.len() { u.subrange(dot_at(u) + 1, u.len() as int) } else { Seq::empty() }
}
pub open spec fn wf_num(s: Seq<u8>) -> bool { digits(lead(s)) && digits(trail(s)) && lead(s).len() + trail(s).len() > 0 }
pub open spec fn mant(s: Seq<u8>) -> int { number(lead(s) + trail(s)) }
pub open spec fn wf_int(s: Seq<u8>) -> bool { unsigned(s).len() > 0 && digits(unsigned(s)) }
pub open spec fn int_of(s: Seq<u8>) -> int { if minus(s) { -number(unsigned(s)) } else { number(unsigned(s)) } }
pub open spec fn base_of(s: Seq<u8>) -> Seq<u8> { s.subrange(0, e_at(s)) }
pub open spec fn no_exp(s: Seq<u8>) -> bool { e_at(s) == s.len() }
pub open spec fn exp_of(s: Seq<u8>) -> int { if no_exp(s) { 0 } else { int_of(s.subrange(e_at(s) + 1, s.len() as int)) } }
pub open spec fn well_formed(s: Seq<u8>) -> bool { wf_num(base_of(s)) && (no_exp(s) || wf_int(s.subrange(e_at(s) + 1, s.len() as int))) }
/// the decimal denotes m * 10^e
pub open spec fn denotes(d: Decimal, m: int, e: int) -> bool {
    let k = e + d.scale;
    if k >= 0 { d.value == m * pow(10, k as nat) } else { d.value * pow(10, (-k) as nat) == m }
}
/// the decimal is the number written, digit for digit
pub open spec fn exactly(d: Decimal, s: Seq<u8>) -> bool { d.value == mant(s) && d.scale == trail(s).len() && d.negative == minus(s) }
/// a number without an exponent that fits a decimal
pub open spec fn plain_ok(s: Seq<u8>) -> bool { no_exp(s) && wf_num(s) && mant(s) <= u128::MAX && trail(s).len() <= u8::MAX }
pub mod vx_where {
    use vstd::prelude::*;
    use super::*;
    pub broadcast proof fn lemma_e_at(s: Seq<u8>)
        ensures 0 <= #[trigger] e_at(s) <= s.len(), forall|i: int| 0 <= i < e_at(s) ==> !is_e(#[trigger] s[i]), e_at(s) < s.len() ==> is_e(s[e_at(s)]), no_exp(s) ==> base_of(s) =~= s,
        decreases s.len(),
    {
        if s.len() > 0 && !is_e(s[0]) {
            let t = s.subrange(1, s.len() as int);
            lemma_e_at(t);
            assert forall|i: int| 0 <= i < e_at(s) implies !is_e(#[trigger] s[i]) by { if i > 0 { assert(t[i - 1] == s[i]); } }
        }
    }
    pub broadcast proof fn lemma_dot_at(s: Seq<u8>)
        ensures 0 <= #[trigger] dot_at(s) <= s.len(), forall|i: int| 0 <= i < dot_at(s) ==> #[trigger] s[i] != 46, dot_at(s) < s.len() ==> s[dot_at(s)] == 46,
        decreases s.len(),
    {
        if s.len() > 0 && s[0] != 46 {
            let t = s.subrange(1, s.len() as int);
            lemma_dot_at(t);
            assert forall|i: int| 0 <= i < dot_at(s) implies #[trigger] s[i] != 46 by { if i > 0 { assert(t[i - 1] == s[i]); } }
        }
    }
    /// the parts of a number
    pub broadcast proof fn lemma_parts(s: Seq<u8>)
        requires #[trigger] wf_num(s),
        ensures
            forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] == 45 ==> i == 0) && !is_e(s[i]) && s[i] < 128,
            s.len() > 0, no_exp(s), base_of(s) =~= s, trail(s).len() <= s.len(),
    {
        let (u, n) = (unsigned(s), sign_len(s));
        lemma_dot_at(u); lemma_e_at(s);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] == 45 ==> i == 0) && !is_e(s[i]) && s[i] < 128 by {
            if i >= n {
                let j = i - n;
                assert(u[j] == s[i]);
                if j < dot_at(u) { assert(lead(s)[j] == u[j]); }
                else if j > dot_at(u) { assert(trail(s)[j - dot_at(u) - 1] == u[j]); }
            }
        }
        if e_at(s) < s.len() { assert(is_e(s[e_at(s)])); }
    }
    /// the sign is dropped
    pub broadcast proof fn lemma_no_sign(s: Seq<u8>)
        requires wf_num(s), s.len() > 0, s[0] == 45 || s[0] == 43,
        ensures ({ let t = #[trigger] s.subrange(1, s.len() as int); wf_num(t) && sign_len(t) == 0 && lead(t) == lead(s) && trail(t) == trail(s) && mant(t) == mant(s) }),
    {
        let t = s.subrange(1, s.len() as int);
        assert(unsigned(s) == t);
        lemma_dot_at(t);
        assert(t.len() > 0);
        if dot_at(t) > 0 { assert(lead(s)[0] == t[0]); }
        assert(unsigned(t) =~= t);
    }
    pub broadcast group strings { lemma_e_at, lemma_dot_at, lemma_parts, lemma_no_sign, lemma_number_pos }
    /// the digits of a number, the point taken out
    pub open spec fn joined(s: Seq<u8>) -> Seq<u8> {
        if dot_at(s) < s.len() { s.subrange(0, dot_at(s)) + s.subrange(dot_at(s) + 1, s.len() as int) } else { s }
    }
    pub proof fn lemma_joined(s: Seq<u8>)
        requires wf_num(s),
        ensures
            dot_at(s) == sign_len(s) + dot_at(unsigned(s)),
            dot_at(s) < s.len() ==> trail(s) == s.subrange(dot_at(s) + 1, s.len() as int),
            dot_at(s) == s.len() ==> trail(s).len() == 0,
            wf_int(joined(s)), minus(joined(s)) == minus(s), !minus(s) ==> int_of(joined(s)) == mant(s),
            unsigned(joined(s)) == lead(s) + trail(s), 
    {
        let (u, n) = (unsigned(s), sign_len(s));
        lemma_dot_at(u); lemma_dot_at(s);
        assert(forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] == s[i + n]);
        let (a, b) = (dot_at(s), n + dot_at(u));
        if a < b { if a >= n { assert(u[a - n] == 46); } }
        if b < a { assert(s[b] == u[b - n]); }
        let j = joined(s);
        if a < s.len() { assert(trail(s) =~= s.subrange(a + 1, s.len() as int)); }
        if n == 0 && j.len() > 0 {
            if lead(s).len() > 0 { assert(j[0] == lead(s)[0]); assert(digit(j[0])); } else { assert(j[0] == trail(s)[0]); assert(digit(j[0])); }
        }
        if n == 1 { assert(j[0] == s[0]); }
        assert(unsigned(j) =~= lead(s) + trail(s));
    }
    pub broadcast proof fn lemma_number_pos(s: Seq<u8>)
        requires digits(s),
        ensures #[trigger] number(s) >= 0,
        decreases s.len(),
    {
        if s.len() > 0 { assert(digits(s.drop_last())); lemma_number_pos(s.drop_last()); assert(digit(s.last())); }
    }
}
pub use vx_where::*;
/// a value of scale f, widened to scale e >= f and read as a whole number of scale e
pub proof fn lemma_widened(d: Decimal, a: Decimal, e: int)
    requires a.scale <= e, d.scale == e, e > 0, d.value == to_scale_val(a, e as u8) * p10(e as nat),
    ensures denotes(d, a.value as int, e - a.scale),
{
    let f = a.scale as int;
    p10_pos((e - f) as nat); p10_pos(e as nat); p10_zero();
    let m = a.value as int;
    assert(to_scale_val(a, e as u8) == m * pow(10, (e - f) as nat)) by { assert(m * 1 == m) by (nonlinear_arith); }
    lemma_pow_adds(10, (e - f) as nat, e as nat);
    assert((m * pow(10, (e - f) as nat)) * pow(10, e as nat) == m * (pow(10, (e - f) as nat) * pow(10, e as nat))) by (nonlinear_arith);
}
pub proof fn lemma_as_written(d: Decimal, m: int, e: int)
    requires d.value == m, e + d.scale == 0,
    ensures denotes(d, m, e),
{
    p10_zero();
    assert(m * 1 == m) by (nonlinear_arith);
}
// ---- printing -----------------------------------------------------------------------
pub open spec fn dec_digits(v: nat) -> Seq<u8>
    decreases v,
{
    if v < 10 { seq![(48 + v) as u8] } else { dec_digits(v / 10).push((48 + v % 10) as u8) }
}
pub proof fn lemma_dec_digits(v: nat)
    ensures digits(dec_digits(v)), dec_digits(v).len() > 0, number(dec_digits(v)) == v,
    decreases v,
{
    let s = dec_digits(v);
    if v < 10 {
        assert(number(s.drop_last()) == 0) by { assert(s.drop_last().len() == 0); }
    } else {
        lemma_dec_digits(v / 10);
        assert(s.drop_last() =~= dec_digits(v / 10));
        assert(digits(s)) by { assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s[i] == dec_digits(v / 10)[i]); } } }
    }
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 48u8) }
pub proof fn lemma_leading_zeros(n: int, s: Seq<u8>)
    requires n >= 0,
    ensures number(zeros(n) + s) == number(s),
    decreases n + s.len(),
{
    let t = zeros(n) + s;
    if s.len() > 0 {
        assert(t.drop_last() =~= zeros(n) + s.drop_last());
        lemma_leading_zeros(n, s.drop_last());
    } else if n > 0 {
        assert(t.drop_last() =~= zeros(n - 1) + s);
        lemma_leading_zeros(n - 1, s);
        assert(t.last() == 48);
    }
}
/// the text is a number without an exponent that reads as exactly this decimal
pub open spec fn reads_as(t: Seq<u8>, d: Decimal) -> bool { plain_ok(t) && exactly(d, t) }
pub open spec fn whole(d: Decimal) -> Seq<u8> {
    let g = dec_digits(d.value as nat);
    if d.scale == 0 { g } else if d.scale >= g.len() { seq![48u8] } else { g.take(g.len() - d.scale) }
}
pub open spec fn fraction(d: Decimal) -> Seq<u8> {
    let g = dec_digits(d.value as nat);
    if d.scale == 0 { Seq::empty() } else if d.scale >= g.len() { zeros(d.scale - g.len()) + g } else { g.skip(g.len() - d.scale) }
}
pub open spec fn point(d: Decimal) -> Seq<u8> { if d.scale == 0 { Seq::<u8>::empty() } else { seq![46u8] + fraction(d) } }
pub open spec fn text(d: Decimal) -> Seq<u8> { (if d.negative { seq![45u8] } else { Seq::<u8>::empty() }) + (whole(d) + point(d)) }
pub proof fn lemma_text(d: Decimal)
    ensures reads_as(text(d), d),
{
    broadcast use vx_where::strings;
    let (g, t, w, f) = (dec_digits(d.value as nat), text(d), whole(d), fraction(d));
    lemma_dec_digits(d.value as nat);
    let n: int = if d.negative { 1 } else { 0 };
    assert(digits(w)) by { assert forall|i: int| 0 <= i < w.len() implies digit(#[trigger] w[i]) by { if d.scale < g.len() { assert(w[i] == g[i]); } } }
    assert(digits(f)) by { assert forall|i: int| 0 <= i < f.len() implies digit(#[trigger] f[i]) by {
        if d.scale > 0 { if d.scale >= g.len() { if i >= d.scale - g.len() { assert(f[i] == g[i - (d.scale - g.len())]); } } else { assert(f[i] == g[i + (g.len() - d.scale)]); } }
    } }
    assert(w.len() > 0);
    assert(t[n] == w[0]) ;
    assert(digit(w[0]));
    assert(minus(t) == d.negative);
    assert(sign_len(t) == n);
    let u = unsigned(t);
    assert(u =~= w + (if d.scale == 0 { Seq::<u8>::empty() } else { seq![46u8] + f }));
    assert(forall|i: int| 0 <= i < w.len() ==> #[trigger] u[i] == w[i]);
    if d.scale > 0 { assert(u[w.len() as int] == 46); }
    assert(dot_at(u) == w.len()) by {
        let x = dot_at(u);
        if x < w.len() { assert(u[x] == w[x]); }
    }
    assert(lead(t) =~= w);
    assert(trail(t) =~= f);
    assert(number(w + f) == d.value) by {
        if d.scale == 0 { assert(w + f =~= g); }
        else if d.scale >= g.len() { assert(w + f =~= zeros(d.scale - g.len() + 1) + g); lemma_leading_zeros(d.scale - g.len() + 1, g); }
        else { assert(w + f =~= g); }
    }
}
