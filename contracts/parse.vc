@opt units decimal
@opt assume dec
@opt strings 1
@opt arith 1
@use decimal.vc
@src prs programs/hmmcl-sandbox/src/decimal.rs
@include machine.rs
@include parse_spec.rs
@include parse_shim.rs
@pathmap prs i64::from_str => vx_i64_from_str
@pathmap prs i32::from_str => vx_i32_from_str
@pathmap prs i128::from_str => vx_i128_from_str
@pathmap prs u128::from_str_radix => vx_u128_from_str_radix
@pathmap prs u128::from_str => vx_u128_from_str
@pathmap prs String::new => vx_string_new
@pathmap prs String::from => vx_string_from
@pathmap prs String::with_capacity => vx_with_capacity
@pathmap prs repeat => vx_repeat
@pathmap prs iter::repeat => vx_repeat
@typemap fmt::Formatter => VxFmt
@typemap fmt::Error => VxFmtError
@impl impl Decimal
@fn prs::Decimal::from_str_radix
@args s, radix
@requires
  nopanic() ==> radix == 10 && plain_ok(sb(s)),
@ensures
  [D08] radix == 10 && well_formed(sb(s)) && r is Ok ==> denotes(r->Ok_0, mant(base_of(sb(s))), exp_of(sb(s)) - trail(base_of(sb(s))).len()),
  [D08] radix == 10 && well_formed(sb(s)) && r is Ok ==> signed(r->Ok_0, minus(base_of(sb(s)))),
  [D08] radix == 10 && no_exp(sb(s)) && wf_num(sb(s)) && r is Ok ==> exactly(r->Ok_0, sb(s)),
  [D08] radix == 10 && plain_ok(sb(s)) ==> r is Ok,
@decreases
  sb(s).len(), 0int
@attrs
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
@entry
  hide(e_at); hide(dot_at); hide(number); hide(unsigned); hide(lead); hide(trail); hide(denotes);
  broadcast use vx_where::strings;
@at base#0
  assert(base.b() == base_of(sb(s)));
  assert(exp == exp_of(sb(s)) || !well_formed(sb(s)));
@at base#2
  let ghost b0 = base_of(sb(s));
  assert(wf_num(b0) ==> wf_num(base.b()) && !minus(base.b()) && mant(base.b()) == mant(b0) && trail(base.b()) == trail(b0));
  assert(wf_num(b0) ==> negative == minus(b0));
@at digits
  proof {
    if wf_num(base_of(sb(s))) { assert(wf_num(base.b())); lemma_joined(base.b()); assert(digits.b() =~= joined(base.b())); }
  }
@exit
  proof {
    if well_formed(sb(s)) && vx_r is Ok {
      let (m, f, d) = (mant(base.b()), trail(base.b()).len() as int, vx_r->Ok_0);
      assert(f == decimal_offset);
      if exp + d.scale == f { lemma_as_written(d, m, exp - f); }
      else {
        let a = Decimal { value: m as u128, scale: f as u8, negative: false };
        assert(a.value == m && a.scale == f);
        lemma_widened(d, a, exp as int);
      }
    }
  }
@fn prs::FromStr for Decimal::from_str
@args s
@requires
  nopanic() ==> plain_ok(sb(s)),
@ensures
  [D08] well_formed(sb(s)) && r is Ok ==> denotes(r->Ok_0, mant(base_of(sb(s))), exp_of(sb(s)) - trail(base_of(sb(s))).len()),
  [D08] well_formed(sb(s)) && r is Ok ==> signed(r->Ok_0, minus(base_of(sb(s)))),
  [D08] no_exp(sb(s)) && wf_num(sb(s)) && r is Ok ==> exactly(r->Ok_0, sb(s)),
  [D08] plain_ok(sb(s)) ==> r is Ok,
@decreases
  sb(s).len(), 1int
@fn prs::Display for Decimal::fmt
@args f
@ensures
  [D08] old(f).plain@ && r is Ok ==> final(f).out@.len() >= old(f).out@.len() && final(f).out@.take(old(f).out@.len() as int) == old(f).out@,
  [D08] old(f).plain@ && r is Ok ==> reads_as(final(f).out@.skip(old(f).out@.len() as int), *self),
@entry
  proof { lemma_dec_digits(self.value as nat); }
@exit
  proof { lemma_text(*self); assert(rep.b() =~= whole(*self) + point(*self)); assert(old(f).plain@ && vx_r is Ok ==> f.out@ =~= old(f).out@ + text(*self) && f.out@.skip(old(f).out@.len() as int) =~= text(*self) && f.out@.take(old(f).out@.len() as int) =~= old(f).out@); }
@endimpl
