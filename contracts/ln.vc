@opt units decimal
@opt assume dec
@opt arith 1
@opt index 1
@opt ranges 1
@opt div 1
@use decimal.vc
@src lnx programs/hmmcl-sandbox/src/decimal.rs
@include machine.rs
@include ln_spec.rs
@include ln_table.rs
@include ln_shim.rs
@include ln_top.rs
@pathmap lnx arr2 => vx_arr2
@fn lnx::log_table
@args row, col
@requires
  nopanic() ==> row < 9 && col < 10,
@ensures
  [D09] row < 9 && col < 10 ==> log_12(r as int, row + 1, 2 * place(col as int) + row + 1, 2) && r <= 700_000_000_000,
@entry
  hide(log_12);
@exit
  proof {
    if row < 9 && col < 10 {
      lemma_entry(row as int, col as int);
      assert(entry(row as int, col as int) - 1 <= vx_r <= entry(row as int, col as int) + 1);
    }
  }
@fn lnx::log_table_value
@args s_value, t_value, log_table_col
@requires
  nopanic() ==> step_ok(s_value, t_value, log_table_col as int),
@ensures
  [D09] fits(s_value.value * den(t_value)) && t_value.value > 0,
  [D09] step_in(s_value, t_value) ==> r.0.value == step_q(s_value, t_value) && r.0.scale == 12 && !dneg(r.0),
  [D09] step_ok(s_value, t_value, log_table_col as int) ==> step_out(step_q(s_value, t_value), log_table_col as int, r.1, r.2 as int),
@entry
  proof {
    if step_ok(s_value, t_value, log_table_col as int) { lemma_digits(step_q(s_value, t_value), log_table_col as int); }
  }
  let ghost (s0, t0, c0) = (s_value, t_value, log_table_col as int);
@exit
  proof {
    if step_ok(s0, t0, c0) {
      let q = step_q(s0, t0);
      let g = q / unit_of(c0);
      let m = g - place(c0);
      assert(vx_r.0.value == q);
      lemma_next(q, g * unit_of(c0), unit_of(c0));
      assert(vx_r.1.value == g * unit_of(c0));
      assert(m == 0 ==> vx_r.2 == 0);
      assert(m > 0 ==> log_12(vx_r.2 as int, m, 2 * place(c0) + m, 2));
    }
  }
@fn lnx::log2_floor
@args value
@requires
  nopanic() ==> fits(den(value) as int) && value.value > 0,
@ensures
  [D09] value.value > 0 && r.scale == 0,
  [D09] !dneg(r) ==> pow(2, r.value as nat) * den(value) <= value.value < 2 * pow(2, r.value as nat) * den(value),
  [D09] dneg(r) ==> den(value) <= value.value * pow(2, r.value as nat) < 2 * den(value),
  [D09] r.value <= 128,
@exit
  proof {
    let (d, v) = (den(value) as int, value.value as int);
    if v > 0 {
      lemma_halves(v, d, vx_r.value as nat);
    }
  }
@impl impl Ln<Decimal> for Decimal
open spec fn ln_req(self) -> bool { nopanic() ==> dneg(self) || ln_dom(self) }
@fn lnx::Ln<Decimal> for Decimal::ln | traitimpl novis
@ensures
  [D09] dneg(self) ==> r is Err,
  [D09] ln_dom(self) && !dneg(self) ==> r is Ok,
  [D09] r is Ok ==> ln_result(self, r->Ok_0),
@entry
  hide(log_12);
  proof { lemma_nonzero(self); if ln_dom(self) { p10_pos((12 - self.scale) as nat); lemma_dom(self); } }
@at bit_length_decimal
  proof {
    if scaled_out.value > 0 { lemma_start(scaled_out.value as int, bit_length_decimal.value as nat, dneg(bit_length_decimal)); }
  }
@exit
  proof {
    if vx_r is Ok {
      let (x, n, up) = (scaled_out.value as int, bit_length_decimal.value as nat, dneg(bit_length_decimal));
      assert(power.value == pow(2, n));
      assert(!scaled_out.negative);
      assert(power.value != 0 && !power.negative);
      assert(scaled.scale == 12 && max.scale == 12);
      assert(max.value > 0);
      assert(!dneg(max));
      assert(!dneg(scaled));
      assert(scaled.scale == 12 && max.scale == 12 && max.value > 0 && !dneg(scaled) && !dneg(max));
      assert(fits(scaled.value * U12));
      assert(step_q(scaled, max) == if up { x * pow(2, n) } else { x / pow(2, n) });
      assert(step_ok(scaled, max, 0));
      let next = (_s_9.value * U12) / (_t_9.value as int);
      let w = if up { lx_sum - 693147180559 * n } else { lx_sum + 693147180559 * n };
      assert forall|l: spec_fn(real) -> real| #[trigger] is_log(l) implies (w - 180) as real <= elog(l, x) && elog(l, x) <= (w + 180) as real by {
        lemma_digit(s_0.value as int, 0, t_0, lx_0 as int, l);
        lemma_digit(s_1.value as int, 1, t_1, lx_1 as int, l);
        lemma_digit(s_2.value as int, 2, t_2, lx_2 as int, l);
        lemma_digit(s_3.value as int, 3, t_3, lx_3 as int, l);
        lemma_digit(s_4.value as int, 4, t_4, lx_4 as int, l);
        lemma_digit(s_5.value as int, 5, t_5, lx_5 as int, l);
        lemma_digit(s_6.value as int, 6, t_6, lx_6 as int, l);
        lemma_digit(s_7.value as int, 7, t_7, lx_7 as int, l);
        lemma_digit(s_8.value as int, 8, t_8, lx_8 as int, l);
        lemma_digit(_s_9.value as int, 9, _t_9, lx_9 as int, l);
        lemma_sum(x, n, up, s_0.value as int, next, lx_sum as int, w, l);
      }
      assert(ln_near(w, x));
      assert((693147180559 * bit_length_decimal.value) / 1 == 693147180559 * bit_length_decimal.value);
      assert((ln_2_decimal.value * bit_length_decimal.value) / (den(bit_length_decimal) as int) == 693147180559 * n);
      assert(sv(lx_sum_decimal) == lx_sum && lx_sum <= 7_000_000_000_000);
      assert(mag(w) <= 100_000_000_000_000);
      let o = vx_r->Ok_0;
      let tot = Decimal { value: mag(w) as u128, scale: 12, negative: false };
      assert(tot.value == mag(w));
      assert(o.scale == self.scale);
      assert(o.value == to_scale_val(tot, self.scale));
      assert(w == 0 ==> o.value == 0) by { lemma_zero_cut(tot, self.scale); }
      assert(signed(o, w < 0));
    }
  }
@endimpl
