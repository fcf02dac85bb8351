@opt units math decimal
@opt term L07
@use math.vc
@opt assume dec mth
@opt arith
@src comp programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
@include map_shim.rs
@include machine.rs
@type comp::PoolToken
@type comp::GlobalState
@type comp::TickState
@type comp::PositionState
@type comp::GetInRangeOutput
@type comp::SwapWithinResult
@type comp::SwapOutput
@type pool::PositionKey nopartialeq derives=PartialEq+Eq+Hash
impl<'a> VxKey for PositionKey<'a> { type V = (Seq<char>, u128, u128); open spec fn kv(&self) -> (Seq<char>, u128, u128) { (self.0@, self.1, self.2) } }
@type pool::Pool
@include comp_spec.rs
@use comp.vc
@include pool_spec.rs
@impl impl<'a> Pool<'a>
@fn pool::Pool::glbl_liq
@requires
  !nopanic(),
@ensures
  r == self.global_state.liq,
@fn pool::Pool::add_glbl_liq
@args liq_to_add
@requires
  !nopanic(),
@ensures
  *final(self) == (Pool { global_state: final(self).global_state, ..*old(self) }),
  final(self).global_state == (GlobalState { liq: final(self).global_state.liq, ..old(self).global_state }),
  plus(old(self).global_state.liq, liq_to_add, final(self).global_state.liq) && sv(final(self).global_state.liq) >= 0,
@fn pool::Pool::glbl_tick
@requires
  !nopanic(),
@ensures
  r == self.global_state.tick,
@fn pool::Pool::set_glbl_tick
@args tick
@requires
  !nopanic(),
@ensures
  *final(self) == (Pool { global_state: GlobalState { tick, ..old(self).global_state }, ..*old(self) }),
@fn pool::Pool::glbl_rp
@requires
  !nopanic(),
@ensures
  r == self.global_state.rp,
@fn pool::Pool::set_glbl_rp
@args rp
@requires
  !nopanic(),
@ensures
  *final(self) == (Pool { global_state: GlobalState { rp, ..old(self).global_state }, ..*old(self) }),
@fn pool::Pool::glbl_fee
@args token, f_or_h
@requires
  !nopanic(),
@ensures
  kind_ok(token, f_or_h) && r == fg(self.global_state, kind(token, f_or_h)),
@fn pool::Pool::set_fee_glbl
@args token, f_or_h, fee
@requires
  !nopanic(),
@ensures
  kind_ok(token, f_or_h) && *final(self) == (Pool { global_state: fg_with(old(self).global_state, kind(token, f_or_h), fee), ..*old(self) }),
@fn pool::Pool::glbl_fees
@requires
  !nopanic(),
@ensures
  r == (fg(self.global_state, 0), fg(self.global_state, 1), fg(self.global_state, 2), fg(self.global_state, 3)),
@fn pool::Pool::tick_to_possible_tick
@args tick, left_to_right
@requires
  !nopanic(),
@ensures
  self.tick_spacing != 0 && r as int % self.tick_spacing as int == 0,
  !left_to_right ==> r <= tick && tick < r + self.tick_spacing,
  left_to_right ==> r >= tick && r < tick + self.tick_spacing,
@fn pool::Pool::rp_to_possible_tick
@args rp, left_to_right, start
@requires
  !nopanic(),
@ensures
  self.tick_spacing != 0 && r as int % self.tick_spacing as int == 0,
  !left_to_right ==> found_down(start, floor_tick(start, rp), rp) && r == down_to(floor_tick(start, rp), self.tick_spacing),
@entry
  proof { assert forall|t: u128| #[trigger] found_down(start, t, rp) implies floor_tick(start, rp) == t by { lemma_floor_tick(start, t, rp); } }
@fn pool::Pool::initialize_tick
@args tick
@requires
  !nopanic(),
@ensures
  *final(self) == (Pool { active_ticks: final(self).active_ticks, ..*old(self) }),
  final(self).a().contains_key(tick) && final(self).a() == old(self).a().insert(tick, final(self).a()[tick]),
  [L05] fresh_tick(*old(self), tick, final(self).a()[tick]),
@fn pool::Pool::unset_tick
@args tick
@requires
  !nopanic(),
@ensures
  *final(self) == (Pool { active_ticks: final(self).active_ticks, ..*old(self) }),
  final(self).a() == old(self).a().remove(tick),
@fn pool::Pool::update_tick
@args tick, liq_delta, upper
@requires
  !nopanic(),
@ensures
  *final(self) == (Pool { active_ticks: final(self).active_ticks, ..*old(self) }),
  [L01,L05] tick_updated(*old(self), final(self).a(), tick, liq_delta, upper),
@fn pool::Pool::cross_tick
@args provided_tick, left_to_right
@requires
  !nopanic(),
@ensures
  *final(self) == (Pool { active_ticks: final(self).active_ticks, global_state: final(self).global_state, ..*old(self) }),
  [L01,L05] crossed(*old(self), *final(self), provided_tick, left_to_right),
  [L07] left_to_right ==> final(self).t() == provided_tick,
  [L07] !left_to_right ==> final(self).t() < provided_tick,
@fn pool::Pool::position_count
@requires
  !nopanic(),
@ensures
  r == self.m().len(),
@fn pool::Pool::tick_count
@requires
  !nopanic(),
@ensures
  r == self.a().len(),
@fn pool::Pool::x_info
@requires
  !nopanic(),
@ensures
  r == (self.x, self.x_adj, self.x_fee),
@fn pool::Pool::y_info
@requires
  !nopanic(),
@ensures
  r == (self.y, self.y_adj, self.y_fee),
@fn pool::Pool::tick_keys_cloned
@args reverse
@requires
  !nopanic(),
@ensures
  keys_of(self.a(), r@),
  reverse ==> descending(r@),
  !reverse ==> ascending(r@),
@entry
  proof { assert forall|s: Seq<u128>| ascending(s) && #[trigger] keys_of(self.a(), s) implies descending(s.reverse()) && keys_of(self.a(), s.reverse()) by { lemma_reversed(self.a(), s); } }
@fn pool::Pool::get_left_limit_of_swap_within
@args start_t
@requires
  !nopanic(),
@ensures
  r is Some ==> self.a().contains_key(r->Some_0) && r->Some_0 <= start_t,
  [L07] r is Some ==> r->Some_0 <= self.t(),
  [L01,L03] r is Some && self.spaced() ==> (forall|t: u128| #[trigger] self.a().contains_key(t) && t <= start_t && t <= self.t() ==> t <= r->Some_0),
  [L01,L03] r is None && self.spaced() ==> (forall|t: u128| #[trigger] self.a().contains_key(t) ==> !(t <= start_t && t <= self.t())),
@entry
  proof { if self.spaced() { let s = self.tick_spacing as int; assert forall|t: u128, d: u128| #[trigger] self.a().contains_key(t) && (#[trigger] (d as int % s)) == 0 && d < t implies d + s <= t by { lemma_multiples(s, d as int, t as int); } } }
@loop 0
  invariant
    keys_of(self.a(), vx_col1@), descending(vx_col1@),
    forall|j: int| 0 <= j < vx_i1 ==> #[trigger] vx_col1@[j] > tick,
  decreases vx_col1.len() - vx_i1
@fn pool::Pool::get_right_limit_of_swap_within
@args start_t, glbl_tick
@requires
  !nopanic(),
@ensures
  r is Some ==> self.a().contains_key(r->Some_0),
  [L07] r is Some && self.spaced() ==> r->Some_0 > glbl_tick,
  [L01,L03] r is Some && self.spaced() ==> r->Some_0 > glbl_tick && (forall|t: u128| #[trigger] self.a().contains_key(t) && t > start_t && t > glbl_tick ==> t >= r->Some_0),
  [L01,L03] r is None && self.spaced() ==> (forall|t: u128| #[trigger] self.a().contains_key(t) ==> !(t > start_t && t > glbl_tick)),
@entry
  proof { if self.spaced() { let s = self.tick_spacing as int;
    assert forall|t: u128, d: u128| #[trigger] self.a().contains_key(t) && (#[trigger] (d as int % s)) == 0 && d < t implies d + s <= t by { lemma_multiples(s, d as int, t as int); } } }
@loop 0
  invariant
    keys_of(self.a(), vx_col1@), ascending(vx_col1@),
    forall|j: int| 0 <= j < vx_i1 ==> #[trigger] vx_col1@[j] <= start_tick,
  decreases vx_col1.len() - vx_i1
@loop 1
  invariant
    keys_of(self.a(), vx_col2@), ascending(vx_col2@),
    forall|j: int| 0 <= j < vx_i2 ==> #[trigger] vx_col2@[j] < start_tick,
  decreases vx_col2.len() - vx_i2
@fn pool::Pool::fee_below_above
@args tick, token, f_or_h
@requires
  !nopanic(),
@ensures
  [L05] kind_ok(token, f_or_h) && sv(r.0) == self.below(tick, kind(token, f_or_h)) && sv(r.1) == self.above(tick, kind(token, f_or_h)),
  self.shape() ==> c12(r.0) && c12(r.1),
@fn pool::Pool::fee_rng
@args lower_tick, upper_tick, token, f_or_h
@requires
  !nopanic(),
@ensures
  [L05] kind_ok(token, f_or_h) && sv(r) == self.inside(lower_tick, upper_tick, kind(token, f_or_h)),
  self.shape() ==> c12(r),
@fn pool::Pool::try_get_in_range
@args left_to_right
@requires
  !nopanic(),
  old(self).wf(),
@ensures
  [L01,L03,L05] travelled(*old(self), *final(self), left_to_right),
  [L07] if left_to_right { final(self).t() >= old(self).t() } else { final(self).t() <= old(self).t() },
  r.new_rp == final(self).global_state.rp,
  [L03] r.goal_tick is Some ==> sv(final(self).global_state.liq) > 0 && (if left_to_right { next_right(*final(self), r.goal_tick->Some_0) } else { next_left(*final(self), r.goal_tick->Some_0) }),
@loop 0
  invariant
    travelled(*old(self), *self, false),
    keys_of(old(self).a(), vx_col1@), descending(vx_col1@),
    forall|j: int| 0 <= j < vx_i1 ==> #[trigger] vx_col1@[j] > self.t(),
  decreases vx_col1.len() - vx_i1
@loopentry 0
  let ghost p0 = *self;
@at set_glbl_rp()
  let ghost p1 = *self;
@at cross_tick()
  proof { assert(next_left(p0, tk)); lemma_enter_left(p0, p1, *self, tk); lemma_travelled_trans(*old(self), p0, *self, false); }
@loop 1
  invariant
    travelled(*old(self), *self, true),
    keys_of(old(self).a(), vx_col2@), ascending(vx_col2@),
    forall|j: int| 0 <= j < vx_i2 ==> #[trigger] vx_col2@[j] <= self.t(),
  decreases vx_col2.len() - vx_i2
@loopentry 1
  let ghost p2 = *self;
@at set_glbl_rp()#1
  let ghost p3 = *self;
@at cross_tick()#1
  proof { assert(next_right(p2, tk)); lemma_enter_right(p2, p3, *self, tk); lemma_travelled_trans(*old(self), p2, *self, true); }
@fn pool::Pool::new
@args x_name, x_decimals, y_name, y_decimals, bootstrap_rp, tick_spacing, hmm_c, fee_rate
@requires
  !nopanic(),
@ensures
  fresh_pool(r),
  [L01,L02,L05,L06] r.wf() && r.solvent() && r.funded(),
  r.tick_spacing == tick_spacing && r.c == hmm_c && r.fee_rate == fee_rate,
  r.t() == down_to(floor_tick(0, bootstrap_rp), tick_spacing),
@entry
  proof { assert forall|t: u128| #[trigger] found_down(0, t, bootstrap_rp) implies floor_tick(0, bootstrap_rp) == t by { lemma_floor_tick(0, t, bootstrap_rp); } }
@exit
  proof { assert(fresh_pool(vx_r)); lemma_fresh_pool(vx_r); }
@fn pool::Pool::_set_position
@args user_id, lower_tick, upper_tick, liq_delta
@requires
  !nopanic(),
  old(self).wf(),
  lower_tick < upper_tick,
  lower_tick as int % old(self).tick_spacing as int == 0 && upper_tick as int % old(self).tick_spacing as int == 0,
@ensures
  *final(self) == (Pool { active_ticks: final(self).active_ticks, global_state: final(self).global_state, positions: final(self).positions, ..*old(self) }),
  [L01,L02,L05] final(self).global_state == (GlobalState { liq: final(self).global_state.liq, ..old(self).global_state }),
  [L01] final(self).wf(),
  [L04,L05] touched(*old(self), *final(self), (user_id@, lower_tick, upper_tick), sv(liq_delta)),
  [L05] kept_inside(*old(self), *final(self)),
  [L05] all4(|i: int| unpaid(*old(self), (user_id@, lower_tick, upper_tick), i) >= 0),
  [L05] sv(r.0) == due(*old(self), (user_id@, lower_tick, upper_tick), 0) && c12(r.0) && sv(r.0) >= 0,
  [L05] sv(r.1) == due(*old(self), (user_id@, lower_tick, upper_tick), 1) && c12(r.1) && sv(r.1) >= 0,
  [L05] sv(r.2) == due(*old(self), (user_id@, lower_tick, upper_tick), 2) && c12(r.2) && sv(r.2) >= 0,
  [L05] sv(r.3) == due(*old(self), (user_id@, lower_tick, upper_tick), 3) && c12(r.3) && sv(r.3) >= 0,
  [L06] all4(|i: int| final(self).owed(i) == old(self).owed(i) - earned(*old(self), (user_id@, lower_tick, upper_tick), i)),
  c12(liq_delta),
@attrs
#[verifier::rlimit(25)]
#[verifier::spinoff_prover]
@entry
  hide(Pool::books); hide(Pool::priced); hide(Pool::grown); hide(Pool::owed); hide(earned); hide(due); hide(touched); hide(tick_upd); hide(Pool::shape); hide(sv); hide(unpaid); hide(Pool::inside);
@at h_u_y
  let ghost k = (user_id@, lower_tick, upper_tick);
  proof {
    let g = *old(self);
    assert(g.m().contains_key(k) ==> pos_ok(g.tick_spacing, k, g.m()[k])) by { reveal(Pool::shape); }
    assert(c12(g.global_state.liq) && sv(g.global_state.liq) >= 0) by { reveal(Pool::shape); }
    assert(liq_of(g.m(), k) >= 0) by { reveal(sv); }
    assert(sv(base) == liq_of(g.m(), k) && base.scale == 12) by { reveal(sv); }
    assert(sv(f_u_x) == unpaid(g, k, 0) && sv(f_u_y) == unpaid(g, k, 1) && sv(h_u_x) == unpaid(g, k, 2) && sv(h_u_y) == unpaid(g, k, 3)) by { reveal(unpaid); }
    assert(c12(f_u_x) && c12(f_u_y) && c12(h_u_x) && c12(h_u_y));
    assert(liq_of(g.m(), k) + sv(liq_delta) >= 0) by { reveal(sv); }
  }
@at update_tick()
  let ghost a1 = self.a();
  proof {
    let g = *old(self);
    lemma_tick_upd_g(g.global_state, self.global_state, g.a(), self.a(), lower_tick, liq_delta, false);
    lemma_tick_upd_g(g.global_state, self.global_state, g.a(), self.a(), upper_tick, liq_delta, true);
    assert(c12(liq_delta)) by { reveal(tick_upd); reveal(Pool::shape); assert(g.a().contains_key(lower_tick) ==> tick_ok(g.a()[lower_tick])); assert(g.a().contains_key(upper_tick) ==> tick_ok(g.a()[upper_tick])); }
  }
@at update_tick()#1
  proof {
    let g = *old(self);
    assert(touched(g, *self, k, sv(liq_delta))) by { reveal(touched); reveal(sv); }
    lemma_tick_upd_g(g.global_state, self.global_state, a1, self.a(), lower_tick, liq_delta, false);
    lemma_tick_upd_g(g.global_state, self.global_state, a1, self.a(), upper_tick, liq_delta, true);
  }
@exit
  let ghost lower1 = tick_upd(old(self).global_state, old(self).a(), a1, lower_tick, liq_delta, false) && tick_upd(old(self).global_state, a1, self.a(), upper_tick, liq_delta, true);
  let ghost am = if lower1 { a1 } else { lower_first(old(self).a(), self.a(), lower_tick) };
  proof {
    assert(touched(*old(self), *self, k, sv(liq_delta))) by { reveal(touched); reveal(sv); }
    if !lower1 { lemma_lower_first(old(self).global_state, old(self).a(), a1, self.a(), lower_tick, upper_tick, liq_delta); }
    assert(position_set(*old(self), am, *self, k, liq_delta));
    lemma_position_set(*old(self), am, *self, k, liq_delta);
    lemma_priced_kept(*old(self), *self);
    lemma_due(*old(self), k, 0, base, f_u_x, vx_r.0);
    lemma_due(*old(self), k, 1, base, f_u_y, vx_r.1);
    lemma_due(*old(self), k, 2, base, h_u_x, vx_r.2);
    lemma_due(*old(self), k, 3, base, h_u_y, vx_r.3);
  }
@fn pool::Pool::deposit | group=L07
@args user_id, x, y, rpa, rpb
@requires
  !nopanic(),
  old(self).wf() && old(self).funded() && old(self).solvent(),
@ensures
  [L01] final(self).wf(),
  [L02] final(self).funded(),
  [L06] final(self).solvent(),
  [L04] only_position(*old(self), *final(self), (user_id@, lo_tick(old(self).tick_spacing, rpa), up_tick(old(self).tick_spacing, rpa, rpb)), sv(det_liq(x, y, old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb))))),
  [L04] sv(det_liq(x, y, old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb)))) >= 0,
  [L02] sv(final(self).x) == sv(old(self).x) + sv(det_x(det_liq(x, y, old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb))), old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb)))) && 0 <= sv(det_x(det_liq(x, y, old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb))), old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb)))) <= sv(x),
  [L02] sv(final(self).y) == sv(old(self).y) + sv(det_y(det_liq(x, y, old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb))), old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb)))) && 0 <= sv(det_y(det_liq(x, y, old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb))), old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb)))) <= sv(y),
  [L02,L05] paid(*old(self), *final(self), (user_id@, lo_tick(old(self).tick_spacing, rpa), up_tick(old(self).tick_spacing, rpa, rpb))),
  [L05] kept_inside(*old(self), *final(self)),
@attrs
#[verifier::rlimit(25)]
#[verifier::spinoff_prover]
@entry
  hide(Pool::books); hide(Pool::priced); hide(Pool::grown); hide(Pool::owed); hide(earned); hide(due); hide(touched); hide(Pool::shape); hide(unpaid); hide(Pool::inside); hide(kept_inside);
@at _set_position()
  let ghost s1 = *self;
  let ghost k = (user_id@, lower_tick, upper_tick);
@exit
  proof {
    lemma_range_prices(*old(self), lower_tick, upper_tick);
    assert(paid(*old(self), *self, k)); lemma_pay(*old(self), s1, *self, k, sv(liq)); }
@fn pool::Pool::withdraw | group=L07
@args user_id, liq, rpa, rpb
@requires
  !nopanic(),
  old(self).wf() && old(self).funded() && old(self).solvent(),
@ensures
  [L01] final(self).wf(),
  [L02] final(self).funded(),
  [L06] final(self).solvent(),
  [L04] only_position(*old(self), *final(self), (user_id@, lo_tick(old(self).tick_spacing, rpa), up_tick(old(self).tick_spacing, rpa, rpb)), -sv(liq)),
  [L04] sv(liq) >= 0,
  [L04] sv(liq) <= liq_of(old(self).m(), (user_id@, lo_tick(old(self).tick_spacing, rpa), up_tick(old(self).tick_spacing, rpa, rpb))),
  [L02] sv(final(self).x) == sv(old(self).x) - after_haircut(sv(det_x(liq, old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb))))),
  [L02] sv(final(self).y) == sv(old(self).y) - after_haircut(sv(det_y(liq, old(self).global_state.rp, rp_of(lo_tick(old(self).tick_spacing, rpa)), rp_of(up_tick(old(self).tick_spacing, rpa, rpb))))),
  [L02,L05] paid(*old(self), *final(self), (user_id@, lo_tick(old(self).tick_spacing, rpa), up_tick(old(self).tick_spacing, rpa, rpb))),
  [L05] kept_inside(*old(self), *final(self)),
@attrs
#[verifier::rlimit(25)]
#[verifier::spinoff_prover]
@entry
  hide(Pool::books); hide(Pool::priced); hide(Pool::grown); hide(Pool::owed); hide(earned); hide(due); hide(touched); hide(Pool::shape); hide(unpaid); hide(Pool::inside); hide(kept_inside);
@at _set_position()
  let ghost s1 = *self;
  let ghost k = (user_id@, lower_tick, upper_tick);
@exit
  proof {
    lemma_range_prices(*old(self), lower_tick, upper_tick);
    lemma_haircut(det_x(liq, rp_used, rpa_used, rpb_used), adj_factor, x_out);
    lemma_haircut(det_y(liq, rp_used, rpa_used, rpb_used), adj_factor, y_out);
    assert(sv(liq) <= liq_of(old(self).m(), k)) by { reveal(touched); }
    assert(paid(*old(self), *self, k)); lemma_pay(*old(self), s1, *self, k, -sv(liq)); }
@fn pool::Pool::swap_within_tick_from_x
@args start_rp, goal_tick, liq, dx, rp_oracle
@requires
  !nopanic(),
  nn(liq) && price(start_rp),
@ensures
  *final(self) == *old(self),
  [L03] within_x(*old(self), start_rp, goal_tick, liq, dx, rp_oracle, r),
  [L07] !r.cross ==> sv(r.recv_amount) + sv(r.recv_fee) == sv(dx),
  [L07] r.cross ==> r.end_tick == goal_tick,
@attrs
#[verifier::rlimit(40)]
#[verifier::spinoff_prover]
@entry
  proof { assert forall|t: u128| #[trigger] rp_ok(t, rp_of(t)) implies price(rp_of(t)) && sv(rp_of(t)) >= U by { lemma_rp_one(t, rp_of(t)); }
    assert forall|t: u128, s: u128, p: Decimal| #[trigger] found_down(s, t, p) implies floor_tick(s, p) == t by { lemma_floor_tick(s, t, p); } }
@at done_dy_cpmm
  proof { lemma_mul_tq(dx, fee_factor, dx_max); if cross { lemma_div_then_mul(done_dx, fee_factor, self.fee_rate, fee_x); } }
@fn pool::Pool::swap_within_tick_from_y
@args start_rp, goal_tick, liq, dy, rp_oracle
@requires
  !nopanic(),
  nn(liq) && price(start_rp) && goal_tick >= 1,
@ensures
  *final(self) == *old(self),
  [L03] within_y(*old(self), start_rp, goal_tick, liq, dy, rp_oracle, r),
  [L07] !r.cross ==> sv(r.recv_amount) + sv(r.recv_fee) == sv(dy),
  [L07] r.cross ==> r.end_tick == goal_tick,
@attrs
#[verifier::rlimit(40)]
#[verifier::spinoff_prover]
@entry
  proof { assert forall|t: u128| #[trigger] rp_ok(t, rp_of(t)) implies price(rp_of(t)) && sv(rp_of(t)) >= U by { lemma_rp_one(t, rp_of(t)); }
    assert forall|t: u128, s: u128, p: Decimal| #[trigger] found_down(s, t, p) implies floor_tick(s, p) == t by { lemma_floor_tick(s, t, p); } }
@at done_dx_cpmm
  proof { lemma_mul_tq(dy, fee_factor, dy_max); if cross { lemma_div_then_mul(done_dy, fee_factor, self.fee_rate, fee_y); } }
@fn pool::Pool::execute_swap_from_x | group=L07
@args dx, rp_oracle
@requires
  !nopanic(),
  old(self).wf() && old(self).funded() && old(self).solvent(),
@ensures
  [L01] final(self).wf(),
  [L02] final(self).funded(),
  [L06] final(self).solvent(),
  [L04] final(self).m() == old(self).m(),
  [L02] swap_frame(*old(self), *final(self), false) && tokens_swapped(*old(self), *final(self), false, flow_of(r)) && flow_ok(flow_of(r)),
  [L02] sv(r.recv_amount) <= sv(dx),
  [L03] went(*old(self), *final(self), false),
  [L03] unadjusted(*old(self), false, rp_oracle) ==> sv(r.send_hmm_adj) == 0,
  [L05] earning(*old(self), *final(self)) && growing(*old(self), *final(self)),
@attrs
#[verifier::rlimit(40)]
#[verifier::spinoff_prover]
@entry
  hide(Pool::books); hide(Pool::priced); hide(Pool::grown); hide(Pool::owed); hide(Pool::shape); hide(Pool::inside); hide(tokens_swapped);
  hide(earning); hide(growing); hide(travelled); hide(crossed); hide(Pool::spaced); hide(found_down); hide(floor_tick); hide(rp_ok); hide(swapped);
@loopbefore 0
  let ghost s0 = Flow { recv: swpd_dx, send: swpd_dy, adj: adjusted_dy, fee: total_fee_x };
  let ghost mut exact = true;
  proof { lemma_swap_start(*old(self), false, rp_oracle, s0); }
@loop 0
  invariant
    [L05] exact,
    swapped(*old(self), *self, false, rp_oracle, Flow { recv: swpd_dx, send: swpd_dy, adj: adjusted_dy, fee: total_fee_x }),
    curr_rp == self.global_state.rp,
    curr_t >= self.t(),
    sv(swpd_dx) <= sv(dx),
  decreases self.t(), sv(dx) - sv(swpd_dx)
@loopentry 0
  let ghost a0 = *self;
  let ghost s1 = Flow { recv: swpd_dx, send: swpd_dy, adj: adjusted_dy, fee: total_fee_x };
  proof { lemma_swapped(*old(self), a0, false, rp_oracle, s1); lemma_wf_facts(a0); }
  let ghost mut p0 = *self;
  let ghost mut q0 = *self;
  let ghost mut rz = arbitrary::<SwapWithinResult>();
@at try_get_in_range()
  proof { lemma_swap_travel(*old(self), a0, *self, false, rp_oracle, s1); p0 = *self; lemma_swapped(*old(self), p0, false, rp_oracle, s1); lemma_wf_facts(p0); }
@at rez#1
  proof { rz = rez; }
@at set_fee_glbl()#1
  proof { q0 = *self; }
@loopend 0
  proof { exact = exact && step_growth(p0, q0, false, sv(p0.global_state.liq), sv(rz.recv_fee), sv(rz.send_hmm_adj)); lemma_swap_step(*old(self), p0, q0, *self, false, goal_tick->Some_0, rp_oracle, rz, s1, Flow { recv: swpd_dx, send: swpd_dy, adj: adjusted_dy, fee: total_fee_x }); lemma_ahead(a0, p0, *self, rz, false, sv(dx), sv(s1.recv), sv(swpd_dx)); }
@exit
  proof { lemma_swapped(*old(self), *self, false, rp_oracle, Flow { recv: swpd_dx, send: swpd_dy, adj: adjusted_dy, fee: total_fee_x }); }
@fn pool::Pool::execute_swap_from_y | group=L07
@args dy, rp_oracle
@requires
  !nopanic(),
  old(self).wf() && old(self).funded() && old(self).solvent(),
@ensures
  [L01] final(self).wf(),
  [L02] final(self).funded(),
  [L06] final(self).solvent(),
  [L04] final(self).m() == old(self).m(),
  [L02] swap_frame(*old(self), *final(self), true) && tokens_swapped(*old(self), *final(self), true, flow_of(r)) && flow_ok(flow_of(r)),
  [L02] sv(r.recv_amount) <= sv(dy),
  [L03] went(*old(self), *final(self), true),
  [L03] unadjusted(*old(self), true, rp_oracle) ==> sv(r.send_hmm_adj) == 0,
  [L05] earning(*old(self), *final(self)) && growing(*old(self), *final(self)),
@attrs
#[verifier::rlimit(40)]
#[verifier::spinoff_prover]
@entry
  hide(Pool::books); hide(Pool::priced); hide(Pool::grown); hide(Pool::owed); hide(Pool::shape); hide(Pool::inside); hide(tokens_swapped);
  hide(earning); hide(growing); hide(travelled); hide(crossed); hide(Pool::spaced); hide(found_down); hide(floor_tick); hide(rp_ok); hide(swapped);
@loopbefore 0
  let ghost s0 = Flow { recv: swpd_dy, send: swpd_dx, adj: adjusted_dx, fee: total_fee_y };
  let ghost mut exact = true;
  proof { lemma_swap_start(*old(self), true, rp_oracle, s0); }
@loop 0
  invariant
    [L05] exact,
    swapped(*old(self), *self, true, rp_oracle, Flow { recv: swpd_dy, send: swpd_dx, adj: adjusted_dx, fee: total_fee_y }),
    curr_rp == self.global_state.rp,
    curr_t <= self.t(),
    sv(swpd_dy) <= sv(dy),
  decreases u128::MAX - self.t(), sv(dy) - sv(swpd_dy)
@loopentry 0
  let ghost a0 = *self;
  let ghost s1 = Flow { recv: swpd_dy, send: swpd_dx, adj: adjusted_dx, fee: total_fee_y };
  proof { lemma_swapped(*old(self), a0, true, rp_oracle, s1); lemma_wf_facts(a0); }
  let ghost mut p0 = *self;
  let ghost mut q0 = *self;
  let ghost mut rz = arbitrary::<SwapWithinResult>();
@at try_get_in_range()
  proof { lemma_swap_travel(*old(self), a0, *self, true, rp_oracle, s1); p0 = *self; lemma_swapped(*old(self), p0, true, rp_oracle, s1); lemma_wf_facts(p0); }
@at rez#1
  proof { rz = rez; }
@at set_fee_glbl()#1
  proof { q0 = *self; }
@loopend 0
  proof { exact = exact && step_growth(p0, q0, true, sv(p0.global_state.liq), sv(rz.recv_fee), sv(rz.send_hmm_adj)); lemma_swap_step(*old(self), p0, q0, *self, true, goal_tick->Some_0, rp_oracle, rz, s1, Flow { recv: swpd_dy, send: swpd_dx, adj: adjusted_dx, fee: total_fee_y }); lemma_ahead(a0, p0, *self, rz, true, sv(dy), sv(s1.recv), sv(swpd_dy)); }
@exit
  proof { lemma_swapped(*old(self), *self, true, rp_oracle, Flow { recv: swpd_dy, send: swpd_dx, adj: adjusted_dx, fee: total_fee_y }); }
@endimpl
