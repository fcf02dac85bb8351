@impl impl<'a> PoolToken<'a>
@fn comp::PoolToken::new
@args name, decimals
@requires
  !nopanic(),
@endimpl
@impl impl GlobalState
@fn comp::GlobalState::new
@args liq, rp, tick, fg_x, fg_y, hg_x, hg_y
@requires
  !nopanic(),
@ensures
  r == (GlobalState { liq, rp, tick, fg_x, fg_y, hg_x, hg_y }),
  !dneg(liq) && !dneg(rp) && !dneg(fg_x) && !dneg(fg_y) && !dneg(hg_x) && !dneg(hg_y),
@fn comp::GlobalState::liq
@requires
  !nopanic(),
@ensures
  r == self.liq,
@fn comp::GlobalState::rp
@requires
  !nopanic(),
@ensures
  r == self.rp,
@fn comp::GlobalState::tick
@requires
  !nopanic(),
@ensures
  r == self.tick,
@fn comp::GlobalState::add_liq
@args liq_to_add
@requires
  !nopanic(),
@ensures
  *final(self) == (GlobalState { liq: final(self).liq, ..*old(self) }),
  plus(old(self).liq, liq_to_add, final(self).liq),
  sv(final(self).liq) >= 0,
@fn comp::GlobalState::set_rp
@args rp
@requires
  !nopanic(),
@ensures
  *final(self) == (GlobalState { rp, ..*old(self) }),
@fn comp::GlobalState::set_tick
@args tick
@requires
  !nopanic(),
@ensures
  *final(self) == (GlobalState { tick, ..*old(self) }),
@fn comp::GlobalState::fee
@args token, f_or_h
@requires
  !nopanic(),
@ensures
  kind_ok(token, f_or_h) && r == fg(*self, kind(token, f_or_h)),
@fn comp::GlobalState::set_fee
@args token, f_or_h, fee
@requires
  !nopanic(),
@ensures
  kind_ok(token, f_or_h) && *final(self) == fg_with(*old(self), kind(token, f_or_h), fee),
@fn comp::GlobalState::all_fees
@requires
  !nopanic(),
@ensures
  r == (fg(*self, 0), fg(*self, 1), fg(*self, 2), fg(*self, 3)),
@endimpl
@impl impl TickState
@fn comp::TickState::new
@args liq_net, liq_gross, f0_x, f0_y, h0_x, h0_y
@requires
  !nopanic(),
@ensures
  r == (TickState { liq_net, liq_gross, f0_x, f0_y, h0_x, h0_y }),
  !dneg(liq_gross) && !dneg(f0_x) && !dneg(f0_y) && !dneg(h0_x) && !dneg(h0_y),
@fn comp::TickState::liq_net
@requires
  !nopanic(),
@ensures
  r == self.liq_net,
@fn comp::TickState::add_liq_net
@args liq_net_to_add
@requires
  !nopanic(),
@ensures
  *final(self) == (TickState { liq_net: final(self).liq_net, ..*old(self) }),
  plus(old(self).liq_net, liq_net_to_add, final(self).liq_net),
@fn comp::TickState::liq_gross
@requires
  !nopanic(),
@ensures
  r == self.liq_gross,
@fn comp::TickState::add_liq_gross
@args liq_gross_to_add
@requires
  !nopanic(),
@ensures
  *final(self) == (TickState { liq_gross: final(self).liq_gross, ..*old(self) }),
  plus(old(self).liq_gross, liq_gross_to_add, final(self).liq_gross),
  sv(final(self).liq_gross) >= 0,
@fn comp::TickState::fee
@args token, f_or_h
@requires
  !nopanic(),
@ensures
  kind_ok(token, f_or_h) && r == f0(*self, kind(token, f_or_h)),
@fn comp::TickState::set_fee
@args token, f_or_h, fee
@requires
  !nopanic(),
@ensures
  kind_ok(token, f_or_h) && *final(self) == f0_with(*old(self), kind(token, f_or_h), fee),
@fn comp::TickState::all_fees
@requires
  !nopanic(),
@ensures
  r == (f0(*self, 0), f0(*self, 1), f0(*self, 2), f0(*self, 3)),
@endimpl
@impl impl PositionState
@fn comp::PositionState::new
@args liq, fr_x, fr_y, hr_x, hr_y
@requires
  !nopanic(),
@ensures
  r == (PositionState { liq, fr_x, fr_y, hr_x, hr_y }),
  !dneg(liq),
@fn comp::PositionState::liq
@requires
  !nopanic(),
@ensures
  r == self.liq,
@fn comp::PositionState::add_liq
@args liq_to_add
@requires
  !nopanic(),
@ensures
  *final(self) == (PositionState { liq: final(self).liq, ..*old(self) }),
  plus(old(self).liq, liq_to_add, final(self).liq),
  sv(final(self).liq) >= 0,
@fn comp::PositionState::fee
@args token, f_or_h
@requires
  !nopanic(),
@ensures
  kind_ok(token, f_or_h) && r == fr(*self, kind(token, f_or_h)),
@fn comp::PositionState::set_fee
@args token, f_or_h, fee
@requires
  !nopanic(),
@ensures
  kind_ok(token, f_or_h) && *final(self) == fr_with(*old(self), kind(token, f_or_h), fee),
@fn comp::PositionState::all_fees
@requires
  !nopanic(),
@ensures
  r == (fr(*self, 0), fr(*self, 1), fr(*self, 2), fr(*self, 3)),
@endimpl
@impl impl GetInRangeOutput
@fn comp::GetInRangeOutput::new
@args goal_tick, new_rp
@requires
  !nopanic(),
@ensures
  r == (GetInRangeOutput { goal_tick, new_rp }),
  !dneg(new_rp),
@fn comp::GetInRangeOutput::goal_tick
@requires
  !nopanic(),
@ensures
  r == self.goal_tick,
@fn comp::GetInRangeOutput::new_rp
@requires
  !nopanic(),
@ensures
  r == self.new_rp,
@endimpl
@impl impl SwapWithinResult
@fn comp::SwapWithinResult::new
@args recv_amount, send_amount, end_tick, end_rp, cross, send_hmm_adj, recv_fee
@requires
  !nopanic(),
@ensures
  r == (SwapWithinResult { recv_amount, send_amount, end_tick, end_rp, cross, send_hmm_adj, recv_fee }),
  [L03] !dneg(recv_amount) && !dpos(send_amount) && !dneg(send_hmm_adj) && !dneg(recv_fee) && !dneg(end_rp),
@fn comp::SwapWithinResult::recv_amount
@requires
  !nopanic(),
@ensures
  r == self.recv_amount,
@fn comp::SwapWithinResult::send_amount
@requires
  !nopanic(),
@ensures
  r == self.send_amount,
@fn comp::SwapWithinResult::end_tick
@requires
  !nopanic(),
@ensures
  r == self.end_tick,
@fn comp::SwapWithinResult::end_rp
@requires
  !nopanic(),
@ensures
  r == self.end_rp,
@fn comp::SwapWithinResult::cross
@requires
  !nopanic(),
@ensures
  r == self.cross,
@fn comp::SwapWithinResult::send_hmm_adj
@requires
  !nopanic(),
@ensures
  r == self.send_hmm_adj,
@fn comp::SwapWithinResult::recv_fee
@requires
  !nopanic(),
@ensures
  r == self.recv_fee,
@endimpl
@impl impl SwapOutput
@fn comp::SwapOutput::new
@args recv_amount, send_amount, send_hmm_adj, recv_fee, avg_price, end_price
@requires
  !nopanic(),
@ensures
  r == (SwapOutput { recv_amount, send_amount, send_hmm_adj, recv_fee, avg_price, end_price }),
  [L03] !dneg(recv_amount) && !dpos(send_amount) && !dneg(send_hmm_adj) && !dneg(recv_fee),
@fn comp::SwapOutput::recv_amount
@requires
  !nopanic(),
@ensures
  r == self.recv_amount,
@fn comp::SwapOutput::send_amount
@requires
  !nopanic(),
@ensures
  r == self.send_amount,
@fn comp::SwapOutput::send_hmm_adj
@requires
  !nopanic(),
@ensures
  r == self.send_hmm_adj,
@fn comp::SwapOutput::recv_fee
@requires
  !nopanic(),
@ensures
  r == self.recv_fee,
@fn comp::SwapOutput::avg_price
@requires
  !nopanic(),
@ensures
  r == self.avg_price,
@fn comp::SwapOutput::end_price
@requires
  !nopanic(),
@ensures
  r == self.end_price,
@endimpl
