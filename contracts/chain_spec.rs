// ---- the accounts of the program and what its instructions do to them ------------
impl VxAcc for PoolState { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }
impl VxAcc for PositionState { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }
impl VxAcc for TickState { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }
impl VxInto<VxFail> for ProgErr {
    open spec fn vx_into_req(self) -> bool { true }
    open spec fn vx_into_post(self, r: VxFail) -> bool { true }
    fn vx_into(self) -> (r: VxFail) { VxFail }
}
impl VxInto<VxFail> for ErrorCode {
    open spec fn vx_into_req(self) -> bool { true }
    open spec fn vx_into_post(self, r: VxFail) -> bool { true }
    fn vx_into(self) -> (r: VxFail) { VxFail }
}

// -- fees
pub open spec fn kf(f: Fee, i: int) -> u128 { if i == 0 { f.f_x } else if i == 1 { f.f_y } else if i == 2 { f.h_x } else { f.h_y } }
/// growth on the near side of a tick is the stored outside growth, on the far side the rest
pub open spec fn below(tick: u64, cur: u64, g: int, o: int) -> int { if cur >= tick { o } else { g - o } }
pub open spec fn above(tick: u64, cur: u64, g: int, o: int) -> int { if cur >= tick { g - o } else { o } }
pub open spec fn inside(lo: u64, hi: u64, cur: u64, g: int, l: int, u: int) -> int { g - below(lo, cur, g, l) - above(hi, cur, g, u) }
pub open spec fn dec_nn(v: int, scale: u8) -> Decimal { Decimal { value: v as u128, scale, negative: false } }
/// the growth inside the range, for each token and kind, at the scale asked for
pub open spec fn fee_rule(lo: u64, hi: u64, cur: u64, g: Fee, l: Fee, u: Fee, scale: u8, r: Fee) -> bool {
    r.fee_scale == scale
    && forall|i: int| #![trigger kf(r, i)] 0 <= i < 4 ==> ({
        let n = inside(lo, hi, cur, kf(g, i) as int, kf(l, i) as int, kf(u, i) as int);
        n >= 0 ==> n <= u128::MAX && kf(r, i) == to_scale_val(dec_nn(n, g.fee_scale), scale)
    })
}
/// both kinds of fee of a token together, at scale 12
pub open spec fn fee12(a: u128, b: u128, scale: u8) -> int { to_scale_val(dec_nn(a + b, scale), 12) }

// -- liquidity
pub open spec fn t_net(t: TickState) -> int { if t.liq_net_neg != 0 { -(t.liq_net as int) } else { t.liq_net as int } }
pub open spec fn t12(t: TickState) -> bool { t.liq_net_scale == 12 && t.liq_gross_scale == 12 }
pub open spec fn tick_frame(o: TickState, n: TickState) -> bool {
    n == (TickState { liq_net: n.liq_net, liq_net_scale: n.liq_net_scale, liq_net_neg: n.liq_net_neg, liq_gross: n.liq_gross, liq_gross_scale: n.liq_gross_scale, ..o })
}
/// gross liquidity moves by d, net liquidity by e
pub open spec fn tick_moved(o: TickState, n: TickState, d: int, e: int) -> bool {
    t12(o) ==> t12(n) && n.liq_gross == o.liq_gross + d && t_net(n) == t_net(o) + e
}
pub open spec fn pos_frame(o: PositionState, n: PositionState) -> bool {
    n == (PositionState { liquidity: n.liquidity, liq_scale: n.liq_scale, last_collected_fee: n.last_collected_fee, ..o })
}
pub open spec fn pos_moved(o: PositionState, n: PositionState, d: int) -> bool {
    o.liq_scale == 12 ==> n.liq_scale == 12 && n.liquidity == o.liquidity + d
}
pub open spec fn pool_frame(o: PoolState, n: PoolState) -> bool {
    n == (PoolState { pool_global_state: GlobalState { liquidity: n.pool_global_state.liquidity, liq_scale: n.pool_global_state.liq_scale, ..o.pool_global_state }, ..o })
}
pub open spec fn pool_moved(o: PoolState, n: PoolState, d: int) -> bool {
    o.pool_global_state.liq_scale == 12 ==> n.pool_global_state.liq_scale == 12 && n.pool_global_state.liquidity == o.pool_global_state.liquidity + d
}
pub open spec fn in_range(lo: u64, hi: u64, cur: u64) -> bool { lo <= cur && cur < hi }
/// the scales that the program itself gives to its accounts
pub open spec fn scales12(p: PoolState, q: PositionState, l: TickState, u: TickState) -> bool {
    p.pool_global_state.liq_scale == 12 && q.liq_scale == 12 && t12(l) && t12(u)
}
pub open spec fn books(po: PoolState, pn: PoolState, qo: PositionState, qn: PositionState, lo: TickState, ln: TickState, uo: TickState, un: TickState,
    lower: u64, upper: u64, cur: u64, d: int) -> bool
{
    pos_moved(qo, qn, d) && tick_moved(lo, ln, d, d) && tick_moved(uo, un, d, -d) && pool_moved(po, pn, if in_range(lower, upper, cur) { d } else { 0 })
}
pub open spec fn frames(po: PoolState, pn: PoolState, qo: PositionState, qn: PositionState, lo: TickState, ln: TickState, uo: TickState, un: TickState) -> bool {
    pos_frame(qo, qn) && tick_frame(lo, ln) && tick_frame(uo, un) && pool_frame(po, pn)
}

// -- deposits
/// the root prices of the ticks could be computed: they are at least one
pub open spec fn priced(lower: u64, upper: u64, cur: u64) -> bool { U <= rpv(lower) < rpv(upper) && U <= rpv(cur) }
pub proof fn lemma_rp_floor(t: u128, r: Decimal)
    requires rp_ok(t, r),
    ensures sv(r) >= U,
{
    if t >= 1 {
        lemma_tick_max(t, r);
        let v = rp_base().value as int;
        let q = (t - 1) as nat;
        let (vq, uq) = (pow(v, q), pow(U, q));
        assert(pow(v, t as nat) == v * vq) by { reveal_with_fuel(pow, 2); };
        lemma_pow_positive(U, q); lemma_pow_positive(v, q);
        let w = v - q;
        assert(v * vq - q * vq == w * vq) by (nonlinear_arith) requires w == v - q;
        assert(r.value * uq >= w * vq);
        assert(w > U);
        lemma_ipow_mono(U, v, q);
        assert(w * vq > U * uq) by (nonlinear_arith) requires w > U, vq >= uq, uq >= 1;
        assert(r.value > U) by (nonlinear_arith) requires r.value * uq > U * uq, uq >= 1;
    }
}
pub open spec fn rpv(t: u64) -> int { sv(rp_of(t as u128)) }
pub open spec fn dep_delta(o: Deposit, n: Deposit) -> int { n.position_state.liquidity - o.position_state.liquidity }
pub open spec fn dep_rest(o: Deposit, n: Deposit) -> bool {
    n == (Deposit { pool_state: n.pool_state, position_state: n.position_state, lower_tick_state: n.lower_tick_state, upper_tick_state: n.upper_tick_state, ..o })
}
pub open spec fn dep_books(o: Deposit, n: Deposit, lower: u64, upper: u64, cur: u64) -> bool {
    scales12(o.pool_state, o.position_state, o.lower_tick_state, o.upper_tick_state) ==> dep_delta(o, n) >= 0
        && books(o.pool_state, n.pool_state, o.position_state, n.position_state, o.lower_tick_state, n.lower_tick_state, o.upper_tick_state, n.upper_tick_state, lower, upper, cur, dep_delta(o, n))
}
/// what is debited covers what the liquidity is worth less the fees, and stays within the offer
pub open spec fn debit_ok(paid: u64, offer: u64, worth: int, fees: int) -> bool {
    worth >= fees ==> paid * U >= worth - fees && paid <= offer
}
pub open spec fn debit_x(paid: u64, offer: u64, d: int, fees: int, lower: u64, upper: u64, cur: u64) -> bool {
    exists|w: int| #[trigger] x_amt_low(w, d, rpv(cur), rpv(lower), rpv(upper)) && debit_ok(paid, offer, w, fees)
}
pub open spec fn debit_y(paid: u64, offer: u64, d: int, fees: int, lower: u64, upper: u64, cur: u64) -> bool {
    exists|w: int| #[trigger] y_amt_low(w, d, rpv(cur), rpv(lower), rpv(upper)) && debit_ok(paid, offer, w, fees)
}
pub open spec fn dep_paid(o: Deposit, n: Deposit, ol: vstd::multiset::Multiset<VxCpi>, nl: vstd::multiset::Multiset<VxCpi>, lower: u64, upper: u64, cur: u64, x: u64, y: u64) -> bool {
    let f = n.position_state.last_collected_fee;
    let d = dep_delta(o, n);
    o.position_state.liq_scale == 12 ==> exists|m: u64, a: u64, b: u64|
        #![trigger dep_log(o, ol, m, a, b)]
        nl == dep_log(o, ol, m, a, b) && m == d / U
        && debit_x(a, x, d, fee12(f.f_x, f.h_x, f.fee_scale), lower, upper, cur)
        && debit_y(b, y, d, fee12(f.f_y, f.h_y, f.fee_scale), lower, upper, cur)
}
pub open spec fn dep_log(o: Deposit, l: vstd::multiset::Multiset<VxCpi>, m: u64, a: u64, b: u64) -> vstd::multiset::Multiset<VxCpi> {
    l.insert(VxCpi::MintTo { mint: *o.lp_token_mint.info.key, to: *o.lp_token_to.info.key, authority: *o.pool_state.info.key, amount: m })
     .insert(VxCpi::Transfer { from: *o.user_token_x.info.key, to: *o.token_x_vault.info.key, authority: *o.user.info.key, amount: a })
     .insert(VxCpi::Transfer { from: *o.user_token_y.info.key, to: *o.token_y_vault.info.key, authority: *o.user.info.key, amount: b })
}
/// the part of it that protects the others: what is taken covers the liquidity less the fees, the LP tokens do not exceed it
pub open spec fn took_x(paid: u64, d: int, fees: int, lower: u64, upper: u64, cur: u64) -> bool {
    exists|w: int| #[trigger] x_amt_low(w, d, rpv(cur), rpv(lower), rpv(upper)) && (w >= fees ==> paid * U >= w - fees)
}
pub open spec fn took_y(paid: u64, d: int, fees: int, lower: u64, upper: u64, cur: u64) -> bool {
    exists|w: int| #[trigger] y_amt_low(w, d, rpv(cur), rpv(lower), rpv(upper)) && (w >= fees ==> paid * U >= w - fees)
}
pub open spec fn dep_flow(o: Deposit, n: Deposit, ol: vstd::multiset::Multiset<VxCpi>, nl: vstd::multiset::Multiset<VxCpi>, lower: u64, upper: u64, cur: u64, m: u64, a: u64, b: u64) -> bool {
    let f = n.position_state.last_collected_fee;
    let d = dep_delta(o, n);
    o.position_state.liq_scale == 12 ==> nl == dep_log(o, ol, m, a, b) && m * U <= d
        && took_x(a, d, fee12(f.f_x, f.h_x, f.fee_scale), lower, upper, cur)
        && took_y(b, d, fee12(f.f_y, f.h_y, f.fee_scale), lower, upper, cur)
}
pub open spec fn dep_took(o: Deposit, n: Deposit, ol: vstd::multiset::Multiset<VxCpi>, nl: vstd::multiset::Multiset<VxCpi>, lower: u64, upper: u64, cur: u64) -> bool {
    exists|m: u64, a: u64, b: u64| #[trigger] dep_flow(o, n, ol, nl, lower, upper, cur, m, a, b)
}
/// rounding up to whole tokens
pub proof fn lemma_paid_up(v: int)
    requires v >= 0,
    ensures cdiv(v, U) * U >= v, cdiv(v, U) >= 0,
{ lemma_fundamental_div_mod(v + U - 1, U); lemma_mod_bound(v + U - 1, U); }
pub proof fn lemma_paid_within(v: int, x: int)
    ensures v <= x * U && v >= 0 ==> cdiv(v, U) <= x,
{ if v <= x * U && v >= 0 { lemma_fundamental_div_mod(v + U - 1, U); lemma_mod_bound(v + U - 1, U);
    assert(cdiv(v, U) * U <= v + U - 1); assert(cdiv(v, U) <= x) by (nonlinear_arith) requires cdiv(v, U) * U <= x * U + U - 1, U > 0; } }
/// rounding down to whole tokens
pub proof fn lemma_paid_down(v: int)
    requires v >= 0,
    ensures (v / U) * U <= v, v / U >= 0,
{ lemma_fundamental_div_mod(v, U); lemma_mod_bound(v, U); }
// -- withdrawals
pub open spec fn wd_rest(o: Withdraw, n: Withdraw) -> bool {
    n == (Withdraw { pool_state: n.pool_state, position_state: n.position_state, lower_tick_state: n.lower_tick_state, upper_tick_state: n.upper_tick_state, ..o })
}
pub open spec fn wd_books(o: Withdraw, n: Withdraw, lower: u64, upper: u64, cur: u64, l: u64) -> bool {
    scales12(o.pool_state, o.position_state, o.lower_tick_state, o.upper_tick_state) ==>
        books(o.pool_state, n.pool_state, o.position_state, n.position_state, o.lower_tick_state, n.lower_tick_state, o.upper_tick_state, n.upper_tick_state, lower, upper, cur, -(l * U))
}
pub open spec fn wd_covered(o: Withdraw, lower: u64, upper: u64, cur: u64, l: u64) -> bool {
    scales12(o.pool_state, o.position_state, o.lower_tick_state, o.upper_tick_state) ==>
        l * U <= o.position_state.liquidity && l * U <= o.lower_tick_state.liq_gross && l * U <= o.upper_tick_state.liq_gross
        && (in_range(lower, upper, cur) ==> l * U <= o.pool_state.pool_global_state.liquidity)
}
pub open spec fn wd_log(o: Withdraw, g: vstd::multiset::Multiset<VxCpi>, l: u64, a: u64, b: u64) -> vstd::multiset::Multiset<VxCpi> {
    g.insert(VxCpi::Burn { mint: *o.lp_token_mint.info.key, from: *o.lp_token_user_account.info.key, authority: *o.user.info.key, amount: l })
     .insert(VxCpi::Transfer { from: *o.token_x_vault.info.key, to: *o.user_token_x.info.key, authority: *o.pool_state.info.key, amount: a })
     .insert(VxCpi::Transfer { from: *o.token_y_vault.info.key, to: *o.user_token_y.info.key, authority: *o.pool_state.info.key, amount: b })
}
/// what is paid out stays within what the liquidity is worth and the fees
pub open spec fn credit_x(paid: u64, d: int, fees: int, lower: u64, upper: u64, cur: u64) -> bool {
    exists|w: int| #[trigger] x_amt_ok(w, d, rpv(cur), rpv(lower), rpv(upper)) && paid * U <= w + fees
}
pub open spec fn credit_y(paid: u64, d: int, fees: int, lower: u64, upper: u64, cur: u64) -> bool {
    exists|w: int| #[trigger] y_amt_ok(w, d, rpv(cur), rpv(lower), rpv(upper)) && paid * U <= w + fees
}
pub open spec fn wd_flow(o: Withdraw, n: Withdraw, ol: vstd::multiset::Multiset<VxCpi>, nl: vstd::multiset::Multiset<VxCpi>, lower: u64, upper: u64, cur: u64, l: u64, a: u64, b: u64) -> bool {
    let f = n.position_state.last_collected_fee;
    nl == wd_log(o, ol, l, a, b)
        && credit_x(a, l * U, fee12(f.f_x, f.h_x, f.fee_scale), lower, upper, cur)
        && credit_y(b, l * U, fee12(f.f_y, f.h_y, f.fee_scale), lower, upper, cur)
}
pub open spec fn wd_paid(o: Withdraw, n: Withdraw, ol: vstd::multiset::Multiset<VxCpi>, nl: vstd::multiset::Multiset<VxCpi>, lower: u64, upper: u64, cur: u64, l: u64) -> bool {
    exists|a: u64, b: u64| #[trigger] wd_flow(o, n, ol, nl, lower, upper, cur, l, a, b)
}
// -- new accounts
pub open spec fn no_fee(f: Fee) -> bool { f.f_x == 0 && f.f_y == 0 && f.h_x == 0 && f.h_y == 0 }
pub open spec fn pool_zero(p: PoolState) -> bool { p.pool_global_state.liquidity == 0 && no_fee(p.pool_global_state.global_fee) }
pub open spec fn tick_zero(t: TickState) -> bool { t.liq_net == 0 && t.liq_gross == 0 && t.liq_net_neg == 0 && no_fee(t.tick_fee) }
pub open spec fn pos_zero(t: PositionState) -> bool { t.liquidity == 0 && no_fee(t.last_collected_fee) }
pub open spec fn new_pool(c: VxCtx<InitializePool>, p: PoolState, tick: u64) -> bool {
    let a = c.accounts;
    let g = p.pool_global_state;
    p.info == a.pool_state.info && p.authority == *a.authority.info.key && p.token_x_mint == *a.token_x_mint.info.key && p.token_y_mint == *a.token_y_mint.info.key
    && p.lp_token_mint == *a.lp_token_mint.info.key && p.token_x_vault == *a.token_x_vault.info.key && p.token_y_vault == *a.token_y_vault.info.key
    && g.tick == tick && g.rp_scale == 12 && g.root_price == rp_of(tick as u128).value && g.liq_scale == 12 && g.liquidity == 0
    && g.global_fee.fee_scale == 12 && no_fee(g.global_fee)
    && c.bumps.of("pool_state"@) == Some(p.pool_state_bump) && c.bumps.of("token_x_vault"@) == Some(p.token_x_vault_bump)
    && c.bumps.of("token_y_vault"@) == Some(p.token_y_vault_bump) && c.bumps.of("lp_token_vault"@) == Some(p.lp_token_vault_bump)
}
pub open spec fn new_tick(c: VxCtx<InitializeTick>, t: TickState, tick: u64) -> bool {
    t.info == c.accounts.tick_state.info && t.tick == tick && t.liq_net_scale == 12 && t.liq_gross_scale == 12 && t.tick_fee.fee_scale == 12 && tick_zero(t) && c.bumps.of("tick_state"@) == Some(t.bump)
}
pub open spec fn new_pos(c: VxCtx<CreatePosition>, t: PositionState, lower: u64, upper: u64) -> bool {
    t.info == c.accounts.position_state.info && t.lower_tick == lower && t.upper_tick == upper && t.liq_scale == 12 && t.last_collected_fee.fee_scale == 12 && pos_zero(t) && c.bumps.of("position_state"@) == Some(t.bump)
}
