@opt units math decimal
@use math.vc
@opt assume dec mth
@opt cpi
@opt known load_init activate_tick unset_tick tick_is_active load_mut load get_next_tick
@typemap Box<Account<'info,*>> => *
@typemap Account<'info,*> => *
@typemap Program<'info,*> => VxProgram
@typemap Sysvar<'info,*> => VxSysvar
@typemap AccountLoader<'info,*> => VxLoader
@typemap Signer<'info> => Signer
@typemap AccountInfo<'info> => AccountInfo
@typemap UncheckedAccount<'info> => AccountInfo
@typemap SystemAccount<'info> => AccountInfo
@typemap Context<*> => &mut VxCtx<*>
@typemap CpiContext<'_,'_,'_,'info,*<'info>> => CpiContext<*>
@typemap Result<()> => Result<(),VxFail>
@src fee programs/hmmcl-sandbox/src/state/fees.rs
@src pst programs/hmmcl-sandbox/src/state/pool_state.rs
@src qst programs/hmmcl-sandbox/src/state/position_state.rs
@src tst programs/hmmcl-sandbox/src/state/tick_state.rs
@src err programs/hmmcl-sandbox/src/errors/mod.rs
@src mtk programs/hmmcl-sandbox/src/instructions/manage_tick.rs
@src mps programs/hmmcl-sandbox/src/instructions/manage_position.rs
@src mbm programs/hmmcl-sandbox/src/instructions/manage_bitmap.rs
@src mfe programs/hmmcl-sandbox/src/instructions/manage_fee.rs
@src lib programs/hmmcl-sandbox/src/lib.rs
@pathmap mbm+mtk+mps+dep+wdr+ipl ErrorCode => ProgErr
@pathmap lib instructions::initialize_pool::handle => ipl_handle
@pathmap lib instructions::manage_tick::initialize_tick => mtk_initialize_tick
@pathmap lib instructions::manage_position::create_position => mps_create_position
@pathmap lib instructions::manage_bitmap::initialize_bitmap => mbm_initialize_bitmap
@pathmap lib instructions::deposit::handle => dep_handle
@pathmap lib instructions::withdraw::handle => wdr_handle
@include chain_shim.rs
@type err::ErrorCode name=ProgErr
@type fee::Fee
@type pst::GlobalState
@type pst::PoolState info=AccountInfo
@type qst::PositionState info=AccountInfo
@type tst::TickState info=AccountInfo
@type dep::Deposit nogenerics
@type wdr::Withdraw nogenerics
@type ipl::InitializePool nogenerics
@type mtk::InitializeTick nogenerics
@type mps::CreatePosition nogenerics
@type mbm::InitializeBitmap nogenerics
@include chain_spec.rs
@fn mfe::fee_earned_below_above
@args tick, glbl_tick, fg, f0
@requires
  !nopanic(),
@ensures
  [C06] fg.scale == f0.scale && r.0.scale == fg.scale && r.1.scale == fg.scale,
  [C06] sv(r.0) == below(tick, glbl_tick, sv(fg), sv(f0)) && sv(r.1) == above(tick, glbl_tick, sv(fg), sv(f0)),
@fn mfe::fee_earned_within_range
@args lower_tick, upper_tick, glbl_tick, fg, f0_lwr, f0_upr
@requires
  !nopanic(),
@ensures
  [C06] r.scale == fg.scale && sv(r) == inside(lower_tick, upper_tick, glbl_tick, sv(fg), sv(f0_lwr), sv(f0_upr)),
@fn mfe::compute_latest_fee
@args lower_tick, upper_tick, current_tick, glbl_fee, lwr_fee, upr_fee, scale
@requires
  !nopanic(),
@ensures
  [C06] fee_rule(lower_tick, upper_tick, current_tick, glbl_fee, lwr_fee, upr_fee, scale, r),
@fn mtk::update_tick | nogenerics
@args tick_state, tick, liquidity_delta, upper
@requires
  !nopanic(),
@ensures
  [C05,C09] r is Ok ==> tick_frame(*old(tick_state), *final(tick_state)) && tick == old(tick_state).tick,
  [C05,C04,C09] r is Ok ==> tick_moved(*old(tick_state), *final(tick_state), sv(liquidity_delta), if upper { -sv(liquidity_delta) } else { sv(liquidity_delta) }),
@fn mps::update_position | nogenerics
@args position_state, lower_tick_state, upper_tick_state, liquidity_delta, lower_tick, upper_tick, new_fee
@requires
  !nopanic(),
@ensures
  [C05,C09,C10] r is Ok ==> pos_frame(*old(position_state), *final(position_state)) && tick_frame(*old(lower_tick_state), *final(lower_tick_state)) && tick_frame(*old(upper_tick_state), *final(upper_tick_state)),
  [C05,C09] r is Ok ==> lower_tick == old(lower_tick_state).tick && upper_tick == old(upper_tick_state).tick,
  [C05,C04,C09,C10] r is Ok ==> pos_moved(*old(position_state), *final(position_state), sv(liquidity_delta)),
  [C05,C04,C09] r is Ok ==> tick_moved(*old(lower_tick_state), *final(lower_tick_state), sv(liquidity_delta), sv(liquidity_delta)),
  [C05,C04,C09] r is Ok ==> tick_moved(*old(upper_tick_state), *final(upper_tick_state), sv(liquidity_delta), -sv(liquidity_delta)),
  [C06,C03,C04] r is Ok ==> final(position_state).last_collected_fee == new_fee,
@fn dep::handle | name=dep_handle
@args ctx, lower_tick, upper_tick, current_tick, token_x_amount, token_y_amount
@requires
  !nopanic(),
  lower_tick < upper_tick,
@ensures
  [C05,C09] r is Ok ==> dep_books(old(ctx).accounts, final(ctx).accounts, lower_tick, upper_tick, current_tick),
  [C05,C09] r is Ok ==> dep_rest(old(ctx).accounts, final(ctx).accounts),
  [C05,C09] r is Ok ==> lower_tick == old(ctx).accounts.lower_tick_state.tick && upper_tick == old(ctx).accounts.upper_tick_state.tick,
  [C05,C09] r is Ok ==> frames(old(ctx).accounts.pool_state, final(ctx).accounts.pool_state, old(ctx).accounts.position_state, final(ctx).accounts.position_state, old(ctx).accounts.lower_tick_state, final(ctx).accounts.lower_tick_state, old(ctx).accounts.upper_tick_state, final(ctx).accounts.upper_tick_state),
  [C03] r is Ok ==> dep_paid(old(ctx).accounts, final(ctx).accounts, old(ctx).log@, final(ctx).log@, lower_tick, upper_tick, current_tick, token_x_amount, token_y_amount),
  [C10] r is Ok ==> priced(lower_tick, upper_tick, current_tick),
  [C10] r is Ok ==> dep_took(old(ctx).accounts, final(ctx).accounts, old(ctx).log@, final(ctx).log@, lower_tick, upper_tick, current_tick),
  [C06] r is Ok ==> fee_rule(lower_tick, upper_tick, current_tick, old(ctx).accounts.pool_state.pool_global_state.global_fee, old(ctx).accounts.lower_tick_state.tick_fee, old(ctx).accounts.upper_tick_state.tick_fee, old(ctx).accounts.position_state.last_collected_fee.fee_scale, final(ctx).accounts.position_state.last_collected_fee),
@exit
  proof {
    lemma_rp_strict(lower_tick as u128, rpa_used, upper_tick as u128, rpb_used);
    lemma_rp_floor(lower_tick as u128, rpa_used); lemma_rp_floor(current_tick as u128, rp_used);
    assert(x_amt_low(sv(x_in), sv(liquidity_delta), rpv(current_tick), rpv(lower_tick), rpv(upper_tick)));
    assert(y_amt_low(sv(y_in), sv(liquidity_delta), rpv(current_tick), rpv(lower_tick), rpv(upper_tick)));
    if old(ctx).accounts.position_state.liq_scale == 12 {
      assert(liquidity_delta == dec_nn(dep_delta(old(ctx).accounts, ctx.accounts), 12));
      p10_12();
    }
    lemma_paid_up(x_debited.value as int); lemma_paid_up(y_debited.value as int); lemma_paid_down(liquidity_delta.value as int);
    lemma_paid_within(x_debited.value as int, token_x_amount as int); lemma_paid_within(y_debited.value as int, token_y_amount as int);
    assert(ctx.log@ =~= dep_log(old(ctx).accounts, old(ctx).log@, (liquidity_delta.value as int / den(liquidity_delta) as int) as u64, cdiv(x_debited.value as int, den(x_debited) as int) as u64, cdiv(y_debited.value as int, den(y_debited) as int) as u64));
    assert(dep_flow(old(ctx).accounts, ctx.accounts, old(ctx).log@, ctx.log@, lower_tick, upper_tick, current_tick, (liquidity_delta.value as int / den(liquidity_delta) as int) as u64, cdiv(x_debited.value as int, den(x_debited) as int) as u64, cdiv(y_debited.value as int, den(y_debited) as int) as u64));
  }
@fn wdr::handle | name=wdr_handle
@args ctx, lower_tick, upper_tick, current_tick, liquidity_to_withdraw
@requires
  !nopanic(),
  lower_tick < upper_tick,
@ensures
  [C05,C09] r is Ok ==> wd_books(old(ctx).accounts, final(ctx).accounts, lower_tick, upper_tick, current_tick, liquidity_to_withdraw),
  [C05,C09] r is Ok ==> wd_rest(old(ctx).accounts, final(ctx).accounts),
  [C05,C09] r is Ok ==> lower_tick == old(ctx).accounts.lower_tick_state.tick && upper_tick == old(ctx).accounts.upper_tick_state.tick,
  [C05,C09] r is Ok ==> frames(old(ctx).accounts.pool_state, final(ctx).accounts.pool_state, old(ctx).accounts.position_state, final(ctx).accounts.position_state, old(ctx).accounts.lower_tick_state, final(ctx).accounts.lower_tick_state, old(ctx).accounts.upper_tick_state, final(ctx).accounts.upper_tick_state),
  [C04] r is Ok ==> wd_covered(old(ctx).accounts, lower_tick, upper_tick, current_tick, liquidity_to_withdraw),
  [C04,C10] r is Ok ==> wd_paid(old(ctx).accounts, final(ctx).accounts, old(ctx).log@, final(ctx).log@, lower_tick, upper_tick, current_tick, liquidity_to_withdraw),
  [C10] r is Ok ==> priced(lower_tick, upper_tick, current_tick),
  [C06] r is Ok ==> fee_rule(lower_tick, upper_tick, current_tick, old(ctx).accounts.pool_state.pool_global_state.global_fee, old(ctx).accounts.lower_tick_state.tick_fee, old(ctx).accounts.upper_tick_state.tick_fee, old(ctx).accounts.position_state.last_collected_fee.fee_scale, final(ctx).accounts.position_state.last_collected_fee),
@exit
  proof {
    p10_12();
    lemma_rp_strict(lower_tick as u128, rpa_used, upper_tick as u128, rpb_used);
    lemma_rp_floor(lower_tick as u128, rpa_used); lemma_rp_floor(current_tick as u128, rp_used);
    assert(x_amt_ok(sv(x_out), liquidity_to_withdraw * U, rpv(current_tick), rpv(lower_tick), rpv(upper_tick)));
    assert(y_amt_ok(sv(y_out), liquidity_to_withdraw * U, rpv(current_tick), rpv(lower_tick), rpv(upper_tick)));
    assert(liquidity_delta.value == liquidity_to_withdraw * U && liquidity_delta.scale == 12);
    lemma_paid_down(x_credited.value as int); lemma_paid_down(y_credited.value as int);
    assert(ctx.log@ =~= wd_log(old(ctx).accounts, old(ctx).log@, liquidity_to_withdraw, (x_credited.value as int / den(x_credited) as int) as u64, (y_credited.value as int / den(y_credited) as int) as u64));
    assert(wd_flow(old(ctx).accounts, ctx.accounts, old(ctx).log@, ctx.log@, lower_tick, upper_tick, current_tick, liquidity_to_withdraw, (x_credited.value as int / den(x_credited) as int) as u64, (y_credited.value as int / den(y_credited) as int) as u64));
  }
@fn ipl::handle | name=ipl_handle
@args ctx, bootstrap_rp, tick
@requires
  !nopanic(),
  pool_zero(old(ctx).accounts.pool_state),
@ensures
  [C07] r is Ok ==> new_pool(*old(ctx), final(ctx).accounts.pool_state, tick),
@fn mtk::initialize_tick | name=mtk_initialize_tick
@args ctx, tick
@requires
  !nopanic(),
  tick_zero(old(ctx).accounts.tick_state),
@ensures
  [C07] r is Ok ==> new_tick(*old(ctx), final(ctx).accounts.tick_state, tick),
@fn mps::create_position | name=mps_create_position
@args ctx, lower_tick, upper_tick
@requires
  !nopanic(),
  pos_zero(old(ctx).accounts.position_state),
@ensures
  [C07] r is Ok ==> new_pos(*old(ctx), final(ctx).accounts.position_state, lower_tick, upper_tick),
@fn mbm::initialize_bitmap | name=mbm_initialize_bitmap
@args ctx
@requires
  !nopanic(),
@ensures
  [C09] *final(ctx) == *old(ctx),
@fn lib::initialize_bitmap | name=lib_initialize_bitmap
@args ctx
@requires
  !nopanic(),
@ensures
  [C09] *final(ctx) == *old(ctx),
@fn lib::initialize_pool | name=lib_initialize_pool
@args ctx, bootstrap_rp, tick
@requires
  !nopanic(),
  pool_zero(old(ctx).accounts.pool_state),
@ensures
  [C07] r is Ok ==> new_pool(*old(ctx), final(ctx).accounts.pool_state, tick),
@fn lib::initialize_tick | name=lib_initialize_tick
@args ctx, tick
@requires
  !nopanic(),
  tick_zero(old(ctx).accounts.tick_state),
@ensures
  [C07] r is Ok ==> new_tick(*old(ctx), final(ctx).accounts.tick_state, tick),
@fn lib::create_position | name=lib_create_position
@args ctx, lower_tick, upper_tick
@requires
  !nopanic(),
  pos_zero(old(ctx).accounts.position_state),
@ensures
  [C07] r is Ok ==> new_pos(*old(ctx), final(ctx).accounts.position_state, lower_tick, upper_tick),
@fn lib::deposit | name=lib_deposit
@args ctx, lower_tick, upper_tick, current_tick, token_x_amount, token_y_amount
@requires
  !nopanic(),
  lower_tick < upper_tick,
@ensures
  [C05,C09] r is Ok ==> dep_books(old(ctx).accounts, final(ctx).accounts, lower_tick, upper_tick, current_tick),
  [C05,C09] r is Ok ==> dep_rest(old(ctx).accounts, final(ctx).accounts),
  [C05,C09] r is Ok ==> lower_tick == old(ctx).accounts.lower_tick_state.tick && upper_tick == old(ctx).accounts.upper_tick_state.tick,
  [C05,C09] r is Ok ==> frames(old(ctx).accounts.pool_state, final(ctx).accounts.pool_state, old(ctx).accounts.position_state, final(ctx).accounts.position_state, old(ctx).accounts.lower_tick_state, final(ctx).accounts.lower_tick_state, old(ctx).accounts.upper_tick_state, final(ctx).accounts.upper_tick_state),
  [C03] r is Ok ==> dep_paid(old(ctx).accounts, final(ctx).accounts, old(ctx).log@, final(ctx).log@, lower_tick, upper_tick, current_tick, token_x_amount, token_y_amount),
  [C10] r is Ok ==> priced(lower_tick, upper_tick, current_tick),
  [C10] r is Ok ==> dep_took(old(ctx).accounts, final(ctx).accounts, old(ctx).log@, final(ctx).log@, lower_tick, upper_tick, current_tick),
  [C06] r is Ok ==> fee_rule(lower_tick, upper_tick, current_tick, old(ctx).accounts.pool_state.pool_global_state.global_fee, old(ctx).accounts.lower_tick_state.tick_fee, old(ctx).accounts.upper_tick_state.tick_fee, old(ctx).accounts.position_state.last_collected_fee.fee_scale, final(ctx).accounts.position_state.last_collected_fee),
@fn lib::withdraw | name=lib_withdraw
@args ctx, lower_tick, upper_tick, current_tick, lp_token_amount
@requires
  !nopanic(),
  lower_tick < upper_tick,
@ensures
  [C05,C09] r is Ok ==> wd_books(old(ctx).accounts, final(ctx).accounts, lower_tick, upper_tick, current_tick, lp_token_amount),
  [C05,C09] r is Ok ==> wd_rest(old(ctx).accounts, final(ctx).accounts),
  [C05,C09] r is Ok ==> lower_tick == old(ctx).accounts.lower_tick_state.tick && upper_tick == old(ctx).accounts.upper_tick_state.tick,
  [C05,C09] r is Ok ==> frames(old(ctx).accounts.pool_state, final(ctx).accounts.pool_state, old(ctx).accounts.position_state, final(ctx).accounts.position_state, old(ctx).accounts.lower_tick_state, final(ctx).accounts.lower_tick_state, old(ctx).accounts.upper_tick_state, final(ctx).accounts.upper_tick_state),
  [C04] r is Ok ==> wd_covered(old(ctx).accounts, lower_tick, upper_tick, current_tick, lp_token_amount),
  [C04,C10] r is Ok ==> wd_paid(old(ctx).accounts, final(ctx).accounts, old(ctx).log@, final(ctx).log@, lower_tick, upper_tick, current_tick, lp_token_amount),
  [C10] r is Ok ==> priced(lower_tick, upper_tick, current_tick),
  [C06] r is Ok ==> fee_rule(lower_tick, upper_tick, current_tick, old(ctx).accounts.pool_state.pool_global_state.global_fee, old(ctx).accounts.lower_tick_state.tick_fee, old(ctx).accounts.upper_tick_state.tick_fee, old(ctx).accounts.position_state.last_collected_fee.fee_scale, final(ctx).accounts.position_state.last_collected_fee),
