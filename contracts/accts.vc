@opt units chain math decimal
@use chain.vc
@opt assume dec mth fee pst qst tst mtk mps mfe dep wdr ipl lib mbm
@src xp @expanded
@typemap Box<anchor_lang::accounts::account::Account<*>> => *
@typemap anchor_lang::accounts::account::Account<*> => *
@typemap anchor_lang::accounts::account_loader::AccountLoader<*> => VxLoader
@typemap anchor_lang::accounts::program::Program<*> => VxProgram
@typemap UncheckedAccount => AccountInfo
@typemap SystemAccount => AccountInfo
@typemap Sysvar<*> => VxSysvar
@include accts_shim.rs
@include accts_spec.rs
@fn xp::Deposit::try_accounts
@args program_id, accounts, ix_data, __bumps, vx_w
@requires
  !nopanic(),
@ensures
  [C08,C05,C09] *final(vx_w) == *old(vx_w),
  [C08,C05,C09] r is Ok ==> dep_loaded(r->Ok_0, old(accounts).infos@, *old(vx_w)),
  [C08,C09] r is Ok ==> ix_data.args@.len() >= 3 && dep_valid(r->Ok_0, *program_id, ix_data.args@[0], ix_data.args@[1], ix_data.args@[2]),
@exit
  proof { lemma_seeds(map_seeds(*vx_r->Ok_0.pool_state.info.key)); }
@fn xp::Withdraw::try_accounts
@args program_id, accounts, ix_data, __bumps, vx_w
@requires
  !nopanic(),
@ensures
  [C08,C05,C09] *final(vx_w) == *old(vx_w),
  [C08,C05,C09] r is Ok ==> wd_loaded(r->Ok_0, old(accounts).infos@, *old(vx_w)),
  [C08,C09] r is Ok ==> ix_data.args@.len() >= 3 && wd_valid(r->Ok_0, *program_id, ix_data.args@[0], ix_data.args@[1], ix_data.args@[2]),
@exit
  proof { lemma_seeds(map_seeds(*vx_r->Ok_0.pool_state.info.key)); }
@fn xp::Deposit::exit
@args vx_self, program_id, vx_w
@requires
  !nopanic(),
@ensures
  [C05,C03,C04,C06,C09] r is Ok && *program_id == vx_id() ==> left(*old(vx_w), *final(vx_w), vx_self.pool_state, vx_self.position_state, vx_self.lower_tick_state, vx_self.upper_tick_state),
@fn xp::Withdraw::exit
@args vx_self, program_id, vx_w
@requires
  !nopanic(),
@ensures
  [C05,C03,C04,C06,C09] r is Ok && *program_id == vx_id() ==> left(*old(vx_w), *final(vx_w), vx_self.pool_state, vx_self.position_state, vx_self.lower_tick_state, vx_self.upper_tick_state),
@fn xp::__global::deposit
@args program_id, accounts, ix_data, vx_w
@requires
  !nopanic(),
  *program_id == vx_id(),
@ensures
  [C08] r is Ok ==> exists|a: Deposit| dep_taken(a, *program_id, accounts.infos@, ix_data.args@, *old(vx_w)),
  [C05] r is Ok ==> exists|a: Deposit, n: Deposit| dep_kept(a, n, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
  [C09] r is Ok ==> exists|a: Deposit, n: Deposit| dep_taken(a, *program_id, accounts.infos@, ix_data.args@, *old(vx_w)) && dep_kept(a, n, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
  [C03] r is Ok ==> exists|a: Deposit, n: Deposit| dep_charged(a, n, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
  [C10] r is Ok ==> exists|a: Deposit, n: Deposit| dep_done(a, n, *program_id, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
  [C06] r is Ok ==> exists|a: Deposit, n: Deposit| dep_earned(a, n, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
@entry
  let ghost vx_in = accounts;
@at vx_ctx
  let ghost vx_a = vx_ctx.accounts;
@at vx_left
  let ghost vx_n = vx_left;
  proof { lemma_apart(vx_a.pool_state, vx_a.position_state, vx_a.lower_tick_state, vx_a.upper_tick_state, vx_in.infos@, *old(vx_w)); }
@exit
  proof {
    if vx_r is Ok {
    assert(dep_taken(vx_a, *program_id, vx_in.infos@, ix_data.args@, *old(vx_w)));
    assert(dep_kept(vx_a, vx_n, vx_in.infos@, ix_data.args@, *old(vx_w), *vx_w));
    assert(dep_charged(vx_a, vx_n, vx_in.infos@, ix_data.args@, *old(vx_w), *vx_w));
    assert(dep_earned(vx_a, vx_n, vx_in.infos@, ix_data.args@, *old(vx_w), *vx_w));
    assert(dep_done(vx_a, vx_n, *program_id, vx_in.infos@, ix_data.args@, *old(vx_w), *vx_w));
  } }
@fn xp::__global::withdraw
@args program_id, accounts, ix_data, vx_w
@requires
  !nopanic(),
  *program_id == vx_id(),
@ensures
  [C08] r is Ok ==> exists|a: Withdraw| wd_taken(a, *program_id, accounts.infos@, ix_data.args@, *old(vx_w)),
  [C05] r is Ok ==> exists|a: Withdraw, n: Withdraw| wd_kept(a, n, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
  [C09] r is Ok ==> exists|a: Withdraw, n: Withdraw| wd_taken(a, *program_id, accounts.infos@, ix_data.args@, *old(vx_w)) && wd_kept(a, n, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
  [C04] r is Ok ==> exists|a: Withdraw, n: Withdraw| wd_settled(a, n, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
  [C10] r is Ok ==> exists|a: Withdraw, n: Withdraw| wd_done(a, n, *program_id, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
  [C06] r is Ok ==> exists|a: Withdraw, n: Withdraw| wd_earned(a, n, accounts.infos@, ix_data.args@, *old(vx_w), *final(vx_w)),
@entry
  let ghost vx_in = accounts;
@at vx_ctx
  let ghost vx_a = vx_ctx.accounts;
@at vx_left
  let ghost vx_n = vx_left;
  proof { lemma_apart(vx_a.pool_state, vx_a.position_state, vx_a.lower_tick_state, vx_a.upper_tick_state, vx_in.infos@, *old(vx_w)); }
@exit
  proof {
    if vx_r is Ok {
    assert(wd_taken(vx_a, *program_id, vx_in.infos@, ix_data.args@, *old(vx_w)));
    assert(wd_kept(vx_a, vx_n, vx_in.infos@, ix_data.args@, *old(vx_w), *vx_w));
    assert(wd_settled(vx_a, vx_n, vx_in.infos@, ix_data.args@, *old(vx_w), *vx_w));
    assert(wd_earned(vx_a, vx_n, vx_in.infos@, ix_data.args@, *old(vx_w), *vx_w));
    assert(wd_done(vx_a, vx_n, *program_id, vx_in.infos@, ix_data.args@, *old(vx_w), *vx_w));
  } }
@fn xp::InitializeTick::try_accounts
@args program_id, accounts, ix_data, __bumps, vx_w
@requires
  !nopanic(),
@ensures
  [C07,C09] r is Ok ==> ix_data.args@.len() >= 1 && tick_opened(r->Ok_0, *program_id, old(accounts).infos@, ix_data.args@[0], *final(__bumps), *old(vx_w), *final(vx_w)),
@fn xp::InitializeTick::exit
@args vx_self, program_id, vx_w
@requires
  !nopanic(),
@ensures
  [C07,C09] r is Ok && *program_id == vx_id() ==> final(vx_w).ledger@ == vx_self.tick_state.saved(old(vx_w).ledger@),
@fn xp::__global::initialize_tick
@args program_id, accounts, ix_data, vx_w
@requires
  !nopanic(),
  *program_id == vx_id(),
@ensures
  [C07,C09] r is Ok ==> ix_data.args@.len() >= 1 && exists|k: Pubkey, t: TickState| tick_made(k, t, *program_id, ix_data.args@[0], *old(vx_w), *final(vx_w)),
@at vx_ctx
  let ghost vx_c = vx_ctx;
@at vx_left
  let ghost vx_n = vx_left;
@exit
  proof {
    if vx_r is Ok {
      assert(tick_made(*vx_c.accounts.pool_state.info.key, vx_n.tick_state, *program_id, ix_data.args@[0], *old(vx_w), *vx_w));
    }
  }
@fn xp::CreatePosition::try_accounts
@args program_id, accounts, ix_data, __bumps, vx_w
@requires
  !nopanic(),
@ensures
  [C07,C09] r is Ok ==> ix_data.args@.len() >= 2 && pos_opened(r->Ok_0, *program_id, old(accounts).infos@, ix_data.args@[0], ix_data.args@[1], *final(__bumps), *old(vx_w), *final(vx_w)),
@fn xp::CreatePosition::exit
@args vx_self, program_id, vx_w
@requires
  !nopanic(),
@ensures
  [C07,C09] r is Ok && *program_id == vx_id() ==> final(vx_w).ledger@ == vx_self.position_state.saved(old(vx_w).ledger@),
@fn xp::__global::create_position
@args program_id, accounts, ix_data, vx_w
@requires
  !nopanic(),
  *program_id == vx_id(),
@ensures
  [C07,C09] r is Ok ==> ix_data.args@.len() >= 2 && exists|k: Pubkey, u: Pubkey, t: PositionState| pos_made(k, u, t, *program_id, ix_data.args@[0], ix_data.args@[1], *old(vx_w), *final(vx_w)),
@at vx_ctx
  let ghost vx_c = vx_ctx;
@at vx_left
  let ghost vx_n = vx_left;
@exit
  proof {
    if vx_r is Ok {
      assert(pos_made(*vx_c.accounts.pool_state.info.key, *vx_c.accounts.user.info.key, vx_n.position_state, *program_id, ix_data.args@[0], ix_data.args@[1], *old(vx_w), *vx_w));
    }
  }
@fn xp::InitializePool::try_accounts
@args program_id, accounts, ix_data, __bumps, vx_w
@requires
  !nopanic(),
@ensures
  [C07,C09] r is Ok ==> ix_data.args@.len() >= 0 && pool_opened(r->Ok_0, *program_id, *final(__bumps), *old(vx_w), *final(vx_w)),
@entry
  proof { lemma_names(); }
@fn xp::InitializePool::exit
@args vx_self, program_id, vx_w
@requires
  !nopanic(),
@ensures
  [C07,C09] r is Ok && *program_id == vx_id() ==> final(vx_w).ledger@ == vx_self.pool_state.saved(old(vx_w).ledger@),
@fn xp::__global::initialize_pool
@args program_id, accounts, ix_data, vx_w
@requires
  !nopanic(),
  *program_id == vx_id(),
@ensures
  [C07,C09] r is Ok ==> ix_data.args@.len() >= 2 && exists|t: PoolState| pool_made(t, *program_id, ix_data.args@[1], *old(vx_w), *final(vx_w)),
@at vx_ctx
  let ghost vx_c = vx_ctx;
@at vx_left
  let ghost vx_n = vx_left;
@exit
  proof {
    if vx_r is Ok {
      assert(pool_made(vx_n.pool_state, *program_id, ix_data.args@[1], *old(vx_w), *vx_w));
    }
  }
@fn xp::InitializeBitmap::try_accounts
@args program_id, accounts, ix_data, __bumps, vx_w
@requires
  !nopanic(),
@ensures
  [C09] r is Ok ==> map_opened(r->Ok_0, *program_id, *final(__bumps), *old(vx_w), *final(vx_w)),
@fn xp::InitializeBitmap::exit
@args vx_self, program_id, vx_w
@requires
  !nopanic(),
@ensures
  [C09] r is Ok && *program_id == vx_id() ==> *final(vx_w) == *old(vx_w),
@fn xp::__global::initialize_bitmap
@args program_id, accounts, ix_data, vx_w
@requires
  !nopanic(),
  *program_id == vx_id(),
@ensures
  [C09] r is Ok ==> exists|k: Pubkey| map_made(k, *program_id, *old(vx_w), *final(vx_w)),
@at vx_ctx
  let ghost vx_c = vx_ctx;
@exit
  proof {
    if vx_r is Ok {
      assert(map_made(*vx_c.accounts.pool_state.info.key, *program_id, *old(vx_w), *vx_w));
    }
  }
