// ---- which accounts a deposit or withdrawal accepts ------------------------------
pub open spec fn mine<T: VxTake>(a: T, infos: Seq<AccountInfo>, w: VxWorld) -> bool { infos.contains(a.at()) && a.took(w) }
pub open spec fn tick_seeds(pool: Pubkey, tick: u64) -> Seq<VxSeed> { Seq::<VxSeed>::empty().push(VxSeed::Text("tick"@)).push(VxSeed::Key(pool)).push(VxSeed::Num(tick)) }
pub open spec fn pos_seeds(pool: Pubkey, user: Pubkey, lower: u64, upper: u64) -> Seq<VxSeed> {
    Seq::<VxSeed>::empty().push(VxSeed::Text("position"@)).push(VxSeed::Key(pool)).push(VxSeed::Key(user)).push(VxSeed::Num(lower)).push(VxSeed::Num(upper))
}
pub open spec fn pool_seeds(mint: Pubkey) -> Seq<VxSeed> { Seq::<VxSeed>::empty().push(VxSeed::Text("pool_state_seed"@)).push(VxSeed::Key(mint)) }
pub open spec fn vault_seeds(token: Pubkey, mint: Pubkey) -> Seq<VxSeed> { Seq::<VxSeed>::empty().push(VxSeed::Text("token_vault_seed"@)).push(VxSeed::Key(token)).push(VxSeed::Key(mint)) }
pub open spec fn lp_vault_seeds(pool: Pubkey, mint: Pubkey) -> Seq<VxSeed> { Seq::<VxSeed>::empty().push(VxSeed::Text("lp_token_vault_seed"@)).push(VxSeed::Key(pool)).push(VxSeed::Key(mint)) }
pub open spec fn map_seeds(pool: Pubkey) -> Seq<VxSeed> { Seq::<VxSeed>::empty().push(VxSeed::Text("bitmap"@)).push(VxSeed::Key(pool)) }
pub proof fn lemma_seeds(s: Seq<VxSeed>) {}
/// the address of these seeds with a bump
pub open spec fn addr(s: Seq<VxSeed>, bump: u8, p: Pubkey) -> Pubkey { pda(s.push(VxSeed::Bump(bump)), p) }
pub open spec fn tick_addr(pool: Pubkey, tick: u64, bump: u8, p: Pubkey) -> Pubkey { addr(tick_seeds(pool, tick), bump, p) }
pub open spec fn pos_addr(pool: Pubkey, user: Pubkey, lower: u64, upper: u64, bump: u8, p: Pubkey) -> Pubkey { addr(pos_seeds(pool, user, lower, upper), bump, p) }
/// with the bump that the bitmap records
pub open spec fn map_ok(pool: PoolState, m: VxLoader, p: Pubkey) -> bool { exists|b: u8| *m.info.key == #[trigger] pda(map_seeds(*pool.info.key).push(VxSeed::Bump(b)), p) }
pub open spec fn ticks_ok(pool: PoolState, pos: PositionState, user: AccountInfo, lo: TickState, hi: TickState, cu: TickState, lower: u64, upper: u64, cur: u64, p: Pubkey) -> bool {
    &&& lower < upper
    &&& cur == pool.pool_global_state.tick
    &&& *pos.info.key == pos_addr(*pool.info.key, *user.key, lower, upper, pos.bump, p)
    &&& *lo.info.key == tick_addr(*pool.info.key, lower, lo.bump, p)
    &&& *hi.info.key == tick_addr(*pool.info.key, upper, hi.bump, p)
    &&& *cu.info.key == tick_addr(*pool.info.key, cur, cu.bump, p) && cu.tick == cur
    &&& lo.tick == pos.lower_tick && hi.tick == pos.upper_tick
}
pub open spec fn tokens_ok(pool: PoolState, user: AccountInfo, payer: AccountInfo, x: TokenAccount, y: TokenAccount, vx: TokenAccount, vy: TokenAccount, vl: TokenAccount, lp: TokenAccount, mint: Mint, p: Pubkey) -> bool {
    let l = lp_vault_seeds(*pool.info.key, *mint.info.key);
    &&& x.mint == pool.token_x_mint && x.owner == *user.key
    &&& y.mint == pool.token_y_mint && y.owner == *user.key
    &&& *vx.info.key == pool.token_x_vault && *vy.info.key == pool.token_y_vault && *vl.info.key == addr(l, canon(l, p), p)
    &&& *mint.info.key == pool.lp_token_mint && lp.mint == pool.lp_token_mint
    &&& user.is_signer && payer.is_signer
}
pub open spec fn dep_valid(a: Deposit, p: Pubkey, lower: u64, upper: u64, cur: u64) -> bool {
    &&& map_ok(a.pool_state, a.tick_bitmap, p)
    &&& ticks_ok(a.pool_state, a.position_state, a.user.at(), a.lower_tick_state, a.upper_tick_state, a.current_tick_state, lower, upper, cur, p)
    &&& tokens_ok(a.pool_state, a.user.at(), a.payer.at(), a.user_token_x, a.user_token_y, a.token_x_vault, a.token_y_vault, a.lp_token_vault, a.lp_token_to, a.lp_token_mint, p)
}
pub open spec fn dep_loaded(a: Deposit, i: Seq<AccountInfo>, w: VxWorld) -> bool {
    &&& mine(a.pool_state, i, w) && mine(a.position_state, i, w) && mine(a.tick_bitmap, i, w)
    &&& mine(a.lower_tick_state, i, w) && mine(a.upper_tick_state, i, w) && mine(a.current_tick_state, i, w)
    &&& mine(a.user_token_x, i, w) && mine(a.user_token_y, i, w) && mine(a.token_x_vault, i, w) && mine(a.token_y_vault, i, w)
    &&& mine(a.lp_token_mint, i, w) && mine(a.lp_token_to, i, w) && mine(a.user, i, w) && mine(a.payer, i, w)
}
pub open spec fn wd_valid(a: Withdraw, p: Pubkey, lower: u64, upper: u64, cur: u64) -> bool {
    &&& map_ok(a.pool_state, a.tick_bitmap, p)
    &&& ticks_ok(a.pool_state, a.position_state, a.user.at(), a.lower_tick_state, a.upper_tick_state, a.current_tick_state, lower, upper, cur, p)
    &&& tokens_ok(a.pool_state, a.user.at(), a.payer.at(), a.user_token_x, a.user_token_y, a.token_x_vault, a.token_y_vault, a.lp_token_vault, a.lp_token_user_account, a.lp_token_mint, p)
}
pub open spec fn wd_loaded(a: Withdraw, i: Seq<AccountInfo>, w: VxWorld) -> bool {
    &&& mine(a.pool_state, i, w) && mine(a.position_state, i, w) && mine(a.tick_bitmap, i, w)
    &&& mine(a.lower_tick_state, i, w) && mine(a.upper_tick_state, i, w) && mine(a.current_tick_state, i, w)
    &&& mine(a.user_token_x, i, w) && mine(a.user_token_y, i, w) && mine(a.token_x_vault, i, w) && mine(a.token_y_vault, i, w)
    &&& mine(a.lp_token_mint, i, w) && mine(a.lp_token_user_account, i, w) && mine(a.user, i, w) && mine(a.payer, i, w)
}
/// the ledger after a deposit or withdrawal: these four accounts, and nothing else
pub open spec fn apart(a: Pubkey, b: Pubkey, c: Pubkey, d: Pubkey) -> bool { a != b && a != c && a != d && b != c && b != d && c != d }
pub open spec fn stored(l: VxLedger, m: VxLedger, po: PoolState, q: PositionState, lo: TickState, hi: TickState) -> bool {
    &&& m[*po.info.key] == pool_data(po) && m[*q.info.key] == pos_data(q) && m[*lo.info.key] == tick_data(lo) && m[*hi.info.key] == tick_data(hi)
    &&& forall|k: Pubkey| k != *po.info.key && k != *q.info.key && k != *lo.info.key && k != *hi.info.key ==> #[trigger] m[k] == l[k]
    &&& forall|k: Pubkey| #[trigger] m.dom().contains(k) ==> l.dom().contains(k) || k == *po.info.key || k == *q.info.key || k == *lo.info.key || k == *hi.info.key
    &&& forall|k: Pubkey| #[trigger] l.dom().contains(k) ==> m.dom().contains(k)
}
pub open spec fn left(w: VxWorld, v: VxWorld, po: PoolState, q: PositionState, lo: TickState, hi: TickState) -> bool {
    &&& v.tokens == w.tokens && v.mints == w.mints && v.log == w.log
    &&& apart(*po.info.key, *q.info.key, *lo.info.key, *hi.info.key) ==> stored(w.ledger@, v.ledger@, po, q, lo, hi)
}
/// a deposit as the runtime runs it: accounts taken from the ledger (a), as left by the handler (n), and stored
pub open spec fn dep_taken(a: Deposit, p: Pubkey, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld) -> bool {
    x.len() >= 5 && dep_loaded(a, i, w) && dep_valid(a, p, x[0], x[1], x[2])
}
pub open spec fn dep_kept(a: Deposit, n: Deposit, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld, v: VxWorld) -> bool {
    x.len() >= 5 && dep_loaded(a, i, w) && dep_rest(a, n) && dep_books(a, n, x[0], x[1], x[2])
    && frames(a.pool_state, n.pool_state, a.position_state, n.position_state, a.lower_tick_state, n.lower_tick_state, a.upper_tick_state, n.upper_tick_state)
    && stored(w.ledger@, v.ledger@, n.pool_state, n.position_state, n.lower_tick_state, n.upper_tick_state)
}
pub open spec fn dep_charged(a: Deposit, n: Deposit, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld, v: VxWorld) -> bool {
    x.len() >= 5 && dep_loaded(a, i, w) && dep_paid(a, n, w.log@, v.log@, x[0], x[1], x[2], x[3], x[4])
    && v.ledger@[*n.position_state.info.key] == pos_data(n.position_state)
}
pub open spec fn dep_earned(a: Deposit, n: Deposit, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld, v: VxWorld) -> bool {
    x.len() >= 5 && dep_loaded(a, i, w) && v.ledger@[*a.position_state.info.key] == pos_data(n.position_state)
    && fee_rule(x[0], x[1], x[2], a.pool_state.pool_global_state.global_fee, a.lower_tick_state.tick_fee, a.upper_tick_state.tick_fee, a.position_state.last_collected_fee.fee_scale, n.position_state.last_collected_fee)
}
pub open spec fn wd_taken(a: Withdraw, p: Pubkey, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld) -> bool {
    x.len() >= 4 && wd_loaded(a, i, w) && wd_valid(a, p, x[0], x[1], x[2])
}
pub open spec fn wd_kept(a: Withdraw, n: Withdraw, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld, v: VxWorld) -> bool {
    x.len() >= 4 && wd_loaded(a, i, w) && wd_rest(a, n) && wd_books(a, n, x[0], x[1], x[2], x[3])
    && frames(a.pool_state, n.pool_state, a.position_state, n.position_state, a.lower_tick_state, n.lower_tick_state, a.upper_tick_state, n.upper_tick_state)
    && stored(w.ledger@, v.ledger@, n.pool_state, n.position_state, n.lower_tick_state, n.upper_tick_state)
}
pub open spec fn wd_settled(a: Withdraw, n: Withdraw, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld, v: VxWorld) -> bool {
    x.len() >= 4 && wd_loaded(a, i, w) && wd_covered(a, x[0], x[1], x[2], x[3]) && wd_paid(a, n, w.log@, v.log@, x[0], x[1], x[2], x[3])
    && v.ledger@[*n.position_state.info.key] == pos_data(n.position_state)
}
pub open spec fn wd_earned(a: Withdraw, n: Withdraw, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld, v: VxWorld) -> bool {
    x.len() >= 4 && wd_loaded(a, i, w) && v.ledger@[*a.position_state.info.key] == pos_data(n.position_state)
    && fee_rule(x[0], x[1], x[2], a.pool_state.pool_global_state.global_fee, a.lower_tick_state.tick_fee, a.upper_tick_state.tick_fee, a.position_state.last_collected_fee.fee_scale, n.position_state.last_collected_fee)
}
/// all of it
pub open spec fn dep_done(a: Deposit, n: Deposit, p: Pubkey, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld, v: VxWorld) -> bool {
    dep_taken(a, p, i, x, w) && dep_kept(a, n, i, x, w, v) && dep_took(a, n, w.log@, v.log@, x[0], x[1], x[2]) && dep_earned(a, n, i, x, w, v) && priced(x[0], x[1], x[2])
}
pub open spec fn wd_done(a: Withdraw, n: Withdraw, p: Pubkey, i: Seq<AccountInfo>, x: Seq<u64>, w: VxWorld, v: VxWorld) -> bool {
    wd_taken(a, p, i, x, w) && wd_kept(a, n, i, x, w, v) && wd_settled(a, n, i, x, w, v) && wd_earned(a, n, i, x, w, v) && priced(x[0], x[1], x[2])
}
/// accounts of different kinds, and ticks of different number, are different accounts
pub proof fn lemma_apart(po: PoolState, q: PositionState, lo: TickState, hi: TickState, i: Seq<AccountInfo>, w: VxWorld)
    requires mine(po, i, w), mine(q, i, w), mine(lo, i, w), mine(hi, i, w), lo.tick != hi.tick,
    ensures apart(*po.info.key, *q.info.key, *lo.info.key, *hi.info.key),
{ assert(tick_data(lo)->Tick_0.tick != tick_data(hi)->Tick_0.tick); }
// -- accounts created
pub open spec fn tick_opened(a: InitializeTick, p: Pubkey, i: Seq<AccountInfo>, tick: u64, b: VxBumps, w: VxWorld, v: VxWorld) -> bool {
    let k = *a.tick_state.info.key;
    let s = tick_seeds(*a.pool_state.info.key, tick);
    &&& mine(a.pool_state, i, w) && tick_zero(a.tick_state) && !w.ledger@.dom().contains(k)
    &&& k == addr(s, canon(s, p), p) && b.of("tick_state"@) == Some(canon(s, p))
    &&& v.ledger@ == w.ledger@.insert(k, tick_data(a.tick_state))
}
pub open spec fn pos_opened(a: CreatePosition, p: Pubkey, i: Seq<AccountInfo>, lower: u64, upper: u64, b: VxBumps, w: VxWorld, v: VxWorld) -> bool {
    let k = *a.position_state.info.key;
    let pool = *a.pool_state.info.key;
    let s = pos_seeds(pool, *a.user.info.key, lower, upper);
    &&& lower < upper && a.user.info.is_signer
    &&& mine(a.pool_state, i, w) && mine(a.lower_tick_state, i, v) && mine(a.upper_tick_state, i, v) && pos_zero(a.position_state) && !w.ledger@.dom().contains(k)
    &&& *a.lower_tick_state.info.key == tick_addr(pool, lower, a.lower_tick_state.bump, p)
    &&& *a.upper_tick_state.info.key == tick_addr(pool, upper, a.upper_tick_state.bump, p)
    &&& k == addr(s, canon(s, p), p) && b.of("position_state"@) == Some(canon(s, p))
    &&& v.ledger@ == w.ledger@.insert(k, pos_data(a.position_state))
}
pub open spec fn pool_opened(a: InitializePool, p: Pubkey, b: VxBumps, w: VxWorld, v: VxWorld) -> bool {
    let k = *a.pool_state.info.key;
    let m = *a.lp_token_mint.info.key;
    let s = pool_seeds(m);
    let x = vault_seeds(*a.token_x_mint.info.key, m);
    let y = vault_seeds(*a.token_y_mint.info.key, m);
    &&& a.authority.info.is_signer && pool_zero(a.pool_state) && !w.ledger@.dom().contains(k)
    &&& k == addr(s, canon(s, p), p) && b.of("pool_state"@) == Some(canon(s, p))
    &&& *a.token_x_vault.info.key == addr(x, canon(x, p), p) && b.of("token_x_vault"@) == Some(canon(x, p))
    &&& *a.token_y_vault.info.key == addr(y, canon(y, p), p) && b.of("token_y_vault"@) == Some(canon(y, p))
    &&& a.token_x_vault.mint == *a.token_x_mint.info.key && a.token_x_vault.owner == k
    &&& a.token_y_vault.mint == *a.token_y_mint.info.key && a.token_y_vault.owner == k
    &&& a.lp_token_mint.mint_authority == Some(k)
    &&& v.ledger@ == w.ledger@.insert(k, pool_data(a.pool_state))
}
/// the instruction as a whole: an account that was not there, and nothing else
pub open spec fn tick_made(pool: Pubkey, t: TickState, p: Pubkey, tick: u64, w: VxWorld, v: VxWorld) -> bool {
    let s = tick_seeds(pool, tick);
    let k = addr(s, canon(s, p), p);
    &&& w.ledger@.dom().contains(pool) && w.ledger@[pool] is Pool && !w.ledger@.dom().contains(k)
    &&& t.tick == tick && t12(t) && t.tick_fee.fee_scale == 12 && tick_zero(t) && t.bump == canon(s, p)
    &&& v.ledger@ =~= w.ledger@.insert(k, tick_data(t))
}
pub open spec fn has_tick(l: VxLedger, pool: Pubkey, tick: u64, p: Pubkey) -> bool {
    exists|b: u8| #![trigger tick_addr(pool, tick, b, p)] l.dom().contains(tick_addr(pool, tick, b, p)) && l[tick_addr(pool, tick, b, p)] is Tick && l[tick_addr(pool, tick, b, p)]->Tick_0.bump == b
}
pub open spec fn pos_made(pool: Pubkey, user: Pubkey, q: PositionState, p: Pubkey, lower: u64, upper: u64, w: VxWorld, v: VxWorld) -> bool {
    let s = pos_seeds(pool, user, lower, upper);
    let k = addr(s, canon(s, p), p);
    &&& w.ledger@.dom().contains(pool) && w.ledger@[pool] is Pool && !w.ledger@.dom().contains(k) && lower < upper
    &&& has_tick(w.ledger@, pool, lower, p) && has_tick(w.ledger@, pool, upper, p)
    &&& q.lower_tick == lower && q.upper_tick == upper && q.liq_scale == 12 && q.last_collected_fee.fee_scale == 12 && pos_zero(q) && q.bump == canon(s, p)
    &&& v.ledger@ =~= w.ledger@.insert(k, pos_data(q))
}
pub open spec fn pool_made(g: PoolState, p: Pubkey, tick: u64, w: VxWorld, v: VxWorld) -> bool {
    let m = g.lp_token_mint;
    let s = pool_seeds(m);
    let k = addr(s, canon(s, p), p);
    let x = vault_seeds(g.token_x_mint, m);
    let y = vault_seeds(g.token_y_mint, m);
    &&& !w.ledger@.dom().contains(k)
    &&& g.pool_state_bump == canon(s, p)
    &&& g.token_x_vault == addr(x, canon(x, p), p) && g.token_x_vault_bump == canon(x, p)
    &&& g.token_y_vault == addr(y, canon(y, p), p) && g.token_y_vault_bump == canon(y, p)
    &&& g.pool_global_state.tick == tick && g.pool_global_state.liq_scale == 12 && g.pool_global_state.global_fee.fee_scale == 12 && pool_zero(g)
    &&& v.ledger@ =~= w.ledger@.insert(k, pool_data(g))
}
pub open spec fn map_opened(a: InitializeBitmap, p: Pubkey, b: VxBumps, w: VxWorld, v: VxWorld) -> bool {
    let k = *a.tick_bitmap.info.key;
    let s = map_seeds(*a.pool_state.info.key);
    &&& a.pool_state.took(w) && !w.ledger@.dom().contains(k)
    &&& k == addr(s, canon(s, p), p) && b.of("tick_bitmap"@) == Some(canon(s, p))
    &&& v.ledger@ == w.ledger@.insert(k, VxData::Bitmap)
}
pub open spec fn map_made(pool: Pubkey, p: Pubkey, w: VxWorld, v: VxWorld) -> bool {
    let s = map_seeds(pool);
    let k = addr(s, canon(s, p), p);
    &&& w.ledger@.dom().contains(pool) && w.ledger@[pool] is Pool && !w.ledger@.dom().contains(k)
    &&& v.ledger@ =~= w.ledger@.insert(k, VxData::Bitmap)
}
/// the names of the accounts and kinds differ
pub proof fn lemma_names()
    ensures
        "pool_state"@ != "token_x_vault"@, "pool_state"@ != "token_y_vault"@, "pool_state"@ != "lp_token_vault"@,
        "token_x_vault"@ != "token_y_vault"@, "token_x_vault"@ != "lp_token_vault"@, "token_y_vault"@ != "lp_token_vault"@,
        "tick"@ != "position"@, "tick"@ != "pool_state_seed"@, "position"@ != "pool_state_seed"@,
{
    reveal_strlit("pool_state"); reveal_strlit("token_x_vault"); reveal_strlit("token_y_vault"); reveal_strlit("lp_token_vault");
    reveal_strlit("tick"); reveal_strlit("position"); reveal_strlit("pool_state_seed");
    assert("pool_state"@.len() == 10 && "token_x_vault"@.len() == 13 && "token_y_vault"@.len() == 13 && "lp_token_vault"@.len() == 14);
    assert("tick"@.len() == 4 && "position"@.len() == 8 && "pool_state_seed"@.len() == 15);
    assert("token_x_vault"@[6] == 'x' && "token_y_vault"@[6] == 'y');
}
