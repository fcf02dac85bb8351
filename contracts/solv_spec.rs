// ---- what is paid out for a position stays covered by what was taken in for it, over every history ----
/// the tokens an instruction has moved: LP tokens minted or burnt, token x, token y
pub struct VxFlow { pub m: u64, pub a: u64, pub b: u64 }
/// the contracts of the entry points tie the flow to the calls made to the token program (dep_log, wd_log)
pub open spec fn paid(s: VxStep, f: VxFlow, w: VxWorld, v: VxWorld) -> bool {
    match s {
        VxStep::Deposit(a, n, i, x) => dep_flow(a, n, w.log@, v.log@, x[0], x[1], x[2], f.m, f.a, f.b) && dep_earned(a, n, i, x, w, v) && priced(x[0], x[1], x[2]),
        VxStep::Withdraw(a, n, i, x) => f.m == x[3] && wd_flow(a, n, w.log@, v.log@, x[0], x[1], x[2], f.m, f.a, f.b) && wd_earned(a, n, i, x, w, v) && priced(x[0], x[1], x[2]),
        _ => true,
    }
}
/// totals of one position: taken in, paid out, number of deposits
pub struct VxTot { pub ix: int, pub ox: int, pub iy: int, pub oy: int, pub im: int, pub om: int, pub n: int }
pub open spec fn nil() -> VxTot { VxTot { ix: 0, ox: 0, iy: 0, oy: 0, im: 0, om: 0, n: 0 } }
pub open spec fn plus(t: VxTot, s: VxStep, f: VxFlow, k: Pubkey) -> VxTot {
    match s {
        VxStep::Deposit(a, n, i, x) => if *a.position_state.info.key == k { VxTot { ix: t.ix + f.a, iy: t.iy + f.b, im: t.im + f.m, n: t.n + 1, ..t } } else { t },
        VxStep::Withdraw(a, n, i, x) => if *a.position_state.info.key == k { VxTot { ox: t.ox + f.a, oy: t.oy + f.b, om: t.om + f.m, ..t } } else { t },
        _ => t,
    }
}
pub open spec fn tot(s: Seq<VxStep>, f: Seq<VxFlow>, k: Pubkey) -> VxTot
    decreases s.len(),
{
    if s.len() == 0 { nil() } else { plus(tot(s.drop_last(), f.drop_last(), k), s.last(), f.last(), k) }
}
/// what remains covers what the liquidity of the position is worth at the root price of the pool's tick, but for rounding
pub open spec fn left_x(t: VxTot, v: int, c: int, b: int) -> bool { (t.ix - t.ox) * U * (c * b) + t.ix * U * U + t.n * (c * b + U + U * U) >= v * (b - c) * U }
pub open spec fn left_y(t: VxTot, v: int, a: int, c: int) -> bool { (t.iy - t.oy) * U * U + t.n * U >= v * (c - a) }
pub open spec fn left_lp(t: VxTot, v: int) -> bool { (t.im - t.om) * U <= v }
pub open spec fn solvent(t: VxTot, q: PositionState, tick: u64) -> bool {
    let a = rpv(q.lower_tick); let b = rpv(q.upper_tick); let c = clamp(rpv(tick), a, b);
    &&& t.ix >= 0 && t.ox >= 0 && t.iy >= 0 && t.oy >= 0 && t.im >= 0 && t.om >= 0 && t.n >= 0
    &&& left_x(t, q.liquidity as int, c, b) && left_y(t, q.liquidity as int, a, c) && left_lp(t, q.liquidity as int)
    &&& t != nil() ==> priced(q.lower_tick, q.upper_tick, tick)
}
/// no fee has grown: the program has no instruction that lets fees grow
pub open spec fn fee_free(l: VxLedger) -> bool {
    forall|k: Pubkey| #[trigger] l.dom().contains(k) ==> match l[k] {
        VxData::Pool(g) => no_fee(g.pool_global_state.global_fee),
        VxData::Tick(t) => no_fee(t.tick_fee),
        _ => true,
    }
}
pub open spec fn backed(l: VxLedger, s: Seq<VxStep>, f: Seq<VxFlow>, ks: VxKnown, p: Pubkey) -> bool {
    &&& forall|k: Pubkey, pool: Pubkey| #![trigger l[k], l[pool]] l.dom().contains(k) && l[k] is Pos && l.dom().contains(pool) && l[pool] is Pool && pos_in(k, l[k]->Pos_0, pool, ks, p)
        ==> solvent(tot(s, f, k), l[k]->Pos_0, l[pool]->Pool_0.pool_global_state.tick)
    &&& forall|k: Pubkey| #![trigger tot(s, f, k)] !(l.dom().contains(k) && l[k] is Pos) ==> tot(s, f, k) == nil()
}
pub proof fn lemma_no_fees(lo: u64, hi: u64, cur: u64, g: Fee, l: Fee, u: Fee, scale: u8, r: Fee)
    requires fee_rule(lo, hi, cur, g, l, u, scale, r), no_fee(g), no_fee(l), no_fee(u),
    ensures fee12(r.f_x, r.h_x, r.fee_scale) == 0, fee12(r.f_y, r.h_y, r.fee_scale) == 0,
{
    let z = dec_nn(0, g.fee_scale);
    lemma_scale_nothing(z, scale);
    assert(kf(r, 0) == 0 && kf(r, 1) == 0 && kf(r, 2) == 0 && kf(r, 3) == 0);
    lemma_scale_nothing(dec_nn(0, r.fee_scale), 12);
}
pub proof fn lemma_scale_nothing(d: Decimal, s: u8)
    requires d.value == 0,
    ensures to_scale_val(d, s) == 0,
{
    if d.scale > s { p10_pos((d.scale - s) as nat); lemma_div_basics(p10((d.scale - s) as nat) as int); }
    else if d.scale < s { assert(0 * p10((s - d.scale) as nat) == 0); }
}
pub proof fn lemma_in_x(d: int, paid: int, w: int, c: int, b: int)
    requires x_worth_low(w, d, c, b), w >= 0, paid * U >= w, c * b >= 0,
    ensures d * (b - c) * U <= paid * U * (c * b) + paid * U * U + (c * b + U + U * U),
{
    let e = c * b + U;
    assert((w + 1) * e <= (paid * U + 1) * e) by (nonlinear_arith) requires w <= paid * U, e >= 0;
    assert((paid * U + 1) * e == paid * U * (c * b) + paid * U * U + (c * b + U)) by (nonlinear_arith) requires e == c * b + U;
    assert((d * (b - c) - U) * U == d * (b - c) * U - U * U) by (nonlinear_arith);
}
pub proof fn lemma_out_x(v: int, paid: int, w: int, c: int, b: int)
    requires x_worth(w, v, c, b), paid * U <= w, c * b >= 0,
    ensures paid * U * (c * b) <= v * (b - c) * U,
{
    assert((w * c) * b == w * (c * b)) by (nonlinear_arith);
    assert(paid * U * (c * b) <= w * (c * b)) by (nonlinear_arith) requires paid * U <= w, c * b >= 0;
}
pub proof fn lemma_clamp(p: int, a: int, b: int)
    requires U <= a < b, U <= p,
    ensures a <= clamp(p, a, b) <= b, clamp(p, a, b) * b >= U * U, clamp(p, a, b) * b >= U,
{
    let c = clamp(p, a, b);
    assert(c * b >= U * U) by (nonlinear_arith) requires c >= U, b >= U;
}
/// a deposit keeps the position solvent
pub proof fn lemma_took(t: VxTot, q: PositionState, n: PositionState, tick: u64, d: int, m: int, x: int, y: int)
    requires
        solvent(t, q, tick), priced(q.lower_tick, q.upper_tick, tick), n.lower_tick == q.lower_tick, n.upper_tick == q.upper_tick, n.liquidity == q.liquidity + d,
        m * U <= d, m >= 0, x >= 0, y >= 0,
        exists|w: int| #[trigger] x_amt_low(w, d, rpv(tick), rpv(q.lower_tick), rpv(q.upper_tick)) && (w >= 0 ==> x * U >= w - 0),
        exists|w: int| #[trigger] y_amt_low(w, d, rpv(tick), rpv(q.lower_tick), rpv(q.upper_tick)) && (w >= 0 ==> y * U >= w - 0),
    ensures solvent(VxTot { ix: t.ix + x, iy: t.iy + y, im: t.im + m, n: t.n + 1, ..t }, n, tick),
{
    let a = rpv(q.lower_tick); let b = rpv(q.upper_tick); let c = clamp(rpv(tick), a, b);
    let v = q.liquidity as int;
    lemma_clamp(rpv(tick), a, b);
    let wx = choose|w: int| #[trigger] x_amt_low(w, d, rpv(tick), a, b) && (w >= 0 ==> x * U >= w - 0);
    let wy = choose|w: int| #[trigger] y_amt_low(w, d, rpv(tick), a, b) && (w >= 0 ==> y * U >= w - 0);
    lemma_in_x(d, x, wx, c, b);
    let cb = c * b; let e = cb + U + U * U;
    assert((t.ix + x - t.ox) * U * cb == (t.ix - t.ox) * U * cb + x * U * cb) by (nonlinear_arith);
    assert((t.ix + x) * U * U == t.ix * U * U + x * U * U) by (nonlinear_arith);
    assert((t.n + 1) * e == t.n * e + e) by (nonlinear_arith);
    assert((v + d) * (b - c) * U == v * (b - c) * U + d * (b - c) * U) by (nonlinear_arith);
    assert((v + d) * (c - a) == v * (c - a) + d * (c - a)) by (nonlinear_arith);
    assert((t.iy + y - t.oy) * U * U == (t.iy - t.oy) * U * U + y * U * U) by (nonlinear_arith);
    assert((t.n + 1) * U == t.n * U + U);
    assert((wy + 1) * U <= (y * U + 1) * U) by (nonlinear_arith) requires wy <= y * U;
    assert((y * U + 1) * U == y * U * U + U) by (nonlinear_arith);
    assert((t.im + m - t.om) * U == (t.im - t.om) * U + m * U) by (nonlinear_arith);
}
/// a withdrawal keeps the position solvent
pub proof fn lemma_gave(t: VxTot, q: PositionState, n: PositionState, tick: u64, m: int, x: int, y: int)
    requires
        solvent(t, q, tick), priced(q.lower_tick, q.upper_tick, tick), n.lower_tick == q.lower_tick, n.upper_tick == q.upper_tick, n.liquidity == q.liquidity - m * U,
        m >= 0, x >= 0, y >= 0,
        exists|w: int| #[trigger] x_amt_ok(w, m * U, rpv(tick), rpv(q.lower_tick), rpv(q.upper_tick)) && x * U <= w + 0,
        exists|w: int| #[trigger] y_amt_ok(w, m * U, rpv(tick), rpv(q.lower_tick), rpv(q.upper_tick)) && y * U <= w + 0,
    ensures solvent(VxTot { ox: t.ox + x, oy: t.oy + y, om: t.om + m, ..t }, n, tick),
{
    let a = rpv(q.lower_tick); let b = rpv(q.upper_tick); let c = clamp(rpv(tick), a, b);
    let v = q.liquidity as int; let d = m * U;
    lemma_clamp(rpv(tick), a, b);
    let wx = choose|w: int| #[trigger] x_amt_ok(w, d, rpv(tick), a, b) && x * U <= w + 0;
    let wy = choose|w: int| #[trigger] y_amt_ok(w, d, rpv(tick), a, b) && y * U <= w + 0;
    lemma_out_x(d, x, wx, c, b);
    let cb = c * b;
    assert((t.ix - (t.ox + x)) * U * cb == (t.ix - t.ox) * U * cb - x * U * cb) by (nonlinear_arith);
    assert((v - d) * (b - c) * U == v * (b - c) * U - d * (b - c) * U) by (nonlinear_arith);
    assert((v - d) * (c - a) == v * (c - a) - d * (c - a)) by (nonlinear_arith);
    assert((t.iy - (t.oy + y)) * U * U == (t.iy - t.oy) * U * U - y * U * U) by (nonlinear_arith);
    assert(y * U * U <= wy * U) by (nonlinear_arith) requires y * U <= wy;
    assert((t.im - (t.om + m)) * U == (t.im - t.om) * U - m * U) by (nonlinear_arith);
}
/// no fees to begin with, none later
pub proof fn lemma_fee_free(s: VxStep, w: VxWorld, v: VxWorld, p: Pubkey)
    requires fee_free(w.ledger@), stepped(s, w, v, p),
    ensures fee_free(v.ledger@),
{
    let l = w.ledger@; let m = v.ledger@;
    assert forall|k: Pubkey| #[trigger] m.dom().contains(k) implies match m[k] {
        VxData::Pool(g) => no_fee(g.pool_global_state.global_fee),
        VxData::Tick(t) => no_fee(t.tick_fee),
        _ => true,
    } by {
        match s {
            VxStep::Deposit(a, n, i, x) => {
                assert(l.dom().contains(*a.pool_state.info.key) && l.dom().contains(*a.lower_tick_state.info.key) && l.dom().contains(*a.upper_tick_state.info.key));
                assert(l.dom().contains(k) || k == *a.position_state.info.key);
            }
            VxStep::Withdraw(a, n, i, x) => {
                assert(l.dom().contains(*a.pool_state.info.key) && l.dom().contains(*a.lower_tick_state.info.key) && l.dom().contains(*a.upper_tick_state.info.key));
                assert(l.dom().contains(k) || k == *a.position_state.info.key);
            }
            _ => { if l.dom().contains(k) {} }
        }
    }
}
/// a position, and the pool it is of, before and after a deposit or withdrawal
pub proof fn lemma_pair(v: VxMove, user: AccountInfo, cu: TickState, lower: u64, upper: u64, cur: u64, d: int, l: VxLedger, m: VxLedger, k: Pubkey, pool: Pubkey, ks: VxKnown, p: Pubkey)
    requires
        no_clash(ks, p), balanced(l, ks, p), moved(v, user, cu, lower, upper, cur, d, l, m, p), seeds_known(v, user, lower, upper, ks),
        m.dom().contains(k), m[k] is Pos, m.dom().contains(pool), m[pool] is Pool, pos_in(k, m[k]->Pos_0, pool, ks, p),
    ensures
        l.dom().contains(k), l[k] is Pos, l.dom().contains(pool), l[pool] is Pool, pos_in(k, l[k]->Pos_0, pool, ks, p),
        m[pool]->Pool_0.pool_global_state.tick == l[pool]->Pool_0.pool_global_state.tick,
        m[k]->Pos_0.lower_tick == l[k]->Pos_0.lower_tick, m[k]->Pos_0.upper_tick == l[k]->Pos_0.upper_tick,
        scales12(v.po, v.qo, v.lo, v.uo),
        k != *v.qo.info.key ==> m[k] == l[k],
        k == *v.qo.info.key ==> pool == *v.po.info.key && l[pool]->Pool_0.pool_global_state.tick == cur && l[k]->Pos_0.lower_tick == lower && l[k]->Pos_0.upper_tick == upper
            && l[k]->Pos_0.liquidity == v.qo.liquidity && m[k]->Pos_0.liquidity == v.qn.liquidity,
{
    let kp = *v.po.info.key; let kq = *v.qo.info.key; let kl = *v.lo.info.key; let ku = *v.uo.info.key;
    lemma_tick_here(l, kp, lower, v.lo.bump, ks, p);
    lemma_tick_here(l, kp, upper, v.uo.bump, ks, p);
    assert(l.dom().contains(k) && l.dom().contains(pool));
    assert(l[kl]->Tick_0.tick == lower && l[ku]->Tick_0.tick == upper);
    assert(kl != ku && kl != kq && kl != kp && ku != kq && ku != kp && kq != kp);
    let q = pos_data(v.qo)->Pos_0;
    assert(pos_good(l, kq, q, ks, p)); assert(pool_good(l, kp, pool_data(v.po)->Pool_0, ks, p));
    assert(tick_good(l, kl, tick_data(v.lo)->Tick_0, ks, p) && tick_good(l, ku, tick_data(v.uo)->Tick_0, ks, p));
    assert(l[k] is Pos && l[pool] is Pool);
    let r = l[k]->Pos_0; let r2 = m[k]->Pos_0;
    assert(r2.lower_tick == r.lower_tick && r2.upper_tick == r.upper_tick);
    let u = choose|u: Pubkey| pos_of(k, r2, pool, u, ks, p);
    assert(pos_of(k, r, pool, u, ks, p));
    if k == kq {
        lemma_own_pool(l, kq, q, kp, *user.key, v.qo.bump, ks, p);
        lemma_one_pool(k, r, pool, q, kp, ks, p);
    }
}
pub proof fn lemma_backed_made(l: VxLedger, m: VxLedger, k0: Pubkey, d: VxData, s: Seq<VxStep>, f: Seq<VxFlow>, ks: VxKnown, p: Pubkey)
    requires
        no_clash(ks, p), balanced(l, ks, p), backed(l, s, f, ks, p), m == l.insert(k0, d), !l.dom().contains(k0), d is Pos ==> d->Pos_0.liquidity == 0,
    ensures backed(m, s, f, ks, p),
{
    assert forall|k: Pubkey, pool: Pubkey| #![trigger m[k], m[pool]] m.dom().contains(k) && m[k] is Pos && m.dom().contains(pool) && m[pool] is Pool && pos_in(k, m[k]->Pos_0, pool, ks, p)
        implies solvent(tot(s, f, k), m[k]->Pos_0, m[pool]->Pool_0.pool_global_state.tick) by {
        if k == k0 {
            assert(tot(s, f, k) == nil());
            lemma_nil(m[k]->Pos_0, m[pool]->Pool_0.pool_global_state.tick);
        } else if pool == k0 {
            let q = l[k]->Pos_0;
            assert(l.dom().contains(k)); assert(pos_good(l, k, q, ks, p));
            let b = choose|b: Pubkey| #[trigger] pos_in(k, q, b, ks, p) && l.dom().contains(b) && l[b] is Pool
                && tick_here(l, b, q.lower_tick, ks, p) && tick_here(l, b, q.upper_tick, ks, p);
            lemma_one_pool(k, q, pool, q, b, ks, p);
        } else { assert(l[k] == m[k] && l[pool] == m[pool]); }
    }
    assert forall|k: Pubkey| #![trigger tot(s, f, k)] !(m.dom().contains(k) && m[k] is Pos) implies tot(s, f, k) == nil() by { if k == k0 {} else {} }
}
pub proof fn lemma_nil(q: PositionState, tick: u64)
    requires q.liquidity == 0,
    ensures solvent(nil(), q, tick),
{
    let a = rpv(q.lower_tick); let b = rpv(q.upper_tick); let c = clamp(rpv(tick), a, b);
    let cb = c * b; let e = cb + U + U * U;
    assert(0 * U * cb + 0 * U * U + 0 * e >= 0 * (b - c) * U) by (nonlinear_arith);
    assert(0 * U * U + 0 * U >= 0 * (c - a)) by (nonlinear_arith);
}
pub proof fn lemma_backed_step(s: Seq<VxStep>, f: Seq<VxFlow>, w: VxWorld, v: VxWorld, ks: VxKnown, p: Pubkey)
    requires
        s.len() > 0, f.len() == s.len(), no_clash(ks, p), balanced(w.ledger@, ks, p), fee_free(w.ledger@), backed(w.ledger@, s.drop_last(), f.drop_last(), ks, p),
        stepped(s.last(), w, v, p), step_known(s.last(), w, ks, p), paid(s.last(), f.last(), w, v),
    ensures backed(v.ledger@, s, f, ks, p),
{
    let l = w.ledger@; let m = v.ledger@;
    let so = s.drop_last(); let fo = f.drop_last(); let g = f.last();
    assert forall|k: Pubkey| #[trigger] tot(s, f, k) == plus(tot(so, fo, k), s.last(), g, k) by {}
    match s.last() {
        VxStep::Deposit(a, n, i, x) => {
            let vm = dep_move(a, n); let kq = *a.position_state.info.key;
            assert forall|k: Pubkey, pool: Pubkey| #![trigger m[k], m[pool]] m.dom().contains(k) && m[k] is Pos && m.dom().contains(pool) && m[pool] is Pool && pos_in(k, m[k]->Pos_0, pool, ks, p)
                implies solvent(tot(s, f, k), m[k]->Pos_0, m[pool]->Pool_0.pool_global_state.tick) by {
                lemma_pair(vm, a.user.at(), a.current_tick_state, x[0], x[1], x[2], dep_delta(a, n), l, m, k, pool, ks, p);
                assert(l[k] is Pos && l[pool] is Pool);
                assert(solvent(tot(so, fo, k), l[k]->Pos_0, l[pool]->Pool_0.pool_global_state.tick));
                if k == kq {
                    assert(l.dom().contains(*a.pool_state.info.key) && l.dom().contains(*a.lower_tick_state.info.key) && l.dom().contains(*a.upper_tick_state.info.key));
                    lemma_no_fees(x[0], x[1], x[2], a.pool_state.pool_global_state.global_fee, a.lower_tick_state.tick_fee, a.upper_tick_state.tick_fee, a.position_state.last_collected_fee.fee_scale, n.position_state.last_collected_fee);
                    lemma_took(tot(so, fo, k), l[k]->Pos_0, m[k]->Pos_0, x[2], dep_delta(a, n), g.m as int, g.a as int, g.b as int);
                }
            }
            assert forall|k: Pubkey| #![trigger tot(s, f, k)] !(m.dom().contains(k) && m[k] is Pos) implies tot(s, f, k) == nil() by {
                assert(m.dom().contains(kq) && m[kq] is Pos);
                assert(tot(so, fo, k) == nil());
            }
        }
        VxStep::Withdraw(a, n, i, x) => {
            let vm = wd_move(a, n); let kq = *a.position_state.info.key;
            assert forall|k: Pubkey, pool: Pubkey| #![trigger m[k], m[pool]] m.dom().contains(k) && m[k] is Pos && m.dom().contains(pool) && m[pool] is Pool && pos_in(k, m[k]->Pos_0, pool, ks, p)
                implies solvent(tot(s, f, k), m[k]->Pos_0, m[pool]->Pool_0.pool_global_state.tick) by {
                lemma_pair(vm, a.user.at(), a.current_tick_state, x[0], x[1], x[2], -(x[3] * U), l, m, k, pool, ks, p);
                assert(l[k] is Pos && l[pool] is Pool);
                assert(solvent(tot(so, fo, k), l[k]->Pos_0, l[pool]->Pool_0.pool_global_state.tick));
                if k == kq {
                    assert(l.dom().contains(*a.pool_state.info.key) && l.dom().contains(*a.lower_tick_state.info.key) && l.dom().contains(*a.upper_tick_state.info.key));
                    lemma_no_fees(x[0], x[1], x[2], a.pool_state.pool_global_state.global_fee, a.lower_tick_state.tick_fee, a.upper_tick_state.tick_fee, a.position_state.last_collected_fee.fee_scale, n.position_state.last_collected_fee);
                    lemma_gave(tot(so, fo, k), l[k]->Pos_0, m[k]->Pos_0, x[2], g.m as int, g.a as int, g.b as int);
                }
            }
            assert forall|k: Pubkey| #![trigger tot(s, f, k)] !(m.dom().contains(k) && m[k] is Pos) implies tot(s, f, k) == nil() by {
                assert(m.dom().contains(kq) && m[kq] is Pos);
                assert(tot(so, fo, k) == nil());
            }
        }
        VxStep::Tick(k, t, tick) => { lemma_backed_made(l, m, pda(full(tick_seeds(k, tick), p), p), tick_data(t), so, fo, ks, p); lemma_same_tot(m, s, f, ks, p); }
        VxStep::Position(k, u, q, lower, upper) => { lemma_backed_made(l, m, pda(full(pos_seeds(k, u, lower, upper), p), p), pos_data(q), so, fo, ks, p); lemma_same_tot(m, s, f, ks, p); }
        VxStep::Pool(t, tick) => { lemma_backed_made(l, m, pda(full(pool_seeds(t.lp_token_mint), p), p), pool_data(t), so, fo, ks, p); lemma_same_tot(m, s, f, ks, p); }
        VxStep::Bitmap(k) => { lemma_backed_made(l, m, pda(full(map_seeds(k), p), p), VxData::Bitmap, so, fo, ks, p); lemma_same_tot(m, s, f, ks, p); }
    }
}
pub proof fn lemma_same_tot(m: VxLedger, s: Seq<VxStep>, f: Seq<VxFlow>, ks: VxKnown, p: Pubkey)
    requires s.len() > 0, backed(m, s.drop_last(), f.drop_last(), ks, p), !(s.last() is Deposit), !(s.last() is Withdraw),
    ensures backed(m, s, f, ks, p),
{
    let so = s.drop_last(); let fo = f.drop_last();
    assert forall|k: Pubkey| #[trigger] tot(s, f, k) == tot(so, fo, k) by {}
    assert forall|k: Pubkey, pool: Pubkey| #![trigger m[k], m[pool]] m.dom().contains(k) && m[k] is Pos && m.dom().contains(pool) && m[pool] is Pool && pos_in(k, m[k]->Pos_0, pool, ks, p)
        implies solvent(tot(s, f, k), m[k]->Pos_0, m[pool]->Pool_0.pool_global_state.tick) by { assert(tot(s, f, k) == tot(so, fo, k)); }
}
/// after any history each position is backed by what was taken in for it
pub proof fn theorem_backed(h: Seq<VxWorld>, s: Seq<VxStep>, f: Seq<VxFlow>, ks: VxKnown, p: Pubkey)
    requires
        h.len() == s.len() + 1, f.len() == s.len(), h[0].ledger@ == Map::<Pubkey, VxData>::empty(), no_clash(ks, p),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> stepped(s[i], h[i], h[i + 1], p) && step_known(s[i], h[i], ks, p) && paid(s[i], f[i], h[i], h[i + 1]),
    ensures backed(h.last().ledger@, s, f, ks, p), fee_free(h.last().ledger@),
    decreases s.len(),
{
    if s.len() > 0 {
        theorem_backed(h.drop_last(), s.drop_last(), f.drop_last(), ks, p);
        theorem_books(h.drop_last(), s.drop_last(), ks, p);
        let i = s.len() - 1;
        assert(stepped(s[i], h[i], h[i + 1], p) && step_known(s[i], h[i], ks, p) && paid(s[i], f[i], h[i], h[i + 1]));
        lemma_fee_free(s[i], h[i], h[i + 1], p);
        lemma_backed_step(s, f, h[i], h[i + 1], ks, p);
    } else {
        assert forall|k: Pubkey| #[trigger] tot(s, f, k) == nil() by {}
    }
}
/// tokens paid out exceed those taken in by no more than one part in 10^12 of these and 3/10^12 of a token per deposit
pub proof fn lemma_no_gain(t: VxTot, q: PositionState, tick: u64)
    requires solvent(t, q, tick),
    ensures
        t.ox * U <= t.ix * U + t.ix + 3 * t.n,
        t.oy * U <= t.iy * U + t.n,
        (t.im - t.om) * U <= q.liquidity,
{
    if t != nil() {
        let a = rpv(q.lower_tick); let b = rpv(q.upper_tick); let c = clamp(rpv(tick), a, b);
        lemma_clamp(rpv(tick), a, b);
        let v = q.liquidity as int; let cb = c * b; let e = cb + U + U * U; let z = t.ix - t.ox;
        assert(v * (b - c) * U >= 0) by (nonlinear_arith) requires v >= 0, b >= c;
        assert(v * (c - a) >= 0) by (nonlinear_arith) requires v >= 0, c >= a;
        assert(t.ix * U * U <= t.ix * cb) by (nonlinear_arith) requires t.ix >= 0, cb >= U * U;
        assert(t.n * e <= t.n * (3 * cb)) by (nonlinear_arith) requires t.n >= 0, e <= 3 * cb;
        assert(z * U * cb + t.ix * cb + t.n * (3 * cb) == (z * U + t.ix + 3 * t.n) * cb) by (nonlinear_arith);
        assert(z * U + t.ix + 3 * t.n >= 0) by (nonlinear_arith) requires (z * U + t.ix + 3 * t.n) * cb >= 0, cb > 0;
        assert(z * U == t.ix * U - t.ox * U) by (nonlinear_arith) requires z == t.ix - t.ox;
        let y = t.iy - t.oy;
        assert(y * U * U + t.n * U == (y * U + t.n) * U) by (nonlinear_arith);
        assert(y * U + t.n >= 0) by (nonlinear_arith) requires (y * U + t.n) * U >= 0;
        assert(y * U == t.iy * U - t.oy * U) by (nonlinear_arith) requires y == t.iy - t.oy;
    }
}
/// the contracts of deposit and withdraw are steps with their flows
pub proof fn lemma_flows(w: VxWorld, v: VxWorld, p: Pubkey, i: Seq<AccountInfo>, x: Seq<u64>)
    ensures
        (exists|a: Deposit, n: Deposit| dep_done(a, n, p, i, x, w, v)) ==> exists|s: VxStep, f: VxFlow| stepped(s, w, v, p) && paid(s, f, w, v),
        (exists|a: Withdraw, n: Withdraw| wd_done(a, n, p, i, x, w, v)) ==> exists|s: VxStep, f: VxFlow| stepped(s, w, v, p) && paid(s, f, w, v),
{
    if exists|a: Deposit, n: Deposit| dep_done(a, n, p, i, x, w, v) {
        let (a, n) = choose|a: Deposit, n: Deposit| dep_done(a, n, p, i, x, w, v);
        let (m, b, c) = choose|m: u64, b: u64, c: u64| dep_flow(a, n, w.log@, v.log@, x[0], x[1], x[2], m, b, c);
        let s = VxStep::Deposit(a, n, i, x); let f = VxFlow { m, a: b, b: c };
        assert(stepped(s, w, v, p) && paid(s, f, w, v));
    }
    if exists|a: Withdraw, n: Withdraw| wd_done(a, n, p, i, x, w, v) {
        let (a, n) = choose|a: Withdraw, n: Withdraw| wd_done(a, n, p, i, x, w, v);
        let (b, c) = choose|b: u64, c: u64| wd_flow(a, n, w.log@, v.log@, x[0], x[1], x[2], x[3], b, c);
        let s = VxStep::Withdraw(a, n, i, x); let f = VxFlow { m: x[3], a: b, b: c };
        assert(stepped(s, w, v, p) && paid(s, f, w, v));
    }
}
