// ---- the books over every history of instructions -----------------------------------
/// sum over a set of accounts
pub open spec fn sum(s: Set<Pubkey>, f: spec_fn(Pubkey) -> int) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { let k = s.choose(); f(k) + sum(s.remove(k), f) }
}
pub proof fn lemma_sum_remove(s: Set<Pubkey>, f: spec_fn(Pubkey) -> int, k: Pubkey)
    requires s.contains(k),
    ensures sum(s, f) == f(k) + sum(s.remove(k), f),
    decreases s.len(),
{
    let c = s.choose();
    assert(s.len() > 0);
    assert(s.contains(c));
    if c != k {
        lemma_sum_remove(s.remove(c), f, k);
        lemma_sum_remove(s.remove(k), f, c);
        assert(s.remove(c).remove(k) =~= s.remove(k).remove(c));
    }
}
pub proof fn lemma_sum_same(s: Set<Pubkey>, f: spec_fn(Pubkey) -> int, g: spec_fn(Pubkey) -> int)
    requires forall|k: Pubkey| s.contains(k) ==> #[trigger] f(k) == g(k),
    ensures sum(s, f) == sum(s, g),
    decreases s.len(),
{
    if s.len() != 0 { let c = s.choose(); assert(s.contains(c)); assert(f(c) == g(c)); lemma_sum_same(s.remove(c), f, g); }
}
pub proof fn lemma_sum_zero(s: Set<Pubkey>, f: spec_fn(Pubkey) -> int)
    requires forall|k: Pubkey| s.contains(k) ==> #[trigger] f(k) == 0,
    ensures sum(s, f) == 0,
    decreases s.len(),
{
    if s.len() != 0 { let c = s.choose(); assert(s.contains(c)); assert(f(c) == 0); lemma_sum_zero(s.remove(c), f); }
}
pub proof fn lemma_sum_one(s: Set<Pubkey>, f: spec_fn(Pubkey) -> int, g: spec_fn(Pubkey) -> int, k: Pubkey)
    requires s.contains(k), forall|j: Pubkey| s.contains(j) && j != k ==> #[trigger] f(j) == g(j),
    ensures sum(s, g) == sum(s, f) - f(k) + g(k),
{
    lemma_sum_remove(s, f, k); lemma_sum_remove(s, g, k);
    lemma_sum_same(s.remove(k), f, g);
}

// -- who an account belongs to
pub type VxKnown = spec_fn(Seq<VxSeed>) -> bool;
/// no two of the seed lists used in the history have the same address
pub open spec fn no_clash(ks: VxKnown, p: Pubkey) -> bool {
    forall|a: Seq<VxSeed>, b: Seq<VxSeed>| #![trigger ks(a), ks(b)] ks(a) && ks(b) && pda(a, p) == pda(b, p) ==> a == b
}
pub open spec fn full(s: Seq<VxSeed>, p: Pubkey) -> Seq<VxSeed> { s.push(VxSeed::Bump(canon(s, p))) }
pub open spec fn tick_in(k: Pubkey, tick: u64, pool: Pubkey, ks: VxKnown, p: Pubkey) -> bool {
    ks(full(tick_seeds(pool, tick), p)) && k == pda(full(tick_seeds(pool, tick), p), p)
}
pub open spec fn pos_of(k: Pubkey, q: PositionState, pool: Pubkey, user: Pubkey, ks: VxKnown, p: Pubkey) -> bool {
    ks(full(pos_seeds(pool, user, q.lower_tick, q.upper_tick), p)) && k == pda(full(pos_seeds(pool, user, q.lower_tick, q.upper_tick), p), p)
}
pub open spec fn pos_in(k: Pubkey, q: PositionState, pool: Pubkey, ks: VxKnown, p: Pubkey) -> bool {
    exists|user: Pubkey| pos_of(k, q, pool, user, ks, p)
}
pub proof fn lemma_tick_seeds(a: Pubkey, s: u64, x: u8, b: Pubkey, t: u64, y: u8)
    requires tick_seeds(a, s).push(VxSeed::Bump(x)) == tick_seeds(b, t).push(VxSeed::Bump(y)),
    ensures a == b, s == t, x == y,
{
    let l = tick_seeds(a, s).push(VxSeed::Bump(x)); let r = tick_seeds(b, t).push(VxSeed::Bump(y));
    assert(l[1] == VxSeed::Key(a) && l[2] == VxSeed::Num(s) && l[3] == VxSeed::Bump(x));
    assert(r[1] == VxSeed::Key(b) && r[2] == VxSeed::Num(t) && r[3] == VxSeed::Bump(y));
}
pub proof fn lemma_pos_seeds(a: Pubkey, u: Pubkey, s: u64, e: u64, x: u8, b: Pubkey, w: Pubkey, t: u64, f: u64, y: u8)
    requires pos_seeds(a, u, s, e).push(VxSeed::Bump(x)) == pos_seeds(b, w, t, f).push(VxSeed::Bump(y)),
    ensures a == b, u == w, s == t, e == f, x == y,
{
    let l = pos_seeds(a, u, s, e).push(VxSeed::Bump(x)); let r = pos_seeds(b, w, t, f).push(VxSeed::Bump(y));
    assert(l[1] == VxSeed::Key(a) && l[2] == VxSeed::Key(u) && l[3] == VxSeed::Num(s) && l[4] == VxSeed::Num(e) && l[5] == VxSeed::Bump(x));
    assert(r[1] == VxSeed::Key(b) && r[2] == VxSeed::Key(w) && r[3] == VxSeed::Num(t) && r[4] == VxSeed::Num(f) && r[5] == VxSeed::Bump(y));
}
/// an account is of one pool, a tick account of one tick
pub proof fn lemma_one_tick(k: Pubkey, s: u64, a: Pubkey, t: u64, b: Pubkey, ks: VxKnown, p: Pubkey)
    requires no_clash(ks, p), tick_in(k, s, a, ks, p), tick_in(k, t, b, ks, p),
    ensures s == t, a == b,
{ lemma_tick_seeds(a, s, canon(tick_seeds(a, s), p), b, t, canon(tick_seeds(b, t), p)); }
pub proof fn lemma_one_pool(k: Pubkey, q: PositionState, a: Pubkey, r: PositionState, b: Pubkey, ks: VxKnown, p: Pubkey)
    requires no_clash(ks, p), pos_in(k, q, a, ks, p), pos_in(k, r, b, ks, p),
    ensures a == b, q.lower_tick == r.lower_tick, q.upper_tick == r.upper_tick,
{
    let u = choose|u: Pubkey| pos_of(k, q, a, u, ks, p);
    let w = choose|u: Pubkey| pos_of(k, r, b, u, ks, p);
    lemma_pos_seeds(a, u, q.lower_tick, q.upper_tick, canon(pos_seeds(a, u, q.lower_tick, q.upper_tick), p), b, w, r.lower_tick, r.upper_tick, canon(pos_seeds(b, w, r.lower_tick, r.upper_tick), p));
}

// -- what the positions of a pool add up to
pub enum VxSum { Gross(u64), Net(u64), Active(u64) }
pub open spec fn share(c: VxSum, q: PositionState) -> int {
    let v = q.liquidity as int;
    match c {
        VxSum::Gross(t) => (if q.lower_tick == t { v } else { 0 }) + (if q.upper_tick == t { v } else { 0 }),
        VxSum::Net(t) => (if q.lower_tick == t { v } else { 0 }) - (if q.upper_tick == t { v } else { 0 }),
        VxSum::Active(t) => if in_range(q.lower_tick, q.upper_tick, t) { v } else { 0 },
    }
}
pub open spec fn part(l: VxLedger, pool: Pubkey, c: VxSum, ks: VxKnown, p: Pubkey) -> spec_fn(Pubkey) -> int {
    |k: Pubkey| if l[k] is Pos && pos_in(k, l[k]->Pos_0, pool, ks, p) { share(c, l[k]->Pos_0) } else { 0 }
}
pub open spec fn total(l: VxLedger, pool: Pubkey, c: VxSum, ks: VxKnown, p: Pubkey) -> int { sum(l.dom(), part(l, pool, c, ks, p)) }

// -- the books balance
pub open spec fn pool_good(l: VxLedger, k: Pubkey, g: PoolState, ks: VxKnown, p: Pubkey) -> bool {
    g.pool_global_state.liq_scale == 12 && g.pool_global_state.liquidity == total(l, k, VxSum::Active(g.pool_global_state.tick), ks, p)
}
pub open spec fn tick_good(l: VxLedger, k: Pubkey, t: TickState, ks: VxKnown, p: Pubkey) -> bool {
    &&& t12(t) && t.bump == canon(tick_seeds(tick_pool(l, k, t, ks, p), t.tick), p)
    &&& tick_of(l, k, t, tick_pool(l, k, t, ks, p), ks, p)
    &&& t.liq_gross == total(l, tick_pool(l, k, t, ks, p), VxSum::Gross(t.tick), ks, p)
    &&& t_net(t) == total(l, tick_pool(l, k, t, ks, p), VxSum::Net(t.tick), ks, p)
}
pub open spec fn tick_of(l: VxLedger, k: Pubkey, t: TickState, pool: Pubkey, ks: VxKnown, p: Pubkey) -> bool {
    tick_in(k, t.tick, pool, ks, p) && l.dom().contains(pool) && l[pool] is Pool
}
/// the pool that a tick account is of
pub open spec fn tick_pool(l: VxLedger, k: Pubkey, t: TickState, ks: VxKnown, p: Pubkey) -> Pubkey {
    choose|pool: Pubkey| tick_of(l, k, t, pool, ks, p)
}
pub open spec fn tick_here(l: VxLedger, pool: Pubkey, tick: u64, ks: VxKnown, p: Pubkey) -> bool {
    let k = pda(full(tick_seeds(pool, tick), p), p);
    ks(full(tick_seeds(pool, tick), p)) && l.dom().contains(k) && l[k] is Tick && l[k]->Tick_0.tick == tick
}
pub open spec fn pos_good(l: VxLedger, k: Pubkey, q: PositionState, ks: VxKnown, p: Pubkey) -> bool {
    q.liq_scale == 12 && exists|pool: Pubkey| #[trigger] pos_in(k, q, pool, ks, p) && l.dom().contains(pool) && l[pool] is Pool
        && tick_here(l, pool, q.lower_tick, ks, p) && tick_here(l, pool, q.upper_tick, ks, p)
}
/// a ledger whose books balance
pub open spec fn balanced(l: VxLedger, ks: VxKnown, p: Pubkey) -> bool {
    forall|k: Pubkey| #[trigger] l.dom().contains(k) ==> match l[k] {
        VxData::Pool(g) => pool_good(l, k, g, ks, p),
        VxData::Tick(t) => tick_good(l, k, t, ks, p),
        VxData::Pos(q) => pos_good(l, k, q, ks, p),
        VxData::Bitmap => true,
    }
}
pub proof fn lemma_tick_pool(l: VxLedger, k: Pubkey, t: TickState, pool: Pubkey, ks: VxKnown, p: Pubkey)
    requires no_clash(ks, p), tick_of(l, k, t, pool, ks, p),
    ensures tick_pool(l, k, t, ks, p) == pool,
{
    let q = tick_pool(l, k, t, ks, p);
    assert(tick_of(l, k, t, q, ks, p));
    lemma_one_tick(k, t.tick, pool, t.tick, q, ks, p);
}

// -- an account is created
/// sums do not change when an account without liquidity is added
pub proof fn lemma_total_add(l: VxLedger, m: VxLedger, k0: Pubkey, d: VxData, pool: Pubkey, c: VxSum, ks: VxKnown, p: Pubkey)
    requires m == l.insert(k0, d), !l.dom().contains(k0), d is Pos ==> d->Pos_0.liquidity == 0,
    ensures total(m, pool, c, ks, p) == total(l, pool, c, ks, p),
{
    let f = part(m, pool, c, ks, p); let g = part(l, pool, c, ks, p);
    lemma_sum_remove(m.dom(), f, k0);
    assert(m.dom().remove(k0) =~= l.dom());
    assert(f(k0) == 0);
    lemma_sum_same(l.dom(), f, g);
}
pub proof fn lemma_keeps(l: VxLedger, m: VxLedger, k0: Pubkey, d: VxData, ks: VxKnown, p: Pubkey)
    requires
        no_clash(ks, p), balanced(l, ks, p),
        m == l.insert(k0, d), !l.dom().contains(k0), d is Pos ==> d->Pos_0.liquidity == 0,
    ensures
        forall|k: Pubkey| k != k0 && #[trigger] m.dom().contains(k) ==> match m[k] {
            VxData::Pool(g) => pool_good(m, k, g, ks, p),
            VxData::Tick(t) => tick_good(m, k, t, ks, p),
            VxData::Pos(q) => pos_good(m, k, q, ks, p),
            VxData::Bitmap => true,
        },
{
    assert forall|k: Pubkey| k != k0 && #[trigger] m.dom().contains(k) implies match m[k] {
            VxData::Pool(g) => pool_good(m, k, g, ks, p),
            VxData::Tick(t) => tick_good(m, k, t, ks, p),
            VxData::Pos(q) => pos_good(m, k, q, ks, p),
            VxData::Bitmap => true,
        } by {
        assert(l.dom().contains(k));
        match l[k] {
            VxData::Pool(g) => { lemma_total_add(l, m, k0, d, k, VxSum::Active(g.pool_global_state.tick), ks, p); }
            VxData::Tick(t) => {
                let pool = tick_pool(l, k, t, ks, p);
                assert(tick_of(m, k, t, pool, ks, p));
                lemma_tick_pool(m, k, t, pool, ks, p);
                lemma_total_add(l, m, k0, d, pool, VxSum::Gross(t.tick), ks, p);
                lemma_total_add(l, m, k0, d, pool, VxSum::Net(t.tick), ks, p);
            }
            VxData::Pos(q) => {
                let pool = choose|pool: Pubkey| #[trigger] pos_in(k, q, pool, ks, p) && l.dom().contains(pool) && l[pool] is Pool
                    && tick_here(l, pool, q.lower_tick, ks, p) && tick_here(l, pool, q.upper_tick, ks, p);
                assert(tick_here(m, pool, q.lower_tick, ks, p) && tick_here(m, pool, q.upper_tick, ks, p));
            }
            VxData::Bitmap => {}
        }
    }
}
pub proof fn lemma_pool_made(l: VxLedger, m: VxLedger, k0: Pubkey, g: PoolState, ks: VxKnown, p: Pubkey)
    requires
        no_clash(ks, p), balanced(l, ks, p), !l.dom().contains(k0), m == l.insert(k0, VxData::Pool(g)),
        g.pool_global_state.liq_scale == 12, g.pool_global_state.liquidity == 0,
    ensures balanced(m, ks, p),
{
    lemma_keeps(l, m, k0, VxData::Pool(g), ks, p);
    let c = VxSum::Active(g.pool_global_state.tick);
    lemma_total_add(l, m, k0, VxData::Pool(g), k0, c, ks, p);
    let f = part(l, k0, c, ks, p);
    assert forall|k: Pubkey| l.dom().contains(k) implies #[trigger] f(k) == 0 by {
        if l[k] is Pos {
            let q = l[k]->Pos_0;
            assert(pos_good(l, k, q, ks, p));
            let pool = choose|pool: Pubkey| #[trigger] pos_in(k, q, pool, ks, p) && l.dom().contains(pool) && l[pool] is Pool;
            if pos_in(k, q, k0, ks, p) { lemma_one_pool(k, q, k0, q, pool, ks, p); }
        }
    }
    lemma_sum_zero(l.dom(), f);
    assert(pool_good(m, k0, g, ks, p));
}
pub proof fn lemma_tick_made(l: VxLedger, m: VxLedger, pool: Pubkey, t: TickState, ks: VxKnown, p: Pubkey)
    requires
        no_clash(ks, p), balanced(l, ks, p), l.dom().contains(pool), l[pool] is Pool,
        ks(full(tick_seeds(pool, t.tick), p)),
        !l.dom().contains(pda(full(tick_seeds(pool, t.tick), p), p)), m == l.insert(pda(full(tick_seeds(pool, t.tick), p), p), VxData::Tick(t)),
        t12(t), t.liq_gross == 0, t_net(t) == 0, t.bump == canon(tick_seeds(pool, t.tick), p),
    ensures balanced(m, ks, p),
{
    let k0 = pda(full(tick_seeds(pool, t.tick), p), p);
    lemma_keeps(l, m, k0, VxData::Tick(t), ks, p);
    assert(tick_of(m, k0, t, pool, ks, p));
    lemma_tick_pool(m, k0, t, pool, ks, p);
    lemma_total_add(l, m, k0, VxData::Tick(t), pool, VxSum::Gross(t.tick), ks, p);
    lemma_total_add(l, m, k0, VxData::Tick(t), pool, VxSum::Net(t.tick), ks, p);
    let f = part(l, pool, VxSum::Gross(t.tick), ks, p); let g = part(l, pool, VxSum::Net(t.tick), ks, p);
    assert forall|k: Pubkey| l.dom().contains(k) implies f(k) == 0 && g(k) == 0 by {
        if l[k] is Pos && pos_in(k, l[k]->Pos_0, pool, ks, p) {
            let q = l[k]->Pos_0;
            assert(pos_good(l, k, q, ks, p));
            let b = choose|b: Pubkey| #[trigger] pos_in(k, q, b, ks, p) && l.dom().contains(b) && l[b] is Pool
                && tick_here(l, b, q.lower_tick, ks, p) && tick_here(l, b, q.upper_tick, ks, p);
            lemma_one_pool(k, q, pool, q, b, ks, p);
            assert(q.lower_tick != t.tick && q.upper_tick != t.tick);
        }
    }
    assert forall|k: Pubkey| l.dom().contains(k) implies #[trigger] f(k) == 0 by {}
    assert forall|k: Pubkey| l.dom().contains(k) implies #[trigger] g(k) == 0 by {}
    lemma_sum_zero(l.dom(), f); lemma_sum_zero(l.dom(), g);
    assert(tick_good(m, k0, t, ks, p));
}
/// a tick account of the ledger at the address of a tick is the account of this tick
pub proof fn lemma_tick_here(l: VxLedger, pool: Pubkey, tick: u64, b: u8, ks: VxKnown, p: Pubkey)
    requires
        no_clash(ks, p), balanced(l, ks, p), ks(tick_seeds(pool, tick).push(VxSeed::Bump(b))),
        l.dom().contains(tick_addr(pool, tick, b, p)), l[tick_addr(pool, tick, b, p)] is Tick,
    ensures
        tick_here(l, pool, tick, ks, p), b == canon(tick_seeds(pool, tick), p),
        tick_pool(l, tick_addr(pool, tick, b, p), l[tick_addr(pool, tick, b, p)]->Tick_0, ks, p) == pool,
        l[tick_addr(pool, tick, b, p)]->Tick_0.tick == tick,
{
    let k = tick_addr(pool, tick, b, p);
    let t = l[k]->Tick_0;
    assert(tick_good(l, k, t, ks, p));
    let o = tick_pool(l, k, t, ks, p);
    assert(pda(full(tick_seeds(o, t.tick), p), p) == pda(tick_seeds(pool, tick).push(VxSeed::Bump(b)), p));
    lemma_tick_seeds(o, t.tick, canon(tick_seeds(o, t.tick), p), pool, tick, b);
}
pub proof fn lemma_pos_made(l: VxLedger, m: VxLedger, pool: Pubkey, user: Pubkey, q: PositionState, ks: VxKnown, p: Pubkey)
    requires
        no_clash(ks, p), balanced(l, ks, p), l.dom().contains(pool), l[pool] is Pool,
        ks(full(pos_seeds(pool, user, q.lower_tick, q.upper_tick), p)),
        tick_here(l, pool, q.lower_tick, ks, p), tick_here(l, pool, q.upper_tick, ks, p),
        ({ let k = pda(full(pos_seeds(pool, user, q.lower_tick, q.upper_tick), p), p); !l.dom().contains(k) && m == l.insert(k, VxData::Pos(q)) }),
        q.liq_scale == 12, q.liquidity == 0,
    ensures balanced(m, ks, p),
{
    let k0 = pda(full(pos_seeds(pool, user, q.lower_tick, q.upper_tick), p), p);
    lemma_keeps(l, m, k0, VxData::Pos(q), ks, p);
    assert(pos_of(k0, q, pool, user, ks, p));
    assert(pos_in(k0, q, pool, ks, p));
    assert(tick_here(m, pool, q.lower_tick, ks, p) && tick_here(m, pool, q.upper_tick, ks, p));
    assert(pos_good(m, k0, q, ks, p));
}

// -- liquidity moves
pub proof fn lemma_total_move(l: VxLedger, m: VxLedger, kq: Pubkey, q: PositionState, n: PositionState, pool: Pubkey, c: VxSum, ks: VxKnown, p: Pubkey)
    requires
        m.dom() =~= l.dom(), l.dom().contains(kq), l[kq] == VxData::Pos(q), m[kq] == VxData::Pos(n),
        q.lower_tick == n.lower_tick, q.upper_tick == n.upper_tick,
        forall|k: Pubkey| k != kq && #[trigger] l.dom().contains(k) ==> m[k] == l[k] || !(l[k] is Pos) && !(m[k] is Pos),
    ensures
        total(m, pool, c, ks, p) == total(l, pool, c, ks, p) + if pos_in(kq, q, pool, ks, p) { share(c, n) - share(c, q) } else { 0 },
{
    let f = part(l, pool, c, ks, p); let g = part(m, pool, c, ks, p);
    assert forall|j: Pubkey| l.dom().contains(j) && j != kq implies #[trigger] f(j) == g(j) by {}
    assert(pos_in(kq, n, pool, ks, p) == pos_in(kq, q, pool, ks, p)) by {
        assert forall|u: Pubkey| pos_of(kq, n, pool, u, ks, p) == pos_of(kq, q, pool, u, ks, p) by {}
        if pos_in(kq, q, pool, ks, p) { let u = choose|u: Pubkey| pos_of(kq, q, pool, u, ks, p); assert(pos_of(kq, n, pool, u, ks, p)); }
        if pos_in(kq, n, pool, ks, p) { let u = choose|u: Pubkey| pos_of(kq, n, pool, u, ks, p); assert(pos_of(kq, q, pool, u, ks, p)); }
    }
    lemma_sum_one(l.dom(), f, g, kq);
}
/// the accounts of a deposit or withdrawal, before and after
pub struct VxMove { pub po: PoolState, pub pn: PoolState, pub qo: PositionState, pub qn: PositionState, pub lo: TickState, pub ln: TickState, pub uo: TickState, pub un: TickState }
pub open spec fn moved(v: VxMove, user: AccountInfo, cu: TickState, lower: u64, upper: u64, cur: u64, d: int, l: VxLedger, m: VxLedger, p: Pubkey) -> bool {
    &&& ticks_ok(v.po, v.qo, user, v.lo, v.uo, cu, lower, upper, cur, p)
    &&& frames(v.po, v.pn, v.qo, v.qn, v.lo, v.ln, v.uo, v.un)
    &&& stored(l, m, v.pn, v.qn, v.ln, v.un)
    &&& owned(v.po.info, l, pool_data(v.po)) && owned(v.qo.info, l, pos_data(v.qo)) && owned(v.lo.info, l, tick_data(v.lo)) && owned(v.uo.info, l, tick_data(v.uo))
    &&& scales12(v.po, v.qo, v.lo, v.uo) ==> books(v.po, v.pn, v.qo, v.qn, v.lo, v.ln, v.uo, v.un, lower, upper, cur, d)
}
pub open spec fn seeds_known(v: VxMove, user: AccountInfo, lower: u64, upper: u64, ks: VxKnown) -> bool {
    let pool = *v.po.info.key;
    ks(tick_seeds(pool, lower).push(VxSeed::Bump(v.lo.bump))) && ks(tick_seeds(pool, upper).push(VxSeed::Bump(v.uo.bump)))
    && ks(pos_seeds(pool, *user.key, lower, upper).push(VxSeed::Bump(v.qo.bump)))
}
/// the position at the address of a pool is one of this pool, and of no other
pub proof fn lemma_own_pool(l: VxLedger, kq: Pubkey, q: PositionState, pool: Pubkey, user: Pubkey, b: u8, ks: VxKnown, p: Pubkey)
    requires
        no_clash(ks, p), balanced(l, ks, p), l.dom().contains(kq), l[kq] == VxData::Pos(q),
        ks(pos_seeds(pool, user, q.lower_tick, q.upper_tick).push(VxSeed::Bump(b))), kq == pos_addr(pool, user, q.lower_tick, q.upper_tick, b, p),
    ensures
        pos_in(kq, q, pool, ks, p), l.dom().contains(pool), l[pool] is Pool,
        tick_here(l, pool, q.lower_tick, ks, p), tick_here(l, pool, q.upper_tick, ks, p),
{
    assert(pos_good(l, kq, q, ks, p));
    let own = choose|own: Pubkey| #[trigger] pos_in(kq, q, own, ks, p) && l.dom().contains(own) && l[own] is Pool
        && tick_here(l, own, q.lower_tick, ks, p) && tick_here(l, own, q.upper_tick, ks, p);
    let u = choose|u: Pubkey| pos_of(kq, q, own, u, ks, p);
    lemma_pos_seeds(own, u, q.lower_tick, q.upper_tick, canon(pos_seeds(own, u, q.lower_tick, q.upper_tick), p), pool, user, q.lower_tick, q.upper_tick, b);
}
pub proof fn lemma_moved(v: VxMove, user: AccountInfo, cu: TickState, lower: u64, upper: u64, cur: u64, d: int, l: VxLedger, m: VxLedger, ks: VxKnown, p: Pubkey)
    requires no_clash(ks, p), balanced(l, ks, p), moved(v, user, cu, lower, upper, cur, d, l, m, p), seeds_known(v, user, lower, upper, ks),
    ensures balanced(m, ks, p),
{
    let pool = *v.po.info.key; let kq = *v.qo.info.key; let kl = *v.lo.info.key; let ku = *v.uo.info.key;
    let q = pos_data(v.qo)->Pos_0; let n = pos_data(v.qn)->Pos_0;
    lemma_tick_here(l, pool, lower, v.lo.bump, ks, p);
    lemma_tick_here(l, pool, upper, v.uo.bump, ks, p);
    assert(l[kl]->Tick_0.tick == lower && l[ku]->Tick_0.tick == upper);
    assert(kl != ku && kl != kq && kl != pool && ku != kq && ku != pool && kq != pool);
    assert(m.dom() =~= l.dom());
    assert(pool_good(l, pool, pool_data(v.po)->Pool_0, ks, p));
    assert(pos_good(l, kq, q, ks, p));
    assert(tick_good(l, kl, tick_data(v.lo)->Tick_0, ks, p) && tick_good(l, ku, tick_data(v.uo)->Tick_0, ks, p));
    assert(scales12(v.po, v.qo, v.lo, v.uo));
    assert(q.lower_tick == lower && q.upper_tick == upper);
    lemma_own_pool(l, kq, q, pool, *user.key, v.qo.bump, ks, p);
    assert forall|k: Pubkey| #[trigger] m.dom().contains(k) implies match m[k] {
            VxData::Pool(g) => pool_good(m, k, g, ks, p),
            VxData::Tick(t) => tick_good(m, k, t, ks, p),
            VxData::Pos(r) => pos_good(m, k, r, ks, p),
            VxData::Bitmap => true,
        } by {
        assert(l.dom().contains(k));
        match l[k] {
            VxData::Pool(g) => {
                lemma_total_move(l, m, kq, q, n, k, VxSum::Active(g.pool_global_state.tick), ks, p);
                if k != pool { if pos_in(kq, q, k, ks, p) { lemma_one_pool(kq, q, k, q, pool, ks, p); } }
                else { assert(g.pool_global_state.tick == cur); }
            }
            VxData::Tick(t) => {
                let tp = tick_pool(l, k, t, ks, p);
                assert(tick_good(l, k, t, ks, p));
                let t2 = m[k]->Tick_0;
                assert(t2.tick == t.tick && t2.bump == t.bump);
                assert(tick_of(m, k, t2, tp, ks, p));
                lemma_tick_pool(m, k, t2, tp, ks, p);
                lemma_total_move(l, m, kq, q, n, tp, VxSum::Gross(t.tick), ks, p);
                lemma_total_move(l, m, kq, q, n, tp, VxSum::Net(t.tick), ks, p);
                if tp != pool {
                    if pos_in(kq, q, tp, ks, p) { lemma_one_pool(kq, q, tp, q, pool, ks, p); }
                    assert(k != kl && k != ku);
                } else if k != kl && k != ku {
                    assert(t.tick != lower && t.tick != upper);
                } else { assert(pos_in(kq, q, tp, ks, p)); }
            }
            VxData::Pos(r) => {
                let o = choose|o: Pubkey| #[trigger] pos_in(k, r, o, ks, p) && l.dom().contains(o) && l[o] is Pool
                    && tick_here(l, o, r.lower_tick, ks, p) && tick_here(l, o, r.upper_tick, ks, p);
                let r2 = m[k]->Pos_0;
                let w = choose|w: Pubkey| pos_of(k, r, o, w, ks, p);
                assert(pos_of(k, r2, o, w, ks, p));
                assert(pos_in(k, r2, o, ks, p));
                assert(tick_here(m, o, r.lower_tick, ks, p) && tick_here(m, o, r.upper_tick, ks, p));
            }
            VxData::Bitmap => {}
        }
    }
}

// -- histories
pub open spec fn dep_move(a: Deposit, n: Deposit) -> VxMove {
    VxMove { po: a.pool_state, pn: n.pool_state, qo: a.position_state, qn: n.position_state, lo: a.lower_tick_state, ln: n.lower_tick_state, uo: a.upper_tick_state, un: n.upper_tick_state }
}
pub open spec fn wd_move(a: Withdraw, n: Withdraw) -> VxMove {
    VxMove { po: a.pool_state, pn: n.pool_state, qo: a.position_state, qn: n.position_state, lo: a.lower_tick_state, ln: n.lower_tick_state, uo: a.upper_tick_state, un: n.upper_tick_state }
}
/// what an instruction that succeeded has done: the contracts of the entry points say so
pub enum VxStep {
    Deposit(Deposit, Deposit, Seq<AccountInfo>, Seq<u64>),
    Withdraw(Withdraw, Withdraw, Seq<AccountInfo>, Seq<u64>),
    Tick(Pubkey, TickState, u64),
    Position(Pubkey, Pubkey, PositionState, u64, u64),
    Pool(PoolState, u64),
    Bitmap(Pubkey),
}
pub open spec fn stepped(s: VxStep, w: VxWorld, v: VxWorld, p: Pubkey) -> bool {
    match s {
        VxStep::Deposit(a, n, i, x) => dep_taken(a, p, i, x, w) && dep_kept(a, n, i, x, w, v),
        VxStep::Withdraw(a, n, i, x) => wd_taken(a, p, i, x, w) && wd_kept(a, n, i, x, w, v),
        VxStep::Tick(k, t, tick) => tick_made(k, t, p, tick, w, v),
        VxStep::Position(k, u, q, lower, upper) => pos_made(k, u, q, p, lower, upper, w, v),
        VxStep::Pool(g, tick) => pool_made(g, p, tick, w, v),
        VxStep::Bitmap(k) => map_made(k, p, w, v),
    }
}
/// the seeds of the addresses an instruction has checked or created
pub open spec fn step_known(s: VxStep, w: VxWorld, ks: VxKnown, p: Pubkey) -> bool {
    match s {
        VxStep::Deposit(a, n, i, x) => seeds_known(dep_move(a, n), a.user.at(), x[0], x[1], ks),
        VxStep::Withdraw(a, n, i, x) => seeds_known(wd_move(a, n), a.user.at(), x[0], x[1], ks),
        VxStep::Tick(k, t, tick) => ks(full(tick_seeds(k, tick), p)),
        VxStep::Position(k, u, q, lower, upper) => ks(full(pos_seeds(k, u, lower, upper), p)) && ticks_known(w.ledger@, k, lower, ks, p) && ticks_known(w.ledger@, k, upper, ks, p),
        VxStep::Pool(g, tick) => true,
        VxStep::Bitmap(k) => true,
    }
}
pub open spec fn ticks_known(l: VxLedger, pool: Pubkey, tick: u64, ks: VxKnown, p: Pubkey) -> bool {
    forall|b: u8| #![trigger tick_addr(pool, tick, b, p)] l.dom().contains(tick_addr(pool, tick, b, p)) && l[tick_addr(pool, tick, b, p)] is Tick
        && l[tick_addr(pool, tick, b, p)]->Tick_0.bump == b ==> ks(tick_seeds(pool, tick).push(VxSeed::Bump(b)))
}
pub proof fn lemma_step(s: VxStep, w: VxWorld, v: VxWorld, ks: VxKnown, p: Pubkey)
    requires no_clash(ks, p), balanced(w.ledger@, ks, p), stepped(s, w, v, p), step_known(s, w, ks, p),
    ensures balanced(v.ledger@, ks, p),
{
    let l = w.ledger@; let m = v.ledger@;
    match s {
        VxStep::Deposit(a, n, i, x) => {
            lemma_moved(dep_move(a, n), a.user.at(), a.current_tick_state, x[0], x[1], x[2], dep_delta(a, n), l, m, ks, p);
        }
        VxStep::Withdraw(a, n, i, x) => {
            lemma_moved(wd_move(a, n), a.user.at(), a.current_tick_state, x[0], x[1], x[2], -(x[3] * U), l, m, ks, p);
        }
        VxStep::Tick(k, t, tick) => {
            let t0 = tick_data(t)->Tick_0;
            assert(m == l.insert(pda(full(tick_seeds(k, tick), p), p), VxData::Tick(t0)));
            lemma_tick_made(l, m, k, t0, ks, p);
        }
        VxStep::Position(k, u, q, lower, upper) => {
            let a = choose|b: u8| #![trigger tick_addr(k, lower, b, p)] l.dom().contains(tick_addr(k, lower, b, p)) && l[tick_addr(k, lower, b, p)] is Tick && l[tick_addr(k, lower, b, p)]->Tick_0.bump == b;
            let c = choose|b: u8| #![trigger tick_addr(k, upper, b, p)] l.dom().contains(tick_addr(k, upper, b, p)) && l[tick_addr(k, upper, b, p)] is Tick && l[tick_addr(k, upper, b, p)]->Tick_0.bump == b;
            lemma_tick_here(l, k, lower, a, ks, p);
            lemma_tick_here(l, k, upper, c, ks, p);
            let q0 = pos_data(q)->Pos_0;
            assert(m == l.insert(pda(full(pos_seeds(k, u, lower, upper), p), p), VxData::Pos(q0)));
            lemma_pos_made(l, m, k, u, q0, ks, p);
        }
        VxStep::Pool(g, tick) => {
            let g0 = pool_data(g)->Pool_0;
            assert(m == l.insert(pda(full(pool_seeds(g.lp_token_mint), p), p), VxData::Pool(g0)));
            lemma_pool_made(l, m, pda(full(pool_seeds(g.lp_token_mint), p), p), g0, ks, p);
        }
        VxStep::Bitmap(k) => {
            let k0 = pda(full(map_seeds(k), p), p);
            assert(m == l.insert(k0, VxData::Bitmap));
            lemma_keeps(l, m, k0, VxData::Bitmap, ks, p);
        }
    }
}
/// the contracts of the six entry points are the steps
pub proof fn lemma_entries(w: VxWorld, v: VxWorld, p: Pubkey, i: Seq<AccountInfo>, x: Seq<u64>)
    ensures
        (exists|a: Deposit, n: Deposit| dep_taken(a, p, i, x, w) && dep_kept(a, n, i, x, w, v)) ==> exists|s: VxStep| stepped(s, w, v, p),
        (exists|a: Withdraw, n: Withdraw| wd_taken(a, p, i, x, w) && wd_kept(a, n, i, x, w, v)) ==> exists|s: VxStep| stepped(s, w, v, p),
        x.len() >= 1 && (exists|k: Pubkey, t: TickState| tick_made(k, t, p, x[0], w, v)) ==> exists|s: VxStep| stepped(s, w, v, p),
        x.len() >= 2 && (exists|k: Pubkey, u: Pubkey, t: PositionState| pos_made(k, u, t, p, x[0], x[1], w, v)) ==> exists|s: VxStep| stepped(s, w, v, p),
        x.len() >= 2 && (exists|t: PoolState| pool_made(t, p, x[1], w, v)) ==> exists|s: VxStep| stepped(s, w, v, p),
        (exists|k: Pubkey| map_made(k, p, w, v)) ==> exists|s: VxStep| stepped(s, w, v, p),
{
    if exists|a: Deposit, n: Deposit| dep_taken(a, p, i, x, w) && dep_kept(a, n, i, x, w, v) {
        let (a, n) = choose|a: Deposit, n: Deposit| dep_taken(a, p, i, x, w) && dep_kept(a, n, i, x, w, v);
        assert(stepped(VxStep::Deposit(a, n, i, x), w, v, p));
    }
    if exists|a: Withdraw, n: Withdraw| wd_taken(a, p, i, x, w) && wd_kept(a, n, i, x, w, v) {
        let (a, n) = choose|a: Withdraw, n: Withdraw| wd_taken(a, p, i, x, w) && wd_kept(a, n, i, x, w, v);
        assert(stepped(VxStep::Withdraw(a, n, i, x), w, v, p));
    }
    if x.len() >= 1 && exists|k: Pubkey, t: TickState| tick_made(k, t, p, x[0], w, v) {
        let (k, t) = choose|k: Pubkey, t: TickState| tick_made(k, t, p, x[0], w, v);
        assert(stepped(VxStep::Tick(k, t, x[0]), w, v, p));
    }
    if x.len() >= 2 && exists|k: Pubkey, u: Pubkey, t: PositionState| pos_made(k, u, t, p, x[0], x[1], w, v) {
        let (k, u, t) = choose|k: Pubkey, u: Pubkey, t: PositionState| pos_made(k, u, t, p, x[0], x[1], w, v);
        assert(stepped(VxStep::Position(k, u, t, x[0], x[1]), w, v, p));
    }
    if x.len() >= 2 && exists|t: PoolState| pool_made(t, p, x[1], w, v) {
        let t = choose|t: PoolState| pool_made(t, p, x[1], w, v);
        assert(stepped(VxStep::Pool(t, x[1]), w, v, p));
    }
    if exists|k: Pubkey| map_made(k, p, w, v) {
        let k = choose|k: Pubkey| map_made(k, p, w, v);
        assert(stepped(VxStep::Bitmap(k), w, v, p));
    }
}
/// in every ledger that instructions have led to, in any order and with any accounts, the books balance
pub proof fn theorem_books(h: Seq<VxWorld>, s: Seq<VxStep>, ks: VxKnown, p: Pubkey)
    requires
        h.len() == s.len() + 1, h[0].ledger@ == Map::<Pubkey, VxData>::empty(), no_clash(ks, p),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> stepped(s[i], h[i], h[i + 1], p) && step_known(s[i], h[i], ks, p),
    ensures balanced(h.last().ledger@, ks, p),
    decreases s.len(),
{
    if s.len() > 0 {
        theorem_books(h.drop_last(), s.drop_last(), ks, p);
        let i = s.len() - 1;
        assert(stepped(s[i], h[i], h[i + 1], p) && step_known(s[i], h[i], ks, p));
        lemma_step(s[i], h[i], h[i + 1], ks, p);
    }
}
