// ---- the pool: sums over positions, growth inside ranges, invariants --------------
pub type PK = (Seq<char>, u128, u128);
pub type PMap = Map<PK, PositionState>;
pub type WFn = spec_fn(PK, PositionState) -> int;
/// sum of f over the positions
pub open spec fn msum(m: PMap, f: WFn) -> int
    decreases m.dom().len(),
{
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); f(k, m[k]) + msum(m.remove(k), f) }
}
pub proof fn lemma_msum_remove(m: PMap, f: WFn, k: PK)
    requires m.contains_key(k),
    ensures msum(m, f) == f(k, m[k]) + msum(m.remove(k), f),
    decreases m.dom().len(),
{
    assert(m.dom().contains(k));
    if m.dom().len() == 0 { assert(m.dom() =~= Set::<PK>::empty()); assert(false); }
    let c = m.dom().choose();
    assert(m.dom().contains(c));
    if c != k {
        assert(m.remove(c).dom().len() < m.dom().len());
        assert(m.remove(k).dom().len() < m.dom().len());
        lemma_msum_remove(m.remove(c), f, k);
        lemma_msum_remove(m.remove(k), f, c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn lemma_msum_insert(m: PMap, f: WFn, k: PK, v: PositionState)
    ensures msum(m.insert(k, v), f) == msum(m, f) + f(k, v) - (if m.contains_key(k) { f(k, m[k]) } else { 0 }),
{
    lemma_msum_remove(m.insert(k, v), f, k);
    if m.contains_key(k) {
        lemma_msum_remove(m, f, k);
        assert(m.insert(k, v).remove(k) =~= m.remove(k));
    } else {
        assert(m.insert(k, v).remove(k) =~= m);
    }
}
/// f == g + h for every position
pub proof fn lemma_msum_add(m: PMap, f: WFn, g: WFn, h: WFn)
    requires forall|k: PK| #[trigger] m.contains_key(k) ==> f(k, m[k]) == g(k, m[k]) + h(k, m[k]),
    ensures msum(m, f) == msum(m, g) + msum(m, h),
    decreases m.dom().len(),
{
    if m.dom().len() != 0 {
        let c = m.dom().choose();
        assert(m.dom().contains(c));
        assert(m.contains_key(c));
        assert(m.remove(c).dom().len() < m.dom().len());
        assert forall|k: PK| #[trigger] m.remove(c).contains_key(k) implies f(k, m.remove(c)[k]) == g(k, m.remove(c)[k]) + h(k, m.remove(c)[k]) by { assert(m.contains_key(k)); }
        lemma_msum_add(m.remove(c), f, g, h);
    }
}
pub proof fn lemma_msum_same(m: PMap, f: WFn, g: WFn)
    requires forall|k: PK| #[trigger] m.contains_key(k) ==> f(k, m[k]) == g(k, m[k]),
    ensures msum(m, f) == msum(m, g),
    decreases m.dom().len(),
{
    if m.dom().len() != 0 {
        let c = m.dom().choose();
        assert(m.dom().contains(c));
        assert(m.contains_key(c));
        assert(m.remove(c).dom().len() < m.dom().len());
        assert forall|k: PK| #[trigger] m.remove(c).contains_key(k) implies f(k, m.remove(c)[k]) == g(k, m.remove(c)[k]) by { assert(m.contains_key(k)); }
        lemma_msum_same(m.remove(c), f, g);
    }
}
/// f == d * g for every position
pub proof fn lemma_msum_scale(m: PMap, f: WFn, g: WFn, d: int)
    requires forall|k: PK| #[trigger] m.contains_key(k) ==> f(k, m[k]) == d * g(k, m[k]),
    ensures msum(m, f) == d * msum(m, g),
    decreases m.dom().len(),
{
    if m.dom().len() != 0 {
        let c = m.dom().choose();
        assert(m.dom().contains(c));
        assert(m.contains_key(c));
        assert(m.remove(c).dom().len() < m.dom().len());
        assert forall|k: PK| #[trigger] m.remove(c).contains_key(k) implies f(k, m.remove(c)[k]) == d * g(k, m.remove(c)[k]) by { assert(m.contains_key(k)); }
        lemma_msum_scale(m.remove(c), f, g, d);
        let (a, b) = (g(c, m[c]), msum(m.remove(c), g));
        assert(d * (a + b) == d * a + d * b) by (nonlinear_arith);
    } else { assert(d * 0 == 0) by (nonlinear_arith); }
}
/// a sum of non-negative terms is at least each of them
pub proof fn lemma_msum_nonneg(m: PMap, f: WFn)
    requires forall|k: PK| #[trigger] m.contains_key(k) ==> f(k, m[k]) >= 0,
    ensures msum(m, f) >= 0, forall|k: PK| #[trigger] m.contains_key(k) ==> msum(m, f) >= f(k, m[k]),
    decreases m.dom().len(),
{
    if m.dom().len() != 0 {
        let c = m.dom().choose();
        assert(m.dom().contains(c));
        assert(m.contains_key(c));
        assert(m.remove(c).dom().len() < m.dom().len());
        assert forall|k: PK| #[trigger] m.remove(c).contains_key(k) implies f(k, m.remove(c)[k]) >= 0 by { assert(m.contains_key(k)); }
        lemma_msum_nonneg(m.remove(c), f);
        assert forall|k: PK| #[trigger] m.contains_key(k) implies msum(m, f) >= f(k, m[k]) by { if k != c { assert(m.remove(c).contains_key(k)); } }
    } else {
        assert(m.dom() =~= Set::<PK>::empty());
        assert forall|k: PK| #[trigger] m.contains_key(k) implies msum(m, f) >= f(k, m[k]) by { assert(m.dom().contains(k)); }
    }
}
/// for every fee kind
pub open spec fn all4(f: spec_fn(int) -> bool) -> bool { f(0) && f(1) && f(2) && f(3) }
pub open spec fn w_gross(t: u128) -> WFn { |k: PK, p: PositionState| if k.1 == t || k.2 == t { sv(p.liq) } else { 0 } }
pub open spec fn w_net(t: u128) -> WFn { |k: PK, p: PositionState| if k.1 == t { sv(p.liq) } else if k.2 == t { -sv(p.liq) } else { 0 } }
pub open spec fn w_in(t: u128) -> WFn { |k: PK, p: PositionState| if k.1 <= t < k.2 { sv(p.liq) } else { 0 } }
/// sum of the liquidities of the positions bounded by a tick
pub open spec fn gross(m: PMap, t: u128) -> int { msum(m, w_gross(t)) }
/// those starting at the tick minus those ending at it
pub open spec fn net(m: PMap, t: u128) -> int { msum(m, w_net(t)) }
/// sum of the liquidities of the positions whose range contains a tick
pub open spec fn in_range(m: PMap, t: u128) -> int { msum(m, w_in(t)) }

impl<'a> Pool<'a> {
    pub open spec fn t(self) -> u128 { self.global_state.tick }
    pub open spec fn m(self) -> PMap { self.positions@ }
    pub open spec fn a(self) -> Map<u128, TickState> { self.active_ticks@ }
    pub open spec fn fgi(self, i: int) -> int { sv(fg(self.global_state, i)) }
    pub open spec fn out(self, t: u128, i: int) -> int { sv(f0(self.a()[t], i)) }
    /// fee growth below and above a tick
    pub open spec fn below(self, t: u128, i: int) -> int {
        if !self.a().contains_key(t) { self.fgi(i) } else if self.t() >= t { self.out(t, i) } else { self.fgi(i) - self.out(t, i) }
    }
    pub open spec fn above(self, t: u128, i: int) -> int {
        if !self.a().contains_key(t) { 0 } else if self.t() >= t { self.fgi(i) - self.out(t, i) } else { self.out(t, i) }
    }
    /// fee growth inside a range
    pub open spec fn inside(self, lo: u128, up: u128, i: int) -> int { self.fgi(i) - self.below(lo, i) - self.above(up, i) }
    pub open spec fn spaced(self) -> bool {
        &&& self.tick_spacing != 0
        &&& forall|t: u128| #[trigger] self.a().contains_key(t) ==> t as int % self.tick_spacing as int == 0
    }
    /// positions and ticks are what deposits create
    pub open spec fn shape(self) -> bool {
        &&& self.spaced()
        &&& forall|k: PK| #[trigger] self.m().contains_key(k) ==> pos_ok(self.tick_spacing, k, self.m()[k])
        &&& forall|t: u128| #[trigger] self.a().contains_key(t) ==> tick_ok(self.a()[t])
        &&& self.global_state.liq.scale == 12 && sv(self.global_state.liq) >= 0
        &&& all4(|i: int| (fg(self.global_state, i)).scale == 12)
    }
    /// L01: the liquidity books
    pub open spec fn books(self) -> bool {
        &&& forall|t: u128| #[trigger] self.a().contains_key(t) ==> sv(self.a()[t].liq_gross) == gross(self.m(), t) && sv(self.a()[t].liq_net) == net(self.m(), t)
        &&& forall|t: u128| #![trigger self.a().contains_key(t)] #![trigger gross(self.m(), t)] self.a().contains_key(t) <==> gross(self.m(), t) > 0
        &&& sv(self.global_state.liq) == in_range(self.m(), self.t())
    }
    /// the current tick and the root price belong together
    pub open spec fn priced(self) -> bool {
        &&& price(self.global_state.rp)
        &&& forall|t: u128| rp_ok(t, #[trigger] rp_of(t)) ==>
            (t <= self.t() ==> sv(rp_of(t)) <= sv(self.global_state.rp))
            && (t > self.t() && t as int % self.tick_spacing as int == 0 ==> sv(self.global_state.rp) <= sv(rp_of(t)))
    }
    /// fee growths are non-negative, and outside growth is part of the global growth
    pub open spec fn grown(self) -> bool {
        &&& all4(|i: int| self.fgi(i) >= 0)
        &&& forall|t: u128| #[trigger] self.a().contains_key(t) ==> all4(|i: int| 0 <= self.out(t, i) <= self.fgi(i))
    }
    /// fees owed to all positions, in units of 10^-24
    pub open spec fn owed(self, i: int) -> int { msum(self.m(), self.w_owed(i)) }
    pub open spec fn w_owed(self, i: int) -> WFn { |k: PK, p: PositionState| sv(p.liq) * (self.inside(k.1, k.2, i) - sv(fr(p, i))) }
    pub open spec fn pot(self, i: int) -> Decimal { if i == 0 { self.x_fee } else if i == 1 { self.y_fee } else if i == 2 { self.x_adj } else { self.y_adj } }
    /// the pots cover the fees owed
    pub open spec fn solvent(self) -> bool { all4(|i: int| self.owed(i) <= sv(self.pot(i)) * U) }
    pub open spec fn funded(self) -> bool {
        &&& nn(self.x) && nn(self.y)
        &&& all4(|i: int| nn(self.pot(i)))
    }
    pub open spec fn wf(self) -> bool { self.shape() && self.books() && self.priced() && self.grown() }
}
pub open spec fn pos_ok(s: u128, k: PK, p: PositionState) -> bool {
    &&& k.1 < k.2 && k.1 as int % s as int == 0 && k.2 as int % s as int == 0
    &&& sv(p.liq) >= 0 && p.liq.scale == 12
    &&& all4(|i: int| (fr(p, i)).scale == 12)
}
pub open spec fn tick_ok(t: TickState) -> bool {
    &&& t.liq_net.scale == 12 && t.liq_gross.scale == 12
    &&& all4(|i: int| (f0(t, i)).scale == 12)
}
/// the bounds of a position with liquidity are active ticks
pub proof fn lemma_bounds_active(p: Pool, k: PK)
    requires p.shape(), p.books(), p.m().contains_key(k), sv(p.m()[k].liq) > 0,
    ensures p.a().contains_key(k.1), p.a().contains_key(k.2),
{
    assert forall|j: PK| #[trigger] p.m().contains_key(j) implies w_gross(k.1)(j, p.m()[j]) >= 0 && w_gross(k.2)(j, p.m()[j]) >= 0 by { assert(pos_ok(p.tick_spacing, j, p.m()[j])); }
    lemma_msum_nonneg(p.m(), w_gross(k.1));
    lemma_msum_nonneg(p.m(), w_gross(k.2));
    assert(gross(p.m(), k.1) >= w_gross(k.1)(k, p.m()[k]));
    assert(gross(p.m(), k.2) >= w_gross(k.2)(k, p.m()[k]));
    assert(gross(p.m(), k.1) > 0);
    assert(gross(p.m(), k.2) > 0);
}
/// no liquidity bounded by a tick: no net liquidity either
pub proof fn lemma_net_zero(s: u128, m: PMap, t: u128)
    requires forall|k: PK| #[trigger] m.contains_key(k) ==> pos_ok(s, k, m[k]),
    ensures gross(m, t) >= 0, gross(m, t) == 0 ==> net(m, t) == 0, -gross(m, t) <= net(m, t) <= gross(m, t),
{
    let z = |k: PK, p: PositionState| 0int;
    assert forall|j: PK| #[trigger] m.contains_key(j) implies w_gross(t)(j, m[j]) >= 0 by { assert(pos_ok(s, j, m[j])); }
    lemma_msum_nonneg(m, w_gross(t));
    let a = |k: PK, p: PositionState| w_gross(t)(k, p) - w_net(t)(k, p);
    let b = |k: PK, p: PositionState| w_gross(t)(k, p) + w_net(t)(k, p);
    assert forall|j: PK| #[trigger] m.contains_key(j) implies a(j, m[j]) >= 0 && b(j, m[j]) >= 0 by { assert(pos_ok(s, j, m[j])); }
    lemma_msum_nonneg(m, a);
    lemma_msum_nonneg(m, b);
    lemma_msum_add(m, w_gross(t), a, w_net(t));
    lemma_msum_add(m, b, w_gross(t), w_net(t));
}
/// multiples of the spacing next to each other
pub proof fn lemma_multiples(s: int, a: int, b: int)
    requires s >= 1, a % s == 0, b % s == 0,
    ensures a < b ==> a + s <= b,
{
    lemma_fundamental_div_mod(a, s); lemma_fundamental_div_mod(b, s);
    let (x, y) = (a / s, b / s);
    if a < b {
        assert(x < y) by (nonlinear_arith) requires a == s * x, b == s * y, a < b, s >= 1;
        assert(s * x + s <= s * y) by (nonlinear_arith) requires x + 1 <= y, s >= 1;
    }
}
/// a tick that is initialised
pub open spec fn fresh_tick(p: Pool, t: u128, ts: TickState) -> bool {
    &&& ts.liq_net.scale == 12 && sv(ts.liq_net) == 0
    &&& ts.liq_gross.scale == 12 && sv(ts.liq_gross) == 0
    &&& all4(|i: int| sv(f0(ts, i)) == (if p.t() >= t { p.fgi(i) } else { 0 }) && sv(f0(ts, i)) >= 0)
    &&& all4(|i: int| (f0(ts, i)).scale == (if p.t() >= t { fg(p.global_state, i).scale } else { 12 }))
}
/// the liquidity of a tick (none when it is not active)
pub open spec fn gross_of(a: Map<u128, TickState>, t: u128) -> int { if a.contains_key(t) { sv(a[t].liq_gross) } else { 0 } }
pub open spec fn net_of(a: Map<u128, TickState>, t: u128) -> int { if a.contains_key(t) { sv(a[t].liq_net) } else { 0 } }
pub open spec fn tick_upd(g0: GlobalState, a0: Map<u128, TickState>, a: Map<u128, TickState>, t: u128, d: Decimal, upper: bool) -> bool {
    let g = gross_of(a0, t) + sv(d);
    let n = net_of(a0, t) + (if upper { -sv(d) } else { sv(d) });
    &&& g >= 0
    &&& d.scale == (if a0.contains_key(t) { a0[t].liq_gross.scale } else { 12 })
    &&& g == 0 ==> a =~= a0.remove(t)
    &&& g != 0 ==> {
        &&& a.contains_key(t) && a =~= a0.insert(t, a[t])
        &&& sv(a[t].liq_gross) == g && sv(a[t].liq_net) == n
        &&& a[t].liq_gross.scale == d.scale && a[t].liq_net.scale == d.scale
        &&& a0.contains_key(t) ==> all4(|i: int| f0(a[t], i) == f0(a0[t], i))
        &&& !a0.contains_key(t) ==> all4(|i: int| sv(f0(a[t], i)) == (if g0.tick >= t { sv(fg(g0, i)) } else { 0 }) && sv(f0(a[t], i)) >= 0)
        &&& !a0.contains_key(t) ==> all4(|i: int| (f0(a[t], i)).scale == (if g0.tick >= t { fg(g0, i).scale } else { 12 }))
    }
}
pub open spec fn tick_updated(p: Pool, a: Map<u128, TickState>, t: u128, d: Decimal, upper: bool) -> bool { tick_upd(p.global_state, p.a(), a, t, d, upper) }
/// the update depends only on the current tick and the fee growth
pub proof fn lemma_tick_upd_g(g0: GlobalState, h0: GlobalState, a0: Map<u128, TickState>, a: Map<u128, TickState>, t: u128, d: Decimal, upper: bool)
    requires g0.tick == h0.tick, all4(|i: int| fg(g0, i) == fg(h0, i)),
    ensures tick_upd(g0, a0, a, t, d, upper) == tick_upd(h0, a0, a, t, d, upper),
{
}
/// two ticks may be updated in either order
pub open spec fn lower_first(a0: Map<u128, TickState>, a: Map<u128, TickState>, lo: u128) -> Map<u128, TickState> { if a.contains_key(lo) { a0.insert(lo, a[lo]) } else { a0.remove(lo) } }
pub proof fn lemma_lower_first(g0: GlobalState, a0: Map<u128, TickState>, b: Map<u128, TickState>, a: Map<u128, TickState>, lo: u128, up: u128, d: Decimal)
    requires lo != up, tick_upd(g0, a0, b, up, d, true), tick_upd(g0, b, a, lo, d, false),
    ensures tick_upd(g0, a0, lower_first(a0, a, lo), lo, d, false), tick_upd(g0, lower_first(a0, a, lo), a, up, d, true),
{
    let c = lower_first(a0, a, lo);
    assert(gross_of(b, lo) == gross_of(a0, lo) && net_of(b, lo) == net_of(a0, lo));
    assert(gross_of(c, up) == gross_of(a0, up) && net_of(c, up) == net_of(a0, up));
}
/// a tick crossed in the given direction
pub open spec fn crossed(p: Pool, q: Pool, t: u128, right: bool) -> bool {
    let s = p.tick_spacing as int;
    &&& right || p.t() == t
    &&& p.a().contains_key(t) && q.a().contains_key(t) && q.a() =~= p.a().insert(t, q.a()[t])
    &&& q.a()[t].liq_net == p.a()[t].liq_net && q.a()[t].liq_gross == p.a()[t].liq_gross
    &&& all4(|i: int| sv(f0(q.a()[t], i)) == p.fgi(i) - p.out(t, i) && f0(q.a()[t], i).scale == fg(p.global_state, i).scale)
    &&& q.global_state == (GlobalState { liq: q.global_state.liq, tick: q.global_state.tick, ..p.global_state })
    &&& sv(q.global_state.liq) == sv(p.global_state.liq) + (if right { sv(p.a()[t].liq_net) } else { -sv(p.a()[t].liq_net) })
    &&& q.global_state.liq.scale == p.global_state.liq.scale && sv(q.global_state.liq) >= 0
    &&& right ==> q.t() == t
    &&& !right ==> s != 0 && q.t() <= t - 1 && t - 1 < q.t() + s && q.t() as int % s == 0
}
// ---- results as functions of the arguments ------------------------------------------
/// the largest tick whose root price is at most rp
pub open spec fn floor_tick(start: u128, rp: Decimal) -> u128 { choose|t: u128| found_down(start, t, rp) }
pub proof fn lemma_floor_tick(start: u128, x: u128, rp: Decimal)
    requires found_down(start, x, rp),
    ensures floor_tick(start, rp) == x,
{
    let y = floor_tick(start, rp);
    assert(found_down(start, y, rp));
    if x < y { let n = (x + 1) as u128; assert(sv(rp_of(n)) <= sv(rp)); }
    if y < x { let n = (y + 1) as u128; assert(sv(rp_of(n)) <= sv(rp)); }
}
/// rounded down to a multiple of the spacing
pub open spec fn down_to(t: u128, s: u128) -> int { (t as int / s as int) * s }
// ---- moving, crossing, accruing ---------------------------------------------------
pub open spec fn core(p: Pool) -> bool { p.shape() && p.books() && p.grown() }
/// no active tick above a up to b
pub open spec fn quiet(p: Pool, a: u128, b: u128) -> bool { forall|t: u128| #[trigger] p.a().contains_key(t) ==> !(a < t && t <= b) }
/// fee growth inside every range is the same
pub open spec fn same_inside(p: Pool, q: Pool) -> bool { forall|lo: u128, up: u128, i: int| 0 <= i < 4 ==> #[trigger] q.inside(lo, up, i) == p.inside(lo, up, i) }
/// same pool, other tick and price
pub open spec fn moved(p: Pool, q: Pool) -> bool {
    &&& q.a() == p.a() && q.m() == p.m() && q.tick_spacing == p.tick_spacing
    &&& q.global_state == (GlobalState { tick: q.global_state.tick, rp: q.global_state.rp, ..p.global_state })
}
pub proof fn lemma_gross_active(p: Pool, t: u128)
    requires p.shape(), p.books(),
    ensures
        gross(p.m(), t) >= 0,
        gross_of(p.a(), t) == gross(p.m(), t),
        net_of(p.a(), t) == net(p.m(), t),
{
    lemma_net_zero(p.tick_spacing, p.m(), t);
}
pub proof fn lemma_move(p: Pool, q: Pool)
    requires core(p), moved(p, q), p.t() <= q.t() ==> quiet(p, p.t(), q.t()), p.t() > q.t() ==> quiet(p, q.t(), p.t()),
    ensures core(q), same_inside(p, q),
{
    let (t, u) = (p.t(), q.t());
    assert forall|k: PK| #[trigger] p.m().contains_key(k) implies w_in(t)(k, p.m()[k]) == w_in(u)(k, p.m()[k]) by {
        assert(pos_ok(p.tick_spacing, k, p.m()[k]));
        if sv(p.m()[k].liq) > 0 { lemma_bounds_active(p, k); }
    }
    lemma_msum_same(p.m(), w_in(t), w_in(u));
    assert forall|s: u128, i: int| 0 <= i < 4 implies q.out(s, i) == p.out(s, i) by { }
    assert forall|lo: u128, up: u128, i: int| 0 <= i < 4 implies #[trigger] q.inside(lo, up, i) == p.inside(lo, up, i) by {
        assert(q.below(lo, i) == p.below(lo, i));
        assert(q.above(up, i) == p.above(up, i));
    }
    assert forall|s: u128| #[trigger] q.a().contains_key(s) implies all4(|i: int| 0 <= q.out(s, i) <= q.fgi(i)) by { assert(all4(|i: int| 0 <= p.out(s, i) <= p.fgi(i))); }
    assert(all4(|i: int| p.fgi(i) >= 0));
    assert(all4(|i: int| q.fgi(i) >= 0));
}
/// the tick is crossed: the current tick moves between t-1 and t
pub open spec fn flipped(p: Pool, q: Pool, t: u128) -> bool {
    &&& t >= 1
    &&& (p.t() == t && q.t() + 1 == t) || (q.t() == t && p.t() + 1 == t)
    &&& p.a().contains_key(t) && q.a().contains_key(t) && q.a() =~= p.a().insert(t, q.a()[t])
    &&& q.a()[t].liq_net == p.a()[t].liq_net && q.a()[t].liq_gross == p.a()[t].liq_gross
    &&& all4(|i: int| sv(f0(q.a()[t], i)) == p.fgi(i) - p.out(t, i) && f0(q.a()[t], i).scale == 12)
    &&& q.m() == p.m() && q.tick_spacing == p.tick_spacing
    &&& q.global_state == (GlobalState { tick: q.global_state.tick, rp: q.global_state.rp, liq: q.global_state.liq, ..p.global_state })
    &&& q.global_state.liq.scale == 12 && sv(q.global_state.liq) >= 0
    &&& sv(q.global_state.liq) == sv(p.global_state.liq) + (if q.t() == t { sv(p.a()[t].liq_net) } else { -sv(p.a()[t].liq_net) })
}
pub proof fn lemma_flip(p: Pool, q: Pool, t: u128)
    requires core(p), flipped(p, q, t),
    ensures core(q), same_inside(p, q),
{
    let m = p.m();
    let b = (t - 1) as u128;
    assert forall|k: PK| #[trigger] m.contains_key(k) implies w_in(t)(k, m[k]) == w_in(b)(k, m[k]) + w_net(t)(k, m[k]) by {
        assert(pos_ok(p.tick_spacing, k, m[k]));
    }
    lemma_msum_add(m, w_in(t), w_in(b), w_net(t));
    assert(sv(p.a()[t].liq_net) == net(m, t));
    assert forall|s: u128, i: int| 0 <= i < 4 && s != t implies q.out(s, i) == p.out(s, i) by { }
    assert(all4(|i: int| q.out(t, i) == p.fgi(i) - p.out(t, i)));
    assert forall|s: u128, i: int| 0 <= i < 4 implies q.below(s, i) == p.below(s, i) && q.above(s, i) == p.above(s, i) by { if s == t { } else { } }
    assert forall|lo: u128, up: u128, i: int| 0 <= i < 4 implies #[trigger] q.inside(lo, up, i) == p.inside(lo, up, i) by {
        assert(q.below(lo, i) == p.below(lo, i));
        assert(q.above(up, i) == p.above(up, i));
    }
    assert(all4(|i: int| 0 <= p.out(t, i) <= p.fgi(i)));
    assert forall|s: u128| #[trigger] q.a().contains_key(s) implies all4(|i: int| 0 <= q.out(s, i) <= q.fgi(i)) by { if s != t { assert(p.a().contains_key(s)); assert(all4(|i: int| 0 <= p.out(s, i) <= p.fgi(i))); } }
    assert(all4(|i: int| p.fgi(i) >= 0));
    assert(all4(|i: int| q.fgi(i) >= 0));
    assert(q.shape()) by {
        assert forall|s: u128| #[trigger] q.a().contains_key(s) implies tick_ok(q.a()[s]) && s as int % q.tick_spacing as int == 0 by { assert(p.a().contains_key(s)); assert(tick_ok(p.a()[s])); if s == t { assert(tick_ok(p.a()[t])); } }
    }
    assert(q.books()) by {
        assert forall|s: u128| #[trigger] q.a().contains_key(s) implies sv(q.a()[s].liq_gross) == gross(m, s) && sv(q.a()[s].liq_net) == net(m, s) by { assert(p.a().contains_key(s)); }
        assert forall|s: u128| #![trigger q.a().contains_key(s)] #![trigger gross(m, s)] q.a().contains_key(s) <==> gross(m, s) > 0 by { assert(p.a().contains_key(s) <==> gross(m, s) > 0); }
    }
}
/// what the fees of a kind grew by
pub open spec fn gain(p: Pool, q: Pool, i: int) -> int { q.fgi(i) - p.fgi(i) }
pub open spec fn accrued(p: Pool, q: Pool) -> bool {
    &&& q.a() == p.a() && q.m() == p.m() && q.tick_spacing == p.tick_spacing && q.t() == p.t()
    &&& q.global_state.liq == p.global_state.liq
    &&& all4(|i: int| fg(q.global_state, i).scale == 12 && gain(p, q, i) >= 0)
}
/// no position loses fee growth
pub open spec fn earning(p: Pool, q: Pool) -> bool {
    forall|k: PK| #[trigger] p.m().contains_key(k) && sv(p.m()[k].liq) > 0 ==> all4(|i: int| q.inside(k.1, k.2, i) >= p.inside(k.1, k.2, i))
}
pub proof fn lemma_accrue(p: Pool, q: Pool)
    requires core(p), accrued(p, q),
    ensures
        core(q), earning(p, q),
        all4(|i: int| q.owed(i) == p.owed(i) + gain(p, q, i) * sv(p.global_state.liq)),
{
    let m = p.m();
    assert forall|s: u128| #[trigger] q.a().contains_key(s) implies all4(|i: int| 0 <= q.out(s, i) <= q.fgi(i)) by { assert(all4(|i: int| 0 <= p.out(s, i) <= p.fgi(i))); }
    assert(all4(|i: int| p.fgi(i) >= 0));
    assert(all4(|i: int| q.fgi(i) >= 0));
    assert forall|k: PK, i: int| 0 <= i < 4 && #[trigger] m.contains_key(k) && sv(m[k].liq) > 0 implies #[trigger] q.inside(k.1, k.2, i) == p.inside(k.1, k.2, i) + (if k.1 <= p.t() < k.2 { gain(p, q, i) } else { 0 }) by {
        lemma_bounds_active(p, k);
        assert(pos_ok(p.tick_spacing, k, m[k]));
        assert(q.out(k.1, i) == p.out(k.1, i) && q.out(k.2, i) == p.out(k.2, i));
    }
    assert(earning(p, q)) by {
        assert forall|k: PK| #[trigger] p.m().contains_key(k) && sv(p.m()[k].liq) > 0 implies all4(|i: int| q.inside(k.1, k.2, i) >= p.inside(k.1, k.2, i)) by {
            assert(q.inside(k.1, k.2, 0) >= p.inside(k.1, k.2, 0));
            assert(q.inside(k.1, k.2, 1) >= p.inside(k.1, k.2, 1));
            assert(q.inside(k.1, k.2, 2) >= p.inside(k.1, k.2, 2));
            assert(q.inside(k.1, k.2, 3) >= p.inside(k.1, k.2, 3));
        }
    }
    assert forall|i: int| 0 <= i < 4 implies q.owed(i) == p.owed(i) + gain(p, q, i) * sv(p.global_state.liq) by {
        let d = gain(p, q, i);
        let g = |k: PK, v: PositionState| d * w_in(p.t())(k, v);
        assert forall|k: PK| #[trigger] m.contains_key(k) implies q.w_owed(i)(k, m[k]) == p.w_owed(i)(k, m[k]) + g(k, m[k]) by {
            assert(pos_ok(p.tick_spacing, k, m[k]));
            let l = sv(m[k].liq);
            let (a, b, c) = (q.inside(k.1, k.2, i), p.inside(k.1, k.2, i), sv(fr(m[k], i)));
            if l > 0 {
                if k.1 <= p.t() < k.2 { assert(l * (a - c) == l * (b - c) + d * l) by (nonlinear_arith) requires a == b + d; }
                else { assert(d * 0 == 0) by (nonlinear_arith); }
            } else {
                assert(l * (a - c) == 0 && l * (b - c) == 0 && d * l == 0 && d * 0 == 0) by (nonlinear_arith) requires l == 0;
            }
        }
        lemma_msum_add(m, q.w_owed(i), p.w_owed(i), g);
        lemma_msum_scale(m, g, w_in(p.t()), d);
    }
}
/// fee growth inside the ranges of positions is the same: the same fees are owed
pub proof fn lemma_owed_same(p: Pool, q: Pool)
    requires q.m() == p.m(), same_inside(p, q),
    ensures all4(|i: int| q.owed(i) == p.owed(i)),
{
    assert forall|i: int| 0 <= i < 4 implies q.owed(i) == p.owed(i) by {
        assert forall|k: PK| #[trigger] p.m().contains_key(k) implies q.w_owed(i)(k, p.m()[k]) == p.w_owed(i)(k, p.m()[k]) by {
            assert(q.inside(k.1, k.2, i) == p.inside(k.1, k.2, i));
        }
        lemma_msum_same(p.m(), q.w_owed(i), p.w_owed(i));
    }
}
pub proof fn lemma_earning_trans(p: Pool, q: Pool, r: Pool)
    requires q.m() == p.m(), earning(p, q), earning(q, r),
    ensures earning(p, r),
{
    assert forall|k: PK| #[trigger] p.m().contains_key(k) && sv(p.m()[k].liq) > 0 implies all4(|i: int| r.inside(k.1, k.2, i) >= p.inside(k.1, k.2, i)) by {
        assert(q.m().contains_key(k));
        assert(all4(|i: int| q.inside(k.1, k.2, i) >= p.inside(k.1, k.2, i)));
        assert(all4(|i: int| r.inside(k.1, k.2, i) >= q.inside(k.1, k.2, i)));
    }
}
pub proof fn lemma_earning_same(p: Pool, q: Pool)
    requires same_inside(p, q),
    ensures earning(p, q),
{
    assert forall|k: PK| #[trigger] p.m().contains_key(k) && sv(p.m()[k].liq) > 0 implies all4(|i: int| q.inside(k.1, k.2, i) >= p.inside(k.1, k.2, i)) by {
        assert(q.inside(k.1, k.2, 0) == p.inside(k.1, k.2, 0));
        assert(q.inside(k.1, k.2, 1) == p.inside(k.1, k.2, 1));
        assert(q.inside(k.1, k.2, 2) == p.inside(k.1, k.2, 2));
        assert(q.inside(k.1, k.2, 3) == p.inside(k.1, k.2, 3));
    }
}
// ---- one position changes ---------------------------------------------------------
pub open spec fn liq_of(m: PMap, k: PK) -> int { if m.contains_key(k) { sv(m[k].liq) } else { 0 } }
/// the checkpoint of a position; a new one starts at the current growth
pub open spec fn ckpt(p: Pool, k: PK, i: int) -> int { if p.m().contains_key(k) { sv(fr(p.m()[k], i)) } else { p.inside(k.1, k.2, i) } }
/// growth a position has not been paid for
pub open spec fn unpaid(p: Pool, k: PK, i: int) -> int { p.inside(k.1, k.2, i) - ckpt(p, k, i) }
/// what the position is paid when it is touched
pub open spec fn earned(p: Pool, k: PK, i: int) -> int { liq_of(p.m(), k) * unpaid(p, k, i) }
pub open spec fn due(p: Pool, k: PK, i: int) -> int { earned(p, k, i) / U }
/// only the position k changes, its liquidity by d
pub open spec fn touched(p: Pool, q: Pool, k: PK, d: int) -> bool {
    let l = liq_of(p.m(), k) + d;
    &&& l >= 0
    &&& p.m().contains_key(k) && l == 0 ==> q.m() =~= p.m().remove(k)
    &&& !(p.m().contains_key(k) && l == 0) ==> {
        &&& q.m().contains_key(k) && q.m() =~= p.m().insert(k, q.m()[k])
        &&& sv(q.m()[k].liq) == l && q.m()[k].liq.scale == 12
        &&& all4(|i: int| sv(fr(q.m()[k], i)) == p.inside(k.1, k.2, i) && fr(q.m()[k], i).scale == 12)
    }
}
/// the current tick is in the range
pub open spec fn holds_tick(k: PK, t: u128) -> bool { k.1 <= t < k.2 }
pub open spec fn position_set(p: Pool, a1: Map<u128, TickState>, q: Pool, k: PK, d: Decimal) -> bool {
    &&& touched(p, q, k, sv(d))
    &&& k.1 < k.2 && k.1 as int % p.tick_spacing as int == 0 && k.2 as int % p.tick_spacing as int == 0
    &&& q.tick_spacing == p.tick_spacing
    &&& tick_upd(p.global_state, p.a(), a1, k.1, d, false)
    &&& tick_upd(p.global_state, a1, q.a(), k.2, d, true)
    &&& q.global_state == (GlobalState { liq: q.global_state.liq, ..p.global_state })
    &&& q.global_state.liq.scale == 12
    &&& sv(q.global_state.liq) == sv(p.global_state.liq) + (if holds_tick(k, p.t()) { sv(d) } else { 0 })
}
/// a sum over the positions when one of them changes
pub proof fn lemma_msum_touched(p: Pool, q: Pool, k: PK, d: int, f: WFn)
    requires touched(p, q, k, d),
    ensures msum(q.m(), f) == msum(p.m(), f)
        - (if p.m().contains_key(k) { f(k, p.m()[k]) } else { 0 })
        + (if q.m().contains_key(k) { f(k, q.m()[k]) } else { 0 }),
{
    if p.m().contains_key(k) && liq_of(p.m(), k) + d == 0 {
        lemma_msum_remove(p.m(), f, k);
    } else {
        lemma_msum_insert(p.m(), f, k, q.m()[k]);
    }
}
pub proof fn lemma_msum_linear(p: Pool, q: Pool, k: PK, d: int, t: u128)
    requires touched(p, q, k, d), k.1 < k.2,
    ensures
        gross(q.m(), t) == gross(p.m(), t) + (if k.1 == t || k.2 == t { d } else { 0 }),
        net(q.m(), t) == net(p.m(), t) + (if k.1 == t { d } else if k.2 == t { -d } else { 0 }),
        in_range(q.m(), t) == in_range(p.m(), t) + (if holds_tick(k, t) { d } else { 0 }),
{
    lemma_msum_touched(p, q, k, d, w_gross(t));
    lemma_msum_touched(p, q, k, d, w_net(t));
    lemma_msum_touched(p, q, k, d, w_in(t));
}
/// an update changes one tick; its outside growth is kept, or that of a tick that is initialised
pub proof fn lemma_updated(g0: GlobalState, a0: Map<u128, TickState>, a: Map<u128, TickState>, u: u128, d: Decimal, upper: bool, t: u128)
    requires
        tick_upd(g0, a0, a, u, d, upper), d.scale == 12, a0.contains_key(u) ==> tick_ok(a0[u]) && sv(a0[u].liq_gross) > 0,
        all4(|i: int| fg(g0, i).scale == 12),
        gross_of(a0, u) + sv(d) == 0 ==> net_of(a0, u) + (if upper { -sv(d) } else { sv(d) }) == 0,
    ensures
        t != u ==> (a.contains_key(t) <==> a0.contains_key(t)) && (a.contains_key(t) ==> a[t] == a0[t]),
        a.contains_key(u) <==> gross_of(a0, u) + sv(d) > 0,
        gross_of(a, t) == gross_of(a0, t) + (if t == u { sv(d) } else { 0 }),
        net_of(a, t) == net_of(a0, t) + (if t == u { if upper { -sv(d) } else { sv(d) } } else { 0 }),
        a.contains_key(u) ==> tick_ok(a[u]),
        a.contains_key(u) && a0.contains_key(u) ==> all4(|i: int| f0(a[u], i) == f0(a0[u], i)),
        a.contains_key(u) && !a0.contains_key(u) ==> all4(|i: int| sv(f0(a[u], i)) == (if g0.tick >= u { sv(fg(g0, i)) } else { 0 }) && sv(f0(a[u], i)) >= 0),
{
    let g = gross_of(a0, u) + sv(d);
    if g == 0 { } else { }
}
/// the outside growth of a tick after a position changed
pub proof fn lemma_set_growth(p: Pool, q: Pool, t: u128)
    requires
        q.t() == p.t(), all4(|i: int| fg(q.global_state, i) == fg(p.global_state, i) && p.fgi(i) >= 0), q.a().contains_key(t),
        p.a().contains_key(t) ==> all4(|i: int| f0(q.a()[t], i) == f0(p.a()[t], i)) && all4(|i: int| 0 <= p.out(t, i) <= p.fgi(i)),
        !p.a().contains_key(t) ==> all4(|i: int| sv(f0(q.a()[t], i)) == (if p.t() >= t { p.fgi(i) } else { 0 })),
    ensures
        all4(|i: int| 0 <= q.out(t, i) <= q.fgi(i)),
        all4(|i: int| q.below(t, i) == p.below(t, i) && q.above(t, i) == p.above(t, i)),
{
}
/// the books of one tick
pub proof fn lemma_set_tick(p: Pool, a1: Map<u128, TickState>, q: Pool, k: PK, d: Decimal, t: u128)
    requires core(p), position_set(p, a1, q, k, d), forall|j: PK| #[trigger] q.m().contains_key(j) ==> pos_ok(p.tick_spacing, j, q.m()[j]),
    ensures
        gross_of(q.a(), t) == gross(q.m(), t),
        net_of(q.a(), t) == net(q.m(), t),
        q.a().contains_key(t) <==> gross(q.m(), t) > 0,
        q.a().contains_key(t) ==> tick_ok(q.a()[t]) && t as int % p.tick_spacing as int == 0
            && all4(|i: int| 0 <= q.out(t, i) <= q.fgi(i))
            && all4(|i: int| q.below(t, i) == p.below(t, i) && q.above(t, i) == p.above(t, i)),
{
    hide(tick_upd); hide(touched); hide(gross); hide(net);
    let s = p.tick_spacing;
    assert(d.scale == 12) by { reveal(tick_upd); if p.a().contains_key(k.1) { assert(tick_ok(p.a()[k.1])); } }
    lemma_gross_active(p, t); lemma_gross_active(p, k.1); lemma_gross_active(p, k.2);
    lemma_msum_linear(p, q, k, sv(d), t); lemma_msum_linear(p, q, k, sv(d), k.1); lemma_msum_linear(p, q, k, sv(d), k.2);
    lemma_net_zero(s, q.m(), t); lemma_net_zero(s, q.m(), k.1); lemma_net_zero(s, q.m(), k.2);
    assert forall|u: u128| #[trigger] p.a().contains_key(u) implies tick_ok(p.a()[u]) && sv(p.a()[u].liq_gross) > 0 by { assert(gross(p.m(), u) > 0); }
    lemma_updated(p.global_state, p.a(), a1, k.1, d, false, t);
    lemma_updated(p.global_state, p.a(), a1, k.1, d, false, k.2);
    lemma_updated(p.global_state, a1, q.a(), k.2, d, true, t);
    assert(all4(|i: int| p.fgi(i) >= 0));
    if q.a().contains_key(t) {
        if p.a().contains_key(t) { assert(all4(|i: int| 0 <= p.out(t, i) <= p.fgi(i))); }
        lemma_set_growth(p, q, t);
    }
}
pub proof fn lemma_set_books(p: Pool, a1: Map<u128, TickState>, q: Pool, k: PK, d: Decimal)
    requires core(p), position_set(p, a1, q, k, d), sv(q.global_state.liq) >= 0,
    ensures
        core(q),
        forall|j: PK| #[trigger] q.m().contains_key(j) && sv(q.m()[j].liq) > 0 ==> all4(|i: int| q.inside(j.1, j.2, i) == p.inside(j.1, j.2, i)),
{
    let s = p.tick_spacing;
    assert forall|j: PK| #[trigger] q.m().contains_key(j) implies pos_ok(s, j, q.m()[j]) by {
        if j != k { assert(p.m().contains_key(j)); assert(pos_ok(s, j, p.m()[j])); }
    }
    assert(q.shape()) by {
        assert forall|t: u128| #[trigger] q.a().contains_key(t) implies tick_ok(q.a()[t]) && t as int % s as int == 0 by { lemma_set_tick(p, a1, q, k, d, t); }
    }
    assert(q.books()) by {
        assert forall|t: u128| #[trigger] q.a().contains_key(t) implies sv(q.a()[t].liq_gross) == gross(q.m(), t) && sv(q.a()[t].liq_net) == net(q.m(), t) by { lemma_set_tick(p, a1, q, k, d, t); }
        assert forall|t: u128| #![trigger q.a().contains_key(t)] #![trigger gross(q.m(), t)] q.a().contains_key(t) <==> gross(q.m(), t) > 0 by { lemma_set_tick(p, a1, q, k, d, t); }
        lemma_msum_linear(p, q, k, sv(d), p.t());
    }
    assert(q.grown()) by {
        assert(all4(|i: int| p.fgi(i) >= 0));
        assert(all4(|i: int| q.fgi(i) >= 0));
        assert forall|t: u128| #[trigger] q.a().contains_key(t) implies all4(|i: int| 0 <= q.out(t, i) <= q.fgi(i)) by { lemma_set_tick(p, a1, q, k, d, t); }
    }
    assert forall|j: PK| #[trigger] q.m().contains_key(j) && sv(q.m()[j].liq) > 0 implies all4(|i: int| q.inside(j.1, j.2, i) == p.inside(j.1, j.2, i)) by {
        lemma_bounds_active(q, j);
        lemma_set_tick(p, a1, q, k, d, j.1);
        lemma_set_tick(p, a1, q, k, d, j.2);
    }
}
pub proof fn lemma_set_owed(p: Pool, q: Pool, k: PK, d: int, i: int)
    requires 0 <= i < 4, core(q), touched(p, q, k, d),
        forall|j: PK| #[trigger] q.m().contains_key(j) && sv(q.m()[j].liq) > 0 ==> all4(|i: int| q.inside(j.1, j.2, i) == p.inside(j.1, j.2, i)),
    ensures q.owed(i) == p.owed(i) - earned(p, k, i),
{
    let f = p.w_owed(i);
    assert forall|j: PK| #[trigger] q.m().contains_key(j) implies q.w_owed(i)(j, q.m()[j]) == f(j, q.m()[j]) by {
        let v = q.m()[j];
        let l = sv(v.liq);
        assert(pos_ok(q.tick_spacing, j, v));
        let (a, b, c) = (q.inside(j.1, j.2, i), p.inside(j.1, j.2, i), sv(fr(v, i)));
        if l > 0 { assert(all4(|i: int| q.inside(j.1, j.2, i) == p.inside(j.1, j.2, i))); assert(a == b); }
        else { assert(l * (a - c) == 0 && l * (b - c) == 0) by (nonlinear_arith) requires l == 0; }
    }
    lemma_msum_same(q.m(), q.w_owed(i), f);
    lemma_msum_touched(p, q, k, d, f);
    if q.m().contains_key(k) {
        let l = sv(q.m()[k].liq);
        assert(sv(fr(q.m()[k], i)) == p.inside(k.1, k.2, i));
        assert(l * 0 == 0) by (nonlinear_arith);
        assert(f(k, q.m()[k]) == l * (p.inside(k.1, k.2, i) - sv(fr(q.m()[k], i))));
        assert(f(k, q.m()[k]) == 0);
    }
    if !p.m().contains_key(k) { let x = unpaid(p, k, i); assert(0 * x == 0) by (nonlinear_arith); }
}
pub proof fn lemma_position_set(p: Pool, a1: Map<u128, TickState>, q: Pool, k: PK, d: Decimal)
    requires core(p), position_set(p, a1, q, k, d), sv(q.global_state.liq) >= 0,
    ensures
        core(q),
        forall|j: PK| #[trigger] q.m().contains_key(j) && sv(q.m()[j].liq) > 0 ==> all4(|i: int| q.inside(j.1, j.2, i) == p.inside(j.1, j.2, i)),
        all4(|i: int| q.owed(i) == p.owed(i) - earned(p, k, i)),
{
    lemma_set_books(p, a1, q, k, d);
    lemma_set_owed(p, q, k, sv(d), 0);
    lemma_set_owed(p, q, k, sv(d), 1);
    lemma_set_owed(p, q, k, sv(d), 2);
    lemma_set_owed(p, q, k, sv(d), 3);
}
// ---- moving along the ticks -------------------------------------------------------
pub open spec fn descending(s: Seq<u128>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] > s[j] }
/// g is the nearest active tick at or below the current tick
pub open spec fn next_left(p: Pool, g: u128) -> bool { p.a().contains_key(g) && g <= p.t() && quiet(p, g, p.t()) }
/// g is the nearest active tick above the current tick
pub open spec fn next_right(p: Pool, g: u128) -> bool { p.a().contains_key(g) && g > p.t() && quiet(p, p.t(), (g - 1) as u128) }
pub proof fn lemma_reversed<V>(m: Map<u128, V>, s: Seq<u128>)
    requires ascending(s), keys_of(m, s),
    ensures descending(s.reverse()), keys_of(m, s.reverse()),
{
    let r = s.reverse();
    assert forall|i: int| 0 <= i < r.len() implies m.contains_key(#[trigger] r[i]) by { assert(r[i] == s[s.len() - 1 - i]); }
    assert forall|k: u128| m.contains_key(k) implies exists|i: int| 0 <= i < r.len() && #[trigger] r[i] == k by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == k;
        assert(r[s.len() - 1 - i] == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] > r[j] by { assert(r[i] == s[s.len() - 1 - i]); assert(r[j] == s[s.len() - 1 - j]); }
}
pub proof fn lemma_priced_at(p: Pool, g: u128)
    requires
        p.tick_spacing != 0, g as int % p.tick_spacing as int == 0,
        rp_ok(g, rp_of(g)), p.global_state.rp == rp_of(g),
        p.t() == g || (p.t() < g && p.t() as int % p.tick_spacing as int == 0 && g <= p.t() + p.tick_spacing),
    ensures p.priced(),
{
    lemma_rp_one(g, rp_of(g));
    let s = p.tick_spacing as int;
    assert forall|t: u128| rp_ok(t, #[trigger] rp_of(t)) implies
            (t <= p.t() ==> sv(rp_of(t)) <= sv(p.global_state.rp))
            && (t > p.t() && t as int % s == 0 ==> sv(p.global_state.rp) <= sv(rp_of(t))) by {
        if t < g { lemma_rp_strict(t, rp_of(t), g, rp_of(g)); }
        if t > g { lemma_rp_strict(g, rp_of(g), t, rp_of(t)); }
        if t > p.t() && t as int % s == 0 { if t < g { lemma_multiples(s, p.t() as int, t as int); } }
    }
}
/// the tick is crossed going left: the range below it is entered
pub proof fn lemma_cross_left(p: Pool, q: Pool, t: u128)
    requires core(p), crossed(p, q, t, false), q.m() == p.m(), q.tick_spacing == p.tick_spacing,
    ensures
        core(q), same_inside(p, q), q.t() < t, quiet(q, q.t(), (t - 1) as u128),
        p.global_state.rp == rp_of(t) && rp_ok(t, rp_of(t)) ==> q.priced(),
{
    let mid = Pool { global_state: GlobalState { tick: (t - 1) as u128, ..q.global_state }, ..q };
    assert(p.a().contains_key(t));
    assert(all4(|i: int| fg(p.global_state, i).scale == 12));
    assert(mid.a() == q.a() && mid.m() == q.m());
    assert(flipped(p, mid, t));
    lemma_flip(p, mid, t);
    assert(moved(mid, q));
    let s = p.tick_spacing as int;
    assert forall|u: u128| #[trigger] mid.a().contains_key(u) implies !(q.t() < u && u <= mid.t()) by {
        if q.t() < u && u <= mid.t() { lemma_multiples(s, q.t() as int, u as int); }
    }
    lemma_move(mid, q);
    assert forall|lo: u128, up: u128, i: int| 0 <= i < 4 implies #[trigger] q.inside(lo, up, i) == p.inside(lo, up, i) by { assert(mid.inside(lo, up, i) == p.inside(lo, up, i)); }
    assert(q.a().contains_key(t));
    assert(t as int % s == 0);
    if p.global_state.rp == rp_of(t) && rp_ok(t, rp_of(t)) { lemma_priced_at(q, t); }
}
/// the tick is crossed going right; p is the state before the current tick moved to it
pub proof fn lemma_cross_right(p: Pool, b: Pool, q: Pool, t: u128)
    requires core(p), moved(p, b), p.t() < t, quiet(p, p.t(), (t - 1) as u128), crossed(b, q, t, true), q.m() == b.m(), q.tick_spacing == b.tick_spacing,
    ensures
        core(q), same_inside(p, q), q.t() == t,
        b.global_state.rp == rp_of(t) && rp_ok(t, rp_of(t)) ==> q.priced(),
{
    let mid = Pool { global_state: GlobalState { tick: (t - 1) as u128, rp: b.global_state.rp, ..p.global_state }, ..p };
    assert(mid.a() == p.a() && mid.m() == p.m());
    assert(moved(p, mid));
    lemma_move(p, mid);
    assert(p.a().contains_key(t));
    assert(all4(|i: int| fg(p.global_state, i).scale == 12));
    assert(all4(|i: int| b.out(t, i) == mid.out(t, i) && b.fgi(i) == mid.fgi(i)));
    assert(flipped(mid, q, t));
    lemma_flip(mid, q, t);
    assert forall|lo: u128, up: u128, i: int| 0 <= i < 4 implies #[trigger] q.inside(lo, up, i) == p.inside(lo, up, i) by { assert(mid.inside(lo, up, i) == p.inside(lo, up, i)); }
    if b.global_state.rp == rp_of(t) && rp_ok(t, rp_of(t)) { lemma_priced_at(q, t); }
}
/// same pool except for the tick states and the global state
pub open spec fn only_ticks(p: Pool, q: Pool) -> bool {
    &&& q == (Pool { active_ticks: q.active_ticks, global_state: q.global_state, ..p })
    &&& q.global_state == (GlobalState { tick: q.global_state.tick, rp: q.global_state.rp, liq: q.global_state.liq, ..p.global_state })
}
/// the state after some ticks were crossed
pub open spec fn travelled(p: Pool, q: Pool, right: bool) -> bool {
    &&& only_ticks(p, q) && q.wf() && same_inside(p, q)
    &&& forall|t: u128| #[trigger] q.a().contains_key(t) <==> p.a().contains_key(t)
    &&& right ==> q.t() >= p.t() && sv(q.global_state.rp) >= sv(p.global_state.rp)
    &&& !right ==> q.t() <= p.t() && sv(q.global_state.rp) <= sv(p.global_state.rp)
}
/// one tick crossed to get into range, going left
pub proof fn lemma_enter_left(p: Pool, b: Pool, q: Pool, t: u128)
    requires p.wf(), next_left(p, t), moved(p, b), b.t() == t, b.global_state.rp == rp_of(t), rp_ok(t, rp_of(t)), crossed(b, q, t, false), only_ticks(p, q), q.m() == b.m(), q.tick_spacing == b.tick_spacing,
    ensures travelled(p, q, false), q.t() < t,
{
    lemma_move(p, b);
    lemma_cross_left(b, q, t);
    assert forall|lo: u128, up: u128, i: int| 0 <= i < 4 implies #[trigger] q.inside(lo, up, i) == p.inside(lo, up, i) by { assert(b.inside(lo, up, i) == p.inside(lo, up, i)); }
    lemma_rp_one(t, rp_of(t));
    assert(sv(rp_of(t)) <= sv(p.global_state.rp));
}
pub proof fn lemma_enter_right(p: Pool, b: Pool, q: Pool, t: u128)
    requires p.wf(), next_right(p, t), moved(p, b), b.global_state.rp == rp_of(t), rp_ok(t, rp_of(t)), crossed(b, q, t, true), only_ticks(p, q), q.m() == b.m(), q.tick_spacing == b.tick_spacing,
    ensures travelled(p, q, true), q.t() == t,
{
    lemma_cross_right(p, b, q, t);
    lemma_rp_one(t, rp_of(t));
    assert(p.a().contains_key(t));
    assert(sv(p.global_state.rp) <= sv(rp_of(t)));
}
pub proof fn lemma_travelled_trans(p: Pool, q: Pool, r: Pool, right: bool)
    requires travelled(p, q, right), travelled(q, r, right),
    ensures travelled(p, r, right),
{
    assert forall|lo: u128, up: u128, i: int| 0 <= i < 4 implies #[trigger] r.inside(lo, up, i) == p.inside(lo, up, i) by { assert(q.inside(lo, up, i) == p.inside(lo, up, i)); }
    assert forall|t: u128| #[trigger] r.a().contains_key(t) <==> p.a().contains_key(t) by { assert(q.a().contains_key(t) <==> p.a().contains_key(t)); }
}
/// a new pool at a price
pub open spec fn fresh_pool(p: Pool) -> bool {
    &&& p.m() == Map::<PK, PositionState>::empty() && p.a() == Map::<u128, TickState>::empty()
    &&& sv(p.global_state.liq) == 0 && p.global_state.liq.scale == 12
    &&& all4(|i: int| sv(fg(p.global_state, i)) == 0 && fg(p.global_state, i).scale == 12)
    &&& p.tick_spacing != 0 && p.t() as int % p.tick_spacing as int == 0
    &&& p.global_state.rp == rp_of(p.t()) && rp_ok(p.t(), rp_of(p.t()))
    &&& sv(p.x) == 0 && sv(p.y) == 0 && p.x.scale == 12 && p.y.scale == 12
    &&& all4(|i: int| sv(p.pot(i)) == 0 && p.pot(i).scale == 12)
}
pub proof fn lemma_fresh_pool(p: Pool)
    requires fresh_pool(p),
    ensures p.wf(), p.solvent(), p.funded(),
{
    lemma_priced_at(p, p.t());
    assert(p.m().dom() =~= Set::<PK>::empty());
    assert forall|f: WFn| #[trigger] msum(p.m(), f) == 0 by { }
    assert forall|t: u128| gross(p.m(), t) == 0 by { assert(msum(p.m(), w_gross(t)) == 0); }
    assert(in_range(p.m(), p.t()) == 0);
}
/// the fees paid to a position
pub proof fn lemma_due(p: Pool, k: PK, i: int, b: Decimal, f: Decimal, r: Decimal)
    requires mul_ok(b, f, r), b.scale == 12, f.scale == 12, liq_of(p.m(), k) >= 0, !dneg(f), sv(b) == liq_of(p.m(), k), sv(f) == unpaid(p, k, i),
    ensures r.scale == 12, sv(r) == due(p, k, i), sv(r) >= 0, unpaid(p, k, i) >= 0,
{
    let (x, y) = (b.value as int, f.value as int);
    if x == 0 || y == 0 { assert(x * y == 0) by (nonlinear_arith) requires x == 0 || y == 0; }
}
pub proof fn lemma_priced_kept(p: Pool, q: Pool)
    requires p.priced(), q.tick_spacing == p.tick_spacing, q.t() == p.t(), q.global_state.rp == p.global_state.rp,
    ensures q.priced(),
{
}
// ---- the token accounts ------------------------------------------------------------
/// only reserves and pots change
pub open spec fn only_tokens(p: Pool, q: Pool) -> bool { q == (Pool { x: q.x, y: q.y, x_fee: q.x_fee, y_fee: q.y_fee, x_adj: q.x_adj, y_adj: q.y_adj, ..p }) }
pub proof fn lemma_only_tokens(p: Pool, q: Pool)
    requires only_tokens(p, q),
    ensures same_inside(p, q), all4(|i: int| q.owed(i) == p.owed(i)), p.wf() ==> q.wf(),
{
    assert(same_inside(p, q)) by { assert forall|lo: u128, up: u128, i: int| 0 <= i < 4 implies #[trigger] q.inside(lo, up, i) == p.inside(lo, up, i) by { } }
    lemma_owed_same(p, q);
    if p.wf() {
        assert(all4(|i: int| p.fgi(i) >= 0));
        assert forall|t: u128| #[trigger] q.a().contains_key(t) implies all4(|i: int| 0 <= q.out(t, i) <= q.fgi(i)) by { assert(all4(|i: int| 0 <= p.out(t, i) <= p.fgi(i))); }
        assert(q.shape() && q.books() && q.priced() && q.grown());
    }
}
/// the range of ticks used for a range of root prices
pub open spec fn lo_tick(s: u128, rpa: Decimal) -> u128 { down_to(floor_tick(0, rpa), s) as u128 }
pub open spec fn up_tick(s: u128, rpa: Decimal, rpb: Decimal) -> u128 { down_to(floor_tick(lo_tick(s, rpa), rpb), s) as u128 }
/// the pots pay the position exactly what it earned
pub open spec fn paid(p: Pool, q: Pool, k: PK) -> bool { all4(|i: int| sv(q.pot(i)) == sv(p.pot(i)) - due(p, k, i) && due(p, k, i) >= 0) }
/// the position k changes by d; nothing else but the sums it is part of
pub open spec fn only_position(p: Pool, q: Pool, k: PK, d: int) -> bool {
    &&& q == (Pool { active_ticks: q.active_ticks, global_state: q.global_state, positions: q.positions, x: q.x, y: q.y, x_fee: q.x_fee, y_fee: q.y_fee, x_adj: q.x_adj, y_adj: q.y_adj, ..p })
    &&& q.global_state == (GlobalState { liq: q.global_state.liq, ..p.global_state })
    &&& touched(p, q, k, d)
}
/// fee growth inside the ranges of the positions with liquidity is the same
pub open spec fn kept_inside(p: Pool, q: Pool) -> bool { forall|j: PK| #[trigger] q.m().contains_key(j) && sv(q.m()[j].liq) > 0 ==> all4(|i: int| q.inside(j.1, j.2, i) == p.inside(j.1, j.2, i)) }
pub proof fn lemma_pay(p: Pool, m: Pool, q: Pool, k: PK, d: int)
    requires
        p.solvent(), m.wf(), only_tokens(m, q), touched(p, m, k, d), kept_inside(p, m), paid(p, q, k),
        all4(|i: int| m.owed(i) == p.owed(i) - earned(p, k, i)),
    ensures q.wf(), q.solvent(), touched(p, q, k, d), kept_inside(p, q),
{
    lemma_only_tokens(m, q);
    assert(all4(|i: int| q.owed(i) == m.owed(i)));
    assert(all4(|i: int| p.owed(i) <= sv(p.pot(i)) * U));
    lemma_floor(earned(p, k, 0), U); lemma_floor(earned(p, k, 1), U); lemma_floor(earned(p, k, 2), U); lemma_floor(earned(p, k, 3), U);
    assert(q.m() == m.m());
    assert forall|j: PK| #[trigger] q.m().contains_key(j) && sv(q.m()[j].liq) > 0 implies all4(|i: int| q.inside(j.1, j.2, i) == p.inside(j.1, j.2, i)) by {
        assert(m.m().contains_key(j));
        assert(all4(|i: int| m.inside(j.1, j.2, i) == p.inside(j.1, j.2, i)));
        assert(q.inside(j.1, j.2, 0) == m.inside(j.1, j.2, 0));
        assert(q.inside(j.1, j.2, 1) == m.inside(j.1, j.2, 1));
        assert(q.inside(j.1, j.2, 2) == m.inside(j.1, j.2, 2));
        assert(q.inside(j.1, j.2, 3) == m.inside(j.1, j.2, 3));
    }
}
/// what is left after the precautionary rounding of withdrawals
pub open spec fn after_haircut(a: int) -> int { (a * (U - 1)) / U }
pub proof fn lemma_range_prices(p: Pool, lo: u128, up: u128)
    requires p.wf(), rp_ok(lo, rp_of(lo)), rp_ok(up, rp_of(up)), lo < up,
    ensures price(p.global_state.rp), price(rp_of(lo)), price(rp_of(up)), sv(rp_of(lo)) < sv(rp_of(up)),
{
    lemma_rp_one(lo, rp_of(lo));
    lemma_rp_one(up, rp_of(up));
    lemma_rp_strict(lo, rp_of(lo), up, rp_of(up));
}
pub proof fn lemma_haircut(a: Decimal, f: Decimal, r: Decimal)
    requires nn(a), mul_ok(a, f, r), f.scale == 12, sv(f) == U - 1,
    ensures nn(r), sv(r) == after_haircut(sv(a)),
{
    let x = a.value as int;
    if x == 0 { assert(x * (U - 1) == 0) by (nonlinear_arith) requires x == 0; }
}
// ---- swapping within two ticks ------------------------------------------------------
/// division truncated towards zero
pub open spec fn tq(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
/// the part of an amount that is left after the fee
pub open spec fn less_fee(a: int, rate: int) -> int { tq(a * (U - rate), U) }
/// the fee that belongs to an amount that is left after the fee
pub open spec fn fee_on(a: int, rate: int) -> int { tq(tq(a * U, U - rate) * rate, U) }
pub proof fn lemma_mul_tq(x: Decimal, y: Decimal, r: Decimal)
    requires mul_ok(x, y, r), y.scale == 12,
    ensures sv(r) == tq(sv(x) * sv(y), U), sv(x) >= 0 && sv(r) > 0 ==> sv(y) > 0,
{
    let (a, b) = (x.value as int, y.value as int);
    let p = a * b;
    assert(p >= 0 && (-a) * b == -p && a * (-b) == -p && (-a) * (-b) == p) by (nonlinear_arith) requires a >= 0, b >= 0, p == a * b;
    if p == 0 { } else { assert(a != 0 && b != 0) by (nonlinear_arith) requires p == a * b, p != 0; }
    if a == 0 || b == 0 { assert(p == 0) by (nonlinear_arith) requires a == 0 || b == 0, p == a * b; }
    if p > 0 { lemma_floor(p, U); }
}
pub open spec fn div_ok(x: Decimal, y: Decimal, r: Decimal) -> bool {
    &&& y.value != 0 && r.scale == x.scale && r.value == (x.value * den(y)) / y.value as int
    &&& signed(r, x.negative != y.negative)
}
pub proof fn lemma_div_tq(x: Decimal, y: Decimal, r: Decimal)
    requires div_ok(x, y, r), y.scale == 12, sv(y) > 0,
    ensures sv(r) == tq(sv(x) * U, sv(y)),
{
    let (a, b) = (x.value as int, y.value as int);
    lemma_floor(a * U, b);
    assert((-a) * U == -(a * U));
}
/// what both directions of a swap between two ticks have in common
pub open spec fn within(p: Pool, start: Decimal, goal: u128, offered: Decimal, r: SwapWithinResult) -> bool {
    &&& rp_ok(goal, rp_of(goal)) && nn(offered)
    &&& nn(r.recv_amount) && nn(r.recv_fee) && nn(r.send_hmm_adj) && price(r.end_rp)
    &&& c12(r.send_amount) && sv(r.send_amount) <= 0
    &&& r.cross ==> r.end_tick == goal && r.end_rp == rp_of(goal) && sv(r.recv_fee) == fee_on(sv(r.recv_amount), sv(p.fee_rate))
    &&& !r.cross ==> sv(r.recv_amount) == less_fee(sv(offered), sv(p.fee_rate)) && sv(r.recv_fee) == sv(offered) - sv(r.recv_amount)
}
pub open spec fn within_x(p: Pool, start: Decimal, goal: u128, liq: Decimal, dx: Decimal, orc: Decimal, r: SwapWithinResult) -> bool {
    let g = rp_of(goal);
    &&& within(p, start, goal, dx, r)
    &&& sv(g) <= sv(r.end_rp) <= sv(start)
    &&& sv(r.send_amount) == sv(r.send_hmm_adj) + sv(det_dy(liq, start, r.end_rp))
    &&& sv(p.c) == 0 || sv(orc) == 0 || sv(orc) >= sv(start) ==> sv(r.send_hmm_adj) == 0
    &&& r.cross ==> r.recv_amount == det_dx(liq, start, g)
    &&& !r.cross ==> r.end_rp == det_rp_dx(liq, start, r.recv_amount) && found_down(goal, floor_tick(goal, r.end_rp), r.end_rp)
        && r.end_tick == (if floor_tick(goal, r.end_rp) <= p.t() { floor_tick(goal, r.end_rp) } else { p.t() })
}
pub open spec fn within_y(p: Pool, start: Decimal, goal: u128, liq: Decimal, dy: Decimal, orc: Decimal, r: SwapWithinResult) -> bool {
    let g = rp_of(goal);
    &&& within(p, start, goal, dy, r)
    &&& sv(start) <= sv(r.end_rp) <= sv(g)
    &&& sv(r.send_amount) == sv(r.send_hmm_adj) + sv(det_dx(liq, start, r.end_rp))
    &&& sv(p.c) == 0 || sv(orc) == 0 || sv(orc) <= sv(start) ==> sv(r.send_hmm_adj) == 0
    &&& r.cross ==> r.recv_amount == det_dy(liq, start, g)
    &&& !r.cross ==> r.end_rp == det_rp_dy(liq, start, r.recv_amount) && found_down(p.t(), floor_tick(p.t(), r.end_rp), r.end_rp)
        && r.end_tick == (if floor_tick(p.t(), r.end_rp) <= goal - 1 { floor_tick(p.t(), r.end_rp) as int } else { goal - 1 })
}
pub proof fn lemma_div_then_mul(d: Decimal, f: Decimal, rate: Decimal, fee: Decimal)
    requires
        nn(d), f.scale == 12, sv(f) > 0, rate.scale == 12,
        fee.value == (((d.value * U) / f.value as int) * rate.value) / U,
        (d.value * U) / f.value as int != 0 ==> signed(fee, d.negative != rate.negative),
    ensures sv(fee) == tq(tq(sv(d) * U, sv(f)) * sv(rate), U),
{
    let (a, b) = (d.value as int, f.value as int);
    let m = (a * U) / b;
    lemma_floor(a * U, b);
    let (x, y) = (m, rate.value as int);
    let p = x * y;
    assert(p >= 0 && x * (-y) == -p) by (nonlinear_arith) requires x >= 0, y >= 0, p == x * y;
    if x == 0 || y == 0 { assert(p == 0) by (nonlinear_arith) requires x == 0 || y == 0, p == x * y; }
    if p == 0 { } else { lemma_floor(p, U); }
    if a == 0 { assert(m == 0) by { lemma_div_basics(b); } }
}
// ---- swaps ---------------------------------------------------------------------------
pub open spec fn flow_of(r: SwapOutput) -> Flow { Flow { recv: r.recv_amount, send: r.send_amount, adj: r.send_hmm_adj, fee: r.recv_fee } }
/// reserves and pots by direction: the input token, its fee pot, the output token, its adjustment pot
pub open spec fn res_in(p: Pool, right: bool) -> Decimal { if right { p.y } else { p.x } }
pub open spec fn res_out(p: Pool, right: bool) -> Decimal { if right { p.x } else { p.y } }
pub open spec fn i_fee(right: bool) -> int { if right { 1 } else { 0 } }
pub open spec fn i_adj(right: bool) -> int { if right { 2 } else { 3 } }
/// amounts of a swap so far: received (with fee), sent, adjustment, fee
pub struct Flow { pub recv: Decimal, pub send: Decimal, pub adj: Decimal, pub fee: Decimal }
pub open spec fn tokens_swapped(p: Pool, q: Pool, right: bool, f: Flow) -> bool {
    &&& sv(res_in(q, right)) + sv(q.pot(i_fee(right))) == sv(res_in(p, right)) + sv(p.pot(i_fee(right))) + sv(f.recv)
    &&& sv(res_out(q, right)) + sv(q.pot(i_adj(right))) == sv(res_out(p, right)) + sv(p.pot(i_adj(right))) + sv(f.send)
    &&& sv(q.pot(i_fee(right))) == sv(p.pot(i_fee(right))) + sv(f.fee)
    &&& sv(q.pot(i_adj(right))) == sv(p.pot(i_adj(right))) + sv(f.adj)
}
/// only what a swap in this direction may change changed
pub open spec fn swap_frame(p: Pool, q: Pool, right: bool) -> bool {
    &&& right ==> q == (Pool { active_ticks: q.active_ticks, global_state: q.global_state, x: q.x, y: q.y, x_adj: q.x_adj, y_fee: q.y_fee, ..p })
    &&& !right ==> q == (Pool { active_ticks: q.active_ticks, global_state: q.global_state, x: q.x, y: q.y, y_adj: q.y_adj, x_fee: q.x_fee, ..p })
}
pub open spec fn flow_ok(f: Flow) -> bool { nn(f.recv) && c12(f.send) && sv(f.send) <= 0 && nn(f.adj) && nn(f.fee) }
pub open spec fn went(p: Pool, q: Pool, right: bool) -> bool {
    &&& right ==> q.t() >= p.t() && sv(q.global_state.rp) >= sv(p.global_state.rp)
    &&& !right ==> q.t() <= p.t() && sv(q.global_state.rp) <= sv(p.global_state.rp)
}
/// no oracle, no adjustment factor, or the trade moves the price away from the oracle
pub open spec fn unadjusted(p: Pool, right: bool, orc: Decimal) -> bool {
    sv(p.c) == 0 || sv(orc) == 0 || (if right { sv(orc) <= sv(p.global_state.rp) } else { sv(orc) >= sv(p.global_state.rp) })
}
pub open spec fn growing(p: Pool, q: Pool) -> bool { all4(|i: int| q.fgi(i) >= p.fgi(i)) }
pub open spec fn swapped(p: Pool, q: Pool, right: bool, orc: Decimal, f: Flow) -> bool {
    &&& q.wf() && q.funded() && q.solvent()
    &&& swap_frame(p, q, right) && flow_ok(f) && tokens_swapped(p, q, right, f)
    &&& earning(p, q) && growing(p, q) && went(p, q, right)
    &&& unadjusted(p, right, orc) ==> sv(f.adj) == 0
    &&& forall|t: u128| #[trigger] q.a().contains_key(t) <==> p.a().contains_key(t)
}
pub proof fn lemma_swapped<'a>(p: Pool<'a>, q: Pool<'a>, right: bool, orc: Decimal, f: Flow)
    requires swapped(p, q, right, orc, f),
    ensures
        q.wf() && q.funded() && q.solvent(),
        swap_frame(p, q, right) && flow_ok(f) && tokens_swapped(p, q, right, f),
        earning(p, q) && growing(p, q) && went(p, q, right),
        unadjusted(p, right, orc) ==> sv(f.adj) == 0,
{
}
pub proof fn lemma_swap_start(p: Pool, right: bool, orc: Decimal, f: Flow)
    requires p.wf(), p.funded(), p.solvent(), flow_ok(f), sv(f.recv) == 0, sv(f.send) == 0, sv(f.adj) == 0, sv(f.fee) == 0,
    ensures swapped(p, p, right, orc, f),
{
    lemma_earning_same(p, p);
}
pub proof fn lemma_swap_travel(p: Pool, a: Pool, b: Pool, right: bool, orc: Decimal, f: Flow)
    requires swapped(p, a, right, orc, f), travelled(a, b, right),
    ensures swapped(p, b, right, orc, f), right ==> b.t() >= a.t(), !right ==> b.t() <= a.t(),
{
    lemma_owed_same(a, b);
    lemma_earning_same(a, b);
    lemma_earning_trans(p, a, b);
    assert(all4(|i: int| b.owed(i) == a.owed(i)));
    assert(all4(|i: int| a.owed(i) <= sv(a.pot(i)) * U));
    assert forall|t: u128| #[trigger] b.a().contains_key(t) <==> p.a().contains_key(t) by { assert(a.a().contains_key(t) <==> p.a().contains_key(t)); }
}
/// what a step of a swap uses up: the tick it crosses, or all that was left to swap
pub open spec fn ahead(a: Pool, f: Pool, right: bool, before: int, after: int) -> bool {
    &&& if right { a.t() <= f.t() } else { f.t() <= a.t() }
    &&& a.t() == f.t() ==> after < before
}
pub open spec fn uses_up(a: Pool, p0: Pool, f: Pool, r: SwapWithinResult, right: bool, all: int, before: int, after: int) -> bool {
    &&& before < all && after == before + sv(r.recv_amount) + sv(r.recv_fee)
    &&& !r.cross ==> sv(r.recv_fee) == all - before - sv(r.recv_amount)
    &&& right ==> a.t() <= p0.t() && p0.t() <= f.t() && (r.cross ==> p0.t() < f.t())
    &&& !right ==> p0.t() <= a.t() && f.t() <= p0.t() && (r.cross ==> f.t() < p0.t())
}
pub proof fn lemma_ahead(a: Pool, p0: Pool, f: Pool, r: SwapWithinResult, right: bool, all: int, before: int, after: int)
    ensures uses_up(a, p0, f, r, right, all, before, after) ==> ahead(a, f, right, all - before, all - after),
{
}
pub proof fn lemma_wf_facts(p: Pool)
    requires p.wf(),
    ensures p.spaced(), price(p.global_state.rp), c12(p.global_state.liq), sv(p.global_state.liq) >= 0, all4(|i: int| c12(fg(p.global_state, i))),
{
}
/// the fee growth of a swap step: exactly the fee per liquidity, truncated
pub open spec fn step_growth(a: Pool, q: Pool, right: bool, liq: int, fee: int, adj: int) -> bool {
    &&& gain(a, q, i_fee(right)) == (fee * U) / liq
    &&& gain(a, q, i_adj(right)) == (adj * U) / liq
    &&& gain(a, q, 1 - i_fee(right)) == 0 && gain(a, q, 5 - i_adj(right)) == 0
    &&& all4(|i: int| fg(q.global_state, i).scale == 12)
}
/// a step between two ticks: p0 before, q when price, tokens and fees are updated, f when the tick is crossed
pub open spec fn stepped(p0: Pool, q: Pool, f: Pool, right: bool, g: u128, orc: Decimal, r: SwapWithinResult) -> bool {
    &&& sv(p0.global_state.liq) > 0
    &&& right ==> next_right(p0, g) && (exists|o: Decimal| #[trigger] within_y(p0, p0.global_state.rp, g, p0.global_state.liq, o, orc, r))
    &&& !right ==> next_left(p0, g) && (exists|o: Decimal| #[trigger] within_x(p0, p0.global_state.rp, g, p0.global_state.liq, o, orc, r))
    &&& swap_frame(p0, q, right) && q.a() == p0.a()
    &&& q.t() == r.end_tick && q.global_state.rp == r.end_rp && q.global_state.liq == p0.global_state.liq
    &&& step_growth(p0, q, right, sv(p0.global_state.liq), sv(r.recv_fee), sv(r.send_hmm_adj))
    &&& plus(res_in(p0, right), r.recv_amount, res_in(q, right)) && plus(p0.pot(i_fee(right)), r.recv_fee, q.pot(i_fee(right)))
    &&& nn(res_out(q, right)) && sv(res_out(q, right)) == sv(res_out(p0, right)) + sv(r.send_amount) - sv(r.send_hmm_adj)
    &&& plus(p0.pot(i_adj(right)), r.send_hmm_adj, q.pot(i_adj(right)))
    &&& f == (Pool { active_ticks: f.active_ticks, global_state: f.global_state, ..q })
    &&& r.cross ==> crossed(q, f, g, right)
    &&& !r.cross ==> f == q
}
pub open spec fn before_move<'a>(p0: Pool<'a>, q: Pool<'a>) -> Pool<'a> { Pool { global_state: GlobalState { tick: p0.t(), rp: p0.global_state.rp, ..q.global_state }, ..q } }
pub proof fn lemma_growth(amount: int, liq: int)
    requires amount >= 0, liq > 0,
    ensures 0 <= (amount * U) / liq, ((amount * U) / liq) * liq <= amount * U,
{
    lemma_floor(amount * U, liq);
}
pub proof fn lemma_step_accrue<'a>(p0: Pool<'a>, q: Pool<'a>, f: Pool<'a>, right: bool, g: u128, orc: Decimal, r: SwapWithinResult)
    requires core(p0), stepped(p0, q, f, right, g, orc, r),
    ensures
        core(before_move(p0, q)), earning(p0, before_move(p0, q)),
        all4(|i: int| before_move(p0, q).owed(i) <= p0.owed(i) + U * (if i == i_fee(right) { sv(r.recv_fee) } else if i == i_adj(right) { sv(r.send_hmm_adj) } else { 0 })),
        all4(|i: int| gain(p0, q, i) >= 0),
{
    let pa = before_move(p0, q);
    let l = sv(p0.global_state.liq);
    lemma_growth(sv(r.recv_fee), l);
    lemma_growth(sv(r.send_hmm_adj), l);
    assert(0 * l == 0) by (nonlinear_arith);
    assert(all4(|i: int| gain(p0, pa, i) == gain(p0, q, i)));
    lemma_accrue(p0, pa);
}
pub proof fn lemma_step_left<'a>(p0: Pool<'a>, q: Pool<'a>, f: Pool<'a>, g: u128, orc: Decimal, r: SwapWithinResult)
    requires p0.priced(), core(before_move(p0, q)), stepped(p0, q, f, false, g, orc, r),
    ensures core(f), same_inside(before_move(p0, q), f), f.priced(), f.t() <= p0.t(), sv(f.global_state.rp) <= sv(p0.global_state.rp),
        forall|t: u128| #[trigger] f.a().contains_key(t) <==> p0.a().contains_key(t),
{
    let pa = before_move(p0, q);
    assert(moved(pa, q));
    assert(quiet(pa, q.t(), pa.t()));
    lemma_move(pa, q);
    if r.cross {
        lemma_cross_left(q, f, g);
        assert forall|lo: u128, up: u128, i: int| 0 <= i < 4 implies #[trigger] f.inside(lo, up, i) == pa.inside(lo, up, i) by { assert(q.inside(lo, up, i) == pa.inside(lo, up, i)); }
    } else {
        let n = (floor_tick(g, r.end_rp) + 1) as u128;
        assert forall|t: u128| rp_ok(t, #[trigger] rp_of(t)) implies
                (t <= f.t() ==> sv(rp_of(t)) <= sv(f.global_state.rp))
                && (t > f.t() && t as int % f.tick_spacing as int == 0 ==> sv(f.global_state.rp) <= sv(rp_of(t))) by {
            if t < g { lemma_rp_strict(t, rp_of(t), g, rp_of(g)); }
            if t > n { lemma_rp_strict(n, rp_of(n), t, rp_of(t)); }
        }
    }
}
pub proof fn lemma_step_right<'a>(p0: Pool<'a>, q: Pool<'a>, f: Pool<'a>, g: u128, orc: Decimal, r: SwapWithinResult)
    requires p0.priced(), core(before_move(p0, q)), stepped(p0, q, f, true, g, orc, r),
    ensures core(f), same_inside(before_move(p0, q), f), f.priced(), f.t() >= p0.t(), sv(f.global_state.rp) >= sv(p0.global_state.rp),
        forall|t: u128| #[trigger] f.a().contains_key(t) <==> p0.a().contains_key(t),
{
    let pa = before_move(p0, q);
    assert(moved(pa, q));
    if r.cross {
        lemma_cross_right(pa, q, f, g);
    } else {
        assert(quiet(pa, pa.t(), q.t()));
        lemma_move(pa, q);
        let n = (floor_tick(p0.t(), r.end_rp) + 1) as u128;
        assert forall|t: u128| rp_ok(t, #[trigger] rp_of(t)) implies
                (t <= f.t() ==> sv(rp_of(t)) <= sv(f.global_state.rp))
                && (t > f.t() && t as int % f.tick_spacing as int == 0 ==> sv(f.global_state.rp) <= sv(rp_of(t))) by {
            if t > g { lemma_rp_strict(g, rp_of(g), t, rp_of(t)); }
            if t > n { lemma_rp_strict(n, rp_of(n), t, rp_of(t)); }
        }
    }
}
pub proof fn lemma_swap_step<'a>(p: Pool<'a>, p0: Pool<'a>, q: Pool<'a>, f: Pool<'a>, right: bool, g: u128, orc: Decimal, r: SwapWithinResult, a: Flow, b: Flow)
    requires
        swapped(p, p0, right, orc, a), stepped(p0, q, f, right, g, orc, r), flow_ok(b),
        sv(b.recv) == sv(a.recv) + sv(r.recv_amount) + sv(r.recv_fee), sv(b.send) == sv(a.send) + sv(r.send_amount),
        sv(b.adj) == sv(a.adj) + sv(r.send_hmm_adj), sv(b.fee) == sv(a.fee) + sv(r.recv_fee),
    ensures swapped(p, f, right, orc, b), f.global_state.rp == r.end_rp, right ==> f.t() == r.end_tick, !right ==> f.t() <= r.end_tick,
        // a step that crosses a tick leaves it behind, one that does not takes all that was offered
        right ==> f.t() >= p0.t() && (r.cross ==> f.t() > p0.t()), !right ==> f.t() <= p0.t() && (r.cross ==> f.t() < p0.t()),
{
    let pa = before_move(p0, q);
    lemma_step_accrue(p0, q, f, right, g, orc, r);
    if right { lemma_step_right(p0, q, f, g, orc, r); } else { lemma_step_left(p0, q, f, g, orc, r); }
    lemma_owed_same(pa, f);
    lemma_earning_same(pa, f);
    lemma_earning_trans(p0, pa, f);
    lemma_earning_trans(p, p0, f);
    assert(f.solvent()) by {
        assert(all4(|i: int| p0.owed(i) <= sv(p0.pot(i)) * U));
        assert(all4(|i: int| f.owed(i) == pa.owed(i)));
    }
    assert(f.funded()) by { assert(all4(|i: int| nn(p0.pot(i)))); }
    assert(growing(p, f)) by { assert(all4(|i: int| p0.fgi(i) >= p.fgi(i))); assert(all4(|i: int| f.fgi(i) == q.fgi(i))); }
    assert forall|t: u128| #[trigger] f.a().contains_key(t) <==> p.a().contains_key(t) by { assert(p0.a().contains_key(t) <==> p.a().contains_key(t)); }
}
