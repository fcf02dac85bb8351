// Histories of one pool against independently computed books (L01-L07).
// The state is read from the pool's Debug output; amounts are exact integers.
use crate::big::Big;
use crate::rng::Rng;
use crate::{call, Case, Prop};
use hmmcl_sandbox::cl_pool::cl_math::PoolMath;
use hmmcl_sandbox::cl_pool::Pool;
use hmmcl_sandbox::decimal::Decimal;
use std::collections::BTreeMap;

struct Pm;
impl PoolMath for Pm {}

pub fn prop(id: &str) -> Option<Box<dyn Prop>> {
    match id {
        "L01" | "L02" | "L03" | "L04" | "L05" | "L06" | "L07" => Some(Box::new(Hist(id[2..].parse().unwrap()))),
        _ => None,
    }
}
struct Hist(u8);
const U: u128 = 1_000_000_000_000;
const USERS: [&str; 4] = ["ana", "bob", "cyn", "dan"];

// ---- reading the Debug output -------------------------------------------------------
#[derive(Debug, Clone)]
enum V {
    N(u128),
    S(String),
    W(String),
    Rec(BTreeMap<String, V>),
    Tup(Vec<V>),
    Map(Vec<(V, V)>),
}
struct P<'a>(&'a [u8], usize);
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.1 < self.0.len() && (self.0[self.1] as char).is_whitespace() {
            self.1 += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.0.get(self.1).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.1 += 1;
            true
        } else {
            false
        }
    }
    fn val(&mut self) -> Option<V> {
        let c = self.peek();
        if c == b'"' {
            let s = self.1 + 1;
            let mut e = s;
            while *self.0.get(e)? != b'"' {
                e += 1;
            }
            self.1 = e + 1;
            return Some(V::S(String::from_utf8_lossy(&self.0[s..e]).into()));
        }
        if c.is_ascii_digit() {
            let s = self.1;
            while self.1 < self.0.len() && self.0[self.1].is_ascii_digit() {
                self.1 += 1;
            }
            return std::str::from_utf8(&self.0[s..self.1]).ok()?.parse().ok().map(V::N);
        }
        if c == b'{' {
            self.1 += 1;
            let mut m = vec![];
            while !self.eat(b'}') {
                let k = self.val()?;
                if !self.eat(b':') {
                    return None;
                }
                m.push((k, self.val()?));
                self.eat(b',');
            }
            return Some(V::Map(m));
        }
        if c == b'(' || c == b'[' {
            self.1 += 1;
            return self.tup(if c == b'(' { b')' } else { b']' });
        }
        let s = self.1;
        while self.1 < self.0.len() && (self.0[self.1].is_ascii_alphanumeric() || self.0[self.1] == b'_') {
            self.1 += 1;
        }
        if s == self.1 {
            return None;
        }
        let w = String::from_utf8_lossy(&self.0[s..self.1]).to_string();
        match self.peek() {
            b'{' => {
                self.1 += 1;
                let mut m = BTreeMap::new();
                while !self.eat(b'}') {
                    let k = match self.val()? {
                        V::W(k) => k,
                        _ => return None,
                    };
                    if !self.eat(b':') {
                        return None;
                    }
                    let v = self.val()?;
                    m.insert(k, v);
                    self.eat(b',');
                }
                Some(V::Rec(m))
            }
            b'(' => {
                self.1 += 1;
                self.tup(b')')
            }
            _ => Some(V::W(w)),
        }
    }
    fn tup(&mut self, end: u8) -> Option<V> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.val()?);
            self.eat(b',');
        }
        Some(V::Tup(v))
    }
}
impl V {
    fn f(&self, k: &str) -> Option<&V> {
        match self {
            V::Rec(m) => m.get(k),
            _ => None,
        }
    }
    fn num(&self) -> Option<u128> {
        match self {
            V::N(n) => Some(*n),
            _ => None,
        }
    }
    fn dec(&self) -> Option<Big> {
        let n = self.f("value")?.num()?;
        if self.f("scale")?.num()? != 12 {
            return None;
        }
        match self.f("negative")? {
            V::W(w) => Some(Big::s(n, w == "true")),
            _ => None,
        }
    }
    fn raw(&self) -> Option<Decimal> {
        match self.f("negative")? {
            V::W(w) => Some(Decimal { value: self.f("value")?.num()?, scale: self.f("scale")?.num()? as u8, negative: w == "true" }),
            _ => None,
        }
    }
    fn ds(&self, k: &[&str; 4]) -> Option<[Big; 4]> {
        Some([self.f(k[0])?.dec()?, self.f(k[1])?.dec()?, self.f(k[2])?.dec()?, self.f(k[3])?.dec()?])
    }
}
fn parse(s: &str) -> Option<V> {
    P(s.as_bytes(), 0).val()
}

type Key = (String, u128, u128);
#[derive(Clone, Debug)]
struct Tick {
    net: Big,
    gross: Big,
    out: [Big; 4],
}
#[derive(Clone, Debug, PartialEq)]
struct Pos {
    liq: Big,
    fr: [Big; 4],
}
#[derive(Clone)]
struct State {
    t: u128,
    rp: Big,
    rp_raw: Decimal,
    liq: Big,
    fg: [Big; 4],
    ticks: BTreeMap<u128, Tick>,
    pos: BTreeMap<Key, Pos>,
    res: [Big; 2],
    pot: [Big; 4],
    spacing: u128,
    rest: String,
}
const KIND: [&str; 4] = ["x fee", "y fee", "x adjustment", "y adjustment"];
fn z() -> Big {
    Big::u(0)
}
fn u() -> Big {
    Big::u(U)
}
/// the order of the kinds: x fee, y fee, x adjustment, y adjustment
fn read(p: &Pool) -> Option<State> {
    let v = parse(&format!("{:?}", p))?;
    let g = v.f("global_state")?;
    let mut ticks = BTreeMap::new();
    if let V::Map(m) = v.f("active_ticks")? {
        for (k, t) in m {
            ticks.insert(
                k.num()?,
                Tick { net: t.f("liq_net")?.dec()?, gross: t.f("liq_gross")?.dec()?, out: t.ds(&["f0_x", "f0_y", "h0_x", "h0_y"])? },
            );
        }
    } else {
        return None;
    }
    let mut pos = BTreeMap::new();
    if let V::Map(m) = v.f("positions")? {
        for (k, q) in m {
            let key = match k {
                V::Tup(e) if e.len() == 3 => match (&e[0], e[1].num(), e[2].num()) {
                    (V::S(s), Some(a), Some(b)) => (s.clone(), a, b),
                    _ => return None,
                },
                _ => return None,
            };
            pos.insert(key, Pos { liq: q.f("liq")?.dec()?, fr: q.ds(&["fr_x", "fr_y", "hr_x", "hr_y"])? });
        }
    } else {
        return None;
    }
    Some(State {
        t: g.f("tick")?.num()?,
        rp: g.f("rp")?.dec()?,
        rp_raw: g.f("rp")?.raw()?,
        liq: g.f("liq")?.dec()?,
        fg: g.ds(&["fg_x", "fg_y", "hg_x", "hg_y"])?,
        ticks,
        pos,
        res: [v.f("x")?.dec()?, v.f("y")?.dec()?],
        pot: v.ds(&["x_fee", "y_fee", "x_adj", "y_adj"])?,
        spacing: v.f("tick_spacing")?.num()?,
        rest: format!("{:?} {:?} {:?} {:?} {:?}", v.f("token_x")?, v.f("token_y")?, v.f("tick_spacing")?, v.f("c")?, v.f("fee_rate")?),
    })
}
impl State {
    fn below(&self, t: u128, i: usize) -> Big {
        match self.ticks.get(&t) {
            None => self.fg[i].clone(),
            Some(s) if self.t >= t => s.out[i].clone(),
            Some(s) => self.fg[i].sub(&s.out[i]),
        }
    }
    fn above(&self, t: u128, i: usize) -> Big {
        match self.ticks.get(&t) {
            None => z(),
            Some(s) if self.t >= t => self.fg[i].sub(&s.out[i]),
            Some(s) => s.out[i].clone(),
        }
    }
    fn inside(&self, k: &Key, i: usize) -> Big {
        self.fg[i].sub(&self.below(k.1, i)).sub(&self.above(k.2, i))
    }
    fn owed(&self, i: usize) -> Big {
        let mut s = z();
        for (k, p) in &self.pos {
            if !p.liq.is_zero() {
                s = s.add(&p.liq.mul(&self.inside(k, i).sub(&p.fr[i])));
            }
        }
        s
    }
}
fn pos(x: &Big) -> bool {
    !x.is_neg() && !x.is_zero()
}

// ---- what has to hold -----------------------------------------------------------------
fn books(s: &State) -> Result<(), String> {
    let mut gross: BTreeMap<u128, Big> = BTreeMap::new();
    let mut net: BTreeMap<u128, Big> = BTreeMap::new();
    let mut inr = z();
    for (k, p) in &s.pos {
        if p.liq.is_neg() {
            return Err(format!("position {:?} has liquidity {}", k, p.liq));
        }
        for (t, d) in [(k.1, p.liq.clone()), (k.2, p.liq.negate())] {
            let g = gross.entry(t).or_insert_with(z);
            *g = g.add(&p.liq);
            let n = net.entry(t).or_insert_with(z);
            *n = n.add(&d);
        }
        if k.1 <= s.t && s.t < k.2 {
            inr = inr.add(&p.liq);
        }
    }
    for (t, g) in &gross {
        if pos(g) != s.ticks.contains_key(t) {
            return Err(format!("tick {} bounds liquidity {} and is {}active", t, g, if pos(g) { "in" } else { "" }));
        }
    }
    for (t, k) in &s.ticks {
        let g = gross.get(t).cloned().unwrap_or_else(z);
        let n = net.get(t).cloned().unwrap_or_else(z);
        if g != k.gross || n != k.net || !pos(&g) {
            return Err(format!("tick {} has gross {} net {}, its positions {} and {}", t, k.gross, k.net, g, n));
        }
    }
    if inr != s.liq {
        return Err(format!("liquidity in range at tick {} is {}, of the positions {}", s.t, s.liq, inr));
    }
    Ok(())
}
fn solvent(s: &State) -> Result<(), String> {
    for i in 0..4 {
        if !s.owed(i).le(&s.pot[i].mul(&u())) {
            return Err(format!("{}: owed {}e-24, in the pot {}e-12", KIND[i], s.owed(i), s.pot[i]));
        }
    }
    Ok(())
}
fn funded(s: &State) -> Result<(), String> {
    for (n, v) in ["reserve x", "reserve y"].iter().zip(&s.res).chain(KIND.iter().zip(&s.pot)) {
        if v.is_neg() {
            return Err(format!("{} is {}", n, v));
        }
    }
    Ok(())
}
fn grown(s: &State) -> Result<(), String> {
    for i in 0..4 {
        if s.fg[i].is_neg() {
            return Err(format!("{} growth is {}", KIND[i], s.fg[i]));
        }
        for (k, p) in &s.pos {
            if pos(&p.liq) && s.inside(k, i).sub(&p.fr[i]).is_neg() {
                return Err(format!("{} growth inside {:?} since its checkpoint is negative: {} {}", KIND[i], k, s.inside(k, i), p.fr[i]));
            }
        }
    }
    Ok(())
}
/// a deposit or withdrawal of liquidity at a range
fn changed(id: u8, p: &State, q: &State, k: &Key, d: &Big, amt: [Option<Big>; 2], add: bool) -> Result<(), String> {
    let zero = Pos { liq: z(), fr: [z(), z(), z(), z()] };
    let before = p.pos.get(k).cloned();
    let old = before.clone().unwrap_or(zero);
    match id {
        2 => {
            for i in 0..2 {
                let diff = q.res[i].sub(&p.res[i]);
                if let Some(a) = &amt[i] {
                    if diff != *a {
                        return Err(format!("reserve {} changes by {}, expected {}", ["x", "y"][i], diff, a));
                    }
                }
                if if add { diff.is_neg() } else { pos(&diff) } {
                    return Err(format!("reserve {} changes by {}", ["x", "y"][i], diff));
                }
            }
            if p.rest != q.rest {
                return Err("the configuration of the pool changed".into());
            }
        }
        4 => {
            let want = old.liq.add(d);
            if want.is_neg() {
                return Err(format!("withdrew {} from a position of {}", d, old.liq));
            }
            let now = q.pos.get(k).map(|x| x.liq.clone()).unwrap_or_else(z);
            if now != want {
                return Err(format!("position {:?} goes from {} to {}, expected {}", k, old.liq, now, want));
            }
            for (j, v) in &p.pos {
                if j != k && q.pos.get(j) != Some(v) {
                    return Err(format!("position {:?} changes when {:?} is touched", j, k));
                }
            }
            for j in q.pos.keys() {
                if j != k && !p.pos.contains_key(j) {
                    return Err(format!("position {:?} appears when {:?} is touched", j, k));
                }
            }
            if q.t != p.t || q.rp != p.rp {
                return Err("tick or price changes without a swap".into());
            }
        }
        5 => {
            for (j, v) in &q.pos {
                if j != k && pos(&v.liq) {
                    for i in 0..4 {
                        if q.inside(j, i) != p.inside(j, i) {
                            return Err(format!("{} growth inside {:?} goes from {} to {} when {:?} is touched", KIND[i], j, p.inside(j, i), q.inside(j, i), k));
                        }
                    }
                }
            }
            for i in 0..4 {
                if q.fg[i] != p.fg[i] {
                    return Err(format!("{} growth changes without a swap", KIND[i]));
                }
                if let Some(v) = q.pos.get(k) {
                    if pos(&v.liq) && v.fr[i] != q.inside(k, i) {
                        return Err(format!("{} checkpoint of {:?} is {}, growth inside is {}", KIND[i], k, v.fr[i], q.inside(k, i)));
                    }
                }
            }
        }
        _ => {}
    }
    if id == 2 || id == 5 {
        for i in 0..4 {
            let due = if pos(&old.liq) { old.liq.mul(&p.inside(k, i).sub(&old.fr[i])).div(&u()) } else { z() };
            let got = p.pot[i].sub(&q.pot[i]);
            if got != due {
                return Err(format!("{} pot pays {} to {:?}, due is {}", KIND[i], got, k, due));
            }
        }
    }
    Ok(())
}
struct Flow {
    recv: Big,
    send: Big,
    adj: Big,
    fee: Big,
}
fn flow(r: &str) -> Option<Flow> {
    let v = parse(r)?;
    Some(Flow { recv: v.f("recv_amount")?.dec()?, send: v.f("send_amount")?.dec()?, adj: v.f("send_hmm_adj")?.dec()?, fee: v.f("recv_fee")?.dec()? })
}
fn swapped(id: u8, p: &State, q: &State, right: bool, offered: u128, orc: &Big, c0: bool, f: &Flow) -> Result<(), String> {
    let (i, o) = if right { (1, 0) } else { (0, 1) };
    let (ifee, iadj) = (i, 2 + o);
    match id {
        2 => {
            let d = |a: &Big, b: &Big| b.sub(a);
            let ein = d(&p.res[i], &q.res[i]).add(&d(&p.pot[ifee], &q.pot[ifee]));
            let eout = d(&p.res[o], &q.res[o]).add(&d(&p.pot[iadj], &q.pot[iadj]));
            if ein != f.recv {
                return Err(format!("received {} but input reserve and fee pot grow by {}", f.recv, ein));
            }
            if eout != f.send {
                return Err(format!("sent {} but output reserve and adjustment pot change by {}", f.send, eout));
            }
            if d(&p.pot[ifee], &q.pot[ifee]) != f.fee || d(&p.pot[iadj], &q.pot[iadj]) != f.adj {
                return Err(format!("fee {} adjustment {} but the pots grow by {} and {}", f.fee, f.adj, d(&p.pot[ifee], &q.pot[ifee]), d(&p.pot[iadj], &q.pot[iadj])));
            }
            let (of, oa) = (1 - ifee, 5 - iadj);
            if p.pot[of] != q.pot[of] || p.pot[oa] != q.pot[oa] || p.rest != q.rest {
                return Err("something else changed".into());
            }
        }
        3 => {
            if f.recv.is_neg() || !f.recv.le(&Big::u(offered)) {
                return Err(format!("took {} of {} offered", f.recv, offered));
            }
            if pos(&f.send) || f.adj.is_neg() || f.fee.is_neg() {
                return Err(format!("sends {}, adjustment {}, fee {}", f.send, f.adj, f.fee));
            }
            let (a, b) = if right { (p, q) } else { (q, p) };
            if a.t > b.t || !a.rp.le(&b.rp) {
                return Err(format!("price or tick moves from {} {} to {} {}", p.rp, p.t, q.rp, q.t));
            }
            let away = if right { orc.le(&p.rp) } else { p.rp.le(orc) };
            if (c0 || orc.is_zero() || away) && !f.adj.is_zero() {
                return Err(format!("adjustment {} with oracle {}", f.adj, orc));
            }
        }
        4 => {
            if p.pos != q.pos {
                return Err("a swap changes positions".into());
            }
        }
        5 => {
            for n in 0..4 {
                if q.fg[n].sub(&p.fg[n]).is_neg() {
                    return Err(format!("{} growth falls from {} to {}", KIND[n], p.fg[n], q.fg[n]));
                }
                if n != ifee && n != iadj && q.fg[n] != p.fg[n] {
                    return Err(format!("{} growth changes in a swap of the other token", KIND[n]));
                }
                for (k, v) in &p.pos {
                    if !pos(&v.liq) {
                        continue;
                    }
                    let g = q.inside(k, n).sub(&p.inside(k, n));
                    if g.is_neg() {
                        return Err(format!("{} growth inside {:?} falls by {}", KIND[n], k, g.negate()));
                    }
                    let (lo, hi) = (p.t.min(q.t), p.t.max(q.t));
                    if (k.2 <= lo || k.1 > hi) && !g.is_zero() {
                        return Err(format!("{} growth inside {:?} grows by {} in a swap from tick {} to {}", KIND[n], k, g, p.t, q.t));
                    }
                }
            }
            // everything that was charged is credited, up to one unit of growth per step
            let (lo, hi) = (p.t.min(q.t), p.t.max(q.t));
            let crossed = p.ticks.keys().filter(|t| lo <= **t && **t <= hi + p.spacing).count() as u128;
            let mut most = z();
            for v in p.pos.values() {
                most = most.add(&v.liq);
            }
            let slack = most.mul(&Big::u(crossed + 2));
            for (n, a) in [(ifee, &f.fee), (iadj, &f.adj)] {
                let d = q.owed(n).sub(&p.owed(n));
                let w = a.mul(&u());
                if !d.le(&w) || !w.le(&d.add(&slack)) {
                    return Err(format!("{} of {} is charged, {}e-24 is credited to the positions", KIND[n], a, d));
                }
            }
            if crossed == 0 && pos(&p.liq) && q.liq == p.liq {
                for (n, a) in [(ifee, &f.fee), (iadj, &f.adj)] {
                    let g = q.fg[n].sub(&p.fg[n]);
                    if g != a.mul(&u()).div(&p.liq) {
                        return Err(format!("{} growth rises by {} for {} at liquidity {}", KIND[n], g, a, p.liq));
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

// ---- histories -----------------------------------------------------------------------
fn d(v: u128) -> Decimal {
    Decimal { value: v, scale: 12, negative: false }
}
fn user(s: &str) -> &'static str {
    USERS.iter().find(|x| **x == s).copied().unwrap_or("eve")
}
enum End {
    Done(bool),
    Unreadable,
}
/// the liquidity a withdrawal asks for: a fraction of the position, or (denominator zero) as
/// much as leaves the position equal to an adjacent one
fn asked(p: &State, k: Option<&Key>, nu: u128, de: u128) -> Big {
    let own = k.and_then(|k| p.pos.get(k).map(|x| x.liq.clone())).unwrap_or_else(|| Big::u(12345));
    if de > 0 {
        return own.mul(&Big::u(nu)).div(&Big::u(de));
    }
    if let Some(k) = k {
        for (j, v) in &p.pos {
            if (j.1 == k.2 || j.2 == k.1) && pos(&v.liq) && pos(&own.sub(&v.liq)) {
                return own.sub(&v.liq);
            }
        }
    }
    own
}
impl Hist {
    fn play(&self, c: &Case, last_oracle: Option<u128>, mut each: impl FnMut(usize, &State, &State, &str, Option<&Flow>) -> Result<(), String>) -> Result<End, String> {
        let h: Vec<&str> = c[0].split(' ').collect();
        let n = |s: &str| -> u128 { s.parse().unwrap() };
        let mut pool = match call(|| Pool::new("X", 6, "Y", 6, d(n(h[1])), n(h[2]), d(n(h[3])), d(n(h[4])))) {
            Some(p) => p,
            None => return Ok(End::Done(false)),
        };
        let mut p = match read(&pool) {
            Some(s) => s,
            None => return Ok(End::Unreadable),
        };
        each(0, &p, &p, "new", None)?;
        let mut any = false;
        for (i, l) in c.iter().enumerate().skip(1) {
            let w: Vec<&str> = l.split(' ').collect();
            let mut rep = None;
            let ok = match w[0] {
                "deposit" => call(|| pool.deposit(user(w[1]), d(n(w[2])), d(n(w[3])), d(n(w[4])), d(n(w[5])))).is_some(),
                "withdraw" => {
                    let (a, b) = (d(n(w[4])), d(n(w[5])));
                    let lo = call(|| Pm::rp_to_possible_tk(a, p.spacing, false, 0));
                    let k = lo.and_then(|lo| call(|| Pm::rp_to_possible_tk(b, p.spacing, false, lo)).map(|up| (w[1].to_string(), lo, up)));
                    let l = asked(&p, k.as_ref(), n(w[2]), n(w[3]));
                    if !l.fits() {
                        return Ok(End::Done(any));
                    }
                    call(|| pool.withdraw(user(w[1]), d(l.to_u128()), a, b)).is_some()
                }
                "x" | "y" => {
                    let orc = if i + 1 == c.len() { last_oracle.unwrap_or(n(w[2])) } else { n(w[2]) };
                    let r = call(|| if w[0] == "x" { pool.execute_swap_from_x(d(n(w[1])), d(orc)) } else { pool.execute_swap_from_y(d(n(w[1])), d(orc)) });
                    rep = r.map(|r| format!("{:?}", r));
                    rep.is_some()
                }
                _ => panic!("case"),
            };
            if !ok {
                // an aborted operation has no effect on chain: the history ends
                return Ok(End::Done(any));
            }
            any = true;
            let q = match read(&pool) {
                Some(s) => s,
                None => return Ok(End::Unreadable),
            };
            let fl = match rep {
                Some(r) => match flow(&r) {
                    Some(f) => Some(f),
                    None => return Ok(End::Unreadable),
                },
                None => None,
            };
            each(i, &p, &q, l, fl.as_ref()).map_err(|e| format!("after `{}`: {}", l, e))?;
            p = q;
        }
        Ok(End::Done(any))
    }
}
fn rp(t: u128) -> u128 {
    call(|| Pm::tick_to_rp(t)).map(|x| x.value).unwrap_or(U)
}
fn amt(r: &mut Rng) -> u128 {
    match r.below(8) {
        0 => r.below(5) as u128,
        1 => r.below(10_000) as u128,
        2 => U * (1 + r.below(100) as u128),
        3 => U * r.below(100_000) as u128 + r.below(U as u64) as u128,
        _ => {
            let b = r.below(54) + 1;
            (r.next() >> (64 - b)) as u128
        }
    }
}
impl Prop for Hist {
    fn gen(&self, r: &mut Rng) -> Case {
        let sp = r.pick(&[1u128, 1, 2, 5, 10, 10, 30]);
        let t0 = match r.below(60) {
            0 => 10_000 + r.below(3_000) as u128,
            1..=5 => r.below(2_000) as u128,
            6..=20 => r.below(20) as u128,
            _ => 50 + r.below(300) as u128,
        };
        let c = r.pick(&[0u128, 0, U / 2, U, 2 * U, 1]);
        let fee = r.pick(&[0u128, U / 1000, 3 * U / 1000, U / 100, U / 3, 1, 299_999_999]);
        let mut v = vec![format!("new {} {} {} {}", rp(t0) + if r.chance(1, 3) { r.below(3_000_000) as u128 } else { 0 }, sp, c, fee)];
        let mut ranges: Vec<(usize, u128, u128)> = vec![];
        let wide = r.pick(&[3u128, 10, 40]);
        let n = 2 + r.below(12);
        let big = r.chance(3, 4);
        for i in 0..n {
            let k = if i == 0 { 0 } else { r.below(10) };
            match k {
                0..=3 => {
                    let (us, a, b) = if !ranges.is_empty() && r.chance(2, 5) {
                        let x = r.pick(&ranges);
                        match r.below(4) {
                            0 => (r.below(4) as usize, x.1, x.2),
                            1 => (x.0, x.2, x.2 + sp * (1 + r.below(wide as u64) as u128)),
                            2 => (x.0, x.1.saturating_sub(sp * (1 + r.below(wide as u64) as u128)), x.1),
                            _ => x,
                        }
                    } else {
                        let lo = (t0 + sp * r.below(wide as u64) as u128).saturating_sub(sp * r.below(wide as u64) as u128) / sp * sp;
                        (r.below(4) as usize, lo, lo + sp * (1 + r.below(wide as u64) as u128))
                    };
                    if a >= b {
                        continue;
                    }
                    ranges.push((us, a, b));
                    let (x, y) = if big { (U * (1 + r.below(5_000) as u128) + amt(r), U * (1 + r.below(5_000) as u128) + amt(r)) } else { (amt(r), amt(r)) };
                    let (x, y) = match r.below(8) {
                        0 => (0, 0),
                        1 => (0, y),
                        2 => (x, 0),
                        _ => (x, y),
                    };
                    v.push(format!("deposit {} {} {} {} {}", USERS[us], x, y, rp(a), rp(b)));
                }
                4 | 5 if !ranges.is_empty() => {
                    let x = r.pick(&ranges);
                    let us = if r.chance(1, 8) { r.below(4) as usize } else { x.0 };
                    let (nu, de) = match r.below(7) {
                        0 => (0u128, 1u128),
                        6 => (1, 0),
                        1 => (1, 1),
                        2 => (1, 2),
                        3 => (1 + r.below(1000) as u128, 1001),
                        4 => (U + 1, U),
                        _ => (1, 1),
                    };
                    v.push(format!("withdraw {} {} {} {} {}", USERS[us], nu, de, rp(x.1), rp(x.2)));
                }
                _ => {
                    let orc = match r.below(4) {
                        0 => 0,
                        1 => rp(t0),
                        2 => rp(t0 + sp * r.below(wide as u64) as u128),
                        _ => rp(t0.saturating_sub(sp * r.below(wide as u64) as u128)),
                    };
                    let a = if big && r.chance(2, 3) { U * (1 + r.below(4_000) as u128) } else { amt(r) }.max(1);
                    v.push(format!("{} {} {}", if r.chance(1, 2) { "x" } else { "y" }, a, orc));
                }
            }
        }
        v
    }
    fn run(&self, c: &Case) -> Result<bool, String> {
        let id = self.0;
        let c0 = c[0].split(' ').nth(3) == Some("0");
        let mut flows: Vec<(usize, [Big; 3], State)> = vec![];
        let e = self.play(c, None, |i, p, q, l, f| {
            match id {
                1 => books(q)?,
                2 => funded(q)?,
                5 => grown(q)?,
                6 => solvent(q)?,
                _ => {}
            }
            if i == 0 {
                return Ok(());
            }
            let w: Vec<&str> = l.split(' ').collect();
            let n = |s: &str| -> u128 { s.parse().unwrap() };
            match w[0] {
                "x" | "y" => {
                    let f = f.unwrap();
                    if id == 3 && i + 1 == c.len() {
                        flows.push((i, [f.recv.clone(), f.send.clone(), f.adj.clone()], q.clone()));
                    }
                    swapped(id, p, q, w[0] == "y", n(w[1]), &Big::u(n(w[2])), c0, f)
                }
                _ => {
                    let (a, b) = (d(n(w[4])), d(n(w[5])));
                    let lo = match call(|| Pm::rp_to_possible_tk(a, p.spacing, false, 0)) {
                        Some(x) => x,
                        None => return Ok(()),
                    };
                    let up = match call(|| Pm::rp_to_possible_tk(b, p.spacing, false, lo)) {
                        Some(x) => x,
                        None => return Ok(()),
                    };
                    let k = (w[1].to_string(), lo, up);
                    let (ra, rb) = (Pm::tick_to_rp(lo), Pm::tick_to_rp(up));
                    let add = w[0] == "deposit";
                    let dl = if add {
                        match call(|| Pm::liq_from_x_y_rp_rng(d(n(w[2])), d(n(w[3])), p.rp_raw, ra, rb)) {
                            Some(l) => Big::s(l.value, l.negative),
                            None => return Ok(()),
                        }
                    } else {
                        asked(p, Some(&k), n(w[2]), n(w[3])).negate()
                    };
                    let la = dl.abs();
                    if !la.fits() {
                        return Ok(());
                    }
                    let l = d(la.to_u128());
                    let x = call(|| Pm::x_from_l_rp_rng(l, p.rp_raw, ra, rb)).map(|v| Big::s(v.value, v.negative));
                    let y = call(|| Pm::y_from_l_rp_rng(l, p.rp_raw, ra, rb)).map(|v| Big::s(v.value, v.negative));
                    let cut = |v: Option<Big>| v.map(|v| if add { v } else { v.mul(&Big::u(U - 1)).div(&u()).negate() });
                    changed(id, p, q, &k, &dl, [cut(x), cut(y)], add)
                }
            }
        })?;
        // the same history without the oracle in the last swap
        if let Some((i, a, s)) = flows.pop() {
            let mut r = Ok(());
            self.play(c, Some(0), |j, _, q, _, f| {
                if j == i {
                    if let Some(f) = f {
                        if f.recv != a[0] || q.rp != s.rp || q.t != s.t {
                            r = Err(format!("the oracle changes what is taken or where the price goes: {} {} and {} {}", a[0], s.rp, f.recv, q.rp));
                        } else if !f.send.le(&a[1]) || f.send != a[1].sub(&a[2]) {
                            r = Err(format!("with the oracle {} is sent of which {} is adjustment, without it {}", a[1], a[2], f.send));
                        }
                    }
                }
                Ok(())
            })?;
            r?;
        }
        Ok(match e {
            End::Done(x) => x,
            End::Unreadable => false,
        })
    }
}
