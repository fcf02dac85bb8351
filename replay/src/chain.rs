// Histories of the program behind its entry point: instructions with chosen
// accounts and arguments, over accounts and the token program in memory.
mod big;
mod drive;
mod rng;
mod world;

use anchor_lang::prelude::{AccountMeta, Pubkey};
use anchor_lang::{AccountDeserialize, AccountSerialize, InstructionData, ToAccountMetas};
use big::Big;
use drive::{Case, Prop};
use hmmcl_sandbox::cl_pool::cl_math::PoolMath;
use hmmcl_sandbox::decimal::*;
use hmmcl_sandbox::state::{fees::Fee, pool_state::PoolState, position_state::PositionState, tick_state::TickState};
use hmmcl_sandbox::{accounts, instruction, ID};
use rng::Rng;
use solana_program::program_pack::Pack;
use std::cell::RefCell;
use std::collections::HashMap;
use world::{Acc, World};

struct M;
impl PoolMath for M {}

/// an ordinary address, by name
fn key(name: &str) -> Pubkey {
    let mut b = [7u8; 32];
    for (i, c) in name.bytes().enumerate() {
        b[i % 31] = b[i % 31].wrapping_mul(31).wrapping_add(c);
    }
    b[31] = name.len() as u8;
    Pubkey::new_from_array(b)
}
thread_local!(static PDAS: RefCell<HashMap<Vec<Vec<u8>>, (Pubkey, u8)>> = RefCell::new(HashMap::new()));
fn pda(seeds: &[&[u8]]) -> Pubkey {
    let k: Vec<Vec<u8>> = seeds.iter().map(|s| s.to_vec()).collect();
    PDAS.with(|m| m.borrow_mut().entry(k).or_insert_with(|| Pubkey::find_program_address(seeds, &ID)).0)
}

/// addresses by role: pool:P vx:P vy:P vl:P bitmap:P tick:P:T pos:P:U:LO:HI,
/// token accounts x:U y:U lp:P:U, mints mx my lpm:P, users U, other
fn addr(s: &str) -> Pubkey {
    let t: Vec<&str> = s.split(':').collect();
    let le = |x: &str| x.parse::<u64>().unwrap().to_le_bytes();
    match t[0] {
        "pool" => pda(&[b"pool_state_seed", addr(&format!("lpm:{}", t[1])).as_ref()]),
        "vx" | "vy" => pda(&[b"token_vault_seed", addr(if t[0] == "vx" { "mx" } else { "my" }).as_ref(), addr(&format!("lpm:{}", t[1])).as_ref()]),
        "vl" => pda(&[b"lp_token_vault_seed", addr(&format!("pool:{}", t[1])).as_ref(), addr(&format!("lpm:{}", t[1])).as_ref()]),
        "bitmap" => pda(&[b"bitmap", addr(&format!("pool:{}", t[1])).as_ref()]),
        "tick" => pda(&[b"tick", addr(&format!("pool:{}", t[1])).as_ref(), &le(t[2])]),
        "pos" => pda(&[b"position", addr(&format!("pool:{}", t[1])).as_ref(), addr(t[2]).as_ref(), &le(t[3]), &le(t[4])]),
        "token" => spl_token::ID,
        "system" => world::sys(),
        "program" => ID,
        _ => key(s),
    }
}

fn token(mint: &str, owner: &str, amount: u64) -> Acc {
    let mut data = vec![0; spl_token::state::Account::LEN];
    let a = spl_token::state::Account {
        mint: addr(mint),
        owner: addr(owner),
        amount,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    };
    spl_token::state::Account::pack(a, &mut data).unwrap();
    Acc { lamports: 1 << 40, data, owner: spl_token::ID, exec: false }
}
fn mint(auth: Option<Pubkey>) -> Acc {
    let mut data = vec![0; spl_token::state::Mint::LEN];
    let m = spl_token::state::Mint {
        mint_authority: auth.into(),
        supply: 0,
        decimals: 0,
        is_initialized: true,
        freeze_authority: None.into(),
    };
    spl_token::state::Mint::pack(m, &mut data).unwrap();
    Acc { lamports: 1 << 40, data, owner: spl_token::ID, exec: false }
}
const FUNDS: u64 = 1 << 60;

fn genesis() -> World {
    let mut w = World::default();
    for u in ["u0", "u1", "payer"] {
        w.accs.insert(addr(u), Acc { lamports: 1 << 50, data: vec![], owner: world::sys(), exec: false });
    }
    for u in ["u0", "u1"] {
        w.accs.insert(addr(&format!("x:{}", u)), token("mx", u, FUNDS));
        w.accs.insert(addr(&format!("y:{}", u)), token("my", u, FUNDS));
        for p in ["A", "B"] {
            w.accs.insert(addr(&format!("lp:{}:{}", p, u)), token(&format!("lpm:{}", p), u, 0));
        }
    }
    w.accs.insert(addr("mx"), mint(Some(addr("payer"))));
    w.accs.insert(addr("my"), mint(Some(addr("payer"))));
    for p in ["A", "B"] {
        w.accs.insert(addr(&format!("lpm:{}", p)), mint(Some(addr(&format!("pool:{}", p)))));
    }
    for p in ["token", "system", "program"] {
        let o = solana_program::bpf_loader::ID;
        w.accs.insert(addr(p), Acc { lamports: 1, data: vec![], owner: o, exec: true });
    }
    let r = solana_program::rent::Rent::default();
    let mut data = r.lamports_per_byte_year.to_le_bytes().to_vec();
    data.extend(&r.exemption_threshold.to_le_bytes());
    data.push(r.burn_percent);
    w.accs.insert(solana_program::sysvar::rent::ID, Acc { lamports: 1, data, owner: solana_program::sysvar::ID, exec: false });
    w
}

impl World {
    fn read<T: AccountDeserialize>(&self, a: &Pubkey) -> Option<T> {
        let d = self.accs.get(a)?;
        if d.owner != ID {
            return None;
        }
        T::try_deserialize(&mut &d.data[..]).ok()
    }
    fn write<T: AccountSerialize>(&mut self, a: &Pubkey, v: &T) {
        let d = self.accs.get_mut(a).unwrap();
        let mut b = vec![];
        v.try_serialize(&mut b).unwrap();
        d.data[..b.len()].copy_from_slice(&b);
    }
    fn balance(&self, a: &Pubkey) -> u64 {
        self.accs
            .get(a)
            .and_then(|d| spl_token::state::Account::unpack(&d.data).ok())
            .map(|t| t.amount)
            .unwrap_or(0)
    }
    fn supply(&self, a: &Pubkey) -> u64 {
        self.accs.get(a).and_then(|d| spl_token::state::Mint::unpack(&d.data).ok()).map(|t| t.supply).unwrap_or(0)
    }
}

/// one instruction: what it was, the addresses it was given and what became of it
struct Step {
    op: String,
    /// pool, user
    p: String,
    u: String,
    n: Vec<u64>,
    acc: HashMap<&'static str, Pubkey>,
    unsigned: Vec<String>,
    tampered: bool,
    ok: bool,
}

/// `op P [U] n.. [field=address].. [unsigned=field]..`
fn step(w: &mut World, line: &str) -> Result<Step, String> {
    let words: Vec<&str> = line.split(' ').filter(|x| !x.is_empty()).collect();
    let op = words[0].to_string();
    let p = words[1].to_string();
    let has_u = matches!(words[0], "pos" | "dep" | "wd");
    let u = if has_u { words[2].to_string() } else { "payer".into() };
    let from = if has_u { 3 } else { 2 };
    let mut n: Vec<u64> = vec![];
    for x in words[from..].iter().filter(|x| !x.contains('=')) {
        // `all`: the whole tokens of the position
        let all = |w: &World| w.read::<PositionState>(&addr(&format!("pos:{}:{}:{}:{}", p, u, n[0], n[1]))).map(|q| (q.liquidity / ONE) as u64).unwrap_or(0);
        let v = if *x == "all" { all(w) } else { x.parse().unwrap() };
        n.push(v);
    }
    let over: Vec<(&str, &str)> = words[from..]
        .iter()
        .filter_map(|x| x.find('=').map(|i| (&x[..i], &x[i + 1..])))
        .collect();
    let mut acc: HashMap<&'static str, Pubkey> = HashMap::new();
    let mut unsigned = vec![];
    let at = |name: &str, usual: &str| -> Pubkey {
        match over.iter().find(|o| o.0 == name) {
            Some(o) => addr(o.1),
            None => addr(usual),
        }
    };
    macro_rules! k {
        ($name:ident, $usual:expr) => {{
            let a = at(stringify!($name), &$usual);
            acc.insert(stringify!($name), a);
            a
        }};
    }
    let (mut metas, data): (Vec<AccountMeta>, Vec<u8>) = match words[0] {
        "pool" => (
            accounts::InitializePool {
                authority: k!(authority, "u0"),
                payer: k!(payer, "payer"),
                pool_state: k!(pool_state, format!("pool:{}", p)),
                token_x_mint: k!(token_x_mint, "mx"),
                token_y_mint: k!(token_y_mint, "my"),
                lp_token_mint: k!(lp_token_mint, format!("lpm:{}", p)),
                token_x_vault: k!(token_x_vault, format!("vx:{}", p)),
                token_y_vault: k!(token_y_vault, format!("vy:{}", p)),
                lp_token_vault: k!(lp_token_vault, format!("vl:{}", p)),
                system_program: world::sys(),
                token_program: spl_token::ID,
                rent: solana_program::sysvar::rent::ID,
            }
            .to_account_metas(None),
            instruction::InitializePool { bootstrap_rp: n[0], tick: n[1] }.data(),
        ),
        "bitmap" => (
            accounts::InitializeBitmap {
                pool_state: k!(pool_state, format!("pool:{}", p)),
                tick_bitmap: k!(tick_bitmap, format!("bitmap:{}", p)),
                payer: k!(payer, "payer"),
                system_program: world::sys(),
            }
            .to_account_metas(None),
            instruction::InitializeBitmap {}.data(),
        ),
        "tick" => (
            accounts::InitializeTick {
                pool_state: k!(pool_state, format!("pool:{}", p)),
                tick_state: k!(tick_state, format!("tick:{}:{}", p, n[0])),
                payer: k!(payer, "payer"),
                system_program: world::sys(),
            }
            .to_account_metas(None),
            instruction::InitializeTick { tick: n[0] }.data(),
        ),
        "pos" => (
            accounts::CreatePosition {
                pool_state: k!(pool_state, format!("pool:{}", p)),
                position_state: k!(position_state, format!("pos:{}:{}:{}:{}", p, u, n[0], n[1])),
                lower_tick_state: k!(lower_tick_state, format!("tick:{}:{}", p, n[0])),
                upper_tick_state: k!(upper_tick_state, format!("tick:{}:{}", p, n[1])),
                user: k!(user, u),
                payer: k!(payer, "payer"),
                system_program: world::sys(),
            }
            .to_account_metas(None),
            instruction::CreatePosition { lower_tick: n[0], upper_tick: n[1] }.data(),
        ),
        "dep" => (
            accounts::Deposit {
                pool_state: k!(pool_state, format!("pool:{}", p)),
                tick_bitmap: k!(tick_bitmap, format!("bitmap:{}", p)),
                position_state: k!(position_state, format!("pos:{}:{}:{}:{}", p, u, n[0], n[1])),
                lower_tick_state: k!(lower_tick_state, format!("tick:{}:{}", p, n[0])),
                upper_tick_state: k!(upper_tick_state, format!("tick:{}:{}", p, n[1])),
                current_tick_state: k!(current_tick_state, format!("tick:{}:{}", p, n[2])),
                lp_token_mint: k!(lp_token_mint, format!("lpm:{}", p)),
                user_token_x: k!(user_token_x, format!("x:{}", u)),
                user_token_y: k!(user_token_y, format!("y:{}", u)),
                token_x_vault: k!(token_x_vault, format!("vx:{}", p)),
                token_y_vault: k!(token_y_vault, format!("vy:{}", p)),
                lp_token_vault: k!(lp_token_vault, format!("vl:{}", p)),
                lp_token_to: k!(lp_token_to, format!("lp:{}:{}", p, u)),
                token_program: k!(token_program, "token"),
                user: k!(user, u),
                payer: k!(payer, "payer"),
            }
            .to_account_metas(None),
            instruction::Deposit {
                lower_tick: n[0],
                upper_tick: n[1],
                current_tick: n[2],
                token_x_amount: n[3],
                token_y_amount: n[4],
            }
            .data(),
        ),
        "wd" => (
            accounts::Withdraw {
                pool_state: k!(pool_state, format!("pool:{}", p)),
                tick_bitmap: k!(tick_bitmap, format!("bitmap:{}", p)),
                position_state: k!(position_state, format!("pos:{}:{}:{}:{}", p, u, n[0], n[1])),
                lower_tick_state: k!(lower_tick_state, format!("tick:{}:{}", p, n[0])),
                upper_tick_state: k!(upper_tick_state, format!("tick:{}:{}", p, n[1])),
                current_tick_state: k!(current_tick_state, format!("tick:{}:{}", p, n[2])),
                lp_token_mint: k!(lp_token_mint, format!("lpm:{}", p)),
                user_token_x: k!(user_token_x, format!("x:{}", u)),
                user_token_y: k!(user_token_y, format!("y:{}", u)),
                token_x_vault: k!(token_x_vault, format!("vx:{}", p)),
                token_y_vault: k!(token_y_vault, format!("vy:{}", p)),
                lp_token_vault: k!(lp_token_vault, format!("vl:{}", p)),
                lp_token_user_account: k!(lp_token_user_account, format!("lp:{}:{}", p, u)),
                token_program: k!(token_program, "token"),
                user: k!(user, u),
                payer: k!(payer, "payer"),
            }
            .to_account_metas(None),
            instruction::Withdraw { lower_tick: n[0], upper_tick: n[1], current_tick: n[2], lp_token_amount: n[3] }.data(),
        ),
        o => return Err(format!("unknown step {}", o)),
    };
    for (f, v) in &over {
        if *f == "unsigned" {
            unsigned.push(v.to_string());
            let a = acc[*v];
            for m in metas.iter_mut().filter(|m| m.pubkey == a) {
                m.is_signer = false;
            }
        } else if !acc.contains_key(f) {
            return Err(format!("no account {}", f));
        }
    }
    let ok = w.exec(&metas, &data);
    Ok(Step { op, p, u, n, acc, unsigned, tampered: !over.is_empty(), ok })
}

/// states that the instructions alone do not reach: fee growth
/// `fee P fx fy hx hy scale`, `tfee P TICK fx fy hx hy scale`, `fake NAME OF`: an account of the
/// same content that belongs to nobody
fn inject(w: &mut World, line: &str) -> bool {
    let t: Vec<&str> = line.split(' ').collect();
    let fee = |t: &[&str]| Fee {
        f_x: t[0].parse().unwrap(),
        f_y: t[1].parse().unwrap(),
        h_x: t[2].parse().unwrap(),
        h_y: t[3].parse().unwrap(),
        fee_scale: t[4].parse().unwrap(),
    };
    match t[0] {
        "fee" => {
            let a = addr(&format!("pool:{}", t[1]));
            if let Some(mut s) = w.read::<PoolState>(&a) {
                s.pool_global_state.global_fee = fee(&t[2..]);
                w.write(&a, &s);
            }
            true
        }
        "tfee" => {
            let a = addr(&format!("tick:{}:{}", t[1], t[2]));
            if let Some(mut s) = w.read::<TickState>(&a) {
                s.tick_fee = fee(&t[3..]);
                w.write(&a, &s);
            }
            true
        }
        "fake" => {
            if let Some(mut a) = w.accs.get(&addr(t[2])).cloned() {
                a.owner = key("nobody");
                w.accs.insert(addr(t[1]), a);
            }
            true
        }
        _ => false,
    }
}

/// runs the history, `judge` sees every instruction with the ledger before and after it
fn history(c: &Case, mut judge: impl FnMut(&World, &World, &Step) -> Result<bool, String>) -> Result<bool, String> {
    let mut w = genesis();
    let mut seen = false;
    for l in c {
        if inject(&mut w, l) {
            continue;
        }
        let before = w.clone();
        let s = step(&mut w, l)?;
        if s.ok {
            seen |= judge(&before, &w, &s).map_err(|e| format!("{}: {}", l, e))?;
        } else if w.accs != before.accs {
            return Err(format!("{}: a failed instruction changed an account", l));
        }
    }
    Ok(seen)
}

// ---- oracles

const ONE: u128 = 1_000_000_000_000;
fn at_scale(v: u128, s: u8) -> Result<u128, String> {
    match s {
        0..=12 => v.checked_mul(10u128.pow(12 - s as u32)).ok_or_else(|| "a stored liquidity is out of range".into()),
        _ => Err(format!("a stored liquidity has scale {}", s)),
    }
}
struct Books {
    pool: PoolState,
    pos: PositionState,
    lo: TickState,
    hi: TickState,
}
fn books(w: &World, s: &Step) -> Result<Books, String> {
    let e = |n: &str| format!("accepted a {} that is not an account of the program", n);
    Ok(Books {
        pool: w.read(&s.acc["pool_state"]).ok_or_else(|| e("pool"))?,
        pos: w.read(&s.acc["position_state"]).ok_or_else(|| e("position"))?,
        lo: w.read(&s.acc["lower_tick_state"]).ok_or_else(|| e("lower tick"))?,
        hi: w.read(&s.acc["upper_tick_state"]).ok_or_else(|| e("upper tick"))?,
    })
}
fn signed(v: u128, neg: u8) -> i128 {
    if neg != 0 {
        -(v as i128)
    } else {
        v as i128
    }
}

fn c05(b: &World, a: &World, s: &Step) -> Result<bool, String> {
    if s.op != "dep" && s.op != "wd" {
        return Ok(false);
    }
    let (o, n) = (books(b, s)?, books(a, s)?);
    let liq = |p: &PositionState| at_scale(p.liquidity, p.liq_scale).map(|x| x as i128);
    let d = liq(&n.pos)? - liq(&o.pos)?;
    if s.op == "wd" && d != -(s.n[3] as i128 * ONE as i128) {
        return Err(format!("the position changed by {}", d));
    }
    if d < 0 && s.op == "dep" {
        return Err("a deposit took liquidity away".into());
    }
    let gross = |t: &TickState| at_scale(t.liq_gross, t.liq_gross_scale).map(|x| x as i128);
    let net = |t: &TickState| at_scale(t.liq_net, t.liq_net_scale).map(|x| signed(x, t.liq_net_neg));
    for (o, n, name, e) in [(&o.lo, &n.lo, "lower", d), (&o.hi, &n.hi, "upper", -d)] {
        if gross(n)? - gross(o)? != d {
            return Err(format!("gross liquidity of the {} tick changed by {}, the position by {}", name, gross(n)? - gross(o)?, d));
        }
        if net(n)? - net(o)? != e {
            return Err(format!("net liquidity of the {} tick changed by {}, the position by {}", name, net(n)? - net(o)?, d));
        }
        if n.tick != o.tick || n.bump != o.bump {
            return Err(format!("the {} tick changed its number", name));
        }
    }
    let g = |p: &PoolState| at_scale(p.pool_global_state.liquidity, p.pool_global_state.liq_scale).map(|x| x as i128);
    let inside = s.n[0] <= s.n[2] && s.n[2] < s.n[1];
    if g(&n.pool)? - g(&o.pool)? != if inside { d } else { 0 } {
        return Err(format!("global liquidity changed by {}, the position by {}, in range: {}", g(&n.pool)? - g(&o.pool)?, d, inside));
    }
    let (x, y) = (&o.pool.pool_global_state, &n.pool.pool_global_state);
    if x.root_price != y.root_price || x.rp_scale != y.rp_scale || x.tick != y.tick {
        return Err("the price or the current tick changed".into());
    }
    if o.pos.lower_tick != n.pos.lower_tick || o.pos.upper_tick != n.pos.upper_tick {
        return Err("the range of the position changed".into());
    }
    // other accounts of the program keep theirs
    for (k, v) in &a.accs {
        let mine = ["pool_state", "position_state", "lower_tick_state", "upper_tick_state", "tick_bitmap"];
        if v.owner == ID && !mine.iter().any(|m| s.acc[*m] == *k) && b.accs.get(k) != Some(v) {
            return Err("another tick, position or pool changed".into());
        }
    }
    Ok(d != 0)
}

fn worth(s: &Step, d: i128) -> (u128, u128) {
    let l = Decimal::new(d as u128, 12, false);
    let p = |t: u64| M::tick_to_rp(t as u128);
    let (rp, a, b) = (p(s.n[2]), p(s.n[0]), p(s.n[1]));
    let x = M::x_from_l_rp_rng(l, rp, a, b).to_scale(12);
    let y = M::y_from_l_rp_rng(l, rp, a, b).to_scale(12);
    (if x.negative { 0 } else { x.value }, if y.negative { 0 } else { y.value })
}
fn moved(b: &World, a: &World, k: &Pubkey) -> i128 {
    a.balance(k) as i128 - b.balance(k) as i128
}
fn no_fees(b: &Books) -> bool {
    let z = |f: &Fee| f.f_x == 0 && f.f_y == 0 && f.h_x == 0 && f.h_y == 0;
    z(&b.pool.pool_global_state.global_fee) && z(&b.lo.tick_fee) && z(&b.hi.tick_fee)
}
fn others_kept(b: &World, a: &World, s: &Step, names: &[&str]) -> Result<(), String> {
    for (k, v) in &b.accs {
        if v.owner == spl_token::ID && !names.iter().any(|n| s.acc[*n] == *k) && a.accs.get(k) != Some(v) {
            return Err("a token account that is no part of it changed".into());
        }
    }
    Ok(())
}

fn c03(b: &World, a: &World, s: &Step) -> Result<bool, String> {
    if s.op != "dep" {
        return Ok(false);
    }
    let (o, n) = (books(b, s)?, books(a, s)?);
    if !no_fees(&o) {
        return Ok(false);
    }
    let d = at_scale(n.pos.liquidity, n.pos.liq_scale)? as i128 - at_scale(o.pos.liquidity, o.pos.liq_scale)? as i128;
    if d < 0 {
        return Err("a deposit took liquidity away".into());
    }
    let (x, y) = worth(s, d);
    for (user, vault, offer, w, t) in [("user_token_x", "token_x_vault", s.n[3], x, "x"), ("user_token_y", "token_y_vault", s.n[4], y, "y")] {
        let paid = -moved(b, a, &s.acc[user]);
        if moved(b, a, &s.acc[vault]) != paid {
            return Err(format!("the vault of {} received {} of {}", t, moved(b, a, &s.acc[vault]), paid));
        }
        if paid > offer as i128 {
            return Err(format!("{} of {} debited, {} offered", paid, t, offer));
        }
        if paid < ((w + ONE - 1) / ONE) as i128 {
            return Err(format!("{} of {} debited, the liquidity is worth {}e-12", paid, t, w));
        }
    }
    let lp = moved(b, a, &s.acc["lp_token_to"]);
    let sup = a.supply(&s.acc["lp_token_mint"]) as i128 - b.supply(&s.acc["lp_token_mint"]) as i128;
    if lp != d / ONE as i128 || sup != lp {
        return Err(format!("{} LP tokens received and {} minted for liquidity {}e-12", lp, sup, d));
    }
    others_kept(b, a, s, &["user_token_x", "user_token_y", "token_x_vault", "token_y_vault", "lp_token_to", "lp_token_mint"])?;
    Ok(d != 0)
}

fn c04(b: &World, a: &World, s: &Step) -> Result<bool, String> {
    if s.op != "wd" {
        return Ok(false);
    }
    let (o, _n) = (books(b, s)?, books(a, s)?);
    let burnt = -moved(b, a, &s.acc["lp_token_user_account"]);
    let sup = b.supply(&s.acc["lp_token_mint"]) as i128 - a.supply(&s.acc["lp_token_mint"]) as i128;
    if burnt != s.n[3] as i128 || sup != burnt {
        return Err(format!("{} LP tokens taken and {} burnt of {}", burnt, sup, s.n[3]));
    }
    let want = s.n[3] as u128 * ONE;
    let inside = s.n[0] <= s.n[2] && s.n[2] < s.n[1];
    let g = &o.pool.pool_global_state;
    if at_scale(o.pos.liquidity, o.pos.liq_scale)? < want
        || at_scale(o.lo.liq_gross, o.lo.liq_gross_scale)? < want
        || at_scale(o.hi.liq_gross, o.hi.liq_gross_scale)? < want
        || (inside && at_scale(g.liquidity, g.liq_scale)? < want)
    {
        return Err("more liquidity withdrawn than there was".into());
    }
    let (x, y) = worth(s, want as i128);
    for (user, vault, w, t) in [("user_token_x", "token_x_vault", x, "x"), ("user_token_y", "token_y_vault", y, "y")] {
        let got = moved(b, a, &s.acc[user]);
        if moved(b, a, &s.acc[vault]) != -got {
            return Err(format!("the vault of {} paid {} of {}", t, -moved(b, a, &s.acc[vault]), got));
        }
        if no_fees(&o) && got > (w / ONE) as i128 {
            return Err(format!("{} of {} paid, the liquidity is worth {}e-12", got, t, w));
        }
        if got < 0 {
            return Err(format!("the user was charged {} of {}", -got, t));
        }
    }
    others_kept(b, a, s, &["user_token_x", "user_token_y", "token_x_vault", "token_y_vault", "lp_token_user_account", "lp_token_mint"])?;
    Ok(want != 0)
}

/// Some(growth inside) when it is a number that is not negative
fn growth(lo: u64, hi: u64, cur: u64, g: i128, l: i128, u: i128) -> Option<i128> {
    let below = if cur >= lo { l } else { g - l };
    let above = if cur >= hi { g - u } else { u };
    let r = g - below - above;
    if r >= 0 {
        Some(r)
    } else {
        None
    }
}
fn c06(b: &World, a: &World, s: &Step) -> Result<bool, String> {
    if s.op != "dep" && s.op != "wd" {
        return Ok(false);
    }
    let (o, n) = (books(b, s)?, books(a, s)?);
    let f = |f: &Fee, i: usize| -> i128 {
        let v = [f.f_x, f.f_y, f.h_x, f.h_y][i];
        (v * 10u128.pow(12 - f.fee_scale as u32)) as i128
    };
    let (g, l, u) = (&o.pool.pool_global_state.global_fee, &o.lo.tick_fee, &o.hi.tick_fee);
    if [g.fee_scale, l.fee_scale, u.fee_scale].iter().any(|x| *x > 12) {
        return Ok(false);
    }
    let got = &n.pos.last_collected_fee;
    if got.fee_scale != o.pos.last_collected_fee.fee_scale {
        return Err("the scale of the fees changed".into());
    }
    for i in 0..4 {
        if let Some(e) = growth(s.n[0], s.n[1], s.n[2], f(g, i), f(l, i), f(u, i)) {
            if f(got, i) != e {
                return Err(format!("growth {} of the range is {}, credited {}", ["f_x", "f_y", "h_x", "h_y"][i], e, f(got, i)));
            }
        }
    }
    Ok(!no_fees(&o))
}

fn c07(b: &World, a: &World, s: &Step) -> Result<bool, String> {
    let zero = |f: &Fee| f.f_x == 0 && f.f_y == 0 && f.h_x == 0 && f.h_y == 0 && f.fee_scale == 12;
    match &s.op[..] {
        "pool" => {
            let st: PoolState = a.read(&s.acc["pool_state"]).ok_or("no pool was made")?;
            let k = |n: &str| s.acc[n];
            for (n, v) in [
                ("authority", st.authority),
                ("token_x_mint", st.token_x_mint),
                ("token_y_mint", st.token_y_mint),
                ("lp_token_mint", st.lp_token_mint),
                ("token_x_vault", st.token_x_vault),
                ("token_y_vault", st.token_y_vault),
            ] {
                if k(n) != v {
                    return Err(format!("the pool has another {}", n));
                }
            }
            let g = &st.pool_global_state;
            let rp = M::tick_to_rp(s.n[1] as u128).to_scale(12).value;
            if g.tick != s.n[1] || g.root_price != rp {
                return Err(format!("the pool starts at tick {} and root price {}", g.tick, g.root_price));
            }
            if g.liquidity != 0 || g.liq_scale != 12 || g.rp_scale != 12 || !zero(&g.global_fee) {
                return Err("the pool does not start empty".into());
            }
            Ok(b.accs.get(&k("pool_state")).is_none())
        }
        "tick" => {
            let t: TickState = a.read(&s.acc["tick_state"]).ok_or("no tick was made")?;
            if t.tick != s.n[0] {
                return Err(format!("the tick has number {}", t.tick));
            }
            if t.liq_net != 0 || t.liq_gross != 0 || t.liq_net_neg != 0 || t.liq_net_scale != 12 || t.liq_gross_scale != 12 || !zero(&t.tick_fee) {
                return Err("the tick does not start empty".into());
            }
            Ok(true)
        }
        "pos" => {
            let t: PositionState = a.read(&s.acc["position_state"]).ok_or("no position was made")?;
            if t.lower_tick != s.n[0] || t.upper_tick != s.n[1] {
                return Err(format!("the position is of range {} {}", t.lower_tick, t.upper_tick));
            }
            if t.liquidity != 0 || t.liq_scale != 12 || !zero(&t.last_collected_fee) {
                return Err("the position does not start empty".into());
            }
            Ok(true)
        }
        _ => Ok(false),
    }
}

fn c08(b: &World, _a: &World, s: &Step) -> Result<bool, String> {
    if s.op != "dep" && s.op != "wd" {
        return Ok(false);
    }
    let o = books(b, s)?;
    let k = |n: &str| s.acc[n];
    let le = |x: u64| x.to_le_bytes();
    let pool = k("pool_state");
    let (lo, hi, cur) = (s.n[0], s.n[1], s.n[2]);
    if pool != pda(&[b"pool_state_seed", o.pool.lp_token_mint.as_ref()]) {
        return Err("a pool at another address".into());
    }
    if k("position_state") != pda(&[b"position", pool.as_ref(), k("user").as_ref(), &le(lo), &le(hi)]) {
        return Err("the position of another pool, user or range".into());
    }
    for (n, t) in [("lower_tick_state", lo), ("upper_tick_state", hi), ("current_tick_state", cur)] {
        let st: TickState = b.read(&k(n)).ok_or("a tick that is no account of the program")?;
        if k(n) != pda(&[b"tick", pool.as_ref(), &le(t)]) || st.tick != t {
            return Err(format!("{} is not the tick {} of the pool", n, t));
        }
    }
    if lo >= hi || o.pos.lower_tick != lo || o.pos.upper_tick != hi {
        return Err("a range that is not the range of the position".into());
    }
    if cur != o.pool.pool_global_state.tick {
        return Err("a current tick that is not the one of the pool".into());
    }
    if k("lp_token_mint") != o.pool.lp_token_mint || k("token_x_vault") != o.pool.token_x_vault || k("token_y_vault") != o.pool.token_y_vault {
        return Err("a vault or mint that is not the one of the pool".into());
    }
    if k("tick_bitmap") != pda(&[b"bitmap", pool.as_ref()]) {
        return Err("the bitmap of another pool".into());
    }
    let tok = |n: &str| -> Result<spl_token::state::Account, String> {
        let d = b.accs.get(&k(n)).ok_or("no such token account")?;
        if d.owner != spl_token::ID {
            return Err(format!("{} belongs to no token program", n));
        }
        spl_token::state::Account::unpack(&d.data).map_err(|_| format!("{} is no token account", n))
    };
    for (n, m) in [("user_token_x", o.pool.token_x_mint), ("user_token_y", o.pool.token_y_mint)] {
        let t = tok(n)?;
        if t.mint != m || t.owner != k("user") {
            return Err(format!("{} is of another mint or owner", n));
        }
    }
    let lp = tok(if s.op == "dep" { "lp_token_to" } else { "lp_token_user_account" })?;
    if lp.mint != o.pool.lp_token_mint {
        return Err("an LP account of another mint".into());
    }
    if s.unsigned.iter().any(|u| u == "user" || u == "payer") {
        return Err("the user or the payer did not sign".into());
    }
    if k("token_program") != spl_token::ID {
        return Err("another token program".into());
    }
    Ok(true)
}

/// what the positions of every pool add up to is what its ticks and the pool record
fn c09(b: &World, a: &World, _s: &Step) -> Result<bool, String> {
    let users: Vec<Pubkey> = ["u0", "u1", "payer"].iter().map(|u| addr(u)).collect();
    let le = |x: u64| x.to_le_bytes();
    let pools: Vec<(Pubkey, PoolState)> = a.accs.keys().filter_map(|k| a.read::<PoolState>(k).map(|p| (*k, p))).collect();
    let ticks: Vec<(Pubkey, TickState)> = a.accs.keys().filter_map(|k| a.read::<TickState>(k).map(|p| (*k, p))).collect();
    let poss: Vec<(Pubkey, PositionState)> = a.accs.keys().filter_map(|k| a.read::<PositionState>(k).map(|p| (*k, p))).collect();
    let (mut nt, mut np) = (0, 0);
    for (pk, p) in &pools {
        let mine: Vec<&PositionState> = poss
            .iter()
            .filter(|(k, q)| users.iter().any(|u| *k == pda(&[b"position", pk.as_ref(), u.as_ref(), &le(q.lower_tick), &le(q.upper_tick)])))
            .map(|x| &x.1)
            .collect();
        np += mine.len();
        let liq = |q: &PositionState| at_scale(q.liquidity, q.liq_scale).map(|x| x as i128);
        let g = &p.pool_global_state;
        let mut active = 0;
        for q in &mine {
            if q.lower_tick <= g.tick && g.tick < q.upper_tick {
                active += liq(q)?;
            }
        }
        if at_scale(g.liquidity, g.liq_scale)? as i128 != active {
            return Err(format!("the pool has liquidity {}e-12, its positions in range {}e-12", g.liquidity, active));
        }
        for (tk, t) in &ticks {
            if *tk != pda(&[b"tick", pk.as_ref(), &le(t.tick)]) {
                continue;
            }
            nt += 1;
            let (mut gross, mut net) = (0, 0);
            for q in &mine {
                if q.lower_tick == t.tick {
                    gross += liq(q)?;
                    net += liq(q)?;
                }
                if q.upper_tick == t.tick {
                    gross += liq(q)?;
                    net -= liq(q)?;
                }
            }
            if at_scale(t.liq_gross, t.liq_gross_scale)? as i128 != gross {
                return Err(format!("tick {} has gross liquidity {}e-12, its positions {}e-12", t.tick, t.liq_gross, gross));
            }
            let n = at_scale(t.liq_net, t.liq_net_scale)? as i128 * if t.liq_net_neg != 0 { -1 } else { 1 };
            if n != net {
                return Err(format!("tick {} has net liquidity {}e-12, its positions {}e-12", t.tick, n, net));
            }
        }
        for q in &mine {
            for t in [q.lower_tick, q.upper_tick] {
                if a.read::<TickState>(&pda(&[b"tick", pk.as_ref(), &le(t)])).is_none() {
                    return Err(format!("a position without its tick {}", t));
                }
            }
        }
    }
    if nt != ticks.len() {
        return Err("a tick of no pool, or of another number than its address says".into());
    }
    if np != poss.len() {
        return Err("a position of no pool, user and range".into());
    }
    Ok(a.accs != b.accs && poss.iter().any(|q| q.1.liquidity != 0))
}

thread_local!(static TOT: RefCell<HashMap<Pubkey, [i128; 7]>> = RefCell::new(HashMap::new()));
/// what was paid out for a position stays covered by what was taken in for it
fn c10(b: &World, a: &World, s: &Step) -> Result<bool, String> {
    if s.op != "dep" && s.op != "wd" {
        return Ok(false);
    }
    let k = s.acc["position_state"];
    let o = books(a, s)?;
    if !no_fees(&o) {
        return Ok(false);
    }
    let sup = a.supply(&o.pool.lp_token_mint) as i128 - b.supply(&o.pool.lp_token_mint) as i128;
    let (x, y) = (moved(b, a, &o.pool.token_x_vault), moved(b, a, &o.pool.token_y_vault));
    let t = TOT.with(|t| {
        let mut t = t.borrow_mut();
        let e = t.entry(k).or_insert([0; 7]);
        for (i, v) in [x, y, sup].iter().enumerate() {
            e[2 * i + (*v < 0) as usize] += v.abs();
        }
        e[6] += (s.op == "dep") as i128;
        *e
    });
    let one = ONE as i128;
    let [ix, ox, iy, oy, im, om, n] = t;
    if ox * one > ix * one + ix + 3 * n || oy * one > iy * one + n {
        return Err(format!("taken in for the position: {} x, {} y; paid out: {} x, {} y", ix, iy, ox, oy));
    }
    let v = at_scale(o.pos.liquidity, o.pos.liq_scale)?;
    if (im - om) * one > v as i128 {
        return Err(format!("{} LP tokens minted, {} burnt, liquidity {}e-12", im, om, v));
    }
    let p = |t: u64| M::tick_to_rp(t as u128).to_compute_scale().value;
    let (pa, pb, cur) = (p(o.pos.lower_tick), p(o.pos.upper_tick), p(o.pool.pool_global_state.tick));
    let c = cur.min(pb).max(pa);
    let u = Big::u(ONE);
    let (bi, bu) = (Big::i, Big::u);
    let cb = bu(c).mul(&bu(pb));
    let uu = u.mul(&u);
    let x = bi(ix - ox).mul(&u).mul(&cb).add(&bi(ix).mul(&uu)).add(&bi(n).mul(&cb.add(&u).add(&uu)));
    if x.lt(&bu(v).mul(&bu(pb - c)).mul(&u)) {
        return Err(format!("{} x taken in, {} paid out, which does not cover the liquidity {}e-12 that remains", ix, ox, v));
    }
    let y = bi(iy - oy).mul(&uu).add(&bi(n).mul(&u));
    if y.lt(&bu(v).mul(&bu(c - pa))) {
        return Err(format!("{} y taken in, {} paid out, which does not cover the liquidity {}e-12 that remains", iy, oy, v));
    }
    Ok(n > 0)
}

// ---- cases

struct Chain(fn(&World, &World, &Step) -> Result<bool, String>, &'static str);

const TICKS: [u64; 12] = [1, 10, 100, 19_000, 19_999, 20_000, 20_001, 21_000, 40_000, 0, 50_000, 79_999];

impl Chain {
    /// histories with two pools and hostile accounts
    fn two(&self) -> bool {
        self.1 == "C08" || self.1 == "C09"
    }
    fn base(&self, r: &mut Rng) -> (Case, Vec<(String, u64, u64)>, [u64; 2]) {
        let mut c: Case = vec![];
        let mut at = [0u64; 2];
        let mut pos: Vec<(String, u64, u64)> = vec![];
        let any = self.1 == "C07";
        let near = |r: &mut Rng| if any && r.below(12) == 0 { r.mag() as u64 & (u64::MAX >> 1) } else if r.below(3) == 0 { r.below(80_000) as u64 } else { TICKS[r.below(TICKS.len() as u64) as usize] };
        for (i, p) in ["A", "B"].iter().enumerate() {
            at[i] = near(r);
            let b = r.mag() as u64;
            c.push(format!("pool {} {} {}", p, b, at[i]));
            c.push(format!("bitmap {}", p));
            c.push(format!("tick {} {}", p, at[i]));
            if i == 1 && !self.two() {
                c.truncate(c.len() - 3);
                break;
            }
        }
        for _ in 0..1 + r.below(3) {
            let mut lo = if r.below(3) == 0 { at[0] } else { near(r) };
            let mut hi = match r.below(4) {
                0 => at[0],
                1 => lo + 1 + r.below(200) as u64,
                _ => near(r),
            };
            if lo > hi {
                std::mem::swap(&mut lo, &mut hi);
            }
            if lo == hi {
                hi += 1;
            }
            let u = format!("u{}", r.below(2));
            let pools: &[&str] = if self.two() { &["A", "B"] } else { &["A"] };
            for p in pools {
                for t in [lo, hi] {
                    let l = format!("tick {} {}", p, t);
                    if !c.contains(&l) {
                        c.push(l);
                    }
                }
                c.push(format!("pos {} {} {} {}", p, u, lo, hi));
            }
            if self.two() {
                c.push(format!("pos A u{} {} {}", 1 - (u == "u1") as u8, lo, hi));
            }
            pos.push((u, lo, hi));
        }
        (c, pos, at)
    }
    fn amount(r: &mut Rng) -> u64 {
        match r.below(5) {
            0 => r.below(10) as u64,
            1 => r.below(1_000_000_000_000) as u64,
            _ => r.below(1_000_000) as u64,
        }
    }
}

const FIELDS: [&str; 15] = [
    "pool_state", "tick_bitmap", "position_state", "lower_tick_state", "upper_tick_state", "current_tick_state", "lp_token_mint",
    "user_token_x", "user_token_y", "token_x_vault", "token_y_vault", "lp_token_vault", "lp_token_to", "user", "payer",
];

impl Prop for Chain {
    fn fixed(&self) -> Vec<Case> {
        let s = |v: &[&str]| -> Case { v.iter().map(|x| x.to_string()).collect() };
        let head = ["pool A 1 20000", "bitmap A", "tick A 20000", "tick A 19000", "tick A 21000"];
        let mk = |rest: &[&str]| -> Case {
            let mut v = head.to_vec();
            v.extend(rest);
            s(&v)
        };
        vec![
            mk(&["pos A u0 19000 21000", "dep A u0 19000 21000 20000 1000000 1000000", "wd A u0 19000 21000 20000 1000"]),
            mk(&["pos A u0 20000 21000", "dep A u0 20000 21000 20000 1000000 1000000", "wd A u0 20000 21000 20000 1000"]),
            mk(&["pos A u0 19000 20000", "dep A u0 19000 20000 20000 1000000 1000000", "wd A u0 19000 20000 20000 1000"]),
            mk(&["pos A u0 19000 21000", "dep A u0 19000 21000 20000 1000000 1000000", "wd A u0 19000 21000 20000 all"]),
            mk(&["pos A u0 19000 21000", "dep A u0 19000 21000 20000 1000000 1000000", "pos A u1 19000 21000", "wd A u1 19000 21000 20000 1000"]),
        ]
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let (mut c, pos, at) = self.base(r);
        let pick = |r: &mut Rng| pos[r.below(pos.len() as u64) as usize].clone();
        if self.1 == "C06" {
            let g: Vec<u64> = (0..4).map(|_| r.below(2_000_000_000_000) as u64).collect();
            let sc = |r: &mut Rng| if r.below(3) == 0 { 9 + r.below(4) } else { 12 };
            c.push(format!("fee A {} {} {} {} {}", g[0], g[1], g[2], g[3], sc(r)));
            for (_, lo, hi) in &pos {
                for t in [lo, hi] {
                    let v: Vec<u64> = g.iter().map(|x| if r.below(8) == 0 { *x } else { r.below(*x / 2 + 1) as u64 }).collect();
                    c.push(format!("tfee A {} {} {} {} {} {}", t, v[0], v[1], v[2], v[3], sc(r)));
                }
            }
        }
        let mut made: Vec<(String, u64, u64)> = vec![];
        for _ in 0..1 + r.below(6) {
            let (u, lo, hi) = pick(r);
            if r.below(3) < 2 || made.is_empty() {
                if self.1 == "C09" && r.below(3) == 0 {
                    c.push(format!("dep B {} {} {} {} {} {}", u, lo, hi, at[1], Chain::amount(r), Chain::amount(r)));
                }
                c.push(format!("dep A {} {} {} {} {} {}", u, lo, hi, at[0], Chain::amount(r), Chain::amount(r)));
                made.push((u, lo, hi));
            } else {
                let (u, lo, hi) = if r.below(4) == 0 { (u, lo, hi) } else { made[r.below(made.len() as u64) as usize].clone() };
                if self.1 == "C10" && r.below(2) == 0 {
                    c.push(format!("wd A {} {} {} {} all", u, lo, hi, at[0]));
                    continue;
                }
                c.push(format!("wd A {} {} {} {} {}", u, lo, hi, at[0], if r.below(3) == 0 { 1 + r.below(5) as u64 } else { Chain::amount(r) }));
            }
            if self.two() {
                let l = c.pop().unwrap();
                c.push(l.clone());
                let mut names: Vec<String> = ["mx", "my", "lpm:A", "lpm:B", "u0", "u1", "payer", "pool:A", "pool:B", "vx:A", "vy:A", "vl:A", "vx:B", "vy:B", "vl:B",
                    "bitmap:A", "bitmap:B", "x:u0", "x:u1", "y:u0", "y:u1", "lp:A:u0", "lp:A:u1", "lp:B:u0", "lp:B:u1"]
                    .iter()
                    .map(|x| x.to_string())
                    .collect();
                for (_, lo, hi) in &pos {
                    for p in ["A", "B"] {
                        names.push(format!("tick:{}:{}", p, lo));
                        names.push(format!("tick:{}:{}", p, hi));
                        for u in ["u0", "u1"] {
                            names.push(format!("pos:{}:{}:{}:{}", p, u, lo, hi));
                        }
                    }
                }
                names.push(format!("tick:A:{}", at[0]));
                names.push(format!("tick:B:{}", at[1]));
                for _ in 0..12 {
                    let mut l = l.clone();
                    for _ in 0..1 + r.below(2) {
                        let mut f = FIELDS[r.below(15) as usize];
                        if f == "lp_token_to" && l.starts_with("wd") {
                            f = "lp_token_user_account";
                        }
                        match r.below(8) {
                            0 => l = format!("{} unsigned={}", l, ["user", "payer"][r.below(2) as usize]),
                            1 => {
                                // same instruction with another number
                                let mut t: Vec<String> = l.split(' ').map(|x| x.to_string()).collect();
                                let (_, lo, hi) = pick(r);
                                t[3 + r.below(3) as usize] = [lo, hi, at[0]][r.below(3) as usize].to_string();
                                // the accounts stay those of the first
                                let q: Vec<&str> = l.split(' ').collect();
                                t.push(format!("lower_tick_state=tick:A:{}", q[3]));
                                t.push(format!("upper_tick_state=tick:A:{}", q[4]));
                                t.push(format!("current_tick_state=tick:A:{}", q[5]));
                                t.push(format!("position_state=pos:A:{}:{}:{}", q[2], q[3], q[4]));
                                l = t.join(" ");
                                break;
                            }
                            2 => {
                                let of = &names[r.below(names.len() as u64) as usize];
                                c.push(format!("fake fake:{} {}", of, of));
                                l = format!("{} {}=fake:{}", l, f, of);
                            }
                            _ => {
                                // prefer accounts of the same kind
                                let kind: Vec<&String> = names
                                    .iter()
                                    .filter(|n| {
                                        let h = n.split(':').next().unwrap();
                                        match f {
                                            "pool_state" => h == "pool",
                                            "tick_bitmap" => h == "bitmap",
                                            "position_state" => h == "pos",
                                            "lp_token_mint" => h.starts_with('m') || h == "lpm",
                                            "user" | "payer" => h.starts_with('u') || h == "payer",
                                            x if x.contains("tick_state") => h == "tick",
                                            _ => matches!(h, "x" | "y" | "lp" | "vx" | "vy" | "vl"),
                                        }
                                    })
                                    .collect();
                                let v = if r.below(6) == 0 { &names[r.below(names.len() as u64) as usize] } else { kind[r.below(kind.len() as u64) as usize] };
                                if !l.contains(&format!(" {}=", f)) {
                                    l = format!("{} {}={}", l, f, v);
                                }
                            }
                        }
                    }
                    c.push(l);
                }
            }
        }
        c
    }
    fn run(&self, c: &Case) -> Result<bool, String> {
        TOT.with(|t| t.borrow_mut().clear());
        history(c, self.0)
    }
}

fn main() {
    world::init();
    drive::main(|id| {
        let p: Chain = match id {
            "C03" => Chain(c03, "C03"),
            "C04" => Chain(c04, "C04"),
            "C05" => Chain(c05, "C05"),
            "C06" => Chain(c06, "C06"),
            "C07" => Chain(c07, "C07"),
            "C08" => Chain(c08, "C08"),
            "C09" => Chain(c09, "C09"),
            "C10" => Chain(c10, "C10"),
            _ => return None,
        };
        Some(Box::new(p))
    })
}
