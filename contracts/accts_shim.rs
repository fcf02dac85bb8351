// ---- what the generated account validation sees of Anchor and the runtime (assumed) ----
/// the account data the program itself owns, by address
pub enum VxData { Pool(PoolState), Pos(PositionState), Tick(TickState), Bitmap }
pub type VxLedger = Map<Pubkey, VxData>;
/// the ledger, what token accounts and mints hold, and the calls made to the token program
pub struct VxWorld { pub ledger: Ghost<VxLedger>, pub tokens: Ghost<Map<Pubkey, TokenAccount>>, pub mints: Ghost<Map<Pubkey, Mint>>, pub log: VxLog }
pub uninterp spec fn no_info() -> AccountInfo;
/// the address of this program, of the token program
pub uninterp spec fn vx_id() -> Pubkey;
pub uninterp spec fn vx_token_id() -> Pubkey;

pub trait VxTake: VxAcc {
    /// what Anchor has checked when it hands out the account (discriminator, owner, signature)
    spec fn took(self, w: VxWorld) -> bool;
    /// what leaving the instruction writes back
    spec fn saved(self, l: VxLedger) -> VxLedger;
}
pub open spec fn pool_data(p: PoolState) -> VxData { VxData::Pool(PoolState { info: no_info(), ..p }) }
pub open spec fn pos_data(p: PositionState) -> VxData { VxData::Pos(PositionState { info: no_info(), ..p }) }
pub open spec fn tick_data(p: TickState) -> VxData { VxData::Tick(TickState { info: no_info(), ..p }) }
pub open spec fn owned(i: AccountInfo, l: VxLedger, d: VxData) -> bool { *i.owner == vx_id() && l.dom().contains(*i.key) && l[*i.key] == d }
impl VxTake for PoolState {
    open spec fn took(self, w: VxWorld) -> bool { owned(self.info, w.ledger@, pool_data(self)) }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l.insert(*self.info.key, pool_data(self)) }
}
impl VxTake for PositionState {
    open spec fn took(self, w: VxWorld) -> bool { owned(self.info, w.ledger@, pos_data(self)) }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l.insert(*self.info.key, pos_data(self)) }
}
impl VxTake for TickState {
    open spec fn took(self, w: VxWorld) -> bool { owned(self.info, w.ledger@, tick_data(self)) }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l.insert(*self.info.key, tick_data(self)) }
}
impl VxTake for VxLoader {
    open spec fn took(self, w: VxWorld) -> bool { owned(self.info, w.ledger@, VxData::Bitmap) }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l }
}
impl VxTake for TokenAccount {
    open spec fn took(self, w: VxWorld) -> bool { *self.info.owner == vx_token_id() && w.tokens@.dom().contains(*self.info.key) && w.tokens@[*self.info.key] == (TokenAccount { info: no_info(), ..self }) }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l }
}
impl VxTake for Mint {
    open spec fn took(self, w: VxWorld) -> bool { *self.info.owner == vx_token_id() && w.mints@.dom().contains(*self.info.key) && w.mints@[*self.info.key] == (Mint { info: no_info(), ..self }) }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l }
}
impl VxTake for Signer {
    open spec fn took(self, w: VxWorld) -> bool { self.info.is_signer }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l }
}
impl VxTake for AccountInfo {
    open spec fn took(self, w: VxWorld) -> bool { true }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l }
}
impl VxTake for VxProgram {
    open spec fn took(self, w: VxWorld) -> bool { true }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l }
}
impl VxTake for VxSysvar {
    open spec fn took(self, w: VxWorld) -> bool { true }
    open spec fn saved(self, l: VxLedger) -> VxLedger { l }
}
impl VxAcc for VxSysvar { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }

/// the accounts passed by the caller that are not taken yet
pub struct VxAccs { pub infos: Ghost<Seq<AccountInfo>> }
impl VxAccs {
    #[verifier::external_body]
    pub fn vx_first(&self) -> (r: AccountInfo)
        ensures self.infos@.len() > 0, r == self.infos@[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self)
        ensures old(self).infos@.len() > 0, final(self).infos@ == old(self).infos@.drop_first(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_take<T: VxTake>(program_id: &Pubkey, accounts: &mut VxAccs, w: &VxWorld) -> (r: Result<T, VxFail>)
    ensures match r {
        Ok(a) => old(accounts).infos@.len() > 0 && a.at() == old(accounts).infos@[0] && final(accounts).infos@ == old(accounts).infos@.drop_first() && a.took(*w),
        Err(_) => true,
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_exit<T: VxTake>(a: &T, program_id: &Pubkey, w: &mut VxWorld) -> (r: Result<(), VxFail>)
    ensures r is Ok && *program_id == vx_id() ==> *final(w) == (VxWorld { ledger: Ghost(a.saved(old(w).ledger@)), ..*old(w) }),
{ unimplemented!() }

/// a program account created by `init`: zeroed, and there was none before
pub trait VxInit: VxTake { spec fn fresh(self) -> bool; spec fn made(self, l: VxLedger) -> VxLedger; }
impl VxInit for PoolState { open spec fn fresh(self) -> bool { pool_zero(self) } open spec fn made(self, l: VxLedger) -> VxLedger { self.saved(l) } }
impl VxInit for TickState { open spec fn fresh(self) -> bool { tick_zero(self) } open spec fn made(self, l: VxLedger) -> VxLedger { self.saved(l) } }
impl VxInit for PositionState { open spec fn fresh(self) -> bool { pos_zero(self) } open spec fn made(self, l: VxLedger) -> VxLedger { self.saved(l) } }
impl VxInit for VxLoader { open spec fn fresh(self) -> bool { true } open spec fn made(self, l: VxLedger) -> VxLedger { l.insert(*self.info.key, VxData::Bitmap) } }
#[verifier::external_body]
pub fn vx_init<T: VxInit>(at: AccountInfo, program_id: &Pubkey, w: &mut VxWorld) -> (r: Result<T, VxFail>)
    ensures match r {
        Ok(a) => a.at() == at && a.fresh() && !old(w).ledger@.dom().contains(*at.key) && *final(w) == (VxWorld { ledger: Ghost(a.made(old(w).ledger@)), ..*old(w) }),
        Err(_) => true,
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_init_token(at: AccountInfo, mint: AccountInfo, authority: AccountInfo, w: &mut VxWorld) -> (r: Result<TokenAccount, VxFail>)
    ensures match r {
        Ok(a) => a.info == at && a.mint == *mint.key && a.owner == *authority.key && a.amount == 0
            && *final(w) == (VxWorld { tokens: Ghost(old(w).tokens@.insert(*at.key, TokenAccount { info: no_info(), ..a })), ..*old(w) }),
        Err(_) => true,
    },
{ unimplemented!() }

/// program derived addresses
pub enum VxSeed { Text(Seq<char>), Key(Pubkey), Num(u64), Bump(u8) }
pub uninterp spec fn pda(s: Seq<VxSeed>, p: Pubkey) -> Pubkey;
/// the bump that the search for an address of these seeds arrives at
pub uninterp spec fn canon(s: Seq<VxSeed>, p: Pubkey) -> u8;
pub struct VxSeeds { pub s: Ghost<Seq<VxSeed>> }
impl VxSeeds {
    pub fn vx_new() -> (r: VxSeeds) ensures r.s@ == Seq::<VxSeed>::empty() { VxSeeds { s: Ghost(Seq::empty()) } }
    pub fn vx_text(self, t: &str) -> (r: VxSeeds) ensures r.s@ == self.s@.push(VxSeed::Text(t@)) { VxSeeds { s: Ghost(self.s@.push(VxSeed::Text(t@))) } }
    pub fn vx_key(self, t: Pubkey) -> (r: VxSeeds) ensures r.s@ == self.s@.push(VxSeed::Key(t)) { VxSeeds { s: Ghost(self.s@.push(VxSeed::Key(t))) } }
    pub fn vx_num(self, t: u64) -> (r: VxSeeds) ensures r.s@ == self.s@.push(VxSeed::Num(t)) { VxSeeds { s: Ghost(self.s@.push(VxSeed::Num(t))) } }
    pub fn vx_bump(self, t: u8) -> (r: VxSeeds) ensures r.s@ == self.s@.push(VxSeed::Bump(t)) { VxSeeds { s: Ghost(self.s@.push(VxSeed::Bump(t))) } }
}
#[verifier::external_body]
pub fn vx_create_pda(s: VxSeeds, p: &Pubkey) -> (r: Result<Pubkey, VxFail>)
    ensures r is Ok ==> r->Ok_0 == pda(s.s@, *p),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_find_pda(s: VxSeeds, p: &Pubkey) -> (r: (Pubkey, u8))
    ensures r.0 == pda(s.s@.push(VxSeed::Bump(r.1)), *p), r.1 == canon(s.s@, *p),
{ unimplemented!() }

/// the data of the instruction: its arguments in the order sent
#[derive(Clone, Copy)]
pub struct VxIx { pub args: Ghost<Seq<u64>> }
impl VxIx {
    #[verifier::external_body]
    pub fn vx_u64(&mut self) -> (r: Result<u64, VxFail>)
        ensures r is Ok ==> old(self).args@.len() > 0 && r->Ok_0 == old(self).args@[0] && final(self).args@ == old(self).args@.drop_first(),
    { unimplemented!() }
}
impl VxBumps {
    #[verifier::external_body]
    pub fn vx_new() -> (r: VxBumps) ensures forall|n: Seq<char>| r.of(n) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, name: &str, b: u8)
        ensures forall|n: Seq<char>| #[trigger] final(self).of(n) == if n == name@ { Some(b) } else { old(self).of(n) },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_ctx_new<T>(accounts: T, bumps: VxBumps, w: &VxWorld) -> (r: VxCtx<T>)
    ensures r.accounts == accounts, r.bumps == bumps, r.log@ == w.log@,
{ unimplemented!() }
/// the calls of the handler have moved tokens
#[verifier::external_body]
pub fn vx_ctx_end<T>(c: VxCtx<T>, w: &mut VxWorld) -> (r: T)
    ensures r == c.accounts, final(w).ledger == old(w).ledger, final(w).log@ == c.log@,
{ unimplemented!() }

/// a failure ends the instruction and the runtime undoes it: nothing follows
#[verifier::external_body]
pub fn vx_ok<T>(x: Result<T, VxFail>) -> (r: T)
    ensures x is Ok && r == x->Ok_0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_fail_if(c: bool)
    ensures !c,
{ unimplemented!() }
