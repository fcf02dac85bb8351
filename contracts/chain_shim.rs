// ---- what the handlers see of Anchor and of the token program (assumed) ---------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Pubkey(pub [u8; 32]);
#[derive(Clone, Copy)]
pub struct AccountInfo { pub key: &'static Pubkey, pub is_signer: bool, pub is_writable: bool, pub owner: &'static Pubkey }
/// an error that ends the instruction: the runtime undoes everything it did
pub struct VxFail;
pub trait VxAcc: Sized {
    spec fn at(self) -> AccountInfo;
    fn to_account_info(&self) -> (r: AccountInfo) ensures r == self.at();
    fn key(&self) -> (r: Pubkey) ensures r == *self.at().key;
}
impl VxAcc for AccountInfo {
    open spec fn at(self) -> AccountInfo { self }
    fn to_account_info(&self) -> (r: AccountInfo) { *self }
    fn key(&self) -> (r: Pubkey) { *self.key }
}
pub struct Signer { pub info: AccountInfo }
pub struct VxProgram { pub info: AccountInfo }
pub struct VxSysvar { pub info: AccountInfo }
pub struct VxLoader { pub info: AccountInfo }
pub struct TokenAccount { pub info: AccountInfo, pub mint: Pubkey, pub owner: Pubkey, pub amount: u64 }
pub struct Mint { pub info: AccountInfo, pub mint_authority: Option<Pubkey>, pub supply: u64, pub decimals: u8 }
impl VxAcc for Signer { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }
impl VxAcc for VxProgram { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }
impl VxAcc for VxLoader { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }
impl VxAcc for TokenAccount { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }
impl VxAcc for Mint { open spec fn at(self) -> AccountInfo { self.info } fn to_account_info(&self) -> (r: AccountInfo) { self.info } fn key(&self) -> (r: Pubkey) { *self.info.key } }

/// the tick bitmap account: its content is unknown here, no property of the handlers depends on it
pub struct VxBitmap { pub bump: u8 }
impl VxLoader {
    #[verifier::external_body]
    pub fn load_mut(&self) -> (r: Result<VxBitmap, VxFail>) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self) -> (r: Result<VxBitmap, VxFail>) { unimplemented!() }
    #[verifier::external_body]
    pub fn load_init(&self) -> (r: Result<VxBitmap, VxFail>) { unimplemented!() }
}
impl VxBitmap {
    #[verifier::external_body]
    pub fn activate_tick(&mut self, tick: i32) { unimplemented!() }
    #[verifier::external_body]
    pub fn unset_tick(&mut self, tick: i32) { unimplemented!() }
    #[verifier::external_body]
    pub fn tick_is_active(&self, tick: i32) -> (r: bool) { unimplemented!() }
}

/// the bump seeds Anchor found while it checked the accounts
#[verifier::external_body]
pub struct VxBumps { _p: () }
impl VxBumps {
    pub uninterp spec fn of(self, name: Seq<char>) -> Option<u8>;
    #[verifier::external_body]
    pub fn get(&self, name: &str) -> (r: Option<&u8>)
        ensures match r { Some(b) => self.of(name@) == Some(*b), None => self.of(name@) is None },
    { unimplemented!() }
}

/// what the token program was asked to do
pub enum VxCpi {
    Transfer { from: Pubkey, to: Pubkey, authority: Pubkey, amount: u64 },
    MintTo { mint: Pubkey, to: Pubkey, authority: Pubkey, amount: u64 },
    Burn { mint: Pubkey, from: Pubkey, authority: Pubkey, amount: u64 },
}
pub type VxLog = Ghost<vstd::multiset::Multiset<VxCpi>>;
pub struct VxCtx<T> { pub accounts: T, pub bumps: VxBumps, pub log: VxLog }

pub struct Transfer { pub from: AccountInfo, pub to: AccountInfo, pub authority: AccountInfo }
pub struct MintTo { pub mint: AccountInfo, pub to: AccountInfo, pub authority: AccountInfo }
pub struct Burn { pub mint: AccountInfo, pub to: AccountInfo, pub authority: AccountInfo }
pub struct CpiContext<T> { pub program: AccountInfo, pub accounts: T }
impl<T> CpiContext<T> {
    pub fn new(program: AccountInfo, accounts: T) -> (r: CpiContext<T>)
        ensures r.program == program, r.accounts == accounts,
    { CpiContext { program, accounts } }
}
#[verifier::external_body]
pub fn vx_token_transfer(log: &mut VxLog, c: CpiContext<Transfer>, amount: u64) -> (r: Result<(), VxFail>)
    ensures r is Ok ==> final(log)@ == old(log)@.insert(VxCpi::Transfer { from: *c.accounts.from.key, to: *c.accounts.to.key, authority: *c.accounts.authority.key, amount }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_token_mint_to(log: &mut VxLog, c: CpiContext<MintTo>, amount: u64) -> (r: Result<(), VxFail>)
    ensures r is Ok ==> final(log)@ == old(log)@.insert(VxCpi::MintTo { mint: *c.accounts.mint.key, to: *c.accounts.to.key, authority: *c.accounts.authority.key, amount }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_token_burn(log: &mut VxLog, c: CpiContext<Burn>, amount: u64) -> (r: Result<(), VxFail>)
    ensures r is Ok ==> final(log)@ == old(log)@.insert(VxCpi::Burn { mint: *c.accounts.mint.key, from: *c.accounts.to.key, authority: *c.accounts.authority.key, amount }),
{ unimplemented!() }
