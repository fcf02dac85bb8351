// A ledger in memory: accounts, the system and token programs, and the program
// under test behind its entry point.  A failing instruction changes nothing.
use anchor_lang::prelude::{AccountInfo, AccountMeta, Pubkey};
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::rent::Rent;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}
#[derive(Clone, Default)]
pub struct World {
    pub accs: BTreeMap<Pubkey, Acc>,
}

pub fn sys() -> Pubkey {
    solana_program::system_program::ID
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &hmmcl_sandbox::ID).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        let mut v: Vec<AccountInfo> = vec![];
        for m in &ix.accounts {
            let mut i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?.clone();
            let signs = infos.iter().any(|i| *i.key == m.pubkey && i.is_signer) || pdas.contains(&m.pubkey);
            let writes = infos.iter().any(|i| *i.key == m.pubkey && i.is_writable);
            if (m.is_signer && !signs) || (m.is_writable && !writes) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            i.is_signer = m.is_signer;
            i.is_writable = m.is_writable;
            v.push(i);
        }
        if ix.program_id == spl_token::ID {
            return spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data);
        }
        if ix.program_id == sys() {
            return system(&v, &ix.data);
        }
        Err(ProgramError::IncorrectProgramId)
    }
}
pub fn init() {
    set_syscall_stubs(Box::new(Stubs));
}

fn u64_at(d: &[u8], i: usize) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&d[i..i + 8]);
    u64::from_le_bytes(b)
}
#[allow(invalid_reference_casting)]
/// create, assign, transfer and allocate of the system program
fn system(v: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let mv = |a: &AccountInfo, b: &AccountInfo, n: u64| -> ProgramResult {
        if a.lamports() < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **a.lamports.borrow_mut() -= n;
        **b.lamports.borrow_mut() += n;
        Ok(())
    };
    let alloc = |a: &AccountInfo, n: u64| -> ProgramResult {
        if *a.owner != sys() || a.data_len() != 0 || n > 10_000_000 {
            return Err(ProgramError::InvalidAccountData);
        }
        let s: &'static mut [u8] = Box::leak(vec![0u8; n as usize].into_boxed_slice());
        // the buffer outlives the instruction, it is given back in `exec`
        *a.data.borrow_mut() = unsafe { std::mem::transmute(s) };
        Ok(())
    };
    let assign = |a: &AccountInfo, o: &[u8]| {
        let o = Pubkey::new(o);
        let p = a.owner as *const Pubkey as usize as *mut Pubkey;
        unsafe { std::ptr::write_volatile(p, o) }; // as AccountInfo::assign
    };
    match d[0] {
        0 => {
            if v[1].lamports() != 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            mv(&v[0], &v[1], u64_at(d, 4))?;
            alloc(&v[1], u64_at(d, 12))?;
            assign(&v[1], &d[20..52]);
        }
        1 => assign(&v[0], &d[4..36]),
        2 => mv(&v[0], &v[1], u64_at(d, 4))?,
        8 => alloc(&v[0], u64_at(d, 4))?,
        _ => return Err(ProgramError::InvalidInstructionData),
    }
    Ok(())
}

impl World {
    /// runs an instruction of the program under test; false: it failed and changed nothing
    pub fn exec(&mut self, metas: &[AccountMeta], data: &[u8]) -> bool {
        struct Slot {
            key: Pubkey,
            lamports: u64,
            data: Vec<u8>,
            owner: Box<Pubkey>,
            exec: bool,
        }
        let mut slots: Vec<Slot> = vec![];
        for m in metas {
            if slots.iter().any(|s| s.key == m.pubkey) {
                continue;
            }
            let a = self.accs.get(&m.pubkey).cloned().unwrap_or(Acc { lamports: 0, data: vec![], owner: sys(), exec: false });
            slots.push(Slot { key: m.pubkey, lamports: a.lamports, data: a.data, owner: Box::new(a.owner), exec: a.exec });
        }
        let mut infos: Vec<AccountInfo> = vec![];
        for s in slots.iter_mut() {
            infos.push(AccountInfo::new(&s.key, false, false, &mut s.lamports, &mut s.data, &s.owner, s.exec, 0));
        }
        let list: Vec<AccountInfo> = metas
            .iter()
            .map(|m| {
                let mut i = infos.iter().find(|i| *i.key == m.pubkey).unwrap().clone();
                // the same account listed twice has the rights of both
                i.is_signer = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
                i.is_writable = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
                i
            })
            .collect();
        let ok = matches!(crate::drive::call(|| hmmcl_sandbox::entry(&hmmcl_sandbox::ID, &list, data)), Some(Ok(())));
        let mut after: Vec<(Pubkey, Acc)> = vec![];
        for i in &infos {
            let a = match (i.data.try_borrow(), i.lamports.try_borrow()) {
                (Ok(d), Ok(l)) => Acc { lamports: **l, data: d.to_vec(), owner: unsafe { std::ptr::read_volatile(i.owner) }, exec: i.executable },
                _ => return false,
            };
            after.push((*i.key, a));
        }
        drop(list);
        drop(infos);
        if !ok {
            return false;
        }
        for (k, a) in &after {
            let old = self.accs.get(k).cloned().unwrap_or(Acc { lamports: 0, data: vec![], owner: sys(), exec: false });
            if *a != old && !metas.iter().any(|m| m.pubkey == *k && m.is_writable) {
                return false; // the runtime rejects changes of read-only accounts
            }
        }
        for (k, a) in after {
            self.accs.insert(k, a);
        }
        true
    }
}
