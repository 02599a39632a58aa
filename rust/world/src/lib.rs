//! Shared harness support: intrinsics of the symbolic executor and a model of
//! the Solana runtime (accounts, clock, token and system program CPIs).
pub mod sx;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError,
    program_stubs as rt, system_program, sysvar,
};
pub use anchor_lang::{InstructionData, ToAccountMetas};

pub type Info = AccountInfo<'static>;

pub fn leak<T>(x: T) -> &'static mut T { Box::leak(Box::new(x)) }
/// A concrete, distinct 32-byte address.
pub const fn key(n: u8) -> Pubkey {
    let mut b = [0x11u8; 32];
    b[0] = n;
    b[31] = n ^ 0x5a;
    Pubkey::new_from_array(b)
}
pub fn buf(bytes: &[u8]) -> &'static mut [u8] {
    let words: &'static mut [u64] = Box::leak(vec![0u64; (bytes.len() + 7) / 8 + 1].into_boxed_slice());
    let p = words.as_mut_ptr() as *mut u8;
    unsafe {
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len());
        std::slice::from_raw_parts_mut(p, bytes.len())
    }
}
pub fn info(key: Pubkey, owner: Pubkey, data: &'static mut [u8], lamports: u64) -> Info {
    AccountInfo::new(leak(key), false, true, leak(lamports), data, leak(owner), false, 0)
}
pub fn wallet(key: Pubkey) -> Info { info(key, system_program::ID, buf(&[]), 1_000_000_000) }
pub fn fresh(key: Pubkey) -> Info { info(key, system_program::ID, buf(&[]), 0) }
pub fn program(key: Pubkey) -> Info {
    let mut i = info(key, Pubkey::new_from_array([2; 32]), buf(&[]), 1);
    i.executable = true;
    i
}
pub fn token_program() -> Info { program(anchor_spl::token::ID) }
pub fn system() -> Info { program(system_program::ID) }
pub fn rent_sysvar() -> Info {
    let mut d = vec![];
    let r = Rent::default();
    d.extend_from_slice(&r.lamports_per_byte_year.to_le_bytes());
    d.extend_from_slice(&r.exemption_threshold.to_le_bytes());
    d.push(r.burn_percent);
    info(sysvar::rent::ID, sysvar::ID, buf(&d), 1)
}
pub fn signer(mut i: Info, is: bool) -> Info { i.is_signer = is; i }

// ------------------------------------------------------------ SPL token state
pub fn token_data(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}
pub fn token(key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> Info {
    info(key, anchor_spl::token::ID, buf(&token_data(&mint, &owner, amount)), 2_039_280)
}
pub fn mint_data(authority: Option<Pubkey>, freeze: Option<Pubkey>, supply: u64) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    if let Some(a) = authority { d[0] = 1; d[4..36].copy_from_slice(a.as_ref()); }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = 6;
    d[45] = 1;
    if let Some(a) = freeze { d[46] = 1; d[50..82].copy_from_slice(a.as_ref()); }
    d
}
pub fn mint(key: Pubkey, authority: Option<Pubkey>, freeze: Option<Pubkey>, supply: u64) -> Info {
    info(key, anchor_spl::token::ID, buf(&mint_data(authority, freeze, supply)), 1_461_600)
}
fn u64_at(d: &[u8], o: usize) -> u64 { let mut b = [0u8; 8]; b.copy_from_slice(&d[o..o + 8]); u64::from_le_bytes(b) }
fn key_at(d: &[u8], o: usize) -> Pubkey { let mut b = [0u8; 32]; b.copy_from_slice(&d[o..o + 32]); Pubkey::new_from_array(b) }
fn put_u64(i: &Info, o: usize, v: u64) { i.data.borrow_mut()[o..o + 8].copy_from_slice(&v.to_le_bytes()); }
pub fn bal(i: &Info) -> u64 { u64_at(&i.data.borrow(), 64) }
pub fn supply(i: &Info) -> u64 { u64_at(&i.data.borrow(), 36) }
pub fn tok_mint(i: &Info) -> Pubkey { key_at(&i.data.borrow(), 0) }
pub fn tok_owner(i: &Info) -> Pubkey { key_at(&i.data.borrow(), 32) }
pub fn closed(i: &Info) -> bool { i.lamports() == 0 }

// ------------------------------------------------------------------- the world
pub struct World {
    pub id: Pubkey,
    pub accs: Vec<(Pubkey, Info)>,
}
static mut PROGRAM: Pubkey = Pubkey::new_from_array([0; 32]);
pub static mut CPIS: u64 = 0;

pub fn pda(id: &Pubkey, seeds: &[&[u8]]) -> Pubkey { Pubkey::find_program_address(seeds, id).0 }

impl World {
    pub fn new(id: Pubkey, slot: u64) -> World {
        unsafe {
            PROGRAM = id;
            CPIS = 0;
            rt::SX_CPI = Some(cpi);
            rt::SX_SLOT = slot;
        }
        let mut w = World { id, accs: vec![] };
        w.add(token_program());
        w.add(system());
        w.add(rent_sysvar());
        w
    }
    pub fn set_slot(&self, slot: u64) { unsafe { rt::SX_SLOT = slot } }
    /// registers an account under its own address
    pub fn add(&mut self, i: Info) -> Info { self.accs.push((*i.key, i.clone())); i }
    /// registers an account under a handle: whenever `handle` is listed in the
    /// instruction, `i` (which may have any address) is passed.
    pub fn add_as(&mut self, handle: Pubkey, i: Info) -> Info { self.accs.push((handle, i.clone())); i }
    pub fn get(&self, handle: &Pubkey) -> Info { self.accs.iter().rev().find(|(k, _)| k == handle).expect("unknown account").1.clone() }
    pub fn set(&mut self, handle: &Pubkey, i: Info) { self.accs.push((*handle, i)); }
    /// Sends one instruction to the program's real entry point.
    pub fn send(
        &self,
        entry: fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult,
        metas: Vec<AccountMeta>,
        data: Vec<u8>,
    ) -> std::result::Result<(), ProgramError> {
        let infos: Vec<Info> = metas.iter().map(|m| self.get(&m.pubkey)).collect();
        let infos: &'static [Info] = Box::leak(infos.into_boxed_slice());
        // a panic fails the transaction, and undoes what it did
        match sx::attempt(|| entry(&self.id, infos, &data)) { Some(r) => r, None => {
            // what the panic left borrowed is free again
            for i in infos.iter() { unsafe {
                let d = std::rc::Rc::as_ptr(&i.data) as *mut std::cell::RefCell<&'static mut [u8]>;
                std::ptr::write(d, std::cell::RefCell::new(std::ptr::read((*d).as_ptr())));
                let l = std::rc::Rc::as_ptr(&i.lamports) as *mut std::cell::RefCell<&'static mut u64>;
                std::ptr::write(l, std::cell::RefCell::new(std::ptr::read((*l).as_ptr())));
            } }
            Err(ProgramError::Custom(PANIC))
        } }
    }
}
/// the error code standing for a panic
pub const PANIC: u32 = 0x7000_0000;
pub fn code(r: &std::result::Result<(), ProgramError>) -> u64 {
    match r { Ok(()) => 0, Err(ProgramError::Custom(c)) => *c as u64, Err(_) => 1 << 32 }
}

// ------------------------------------------------------------------------ CPIs
fn bad<T>(n: u32) -> std::result::Result<T, ProgramError> { Err(ProgramError::Custom(0x5000_0000 + n)) }

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let program = unsafe { PROGRAM };
    unsafe { CPIS += 1 };
    let infos: &[Info] = unsafe { std::mem::transmute(infos) };
    let pdas: Vec<Pubkey> = seeds.iter().map(|s| Pubkey::create_program_address(s, &program).unwrap()).collect();
    let mut a: Vec<Info> = vec![];
    for m in ix.accounts.iter() {
        let i = match infos.iter().find(|i| *i.key == m.pubkey) { Some(i) => i.clone(), None => return bad(1) };
        // privileges cannot be extended, except for the caller's own PDAs
        if m.is_signer && !i.is_signer && !pdas.iter().any(|p| *p == m.pubkey) { return bad(2); }
        if m.is_writable && !i.is_writable { return bad(3); }
        let mut i = i;
        i.is_signer = m.is_signer;
        a.push(i);
    }
    if ix.program_id == anchor_spl::token::ID { return token_cpi(&ix.data, &a); }
    if ix.program_id == system_program::ID { return system_cpi(&ix.data, &a); }
    bad(4)
}
fn is_token_account(i: &Info) -> bool { *i.owner == anchor_spl::token::ID && i.data_len() == 165 && i.data.borrow()[108] == 1 }
fn is_mint(i: &Info) -> bool { *i.owner == anchor_spl::token::ID && i.data_len() == 82 && i.data.borrow()[45] == 1 }
fn authorised(acc_owner: &Pubkey, i: &Info) -> bool { *acc_owner == *i.key && i.is_signer }

fn token_cpi(d: &[u8], a: &[Info]) -> ProgramResult {
    match d[0] {
        3 => {
            let (src, dst, auth) = (&a[0], &a[1], &a[2]);
            let n = u64_at(d, 1);
            if !is_token_account(src) || !is_token_account(dst) { return bad(10); }
            if tok_mint(src) != tok_mint(dst) { return bad(11); }
            if !authorised(&tok_owner(src), auth) { return bad(12); }
            if bal(src) < n { return bad(13); }
            if src.key == dst.key { return Ok(()); }
            let to = match bal(dst).checked_add(n) { Some(x) => x, None => return bad(14) };
            put_u64(src, 64, bal(src) - n);
            put_u64(dst, 64, to);
            Ok(())
        }
        7 => {
            let (m, dst, auth) = (&a[0], &a[1], &a[2]);
            let n = u64_at(d, 1);
            if !is_mint(m) || !is_token_account(dst) || tok_mint(dst) != *m.key { return bad(20); }
            if m.data.borrow()[0] != 1 || !authorised(&key_at(&m.data.borrow(), 4), auth) { return bad(21); }
            let s = match supply(m).checked_add(n) { Some(x) => x, None => return bad(22) };
            let to = match bal(dst).checked_add(n) { Some(x) => x, None => return bad(23) };
            put_u64(m, 36, s);
            put_u64(dst, 64, to);
            Ok(())
        }
        8 => {
            let (src, m, auth) = (&a[0], &a[1], &a[2]);
            let n = u64_at(d, 1);
            if !is_mint(m) || !is_token_account(src) || tok_mint(src) != *m.key { return bad(30); }
            if !authorised(&tok_owner(src), auth) { return bad(31); }
            if bal(src) < n { return bad(32); }
            let s = match supply(m).checked_sub(n) { Some(x) => x, None => return bad(33) };
            put_u64(m, 36, s);
            put_u64(src, 64, bal(src) - n);
            Ok(())
        }
        9 => {
            let (src, dst, auth) = (&a[0], &a[1], &a[2]);
            if !is_token_account(src) || src.key == dst.key { return bad(40); }
            if bal(src) != 0 { return bad(41); }
            if !authorised(&tok_owner(src), auth) { return bad(42); }
            let l = src.lamports();
            **dst.lamports.borrow_mut() += l;
            **src.lamports.borrow_mut() = 0;
            src.data.borrow_mut()[108] = 0;
            Ok(())
        }
        // InitializeAccount (owner in the accounts), InitializeAccount2/3 (owner in the data)
        1 | 16 | 18 => {
            let owner = if d[0] == 1 { *a[2].key } else { key_at(d, 1) };
            let (acc, m) = (&a[0], &a[1]);
            if *acc.owner != anchor_spl::token::ID || acc.data_len() != 165 || acc.data.borrow()[108] != 0 { return bad(50); }
            if !is_mint(m) { return bad(51); }
            acc.data.borrow_mut().copy_from_slice(&token_data(m.key, &owner, 0));
            Ok(())
        }
        _ => bad(60),
    }
}
fn assign(i: &Info, owner: Pubkey) { unsafe { std::ptr::write(i.owner as *const Pubkey as *mut Pubkey, owner) } }
fn system_cpi(d: &[u8], a: &[Info]) -> ProgramResult {
    let tag = u32::from_le_bytes([d[0], d[1], d[2], d[3]]);
    let unused = |i: &Info| *i.owner == system_program::ID && i.data_len() == 0;
    match tag {
        0 => {
            let (from, to) = (&a[0], &a[1]);
            let (lamports, space, owner) = (u64_at(d, 4), u64_at(d, 12), key_at(d, 20));
            if to.lamports() != 0 || !unused(to) || *from.owner != system_program::ID || from.lamports() < lamports { return bad(70); }
            **from.lamports.borrow_mut() -= lamports;
            **to.lamports.borrow_mut() += lamports;
            *to.data.borrow_mut() = buf(&vec![0u8; space as usize]);
            assign(to, owner);
            Ok(())
        }
        1 => { if !unused(&a[0]) { return bad(71); } assign(&a[0], key_at(d, 4)); Ok(()) }
        2 => {
            let (from, to, n) = (&a[0], &a[1], u64_at(d, 4));
            if *from.owner != system_program::ID || from.lamports() < n { return bad(72); }
            **from.lamports.borrow_mut() -= n;
            **to.lamports.borrow_mut() += n;
            Ok(())
        }
        8 => { if !unused(&a[0]) { return bad(73); } *a[0].data.borrow_mut() = buf(&vec![0u8; u64_at(d, 4) as usize]); Ok(()) }
        _ => bad(79),
    }
}

// ------------------------------------------------------------ instruction data
pub struct Raw(pub Vec<u8>);
impl Raw {
    pub fn new(d: [u8; 8]) -> Raw { let mut v = Vec::with_capacity(256); v.extend_from_slice(&d); Raw(v) }
    pub fn u64(mut self, x: u64) -> Raw { self.0.extend_from_slice(&x.to_le_bytes()); self }
    pub fn key(mut self, k: &Pubkey) -> Raw { self.0.extend_from_slice(k.as_ref()); self }
    pub fn list(mut self, l: &[(Pubkey, u64)]) -> Raw {
        self.0.extend_from_slice(&(l.len() as u32).to_le_bytes());
        for (k, x) in l { self = self.key(k).u64(*x); }
        self
    }
}
