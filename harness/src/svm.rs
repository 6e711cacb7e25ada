//! A miniature Solana runtime: enough of the real rules to execute the rewards
//! program (natively compiled from /repo), the real SPL token processor and the
//! system program, against an in-memory set of accounts. Worlds are values.
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::Instruction,
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
    system_program, sysvar,
};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{Arc, Once},
};

const PAD: usize = 10_240;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Acc {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
}

#[derive(Clone)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Arc<Acc>>,
    pub now: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxErr {
    /// The program returned an error.
    Program(ProgramError),
    /// A program it called returned an error.
    Called(ProgramError),
    /// The program panicked: the transaction aborts.
    Panic(String),
    /// The runtime refused (missing signature, privilege, rent, balance ...).
    Runtime(&'static str),
}

impl TxErr {
    pub fn short(&self) -> String {
        match self {
            TxErr::Program(e) => format!("{e:?}"),
            TxErr::Called(e) => format!("{e:?} of a called program"),
            TxErr::Panic(m) => format!("panic: {m}"),
            TxErr::Runtime(m) => format!("runtime: {m}"),
        }
    }
}

extern "C" {
    /// The program's entry point, as the loader calls it.
    fn entrypoint(input: *mut u8) -> u64;
}

/// One account, laid out as the loader lays it out for a program.
struct Live {
    key: Pubkey,
    signer: bool,
    writable: bool,
    /// 8 bytes before its part of the buffer that all accounts share
    base: *mut u8,
    /// room for its data
    cap: usize,
    pre: Acc,
}

const OFF_HEAD: usize = 8;
const OFF_KEY: usize = 16;
const OFF_OWNER: usize = 48;
const OFF_LAMPORTS: usize = 80;
const OFF_LEN: usize = 88;
const OFF_DATA: usize = 96;

impl Live {
    /// Writes the account at `base`.
    fn new(key: Pubkey, pre: Acc, signer: bool, writable: bool, base: *mut u8) -> Live {
        unsafe {
            let b = base;
            for (i, x) in [0xff, signer as u8, writable as u8, pre.executable as u8].into_iter().enumerate() {
                b.add(OFF_HEAD + i).write(x);
            }
            std::ptr::copy_nonoverlapping(key.as_ref().as_ptr(), b.add(OFF_KEY), 32);
            (b.add(OFF_KEY - 4) as *mut u32).write(pre.data.len() as u32);
            std::ptr::copy_nonoverlapping(pre.owner.as_ref().as_ptr(), b.add(OFF_OWNER), 32);
            (b.add(OFF_LAMPORTS) as *mut u64).write(pre.lamports);
            (b.add(OFF_LEN) as *mut u64).write(pre.data.len() as u64);
            std::ptr::copy_nonoverlapping(pre.data.as_ptr(), b.add(OFF_DATA), pre.data.len());
        }
        let cap = pre.data.len() + PAD;
        Live { key, signer, writable, base, cap, pre }
    }
    fn p(&self) -> *mut u8 {
        self.base
    }
    fn lamports(&self) -> u64 {
        unsafe { (self.p().add(OFF_LAMPORTS) as *const u64).read_volatile() }
    }
    fn owner(&self) -> Pubkey {
        unsafe { Pubkey::new_from_array((self.p().add(OFF_OWNER) as *const [u8; 32]).read_volatile()) }
    }
    fn len(&self) -> usize {
        unsafe { (self.p().add(OFF_LEN) as *const u64).read_volatile() as usize }
    }
    fn data(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p().add(OFF_DATA), self.len()) }
    }
    fn info(&self) -> AccountInfo<'static> {
        unsafe {
            AccountInfo {
                key: &*(self.p().add(OFF_KEY) as *const Pubkey),
                lamports: Rc::new(RefCell::new(&mut *(self.p().add(OFF_LAMPORTS) as *mut u64))),
                data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(
                    self.p().add(OFF_DATA),
                    self.len(),
                ))),
                owner: &*(self.p().add(OFF_OWNER) as *const Pubkey),
                rent_epoch: 0,
                is_signer: self.signer,
                is_writable: self.writable,
                executable: self.pre.executable,
            }
        }
    }
    /// Checks that `program` was allowed to make the changes made since `pre`,
    /// then makes the present state the new `pre`.
    fn settle(&mut self, program: &Pubkey, writable: bool) -> Result<(), &'static str> {
        let (lam, owner) = (self.lamports(), self.owner());
        if self.len() > self.cap {
            return Err("account grew too much");
        }
        let data_changed = self.data() != &self.pre.data[..];
        if lam == self.pre.lamports && owner == self.pre.owner && !data_changed {
            return Ok(());
        }
        if self.pre.executable {
            return Err("executable account changed");
        }
        if !writable {
            return Err("read-only account changed");
        }
        let mine = self.pre.owner == *program;
        if owner != self.pre.owner && (!mine || self.data().iter().any(|b| *b != 0)) {
            return Err("owner changed illegally");
        }
        if lam < self.pre.lamports && !mine {
            return Err("external account lamport spend");
        }
        if data_changed && !mine {
            return Err("external account data modified");
        }
        self.pre.lamports = lam;
        self.pre.owner = owner;
        if data_changed {
            self.pre.data = self.data().to_vec();
        }
        Ok(())
    }
}

struct Ctx {
    lives: Vec<Live>,
    /// program id and (signer, writable) per live account of each active frame
    frames: Vec<(Pubkey, BTreeMap<Pubkey, (bool, bool)>)>,
    lamports: u128,
    now: u64,
    /// the program that agrees to everything, if it is among the accounts
    yes: Option<Pubkey>,
    ret: Option<(Pubkey, Vec<u8>)>,
    runtime_err: Option<&'static str>,
    cpi_failed: bool,
}

impl Ctx {
    fn settle_all(&mut self) -> Result<(), &'static str> {
        let (program, privs) = self.frames.last().unwrap().clone();
        for l in self.lives.iter_mut() {
            let w = privs.get(&l.key).map(|p| p.1).unwrap_or(false);
            l.settle(&program, w)?;
        }
        let sum: u128 = self.lives.iter().map(|l| l.lamports() as u128).sum();
        if sum != self.lamports {
            return Err("lamports not conserved");
        }
        Ok(())
    }
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static IN_PROGRAM: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static CAPTURE: RefCell<Option<Captured>> = const { RefCell::new(None) };
}

/// An instruction handed to the runtime, the accounts handed with it, and the
/// seeds it is signed with.
pub type Captured = (Instruction, Vec<Pubkey>, Vec<Vec<Vec<u8>>>);

/// What instruction `f` asks the runtime to call.
#[cfg(feature = "clients")]
pub fn capture(f: impl FnOnce() -> ProgramResult) -> Option<Captured> {
    init();
    CAPTURE.with(|c| *c.borrow_mut() = None);
    let _ = f();
    CAPTURE.with(|c| c.borrow_mut().take())
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, addr: *mut u8) -> u64 {
        let now = CTX.with(|c| c.borrow().as_ref().map(|c| c.now).unwrap_or(0));
        let clock = Clock {
            slot: 1 + now / 2,
            epoch_start_timestamp: now as i64,
            epoch: 1,
            leader_schedule_epoch: 2,
            unix_timestamp: now as i64,
        };
        unsafe { (addr as *mut Clock).write(clock) };
        0
    }
    fn sol_get_rent_sysvar(&self, addr: *mut u8) -> u64 {
        unsafe { (addr as *mut Rent).write(Rent::default()) };
        0
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                let pid = c.frames.last().unwrap().0;
                c.ret = if data.is_empty() { None } else { Some((pid, data.to_vec())) };
            }
        })
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| c.borrow().as_ref().and_then(|c| c.ret.clone()))
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().as_ref().map(|c| c.frames.len() as u64).unwrap_or(0))
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        if CTX.with(|c| c.borrow().is_none()) {
            let given = seeds.iter().map(|s| s.iter().map(|p| p.to_vec()).collect()).collect();
            CAPTURE.with(|c| *c.borrow_mut() = Some((ix.clone(), infos.iter().map(|i| *i.key).collect(), given)));
            return Ok(());
        }
        cpi(ix, infos, seeds).map_err(|e| match e {
            Ok(pe) => {
                CTX.with(|c| {
                    if let Some(c) = c.borrow_mut().as_mut() {
                        c.cpi_failed = true;
                    }
                });
                pe
            }
            Err(rt) => {
                CTX.with(|c| {
                    if let Some(c) = c.borrow_mut().as_mut() {
                        c.runtime_err.get_or_insert(rt);
                    }
                });
                ProgramError::InvalidArgument
            }
        })
    }
}

fn cpi(
    ix: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> Result<(), Result<ProgramError, &'static str>> {
    let rt = Err::<ProgramError, _>;
    let (caller, caller_privs) = CTX
        .with(|c| c.borrow().as_ref().map(|c| c.frames.last().unwrap().clone()))
        .ok_or(rt("no context"))?;
    // The callee must be among the caller's accounts.
    if !caller_privs.contains_key(&ix.program_id) {
        return Err(rt("unknown program"));
    }
    let mut pda = vec![];
    for s in seeds {
        pda.push(Pubkey::create_program_address(s, &caller).map_err(|_| rt("bad signer seeds"))?);
    }
    let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in &ix.accounts {
        let e = privs.entry(m.pubkey).or_insert((false, false));
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    for (k, (s, w)) in &privs {
        let Some((cs, cw)) = caller_privs.get(k) else {
            return Err(rt("CPI with an account the caller does not have"));
        };
        if *w && !*cw {
            return Err(rt("writable privilege escalated"));
        }
        if *s && !*cs && !pda.contains(k) {
            return Err(rt("signer privilege escalated"));
        }
    }
    // Build the callee's view over the caller's own account memory.
    let mut view: Vec<AccountInfo<'static>> = vec![];
    for m in &ix.accounts {
        let Some(i) = infos.iter().find(|i| i.key == &m.pubkey) else {
            return Err(rt("account info missing for CPI"));
        };
        let (s, w) = privs[&m.pubkey];
        let mut i = i.clone();
        i.is_signer = s;
        i.is_writable = w;
        view.push(unsafe { std::mem::transmute::<AccountInfo<'_>, AccountInfo<'static>>(i) });
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        c.settle_all()?;
        c.frames.push((ix.program_id, privs));
        Ok(())
    })
    .map_err(rt)?;
    let r = if ix.program_id == spl_token::id() {
        spl_token::processor::Processor::process(&ix.program_id, &view, &ix.data)
    } else if ix.program_id == system_program::id() {
        system(&view, &ix.data)
    } else if CTX.with(|c| c.borrow().as_ref().is_some_and(|c| c.yes == Some(ix.program_id))) {
        // somebody's program that agrees to everything and does nothing
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    };
    r.map_err(Ok)?;
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        c.settle_all()?;
        c.frames.pop();
        Ok(())
    })
    .map_err(rt)
}

fn resize(info: &AccountInfo<'static>, len: usize) {
    let mut d = info.data.borrow_mut();
    let p = d.as_mut_ptr();
    unsafe {
        (p.offset(-8) as *mut u64).write_volatile(len as u64);
        *d = std::slice::from_raw_parts_mut(p, len);
    }
}

/// System program: the four instructions programs use.
fn system(a: &[AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = solana_program::program_utils::limited_deserialize(data, 1232)
        .map_err(|_| ProgramError::InvalidInstructionData)?;
    let get = |i: usize| a.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    let transfer = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if from.data_len() != 0 || *from.owner != system_program::id() {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < n {
            return Err(ProgramError::Custom(1));
        }
        if from.key == to.key {
            return Ok(());
        }
        **from.lamports.borrow_mut() -= n;
        let l = to.lamports().checked_add(n).ok_or(ProgramError::ArithmeticOverflow)?;
        **to.lamports.borrow_mut() = l;
        Ok(())
    };
    let allocate = |to: &AccountInfo<'static>, space: u64| -> ProgramResult {
        if !to.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if to.data_len() != 0 || *to.owner != system_program::id() {
            return Err(ProgramError::Custom(0));
        }
        if space as usize > PAD {
            return Err(ProgramError::InvalidRealloc);
        }
        resize(to, space as usize);
        Ok(())
    };
    let assign = |to: &AccountInfo<'static>, owner: &Pubkey| -> ProgramResult {
        if to.owner == owner {
            return Ok(());
        }
        if !to.is_signer {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if *to.owner != system_program::id() {
            return Err(ProgramError::IllegalOwner);
        }
        to.assign(owner);
        Ok(())
    };
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (from, to) = (get(0)?, get(1)?);
            if to.lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            allocate(to, space)?;
            assign(to, &owner)?;
            transfer(from, to, lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(get(0)?, get(1)?, lamports),
        SystemInstruction::Allocate { space } => allocate(get(0)?, space),
        SystemInstruction::Assign { owner } => assign(get(0)?, &owner),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// The code of a program that does nothing, successfully.
pub const YES: [u8; 1] = [0xEE];

static INIT: Once = Once::new();

pub fn init() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if IN_PROGRAM.with(|f| f.get()) {
                PANIC_MSG.with(|m| *m.borrow_mut() = i.to_string());
            } else {
                old(i)
            }
        }));
    });
}

impl World {
    pub fn new(now: u64) -> World {
        init();
        let mut w = World { accts: BTreeMap::new(), now };
        let rent = Rent::default();
        // the rent sysvar account: lamports_per_byte_year u64, threshold f64, burn u8
        let mut d = vec![];
        d.extend(rent.lamports_per_byte_year.to_le_bytes());
        d.extend(rent.exemption_threshold.to_le_bytes());
        d.push(rent.burn_percent);
        w.put(sysvar::rent::id(), Acc { lamports: 1_009_200, owner: sysvar::id(), data: d, executable: false });
        for p in [spl_token::id(), system_program::id(), mplx_rewards::id()] {
            w.put(p, Acc { lamports: 1_000_000_000, owner: loader(), data: vec![1], executable: true });
        }
        w
    }
    pub fn put(&mut self, k: Pubkey, a: Acc) {
        self.accts.insert(k, Arc::new(a));
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acc> {
        self.accts.get(k).map(|a| &**a)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    /// Amount of tokens held by an SPL token account (0 if there is none).
    pub fn tokens(&self, k: &Pubkey) -> u64 {
        match self.get(k) {
            Some(a) if a.owner == spl_token::id() && a.data.len() == 165 => {
                u64::from_le_bytes(a.data[64..72].try_into().unwrap())
            }
            _ => 0,
        }
    }
    pub fn set_tokens(&mut self, k: &Pubkey, n: u64) {
        let mut a = self.get(k).unwrap().clone();
        a.data[64..72].copy_from_slice(&n.to_le_bytes());
        self.put(*k, a);
    }

    /// Runs one transaction with one instruction. On error nothing changes.
    /// `signers` are the keys whose signatures the transaction carries.
    pub fn exec(&mut self, ix: &Instruction, signers: &[Pubkey]) -> Result<Vec<u8>, TxErr> {
        let r = self.exec_part(ix, signers);
        if r.is_ok() {
            self.end_tx(&ix.accounts.iter().map(|m| m.pubkey).collect::<Vec<_>>());
        }
        r
    }

    /// Accounts left without lamports cease to exist.
    pub fn end_tx(&mut self, keys: &[Pubkey]) {
        for k in keys {
            if self.get(k).is_some_and(|a| a.lamports == 0) {
                self.accts.remove(k);
            }
        }
    }

    /// Runs one instruction of a transaction (an account closed in it is still
    /// there for the next ones).
    pub fn exec_part(&mut self, ix: &Instruction, signers: &[Pubkey]) -> Result<Vec<u8>, TxErr> {
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        let mut order = vec![];
        for m in &ix.accounts {
            if m.is_signer && !signers.contains(&m.pubkey) {
                return Err(TxErr::Runtime("transaction not signed"));
            }
            let e = privs.entry(m.pubkey).or_insert_with(|| {
                order.push(m.pubkey);
                (false, false)
            });
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        // Programs and sysvars are never writable.
        for (k, p) in privs.iter_mut() {
            if self.get(k).map(|a| a.executable || a.owner == sysvar::id()).unwrap_or(false) {
                p.1 = false;
            }
        }
        let direct = self.attempt(ix, &privs, &order, false).unwrap();
        // Some are repeated through the entry point the loader calls (not all,
        // to save time, and none that panics: that could not be caught there).
        let dice = self.now
            ^ ix.data.iter().fold(0, |h: u64, b| h.wrapping_mul(31) ^ *b as u64)
            ^ ix.accounts.iter().fold(0, |h: u64, m| h ^ m.pubkey.as_ref()[7] as u64);
        let again = ix.program_id == mplx_rewards::id()
            && match &direct {
                Err(TxErr::Panic(_)) => false,
                Err(_) => dice % 4 == 0,
                Ok(_) => dice % 8 == 0,
            };
        let r = if again { self.attempt(ix, &privs, &order, true).unwrap_or(direct) } else { direct };
        let (accs, ret) = r?;
        for (k, a) in accs {
            self.accts.insert(k, Arc::new(a));
        }
        Ok(ret)
    }

    /// Runs the instruction and returns the accounts it changed and its return
    /// data; with `raw` through the entry point, if that is possible.
    fn attempt(
        &self,
        ix: &Instruction,
        privs: &BTreeMap<Pubkey, (bool, bool)>,
        order: &[Pubkey],
        raw: bool,
    ) -> Option<Result<(Vec<(Pubkey, Acc)>, Vec<u8>), TxErr>> {
        let fail = |e: TxErr| Some(Err(e));
        // The loader's input: number of accounts, accounts, data, program.
        let pre: Vec<Acc> = order.iter().map(|k| self.get(k).cloned().unwrap_or_else(nobody)).collect();
        let mut at = vec![];
        let mut n = 8;
        let mut rows = vec![];
        let mut seen: BTreeMap<Pubkey, usize> = BTreeMap::new();
        for (i, m) in ix.accounts.iter().enumerate() {
            if let Some(first) = seen.get(&m.pubkey) {
                rows.push((n, *first));
                n += 8;
                continue;
            }
            seen.insert(m.pubkey, i);
            let j = at.len();
            at.push(n);
            n = (n + OFF_DATA - OFF_HEAD + pre[j].data.len() + PAD).next_multiple_of(8) + 8;
        }
        // The program's types need 16 byte alignment on this host, 8 on chain.
        let own = |a: &Acc| a.owner == mplx_rewards::id() && !a.data.is_empty();
        let off = |shift: usize| {
            at.iter().zip(&pre).all(|(x, a)| !own(a) || (x + OFF_DATA - OFF_HEAD + shift) % 16 == 0)
        };
        let shift = if off(0) { 0 } else { 8 };
        if raw && (!off(shift) || ix.accounts.len() > 254) {
            return None;
        }
        if !raw {
            n = 8;
            for (j, x) in at.iter_mut().enumerate() {
                *x = n;
                n = (n + OFF_DATA - OFF_HEAD + pre[j].data.len() + PAD).next_multiple_of(16) + 8;
            }
        }
        let shift = if raw { shift } else { 0 };
        let size = shift + n + 8 + ix.data.len() + 32;
        let mut buf = vec![0u128; size.div_ceil(16) + 1];
        let input = unsafe { (buf.as_mut_ptr() as *mut u8).add(shift) };
        let lives: Vec<Live> = pre
            .into_iter()
            .enumerate()
            .map(|(j, a)| {
                let k = order[j];
                Live::new(k, a, privs[&k].0, privs[&k].1, unsafe { input.add(at[j] - OFF_HEAD) })
            })
            .collect();
        if raw {
            unsafe {
                (input as *mut u64).write(ix.accounts.len() as u64);
                for (x, first) in rows {
                    input.add(x).write(first as u8);
                }
                (input.add(n) as *mut u64).write_unaligned(ix.data.len() as u64);
                std::ptr::copy_nonoverlapping(ix.data.as_ptr(), input.add(n + 8), ix.data.len());
                std::ptr::copy_nonoverlapping(ix.program_id.as_ref().as_ptr(), input.add(n + 8 + ix.data.len()), 32);
            }
        }
        let unique: BTreeMap<Pubkey, AccountInfo<'static>> =
            lives.iter().map(|l| (l.key, l.info())).collect();
        let infos: Vec<AccountInfo<'static>> =
            ix.accounts.iter().map(|m| unique[&m.pubkey].clone()).collect();
        let lamports = lives.iter().map(|l| l.lamports() as u128).sum();
        CTX.with(|c| {
            *c.borrow_mut() = Some(Ctx {
                lives,
                frames: vec![(ix.program_id, privs.clone())],
                lamports,
                now: self.now,
                yes: order.iter().find(|k| self.get(k).is_some_and(|a| a.executable && a.data == YES)).copied(),
                ret: None,
                runtime_err: None,
                cpi_failed: false,
            })
        });
        // The entry function wants a slice that lives as long as the infos.
        let slice: &'static [AccountInfo<'static>] =
            unsafe { std::mem::transmute::<&[AccountInfo<'static>], _>(&infos[..]) };
        IN_PROGRAM.with(|f| f.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| {
            if raw {
                match unsafe { entrypoint(input) } {
                    0 => Ok(()),
                    e => Err(ProgramError::from(e)),
                }
            } else if ix.program_id == mplx_rewards::id() {
                mplx_rewards::instructions::process_instruction(&ix.program_id, slice, &ix.data)
            } else if ix.program_id == spl_token::id() {
                spl_token::processor::Processor::process(&ix.program_id, slice, &ix.data)
            } else if ix.program_id == system_program::id() {
                system(slice, &ix.data)
            } else {
                Err(ProgramError::IncorrectProgramId)
            }
        }));
        IN_PROGRAM.with(|f| f.set(false));
        drop((unique, infos));
        let mut ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
        match r {
            Err(_) => return fail(TxErr::Panic(PANIC_MSG.with(|m| m.borrow().clone()))),
            Ok(Err(e)) => {
                return fail(match ctx.runtime_err {
                    Some(rt) => TxErr::Runtime(rt),
                    None if ctx.cpi_failed => TxErr::Called(e),
                    None => TxErr::Program(e),
                })
            }
            Ok(Ok(())) => {}
        }
        // A failed CPI aborts the transaction even if the program ignored it.
        if let Some(rt) = ctx.runtime_err {
            return fail(TxErr::Runtime(rt));
        }
        if ctx.cpi_failed {
            return fail(TxErr::Runtime("a called program failed"));
        }
        if ctx.frames.len() != 1 {
            return fail(TxErr::Runtime("unbalanced frames"));
        }
        if let Err(e) = ctx.settle_all() {
            return fail(TxErr::Runtime(e));
        }
        let rent = Rent::default();
        for l in &ctx.lives {
            let before = self.get(&l.key);
            let changed = match before {
                Some(b) => *b != l.pre,
                None => l.pre.lamports != 0 || !l.pre.data.is_empty(),
            };
            if changed
                && l.pre.lamports != 0
                && !rent.is_exempt(l.pre.lamports, l.pre.data.len())
                && !before.is_some_and(|b| {
                    b.lamports != 0 && !rent.is_exempt(b.lamports, b.data.len()) && b.data.len() == l.pre.data.len()
                        && l.pre.lamports <= b.lamports
                })
            {
                return fail(TxErr::Runtime("insufficient funds for rent"));
            }
        }
        let changed = ctx
            .lives
            .into_iter()
            .filter(|l| match self.get(&l.key) {
                Some(b) => *b != l.pre,
                None => l.pre.lamports != 0,
            })
            .map(|l| (l.key, l.pre))
            .collect();
        drop(buf);
        Some(Ok((changed, ctx.ret.map(|r| r.1).unwrap_or_default())))
    }

    /// Keys of the accounts that differ between two worlds.
    pub fn diff(&self, o: &World) -> Vec<Pubkey> {
        let mut v = vec![];
        for (k, a) in &self.accts {
            match o.accts.get(k) {
                Some(b) if Arc::ptr_eq(a, b) || a == b => {}
                _ => v.push(*k),
            }
        }
        for k in o.accts.keys() {
            if !self.accts.contains_key(k) {
                v.push(*k);
            }
        }
        v
    }
}

fn nobody() -> Acc {
    Acc { lamports: 0, owner: system_program::id(), data: vec![], executable: false }
}

pub fn loader() -> Pubkey {
    solana_program::bpf_loader::id()
}
