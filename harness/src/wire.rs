//! Independent description of the program's interface: instruction encodings,
//! account lists, derived addresses and the fixed account headers. Nothing here
//! uses the program's own encoders, so that drift shows.
use crate::svm::{Acc, World};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
    system_program, sysvar,
};

pub const DAY: u64 = 86_400;
pub const MINING_LEN: usize = 1776;
pub const POOL_LEN: usize = 64_480;
pub const MINING_CAP: usize = 50;
pub const INDEX_CAP: usize = 1095;

pub fn pid() -> Pubkey {
    mplx_rewards::id()
}

/// Lockup codes on the wire.
pub const NONE: u8 = 0;
pub const FLEX: u8 = 1;
pub const M3: u8 = 2;
pub const M6: u8 = 3;
pub const Y1: u8 = 4;

pub fn mult(l: u8) -> u64 {
    [0, 1, 2, 4, 6].get(l as usize).copied().unwrap_or(0)
}
pub fn lock_days(l: u8) -> u64 {
    [0, 5, 90, 180, 365].get(l as usize).copied().unwrap_or(0)
}
pub fn day(t: u64) -> u64 {
    t - t % DAY
}
pub fn expiry(l: u8, t: u64) -> u64 {
    day(t) + lock_days(l) * DAY
}

pub fn mining_pda(owner: &Pubkey, pool: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"mining", owner.as_ref(), pool.as_ref()], &pid())
}
pub fn vault_pda(pool: &Pubkey, mint: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"vault", pool.as_ref(), mint.as_ref()], &pid())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Data {
    InitPool { fill: Pubkey, dist: Pubkey },
    Fill { rewards: u64, ends: u64 },
    InitMining { owner: Pubkey },
    Deposit { amount: u64, lock: u8, owner: Pubkey, delegate: Pubkey },
    Withdraw { amount: u64, owner: Pubkey, delegate: Pubkey },
    Claim,
    Extend { old: u8, new: u8, start: u64, base: u64, add: u64, owner: Pubkey, delegate: Pubkey },
    Distribute,
    Close,
    ChangeDelegate { amount: u64, new: Pubkey },
    Slash { owner: Pubkey, native: u64, weighted: u64, date: Option<u64> },
    Penalty { owner: Pubkey, n: u64 },
}

struct W(Vec<u8>);
impl W {
    fn b(mut self, x: u8) -> W {
        self.0.push(x);
        self
    }
    fn u(mut self, x: u64) -> W {
        self.0.extend(x.to_le_bytes());
        self
    }
    fn k(mut self, x: &Pubkey) -> W {
        self.0.extend(x.to_bytes());
        self
    }
}

pub fn encode(d: &Data) -> Vec<u8> {
    let w = |n: u8| W(vec![n]);
    match d {
        Data::InitPool { fill, dist } => w(0).k(fill).k(dist).0,
        Data::Fill { rewards, ends } => w(1).u(*rewards).u(*ends).0,
        Data::InitMining { owner } => w(2).k(owner).0,
        Data::Deposit { amount, lock, owner, delegate } => {
            w(3).u(*amount).b(*lock).k(owner).k(delegate).0
        }
        Data::Withdraw { amount, owner, delegate } => w(4).u(*amount).k(owner).k(delegate).0,
        Data::Claim => w(5).0,
        Data::Extend { old, new, start, base, add, owner, delegate } => {
            w(6).b(*old).b(*new).u(*start).u(*base).u(*add).k(owner).k(delegate).0
        }
        Data::Distribute => w(7).0,
        Data::Close => w(8).0,
        Data::ChangeDelegate { amount, new } => w(9).u(*amount).k(new).0,
        Data::Slash { owner, native, weighted, date } => {
            let x = w(10).k(owner).u(*native).u(*weighted);
            match date {
                None => x.b(0).0,
                Some(d) => x.b(1).u(*d).0,
            }
        }
        Data::Penalty { owner, n } => w(11).k(owner).u(*n).0,
    }
}

struct R<'a>(&'a [u8]);
impl R<'_> {
    fn b(&mut self) -> Option<u8> {
        let (x, r) = self.0.split_first()?;
        self.0 = r;
        Some(*x)
    }
    fn u(&mut self) -> Option<u64> {
        if self.0.len() < 8 {
            return None;
        }
        let (x, r) = self.0.split_at(8);
        self.0 = r;
        Some(u64::from_le_bytes(x.try_into().unwrap()))
    }
    fn k(&mut self) -> Option<Pubkey> {
        if self.0.len() < 32 {
            return None;
        }
        let (x, r) = self.0.split_at(32);
        self.0 = r;
        Some(Pubkey::new_from_array(x.try_into().unwrap()))
    }
    fn lock(&mut self) -> Option<u8> {
        self.b().filter(|l| *l <= 4)
    }
}

/// What a byte string means, or None if it is not an instruction.
pub fn decode(bytes: &[u8]) -> Option<Data> {
    let mut r = R(bytes);
    let d = match r.b()? {
        0 => Data::InitPool { fill: r.k()?, dist: r.k()? },
        1 => Data::Fill { rewards: r.u()?, ends: r.u()? },
        2 => Data::InitMining { owner: r.k()? },
        3 => Data::Deposit { amount: r.u()?, lock: r.lock()?, owner: r.k()?, delegate: r.k()? },
        4 => Data::Withdraw { amount: r.u()?, owner: r.k()?, delegate: r.k()? },
        5 => Data::Claim,
        6 => Data::Extend {
            old: r.lock()?,
            new: r.lock()?,
            start: r.u()?,
            base: r.u()?,
            add: r.u()?,
            owner: r.k()?,
            delegate: r.k()?,
        },
        7 => Data::Distribute,
        8 => Data::Close,
        9 => Data::ChangeDelegate { amount: r.u()?, new: r.k()? },
        10 => Data::Slash {
            owner: r.k()?,
            native: r.u()?,
            weighted: r.u()?,
            date: match r.b()? {
                0 => None,
                1 => Some(r.u()?),
                _ => return None,
            },
        },
        11 => Data::Penalty { owner: r.k()?, n: r.u()? },
        _ => return None,
    };
    r.0.is_empty().then_some(d)
}

/// Role of an account in an instruction's account list.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    Pool,
    Mint,
    Vault,
    Mining,
    Delegate,
    OldDelegate,
    DepositAuth,
    DistAuth,
    FillAuth,
    Owner,
    Payer,
    Source,
    Dest,
    Target,
    Rent,
    TokenProgram,
    SystemProgram,
}

/// (role, signer, writable) of each account of each instruction.
pub fn layout(tag: u8) -> &'static [(Role, bool, bool)] {
    use Role::*;
    match tag {
        0 => &[
            (Pool, false, true),
            (Mint, false, false),
            (Vault, false, true),
            (Payer, true, true),
            (DepositAuth, true, false),
            (Rent, false, false),
            (TokenProgram, false, false),
            (SystemProgram, false, false),
        ],
        1 => &[
            (Pool, false, true),
            (Mint, false, false),
            (Vault, false, true),
            (FillAuth, true, false),
            (Source, false, true),
            (TokenProgram, false, false),
        ],
        2 => &[(Pool, false, true), (Mining, false, true), (Payer, true, true), (SystemProgram, false, false)],
        3 | 4 | 6 => &[
            (Pool, false, true),
            (Mining, false, true),
            (DepositAuth, true, false),
            (Delegate, false, true),
        ],
        5 => &[
            (Pool, false, false),
            (Mint, false, false),
            (Vault, false, true),
            (Mining, false, true),
            (Owner, true, false),
            (DepositAuth, true, false),
            (Dest, false, true),
            (TokenProgram, false, false),
        ],
        7 => &[(Pool, false, true), (DistAuth, true, false)],
        8 => &[
            (Mining, false, true),
            (Owner, true, false),
            (Target, false, true),
            (DepositAuth, true, false),
            (Pool, false, true),
        ],
        9 => &[
            (Pool, false, true),
            (Mining, false, true),
            (DepositAuth, true, false),
            (Owner, true, false),
            (OldDelegate, false, true),
            (Delegate, false, true),
        ],
        10 | 11 => &[(DepositAuth, true, false), (Pool, false, true), (Mining, false, true)],
        _ => &[],
    }
}

pub fn tag(d: &Data) -> u8 {
    encode(d)[0]
}

pub fn name(tag: u8) -> &'static str {
    [
        "InitializePool",
        "FillVault",
        "InitializeMining",
        "DepositMining",
        "WithdrawMining",
        "Claim",
        "ExtendStake",
        "DistributeRewards",
        "CloseMining",
        "ChangeDelegate",
        "Slash",
        "DecreaseRewards",
    ][tag as usize]
}

/// Keys by role; unused ones stay default.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Keys {
    pub pool: Pubkey,
    pub mint: Pubkey,
    pub vault: Pubkey,
    pub mining: Pubkey,
    pub delegate: Pubkey,
    pub old_delegate: Pubkey,
    pub deposit_auth: Pubkey,
    pub dist_auth: Pubkey,
    pub fill_auth: Pubkey,
    pub owner: Pubkey,
    pub payer: Pubkey,
    pub source: Pubkey,
    pub dest: Pubkey,
    pub target: Pubkey,
}

impl Keys {
    pub fn by(&self, r: Role) -> Pubkey {
        match r {
            Role::Pool => self.pool,
            Role::Mint => self.mint,
            Role::Vault => self.vault,
            Role::Mining => self.mining,
            Role::Delegate => self.delegate,
            Role::OldDelegate => self.old_delegate,
            Role::DepositAuth => self.deposit_auth,
            Role::DistAuth => self.dist_auth,
            Role::FillAuth => self.fill_auth,
            Role::Owner => self.owner,
            Role::Payer => self.payer,
            Role::Source => self.source,
            Role::Dest => self.dest,
            Role::Target => self.target,
            Role::Rent => sysvar::rent::id(),
            Role::TokenProgram => spl_token::id(),
            Role::SystemProgram => system_program::id(),
        }
    }
}

pub fn instruction(d: &Data, k: &Keys) -> Instruction {
    let data = encode(d);
    let accounts = layout(data[0])
        .iter()
        .map(|(r, s, w)| AccountMeta { pubkey: k.by(*r), is_signer: *s, is_writable: *w })
        .collect();
    Instruction { program_id: pid(), accounts, data }
}

pub fn signers(ix: &Instruction) -> Vec<Pubkey> {
    ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect()
}

fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new_from_array(d[o..o + 32].try_into().unwrap())
}
fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
fn u128_at(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MiningHdr {
    pub pool: Pubkey,
    pub owner: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub share: u64,
    pub unclaimed: u64,
    pub sfo: u64,
    pub bump: u8,
    pub ty: u8,
}

pub fn mining_hdr(a: &Acc) -> Option<MiningHdr> {
    if a.owner != pid() || a.data.len() != MINING_LEN {
        return None;
    }
    let d = &a.data;
    Some(MiningHdr {
        pool: key_at(d, 0),
        owner: key_at(d, 32),
        mint: key_at(d, 64),
        index: u128_at(d, 96),
        share: u64_at(d, 112),
        unclaimed: u64_at(d, 120),
        sfo: u64_at(d, 128),
        bump: d[136],
        ty: d[137],
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolHdr {
    pub deposit_auth: Pubkey,
    pub dist_auth: Pubkey,
    pub fill_auth: Pubkey,
    pub mint: Pubkey,
    pub index: u128,
    pub total: u64,
    pub ends: u64,
    pub avail: u64,
    pub bump: u8,
    pub ty: u8,
}

pub fn pool_hdr(a: &Acc) -> Option<PoolHdr> {
    if a.owner != pid() || a.data.len() != POOL_LEN {
        return None;
    }
    let d = &a.data;
    Some(PoolHdr {
        deposit_auth: key_at(d, 0),
        dist_auth: key_at(d, 32),
        fill_auth: key_at(d, 64),
        mint: key_at(d, 96),
        index: u128_at(d, 128),
        total: u64_at(d, 144),
        ends: u64_at(d, 152),
        avail: u64_at(d, 160),
        bump: d[168],
        ty: d[169],
    })
}

pub struct TokenHdr {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
}
pub fn token_hdr(a: &Acc) -> Option<TokenHdr> {
    if a.owner != spl_token::id() || a.data.len() != 165 || !(1..=2).contains(&a.data[108]) {
        return None;
    }
    Some(TokenHdr { mint: key_at(&a.data, 0), owner: key_at(&a.data, 32), amount: u64_at(&a.data, 64) })
}

/// Necessary conditions for an instruction to be acceptable at all, whatever the
/// amounts: accounts exist, belong together, and the right keys signed. Written
/// from the property statements, not from the program's checks.
pub fn coherent(w: &World, ix: &Instruction) -> Result<(), &'static str> {
    let d = decode(&ix.data).ok_or("not an instruction")?;
    let lay = layout(ix.data[0]);
    if ix.accounts.len() < lay.len() {
        return Err("too few accounts");
    }
    let at = |r: Role| lay.iter().position(|l| l.0 == r).map(|i| ix.accounts[i].pubkey);
    let signed = |k: &Pubkey| ix.accounts.iter().any(|m| m.pubkey == *k && m.is_signer);
    // A required signature must be at its own position (a key is the same account
    // wherever it occurs, so a signature anywhere in the list counts).
    for (i, (_, s, _)) in lay.iter().enumerate() {
        if *s && !signed(&ix.accounts[i].pubkey) {
            return Err("signature missing");
        }
    }
    let pool_key = at(Role::Pool).unwrap();
    let pool_acc = w.get(&pool_key).ok_or("no pool")?;
    if pool_acc.owner != pid() {
        return Err("pool not owned by program");
    }
    let initialised = pool_hdr(pool_acc).filter(|p| p.ty == 1);
    if let Some(r) = at(Role::Rent) {
        if r != sysvar::rent::id() {
            return Err("wrong rent sysvar");
        }
    }
    if let Some(r) = at(Role::TokenProgram) {
        if r != spl_token::id() {
            return Err("wrong token program");
        }
    }
    if let Some(r) = at(Role::SystemProgram) {
        if r != system_program::id() {
            return Err("wrong system program");
        }
    }
    if let Data::InitPool { .. } = d {
        if pool_acc.data.len() != POOL_LEN {
            return Err("pool account has the wrong size");
        }
        if initialised.is_some() {
            return Err("pool already initialised");
        }
        let mint = at(Role::Mint).unwrap();
        match w.get(&mint) {
            Some(m) if m.owner == spl_token::id() && m.data.len() == 82 => {}
            _ => return Err("not a mint"),
        }
        if at(Role::Vault) != Some(vault_pda(&pool_key, &mint).0) {
            return Err("not the pool's vault address");
        }
        return Ok(());
    }
    if let Data::InitMining { owner } = &d {
        if at(Role::Mining) != Some(mining_pda(owner, &pool_key).0) {
            return Err("not the mining address");
        }
        if w.get(&at(Role::Mining).unwrap()).is_some_and(|a| a.owner == pid()) {
            return Err("mining already initialised");
        }
        return Ok(());
    }
    let pool = initialised.ok_or("pool not initialised")?;
    if at(Role::DepositAuth).is_some_and(|k| k != pool.deposit_auth) {
        return Err("not the pool's deposit authority");
    }
    if at(Role::FillAuth).is_some_and(|k| k != pool.fill_auth) {
        return Err("not the pool's fill authority");
    }
    if at(Role::DistAuth).is_some_and(|k| k != pool.dist_auth) {
        return Err("not the pool's distribute authority");
    }
    if at(Role::Mint).is_some_and(|k| k != pool.mint) {
        return Err("not the pool's mint");
    }
    if at(Role::Vault).is_some_and(|k| k != vault_pda(&pool_key, &pool.mint).0) {
        return Err("not the pool's vault");
    }
    let mining_of = |k: &Pubkey| -> Option<MiningHdr> {
        let h = mining_hdr(w.get(k)?)?;
        (h.ty == 2 && h.pool == pool_key && mining_pda(&h.owner, &pool_key).0 == *k).then_some(h)
    };
    let mut owner = None;
    if let Some(m) = at(Role::Mining) {
        let h = mining_of(&m).ok_or("not a mining of the pool")?;
        let named = match &d {
            Data::Deposit { owner, .. }
            | Data::Withdraw { owner, .. }
            | Data::Extend { owner, .. }
            | Data::Slash { owner, .. }
            | Data::Penalty { owner, .. } => Some(*owner),
            _ => at(Role::Owner),
        };
        if named != Some(h.owner) {
            return Err("mining belongs to someone else");
        }
        owner = Some(h.owner);
    }
    for r in [Role::Delegate, Role::OldDelegate] {
        let Some(k) = at(r) else { continue };
        let h = mining_of(&k).ok_or("delegate is not a mining of the pool")?;
        let named = match &d {
            Data::Deposit { delegate, .. }
            | Data::Withdraw { delegate, .. }
            | Data::Extend { delegate, .. } => Some(*delegate),
            Data::ChangeDelegate { new, .. } if r == Role::Delegate => Some(*new),
            _ => None,
        };
        // an account used as its own delegate means "no delegate"
        if Some(h.owner) != owner && named.is_some_and(|n| n != h.owner) {
            return Err("delegate account is not the named delegate's");
        }
    }
    if matches!(d, Data::ChangeDelegate { .. }) && at(Role::Delegate) == at(Role::OldDelegate) {
        return Err("delegates are the same");
    }
    if let Some(k) = at(Role::Dest) {
        let t = w.get(&k).and_then(token_hdr).ok_or("destination is not a token account")?;
        if Some(t.owner) != owner {
            return Err("destination is not the staker's");
        }
    }
    if let Some(k) = at(Role::Source) {
        let t = w.get(&k).and_then(token_hdr).ok_or("source is not a token account")?;
        if t.mint != pool.mint {
            return Err("source holds another mint");
        }
        if k == at(Role::Vault).unwrap() {
            return Err("source is the vault itself");
        }
    }
    if let Some(k) = at(Role::Target) {
        if w.get(&k).is_some_and(|a| a.owner != system_program::id()) {
            return Err("target is not a system account");
        }
    }
    Ok(())
}
