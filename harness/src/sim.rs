//! Runs the program and the model in lock step and compares what can be observed.
use crate::model::*;
use crate::svm::*;
use crate::wire::*;
use serde::{Deserialize, Serialize};
use solana_program::{
    instruction::Instruction, program_option::COption, program_pack::Pack, pubkey::Pubkey, rent::Rent,
    system_program,
};
use std::collections::BTreeMap;
use std::sync::Arc;

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct PoolCfg {
    /// 0: authorities shared with other such pools; 1: its own three; 2: one key for all three
    pub auth: u8,
    /// 0: mint shared with other such pools; 1: its own
    pub mint: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub salt: u16,
    pub t0: u64,
    pub pools: Vec<PoolCfg>,
    pub users: u8,
    /// how many users have their account opened from the start
    pub open: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Amt {
    N(u64),
    /// x / 2^16 of the natural amount (stake, weight ...), rounded down
    Frac(u16),
    All,
    /// the natural amount plus n
    Over(u64),
    /// 2^bits + off (wrapping within u64)
    Edge(u8, i8),
    /// the largest amount whose product with m still fits, plus off
    Limit(u8, i8),
    /// of a weight: the boosts of the last k dates, plus off
    Last(u8, i8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Adv {
    Secs(u32),
    /// to second `sec` of the n-th day from now
    Day(u16, u32),
    /// to the start of the k-th pending expiry date, plus off seconds
    Expiry(u8, i32),
    /// to the end date of the distribution schedule plus off
    Ends(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    Deposit { p: u8, u: u8, amt: Amt, lock: u8, del: u8 },
    Withdraw { p: u8, u: u8, s: u8, amt: Amt },
    Extend { p: u8, u: u8, s: u8, new: u8, add: Amt, tweak: u8 },
    Change { p: u8, u: u8, s: u8, new: u8, tweak: u8 },
    Slash { p: u8, u: u8, s: u8, amt: Amt, tweak: u8 },
    Penalty { p: u8, u: u8, amt: Amt },
    Claim { p: u8, u: u8, dest: u8 },
    Distribute { p: u8 },
    Fill { p: u8, amt: Amt, days: i16, sec: u32, src: u8 },
    Close { p: u8, u: u8, target: u8 },
    Open { p: u8, u: u8, prefund: u8 },
    Donate { p: u8, amt: u32 },
    Advance(Adv),
    /// n days in a row: advance one day and distribute
    Daily { p: u8, n: u16, sec: u32 },
    /// n days in a row: advance one day and deposit
    DailyDeposit { p: u8, u: u8, n: u16, amt: u32, lock: u8, dist: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
    /// random words for what a check does beyond the history itself
    #[serde(default)]
    pub x: Vec<u32>,
}

// ---------------------------------------------------------------- context

pub struct PoolCx {
    pub pool: Pubkey,
    pub mint: Pubkey,
    pub vault: Pubkey,
    pub deposit_auth: Pubkey,
    pub dist_auth: Pubkey,
    pub fill_auth: Pubkey,
    /// main, poor, someone else's, other mint
    pub sources: [Pubkey; 4],
}

pub struct UserCx {
    pub wallet: Pubkey,
    /// per pool
    pub mining: Vec<Pubkey>,
    /// per pool: main account, second account
    pub tokens: Vec<[Pubkey; 2]>,
    /// per pool: a stranger's account this user may spend from, a frozen account
    pub odd: Vec<[Pubkey; 2]>,
    pub wrong_mint: Pubkey,
}

pub struct Cx {
    pub pools: Vec<PoolCx>,
    pub users: Vec<UserCx>,
    pub payer: Pubkey,
    pub attacker: Pubkey,
    pub attacker_tokens: Vec<Pubkey>,
    pub other_mint: Pubkey,
    /// never written by anyone
    pub bystander: Pubkey,
}

pub fn key(salt: u16, label: &str, i: usize) -> Pubkey {
    let h = solana_program::hash::hashv(&[b"vh", &salt.to_le_bytes(), label.as_bytes(), &(i as u64).to_le_bytes()]);
    Pubkey::new_from_array(h.to_bytes())
}

#[derive(Clone, Debug)]
pub struct Stake {
    pub base: u64,
    pub lock: u8,
    pub start: u64,
    pub del: usize,
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub props: Vec<&'static str>,
    pub msg: String,
}

/// Collects disagreements. Those that the property under check is about count;
/// the others are reported by the checks of their own properties, and the case
/// goes on past them.
#[derive(Debug, Default)]
pub struct Out {
    pub id: &'static str,
    pub own: Vec<Mismatch>,
    pub foreign: u64,
    pub first_foreign: Option<String>,
}
impl Out {
    pub fn new(id: &'static str) -> Out {
        Out { id, ..Default::default() }
    }
    /// Whether it counts.
    pub fn add(&mut self, m: Mismatch) -> bool {
        // P20 is about these, however many entries there are
        let own = self.id == "P20" && ["P02", "P03", "P04", "P05"].iter().any(|p| m.props.contains(p));
        if own || m.props.contains(&self.id) {
            self.own.push(m);
            return true;
        }
        self.foreign += 1;
        if self.first_foreign.is_none() {
            self.first_foreign = Some(m.msg);
        }
        false
    }
    pub fn push(&mut self, m: Mismatch) {
        self.add(m);
    }
    pub fn len(&self) -> usize {
        self.own.len()
    }
    pub fn is_empty(&self) -> bool {
        self.own.is_empty()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.n.entry(k).or_default() += n;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.n {
            *self.n.entry(k).or_default() += v;
        }
    }
}

/// A fully determined operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Sem {
    Deposit { u: usize, amt: u64, lock: u8, del: usize },
    Withdraw { u: usize, amt: u64, del: usize },
    Extend { u: usize, old: u8, new: u8, start: u64, base: u64, add: u64, del: usize },
    Change { u: usize, amt: u64, old: usize, new: usize },
    Slash { u: usize, native: u64, weighted: u64, date: Option<u64> },
    Penalty { u: usize, n: u64 },
    Claim { u: usize, dest: u8 },
    Distribute,
    Fill { amount: u64, ends: u64, src: u8 },
    Close { u: usize, target: u8 },
    Open { u: usize, prefund: u8 },
}

impl Sem {
    pub fn user(&self) -> Option<usize> {
        match self {
            Sem::Deposit { u, .. }
            | Sem::Withdraw { u, .. }
            | Sem::Extend { u, .. }
            | Sem::Change { u, .. }
            | Sem::Slash { u, .. }
            | Sem::Penalty { u, .. }
            | Sem::Claim { u, .. }
            | Sem::Close { u, .. }
            | Sem::Open { u, .. } => Some(*u),
            _ => None,
        }
    }
    pub fn delegates(&self) -> Vec<usize> {
        match self {
            Sem::Deposit { u, del, .. } | Sem::Withdraw { u, del, .. } | Sem::Extend { u, del, .. } => {
                if u == del {
                    vec![]
                } else {
                    vec![*del]
                }
            }
            Sem::Change { u, old, new, .. } => [*old, *new].into_iter().filter(|d| d != u).collect(),
            _ => vec![],
        }
    }
    pub fn prop(&self) -> &'static str {
        match self {
            Sem::Deposit { .. } | Sem::Withdraw { .. } => "P04",
            Sem::Extend { .. } => "P07",
            Sem::Change { .. } => "P06",
            Sem::Slash { .. } => "P13",
            Sem::Penalty { .. } => "P14",
            Sem::Claim { .. } => "P12",
            Sem::Distribute => "P08",
            Sem::Fill { .. } => "P09",
            Sem::Close { .. } => "P15",
            Sem::Open { .. } => "P16",
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Sem::Deposit { .. } => "deposit",
            Sem::Withdraw { .. } => "withdraw",
            Sem::Extend { .. } => "extend",
            Sem::Change { .. } => "change_delegate",
            Sem::Slash { .. } => "slash",
            Sem::Penalty { .. } => "penalty",
            Sem::Claim { .. } => "claim",
            Sem::Distribute => "distribute",
            Sem::Fill { .. } => "fill",
            Sem::Close { .. } => "close",
            Sem::Open { .. } => "open",
        }
    }
}

impl Sem {
    pub fn largest(&self) -> u64 {
        match self {
            Sem::Deposit { amt, .. } | Sem::Withdraw { amt, .. } | Sem::Change { amt, .. } => *amt,
            Sem::Extend { base, add, .. } => *base.max(add),
            Sem::Slash { native, weighted, .. } => *native.max(weighted),
            Sem::Penalty { n, .. } => *n,
            Sem::Fill { amount, .. } => *amount,
            _ => 0,
        }
    }
    pub fn ok_name(&self) -> &'static str {
        match self {
            Sem::Deposit { .. } => "ok_deposit",
            Sem::Withdraw { .. } => "ok_withdraw",
            Sem::Extend { .. } => "ok_extend",
            Sem::Change { .. } => "ok_change_delegate",
            Sem::Slash { .. } => "ok_slash",
            Sem::Penalty { .. } => "ok_penalty",
            Sem::Claim { .. } => "ok_claim",
            Sem::Distribute => "ok_distribute",
            Sem::Fill { .. } => "ok_fill",
            Sem::Close { .. } => "ok_close",
            Sem::Open { .. } => "ok_open",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UObs {
    pub claim: u64,
    pub share: u64,
    pub sfo: u64,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub users: Vec<Option<Result<UObs, String>>>,
    /// total weight used by a distribution now; None if it was refused
    pub total: Result<u64, String>,
    pub hdr: PoolHdr,
    pub vault: u64,
}

#[derive(Clone)]
pub struct Sim {
    pub w: World,
    pub m: Vec<MPool>,
    pub cx: Arc<Cx>,
    pub stakes: Vec<Vec<Vec<Stake>>>,
    /// a staker's boosts exceed his weight: outside the properties' domain
    pub poisoned: bool,
    /// whose operation was refused though it should not be
    pub disputed: Option<usize>,
    /// real and model disagree: stop
    pub stop: bool,
    pub stats: Stats,
    /// observe every staker after every operation
    pub observe: bool,
    /// the latest claimable amounts seen, to check they do not change by themselves
    pub last: Vec<Option<Obs>>,
    pub trace: Option<Vec<String>>,
    /// every observation made, if wanted
    pub record: Option<Vec<(u64, usize, Obs)>>,
    /// every operation tried: time, pool, operation, accepted
    pub done: Option<Vec<(u64, usize, Sem, bool)>>,
}

pub const BIG: u64 = u64::MAX / 4;

pub fn token_acc(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acc {
    let t = spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    };
    let mut data = vec![0; 165];
    spl_token::state::Account::pack(t, &mut data).unwrap();
    Acc { lamports: Rent::default().minimum_balance(165), owner: spl_token::id(), data, executable: false }
}

/// An account of `owner` that `delegate` may spend from and close.
pub fn delegated_acc(mint: &Pubkey, owner: &Pubkey, delegate: &Pubkey) -> Acc {
    let mut a = token_acc(mint, owner, 1000);
    let mut t = spl_token::state::Account::unpack(&a.data).unwrap();
    t.delegate = COption::Some(*delegate);
    t.delegated_amount = u64::MAX;
    t.close_authority = COption::Some(*delegate);
    spl_token::state::Account::pack(t, &mut a.data).unwrap();
    a
}

/// An account which somebody else may spend `n` tokens of, and close.
pub fn approved_acc(mut a: Acc, delegate: &Pubkey, n: u64) -> Acc {
    let mut t = spl_token::state::Account::unpack(&a.data).unwrap();
    t.delegate = COption::Some(*delegate);
    t.delegated_amount = n;
    t.close_authority = COption::Some(*delegate);
    spl_token::state::Account::pack(t, &mut a.data).unwrap();
    a
}

pub fn frozen_acc(mint: &Pubkey, owner: &Pubkey) -> Acc {
    let mut a = token_acc(mint, owner, 0);
    let mut t = spl_token::state::Account::unpack(&a.data).unwrap();
    t.state = spl_token::state::AccountState::Frozen;
    spl_token::state::Account::pack(t, &mut a.data).unwrap();
    a
}

pub fn mint_acc(auth: &Pubkey) -> Acc {
    let m = spl_token::state::Mint {
        mint_authority: COption::Some(*auth),
        supply: u64::MAX,
        decimals: 6,
        is_initialized: true,
        freeze_authority: COption::None,
    };
    let mut data = vec![0; 82];
    spl_token::state::Mint::pack(m, &mut data).unwrap();
    Acc { lamports: Rent::default().minimum_balance(82), owner: spl_token::id(), data, executable: false }
}

pub fn wallet_acc() -> Acc {
    Acc { lamports: 1_000_000_000_000, owner: system_program::id(), data: vec![], executable: false }
}

pub fn blank_pool_acc() -> Acc {
    Acc { lamports: Rent::default().minimum_balance(POOL_LEN), owner: pid(), data: vec![0; POOL_LEN], executable: false }
}

/// From here on, days of a fill stand for a power of two.
pub const FAR: i16 = 20_000;

fn mm(props: &[&'static str], msg: String) -> Mismatch {
    Mismatch { props: props.to_vec(), msg }
}

/// Off by so much that a wrap, a truncation or a clamp is the likely cause.
fn far(a: u128, b: u128) -> bool {
    a.abs_diff(b) >> 31 > 0
}

impl Sim {
    /// Builds the world and initialises the pools through the program.
    pub fn new(cfg: &Cfg) -> Result<Sim, Mismatch> {
        let s = cfg.salt;
        let mut w = World::new(cfg.t0);
        let payer = key(s, "payer", 0);
        let attacker = key(s, "attacker", 0);
        let other_mint = key(s, "othermint", 0);
        let bystander = key(s, "bystander", 0);
        for k in [payer, attacker, bystander] {
            w.put(k, wallet_acc());
        }
        w.put(other_mint, mint_acc(&attacker));
        let mut pools = vec![];
        for (i, pc) in cfg.pools.iter().enumerate() {
            let ai = if pc.auth == 0 { 0 } else { i + 1 };
            let (d, x, f) = if pc.auth == 2 {
                let k = key(s, "allauth", ai);
                (k, k, k)
            } else {
                (key(s, "dep", ai), key(s, "dist", ai), key(s, "fill", ai))
            };
            let mint = key(s, "mint", if pc.mint == 0 { 0 } else { i + 1 });
            for k in [d, x, f] {
                w.put(k, wallet_acc());
            }
            w.put(mint, mint_acc(&attacker));
            let pool = key(s, "pool", i);
            w.put(pool, blank_pool_acc());
            let sources = [0, 1, 2, 3].map(|j| key(s, "source", i * 4 + j));
            // what the fill authority has approved to others does not matter
            let approve = |a: Acc| match s % 3 {
                1 => approved_acc(a, &attacker, 1 << (s / 3 % 50)),
                _ => a,
            };
            // nearly the whole supply, if it is not shared
            let alone = pc.mint != 0 || cfg.pools.iter().filter(|q| q.mint == 0).count() == 1;
            w.put(sources[0], approve(token_acc(&mint, &f, if alone { 3 * BIG - 1_000_000 } else { BIG })));
            w.put(sources[1], approve(token_acc(&mint, &f, 1000)));
            w.put(sources[2], token_acc(&mint, &attacker, BIG));
            w.put(sources[3], token_acc(&other_mint, &f, BIG));
            let vault = vault_pda(&pool, &mint).0;
            pools.push(PoolCx { pool, mint, vault, deposit_auth: d, dist_auth: x, fill_auth: f, sources });
        }
        let mut users = vec![];
        for u in 0..cfg.users as usize {
            // a staker may be an authority as well
            let wallet = match (u, s % 16) {
                (0, 7) if cfg.pools[0].auth != 2 => pools[0].fill_auth,
                (0, 11) if cfg.pools[0].auth != 2 => pools[0].dist_auth,
                _ => key(s, "user", u),
            };
            w.put(wallet, wallet_acc());
            let mut mining = vec![];
            let mut tokens = vec![];
            let mut odd = vec![];
            for (i, p) in pools.iter().enumerate() {
                mining.push(mining_pda(&wallet, &p.pool).0);
                let t = [0, 1].map(|j| key(s, "tok", (u * 8 + i) * 2 + j));
                for (j, k) in t.iter().enumerate() {
                    let a = token_acc(&p.mint, &wallet, 0);
                    let n = s as usize + u + j;
                    w.put(*k, if n % 4 == 3 { approved_acc(a, &attacker, 1 << (n / 4 % 50)) } else { a });
                }
                tokens.push(t);
                let o = [0, 1].map(|j| key(s, "oddtok", (u * 8 + i) * 2 + j));
                w.put(o[0], delegated_acc(&p.mint, &attacker, &wallet));
                w.put(o[1], frozen_acc(&p.mint, &wallet));
                odd.push(o);
            }
            let wrong_mint = key(s, "wrongtok", u);
            w.put(wrong_mint, token_acc(&other_mint, &wallet, 0));
            users.push(UserCx { wallet, mining, tokens, odd, wrong_mint });
        }
        let attacker_tokens: Vec<Pubkey> = (0..pools.len()).map(|i| key(s, "attok", i)).collect();
        for (i, k) in attacker_tokens.iter().enumerate() {
            w.put(*k, token_acc(&pools[i].mint, &attacker, 0));
        }
        let n = pools.len();
        let mut sim = Sim {
            w,
            m: vec![],
            cx: Arc::new(Cx { pools, users, payer, attacker, attacker_tokens, other_mint, bystander }),
            stakes: vec![vec![vec![]; cfg.users as usize]; n],
            poisoned: false,
            disputed: None,
            stop: false,
            stats: Stats::default(),
            observe: true,
            last: vec![None; n],
            trace: None,
            record: None,
            done: None,
        };
        for p in 0..n {
            let pc = &sim.cx.pools[p];
            let ix = instruction(
                &Data::InitPool { fill: pc.fill_auth, dist: pc.dist_auth },
                &Keys { pool: pc.pool, mint: pc.mint, vault: pc.vault, payer, deposit_auth: pc.deposit_auth, ..Default::default() },
            );
            if let Err(e) = sim.w.exec(&ix, &signers(&ix)) {
                return Err(mm(&["P16"], format!("a valid pool initialisation was refused: {}", e.short())));
            }
            sim.m.push(MPool { minings: vec![None; cfg.users as usize], ..Default::default() });
        }
        for p in 0..n {
            for u in 0..(cfg.open.min(cfg.users) as usize) {
                let ix = sim.ix(p, &Sem::Open { u, prefund: 0 });
                if let Err(e) = sim.w.exec(&ix, &signers(&ix)) {
                    return Err(mm(&["P16"], format!("opening a staker account was refused: {}", e.short())));
                }
                sim.m[p].minings[u] = Some(MMining::default());
            }
        }
        Ok(sim)
    }

    pub fn keys(&self, p: usize, u: usize, del: usize, old: usize) -> Keys {
        let (pc, uc) = (&self.cx.pools[p], &self.cx.users[u]);
        Keys {
            pool: pc.pool,
            mint: pc.mint,
            vault: pc.vault,
            mining: uc.mining[p],
            delegate: self.cx.users[del].mining[p],
            old_delegate: self.cx.users[old].mining[p],
            deposit_auth: pc.deposit_auth,
            dist_auth: pc.dist_auth,
            fill_auth: pc.fill_auth,
            owner: uc.wallet,
            payer: self.cx.payer,
            source: pc.sources[0],
            dest: uc.tokens[p][0],
            target: uc.wallet,
        }
    }

    /// The data and keys of an operation.
    pub fn call(&self, p: usize, sem: &Sem) -> (Data, Keys) {
        let u = sem.user().unwrap_or(0);
        let wal = |i: usize| self.cx.users[i].wallet;
        let (del, old) = match sem {
            Sem::Deposit { del, .. } | Sem::Withdraw { del, .. } | Sem::Extend { del, .. } => (*del, u),
            Sem::Change { old, new, .. } => (*new, *old),
            _ => (u, u),
        };
        let mut k = self.keys(p, u, del, old);
        let owner = wal(u);
        let delegate = wal(del);
        let d = match sem {
            Sem::Deposit { amt, lock, .. } => Data::Deposit { amount: *amt, lock: *lock, owner, delegate },
            Sem::Withdraw { amt, .. } => Data::Withdraw { amount: *amt, owner, delegate },
            Sem::Extend { old, new, start, base, add, .. } => {
                Data::Extend { old: *old, new: *new, start: *start, base: *base, add: *add, owner, delegate }
            }
            Sem::Change { amt, .. } => Data::ChangeDelegate { amount: *amt, new: delegate },
            Sem::Slash { native, weighted, date, .. } => {
                Data::Slash { owner, native: *native, weighted: *weighted, date: *date }
            }
            Sem::Penalty { n, .. } => Data::Penalty { owner, n: *n },
            Sem::Claim { dest, .. } => {
                k.dest = self.dest(p, u, *dest);
                Data::Claim
            }
            Sem::Distribute => Data::Distribute,
            Sem::Fill { amount, ends, src } => {
                k.source = match src {
                    0..=3 => self.cx.pools[p].sources[*src as usize],
                    _ => k.vault,
                };
                Data::Fill { rewards: *amount, ends: *ends }
            }
            Sem::Close { target, .. } => {
                k.target = self.target(p, u, *target);
                Data::Close
            }
            Sem::Open { .. } => Data::InitMining { owner },
        };
        (d, k)
    }

    pub fn dest(&self, p: usize, u: usize, dest: u8) -> Pubkey {
        let n = self.cx.users.len();
        match dest {
            0 => self.cx.users[u].tokens[p][0],
            1 => self.cx.users[u].tokens[p][1],
            2 if n > 1 => self.cx.users[(u + 1) % n].tokens[p][0],
            3 => self.cx.users[u].wrong_mint,
            4 => self.cx.pools[p].vault,
            6 => self.cx.users[u].odd[p][0],
            7 => self.cx.users[u].odd[p][1],
            _ => self.cx.attacker_tokens[p],
        }
    }

    pub fn target(&self, p: usize, u: usize, t: u8) -> Pubkey {
        match t {
            0 => self.cx.users[u].wallet,
            1 => key(0, "fresh", 0),
            2 => self.cx.attacker,
            3 => self.cx.users[u].tokens[p][0],
            _ => self.cx.payer,
        }
    }

    pub fn ix(&self, p: usize, sem: &Sem) -> Instruction {
        let (d, k) = self.call(p, sem);
        instruction(&d, &k)
    }

    pub fn mining_hdr(&self, p: usize, u: usize) -> Option<MiningHdr> {
        self.w.get(&self.cx.users[u].mining[p]).and_then(mining_hdr)
    }
    pub fn pool_hdr(&self, p: usize) -> Option<PoolHdr> {
        self.w.get(&self.cx.pools[p].pool).and_then(pool_hdr)
    }

    // ------------------------------------------------------------ observation

    /// What each staker could claim now, their weights and the total weight.
    pub fn observe(&self, p: usize) -> Obs {
        let mut w = self.w.clone();
        let mut users = vec![];
        for u in 0..self.cx.users.len() {
            if self.m[p].minings[u].is_none() {
                users.push(None);
                continue;
            }
            let ix = self.ix(p, &Sem::Claim { u, dest: 0 });
            let t0 = w.tokens(&self.cx.users[u].tokens[p][0]);
            let r = match w.exec(&ix, &signers(&ix)) {
                Err(e) => Err(e.short()),
                Ok(ret) => {
                    let t1 = w.tokens(&self.cx.users[u].tokens[p][0]);
                    let h = w.get(&self.cx.users[u].mining[p]).and_then(mining_hdr);
                    match h {
                        None => Err("staker account unreadable".into()),
                        Some(h) => {
                            if ret != (t1.wrapping_sub(t0)).to_le_bytes() {
                                Err(format!("claim returned {:?} but paid {}", ret, t1.wrapping_sub(t0)))
                            } else {
                                Ok(UObs { claim: t1.wrapping_sub(t0), share: h.share, sfo: h.sfo })
                            }
                        }
                    }
                }
            };
            users.push(Some(r));
        }
        let ix = self.ix(p, &Sem::Distribute);
        let total = match w.exec(&ix, &signers(&ix)) {
            Ok(_) => Ok(w.get(&self.cx.pools[p].pool).and_then(pool_hdr).map(|h| h.total).unwrap_or(0)),
            Err(e) => Err(e.short()),
        };
        Obs {
            users,
            total,
            hdr: self.pool_hdr(p).expect("pool readable"),
            vault: self.w.tokens(&self.cx.pools[p].vault),
        }
    }

    /// Compares an observation with the model. `sem` is the operation just made.
    fn judge(&mut self, p: usize, sem: Option<&Sem>, obs: &Obs, out: &mut Out) {
        if let Some(r) = self.record.as_mut() {
            r.push((self.w.now, p, obs.clone()));
        }
        let n0 = out.len();
        let m = &self.m[p];
        let opname = sem.map(|s| s.name()).unwrap_or("time");
        let opprop = sem.map(|s| s.prop());
        let involved: Vec<usize> =
            sem.map(|s| s.delegates().into_iter().chain(s.user()).collect()).unwrap_or_default();
        let mut backed: u128 = obs.hdr.avail as u128;
        let mut sum = 0u128;
        let mut all_ok = true;
        for (u, o) in obs.users.iter().enumerate() {
            let Some(o) = o else { continue };
            let mm_ = m.minings[u].as_ref().unwrap();
            let mut flags: Vec<&'static str> = vec![];
            if mm_.extended {
                flags.push("P07");
            }
            if mm_.slashed {
                flags.push("P13");
            }
            if mm_.penalised {
                flags.push("P14");
            }
            match o {
                Err(e) => {
                    all_ok = false;
                    let mut props = vec!["P01", "P02", "P12"];
                    props.extend(&flags);
                    out.push(mm(&props, format!("after {opname}: staker {u} cannot claim: {e}")));
                }
                Ok(o) => {
                    backed += o.claim as u128;
                    sum += o.share as u128 + o.sfo as u128;
                    if o.share != mm_.share {
                        let mut props = vec!["P04"];
                        if far(o.share as u128, mm_.share as u128) {
                            props.push("P19");
                        }
                        match sem {
                            Some(s) if involved.contains(&u) => props.push(s.prop()),
                            Some(Sem::Distribute) | None => {}
                            Some(_) => props.push("P21"),
                        }
                        if sem.is_some_and(|s| s.delegates().contains(&u)) {
                            props.push("P06");
                            props.push("P21");
                        }
                        props.extend(&flags);
                        out.push(mm(
                            &props,
                            format!("after {opname}: own weight of staker {u} is {} but should be {}", o.share, mm_.share),
                        ));
                    }
                    if o.sfo != mm_.sfo {
                        let mut props = vec!["P06"];
                        if far(o.sfo as u128, mm_.sfo as u128) {
                            props.push("P19");
                        }
                        if matches!(sem, Some(Sem::Extend { .. })) {
                            props.push("P07");
                        }
                        if sem.is_some() && !involved.contains(&u) {
                            props.push("P21");
                        }
                        out.push(mm(
                            &props,
                            format!("after {opname}: stake delegated to {u} is {} but should be {}", o.sfo, mm_.sfo),
                        ));
                    }
                    let mut with_probe = mm_.clone();
                    with_probe.touches += 1;
                    let (lo, hi) = with_probe.bounds();
                    let got = mm_.claimed + o.claim as u128;
                    if got < lo || got > hi {
                        let mut props = vec!["P02"];
                        if far(got.clamp(lo, hi), got) {
                            props.push("P19");
                        }
                        if mm_.delegated_to {
                            props.push("P06");
                        }
                        if !matches!(sem, Some(Sem::Distribute)) {
                            props.push("P03");
                            if let (Some(pr), true) = (opprop, involved.contains(&u)) {
                                props.push(pr);
                            }
                        }
                        props.extend(&flags);
                        out.push(mm(
                            &props,
                            format!("after {opname}: staker {u} has earned {got}, exact pro-rata bounds are [{lo}, {hi}]"),
                        ));
                    }
                }
            }
        }
        let expect_total = m.clone().distribute(self.w.now).is_ok();
        match &obs.total {
            Ok(t) => {
                if *t != m.total {
                    let mut props = vec!["P05"];
                    if far(*t as u128, m.total as u128) {
                        props.push("P19");
                    }
                    if let Some(s) = sem {
                        if !matches!(s, Sem::Distribute) {
                            props.push(s.prop());
                        }
                        if !s.delegates().is_empty() {
                            props.push("P06");
                        }
                    } else {
                        for x in m.minings.iter().flatten() {
                            if x.extended {
                                props.push("P07");
                            }
                            if x.slashed {
                                props.push("P13");
                            }
                            if x.penalised {
                                props.push("P14");
                            }
                        }
                    }
                    out.push(mm(
                        &props,
                        format!("after {opname}: total weight of the pool is {t} but should be {}", m.total),
                    ));
                }
                // independent of the model's ledger: never below the stakers' sum
                if all_ok && (*t as u128) < sum {
                    out.push(mm(&["P05"], format!("after {opname}: total weight {t} is below the stakers' sum {sum}")));
                }
                if all_ok && (*t as u128) != sum && !m.forfeits {
                    out.push(mm(&["P05"], format!("after {opname}: total weight {t} differs from the stakers' sum {sum}")));
                }
                if !expect_total && m.total == 0 && !m.days.contains(&day(self.w.now)) {
                    out.push(mm(&["P08"], format!("after {opname}: a distribution succeeds with nothing staked")));
                }
            }
            Err(e) => {
                if expect_total {
                    out.push(mm(&["P08"], format!("after {opname}: a valid distribution is refused: {e}")));
                }
            }
        }
        if (obs.vault as u128) < backed {
            out.push(mm(
                &["P01"],
                format!("after {opname}: vault holds {} but owes {} (awaiting distribution {})", obs.vault, backed, obs.hdr.avail),
            ));
        }
        if obs.hdr.avail != m.avail || obs.hdr.ends != m.ends {
            let props: &[&'static str] = match sem {
                Some(Sem::Distribute) => &["P08"],
                Some(Sem::Fill { .. }) => &["P09"],
                _ => &["P21"],
            };
            out.push(mm(
                props,
                format!(
                    "after {opname}: awaiting distribution {} until {} but should be {} until {}",
                    obs.hdr.avail, obs.hdr.ends, m.avail, m.ends
                ),
            ));
        }
        if obs.vault as u128 != m.vault() {
            let props: &[&'static str] = match sem {
                Some(Sem::Claim { .. }) => &["P12"],
                Some(Sem::Fill { .. }) => &["P09"],
                Some(Sem::Distribute) => &["P08"],
                _ => &["P21"],
            };
            out.push(mm(props, format!("after {opname}: vault holds {} but should hold {}", obs.vault, m.vault())));
        }
        if out.len() > n0 {
            self.stop = true;
        }
    }

    /// Claimable amounts must not change except by claims and distributions.
    fn judge_delta(
        &mut self,
        p: usize,
        sem: Option<&Sem>,
        before: &Obs,
        after: &Obs,
        out: &mut Out,
    ) {
        let slack = if sem.is_none() { 60 } else { 1 };
        for u in 0..before.users.len() {
            let (Some(Some(Ok(b))), Some(Some(Ok(a)))) = (before.users.get(u), after.users.get(u)) else {
                continue;
            };
            let mut want = b.claim;
            if let Some(Sem::Claim { u: cu, .. }) = sem {
                if *cu == u {
                    want = 0;
                }
            }
            if a.claim > want || a.claim + slack < want {
                let mut props = vec!["P03"];
                if let Some(s) = sem {
                    if s.user() == Some(u) || s.delegates().contains(&u) {
                        props.push(s.prop());
                        if s.delegates().contains(&u) {
                            props.push("P06");
                            props.push("P21");
                        }
                    } else {
                        props.push("P21");
                    }
                }
                self.stop |= out.add(mm(
                    &props,
                    format!(
                        "{} changed the claimable rewards of staker {u} from {} to {} (expected {want})",
                        sem.map(|s| s.name()).unwrap_or("time"),
                        b.claim,
                        a.claim
                    ),
                ));
            }
        }
        let _ = p;
    }

    // ------------------------------------------------------------ execution

    pub fn log(&mut self, s: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            t.push(s());
        }
    }

    pub fn advance_to(&mut self, t: u64, out: &mut Out) {
        if t <= self.w.now {
            return;
        }
        let before = self.w.now;
        self.w.now = t;
        self.log(|| format!("advance {} s to day {} + {} s", t - before, t / DAY, t % DAY));
        for m in self.m.iter_mut() {
            let n = m.diffs.len();
            m.advance(t);
            self.stats.add("expiries", (n - m.diffs.len()) as u64);
        }
        self.stats.add("advance", 1);
        if self.observe && !self.stop {
            for p in 0..self.m.len() {
                let obs = self.observe(p);
                self.judge(p, None, &obs, out);
                if let Some(b) = self.last[p].take() {
                    self.judge_delta(p, None, &b, &obs, out);
                }
                self.last[p] = Some(obs);
            }
        }
    }

    /// Expected outcome, and the model's next state.
    fn model_apply(&self, p: usize, sem: &Sem, claimable: Option<u64>) -> Result<MPool, &'static str> {
        let now = self.w.now;
        let mut m = self.m[p].clone();
        match sem {
            Sem::Deposit { u, amt, lock, del } => m.deposit(*u, *amt, *lock, Some(*del), now).and_then(|_| exists(&m, *del))?,
            Sem::Withdraw { u, amt, del } => m.withdraw(*u, *amt, Some(*del)).and_then(|_| exists(&m, *del))?,
            Sem::Extend { u, old, new, start, base, add, del } => m
                .extend(*u, ExtendArgs { old: *old, new: *new, start: *start, base: *base, add: *add, del: Some(*del) }, now)
                .and_then(|_| exists(&m, *del))?,
            Sem::Change { u, amt, old, new } => m.change_delegate(*u, *amt, *old, *new)?,
            Sem::Slash { u, native, weighted, date } => m.slash(*u, *native, *weighted, *date)?,
            Sem::Penalty { u, n } => m.penalty(*u, *n)?,
            Sem::Claim { u, dest } => {
                exists(&m, *u)?;
                if *dest == 2 || (*dest >= 4 && *dest != 7) {
                    return Err("destination is not the staker's");
                }
                let c = claimable.unwrap_or(0);
                if (*dest == 3 || *dest == 7) && c > 0 {
                    return Err("destination holds another mint or is frozen");
                }
                m.touch(*u);
                m.minings[*u].as_mut().unwrap().claimed += c as u128;
                m.claimed += c as u128;
            }
            Sem::Distribute => {
                m.distribute(now)?;
            }
            Sem::Fill { amount, ends, src } => {
                if *src >= 2 {
                    return Err("source does not belong to the fill authority and mint");
                }
                if self.w.tokens(&self.cx.pools[p].sources[*src as usize]) < *amount {
                    return Err("source balance too small");
                }
                if self.w.tokens(&self.cx.pools[p].vault).checked_add(*amount).is_none() {
                    return Err(E_ARITH);
                }
                m.fill(*amount, *ends, now)?;
            }
            Sem::Close { u, target } => {
                exists(&m, *u)?;
                if *target == 3 {
                    return Err("target is not a system account");
                }
                if m.minings[*u].as_ref().unwrap().sfo > 0 {
                    return Err("stake is delegated to the account");
                }
                if claimable.unwrap_or(0) > 0 {
                    return Err("rewards are unclaimed");
                }
                let x = m.minings[*u].take().unwrap();
                if x.share > 0 {
                    m.forfeits = true;
                }
            }
            Sem::Open { u, .. } => {
                if m.minings[*u].is_some() {
                    return Err("already open");
                }
                m.minings[*u] = Some(MMining::default());
            }
        }
        Ok(m)
    }

    /// Either outcome is right (nothing to pay, nothing staked but already distributed ...).
    fn either(&self, p: usize, sem: &Sem, claimable: Option<u64>) -> bool {
        match sem {
            Sem::Claim { dest: 3 | 7, .. } => claimable == Some(0),
            Sem::Distribute => {
                self.m[p].total == 0 && self.m[p].days.contains(&day(self.w.now))
            }
            // the stored total still contains expired boosts, so it may overflow early
            Sem::Deposit { amt, lock, .. } => self.near(p, *amt as u128 * (mult(*lock) as u128 + 1)),
            Sem::Extend { new, base, add, .. } => {
                self.near(p, (*base as u128 + *add as u128) * (mult(*new) as u128 + 1))
            }
            Sem::Change { amt, .. } => self.near(p, *amt as u128),
            _ => false,
        }
    }

    fn near(&self, p: usize, n: u128) -> bool {
        let m = &self.m[p];
        m.expired > 0 && m.total as u128 + m.expired + n > u64::MAX as u128
    }

    pub fn exec_sem(&mut self, p: usize, sem: &Sem, out: &mut Out) -> bool {
        if self.stop || self.poisoned {
            return false;
        }
        if let Sem::Open { u, prefund } = sem {
            // a third party sends lamports to the address first
            let k = self.cx.users[*u].mining[p];
            let n = [0, 1, 890_880, Rent::default().minimum_balance(MINING_LEN), 10_000_000_000][*prefund as usize % 5];
            if n > 0 && self.w.get(&k).is_none() {
                let mut a = wallet_acc();
                a.lamports = n;
                self.w.put(k, a);
            }
        }
        let u = sem.user();
        let before = match (&self.last[p], self.observe) {
            (Some(o), true) => Some(o.clone()),
            (None, true) => Some(self.observe(p)),
            _ => None,
        };
        let claimable = u.and_then(|u| {
            self.m[p].minings[u].as_ref()?;
            match &before {
                Some(b) => match &b.users[u] {
                    Some(Ok(o)) => Some(o.claim),
                    _ => None,
                },
                None => {
                    let mut w = self.w.clone();
                    let ix = self.ix(p, &Sem::Claim { u, dest: 0 });
                    let t = self.cx.users[u].tokens[p][0];
                    let t0 = w.tokens(&t);
                    w.exec(&ix, &signers(&ix)).ok().map(|_| w.tokens(&t) - t0)
                }
            }
        });
        let expected = self.model_apply(p, sem, claimable);
        let either = self.either(p, sem, claimable);
        let ix = self.ix(p, sem);
        if expected.is_ok() {
            self.substitutes(p, sem, &ix, claimable, out);
        }
        let w0 = self.w.clone();
        let real = self.w.exec(&ix, &signers(&ix));
        self.log(|| {
            format!(
                "{sem:?} on pool {p} -> {} (model: {})",
                match &real {
                    Ok(_) => "accepted".to_string(),
                    Err(e) => format!("refused: {}", e.short()),
                },
                match &expected {
                    Ok(_) => "accept",
                    Err(e) => e,
                }
            )
        });
        self.stats.add(sem.name(), 1);
        if let Some(d) = self.done.as_mut() {
            d.push((self.w.now, p, sem.clone(), real.is_ok()));
        }
        match (&real, &expected) {
            (Err(_), Err(why)) => {
                self.stats.add("refused", 1);
                if *why == E_FULL || *why == E_INDEX_FULL {
                    self.stats.add("bound_reached", 1);
                }
                return false;
            }
            (Err(e), Ok(_)) => {
                if !either {
                    let mut props = vec![sem.prop()];
                    if let Sem::Claim { .. } = sem {
                        props.push("P01");
                    }
                    props.push("P20");
                    self.disputed = u.or(self.disputed);
                    self.stop |= out.add(mm(&props, format!("a valid {} was refused: {} ({sem:?})", sem.name(), e.short())));
                }
                return false;
            }
            (Ok(_), Err(why)) => {
                if !either || !matches!(sem, Sem::Claim { .. } | Sem::Distribute) {
                    let mut props = vec![sem.prop()];
                    if *why == E_ARITH || *why == E_STAKE || *why == E_DELEGATED || *why == E_BIG {
                        props.push("P19");
                    }
                    if *why == E_FULL || *why == E_INDEX_FULL {
                        props.push("P20");
                    }
                    if *why == E_DELEGATED || *why == E_SAME {
                        props.push("P06");
                    }
                    self.stop |= out.add(mm(&props, format!("{} was accepted although: {why} ({sem:?})", sem.name())));
                }
                self.relations(p, sem, out);
                // go on as if it had been refused
                self.w = w0;
                if let Some((.., ok)) = self.done.as_mut().and_then(|d| d.last_mut()) {
                    *ok = false;
                }
                return false;
            }
            (Ok(_), Ok(_)) => {}
        }
        self.stats.add("accepted", 1);
        if sem.largest() >> 32 > 0 {
            self.stats.add("accepted_large", 1);
        }
        self.stats.add(sem.ok_name(), 1);
        let ret = real.unwrap();
        let m = expected.unwrap();
        let before_m = std::mem::replace(&mut self.m[p], m);
        self.note_stakes(p, sem);
        self.post(p, sem, &w0, &ret, claimable, &before_m, out);
        // an operation that leaves a staker with less weight than his boosts is
        // outside the domain (the staking contract never requests it)
        if self.m[p].minings.iter().flatten().any(|m| m.base() < 0) {
            self.poisoned = true;
            self.stats.add("poisoned", 1);
        }
        self.last[p] = None;
        if self.observe && !self.stop && !self.poisoned {
            let obs = self.observe(p);
            self.judge(p, Some(sem), &obs, out);
            if let (Some(b), false) = (before, matches!(sem, Sem::Distribute)) {
                self.judge_delta(p, Some(sem), &b, &obs, out);
            }
            self.last[p] = Some(obs);
        }
        true
    }

    /// A valid operation naming something of another pool instead: a claim from
    /// another vault, a delegate staking elsewhere.
    fn substitutes(&mut self, p: usize, sem: &Sem, ix: &Instruction, claimable: Option<u64>, out: &mut Out) {
        let n0 = out.len();
        let cx = self.cx.clone();
        let with = |from: Pubkey, to: Pubkey| {
            let mut ix = ix.clone();
            ix.accounts.iter_mut().filter(|m| m.pubkey == from).for_each(|m| m.pubkey = to);
            ix
        };
        match (out.id, sem) {
            ("P12", Sem::Claim { .. }) if claimable.is_some_and(|c| c > 0) => {
                let vaults = cx.pools.iter().map(|q| q.vault).chain(cx.pools[p].sources[..1].iter().copied());
                for v in vaults.filter(|v| *v != cx.pools[p].vault) {
                    let ix = with(cx.pools[p].vault, v);
                    let mut f = self.w.clone();
                    let t0 = f.tokens(&v);
                    if f.exec(&ix, &signers(&ix)).is_ok() && f.tokens(&v) != t0 {
                        out.push(mm(&["P12"], format!("a claim from pool {p} was paid out of another token account ({v})")));
                    }
                    self.stats.add("substitutes", 1);
                }
            }
            ("P06", _) if self.m.len() > 1 => {
                for d in sem.delegates() {
                    for q in (0..self.m.len()).filter(|q| *q != p) {
                        if self.m[q].minings[d].is_none() {
                            continue;
                        }
                        let ix = with(cx.users[d].mining[p], cx.users[d].mining[q]);
                        if self.w.clone().exec(&ix, &signers(&ix)).is_ok() {
                            out.push(mm(&["P06"], format!("{} was accepted with a delegate's account in another pool", sem.name())));
                        }
                        self.stats.add("substitutes", 1);
                    }
                }
            }
            _ => {}
        }
        self.stop |= out.len() > n0;
    }

    /// What holds in every state, whether or not the operation that led to it
    /// should have been accepted.
    fn relations(&mut self, p: usize, sem: &Sem, out: &mut Out) {
        let obs = self.observe(p);
        let n0 = out.len();
        let (mut sum, mut owed) = (0u128, obs.hdr.avail as u128);
        for o in obs.users.iter().flatten() {
            let Ok(o) = o else { return };
            sum += o.share as u128 + o.sfo as u128;
            owed += o.claim as u128;
        }
        let name = sem.name();
        if let Ok(t) = obs.total {
            if (t as u128) < sum || ((t as u128) != sum && !self.m[p].forfeits) {
                out.push(mm(&["P05"], format!("after {name}: total weight {t} differs from the stakers' sum {sum}")));
            }
        }
        if (obs.vault as u128) < owed {
            out.push(mm(&["P01"], format!("after {name}: vault holds {} but owes {owed}", obs.vault)));
        }
        self.stop |= out.len() > n0;
    }

    /// Frame conditions and token flows of one accepted operation.
    #[allow(clippy::too_many_arguments)]
    fn post(
        &mut self,
        p: usize,
        sem: &Sem,
        w0: &World,
        ret: &[u8],
        claimable: Option<u64>,
        before_m: &MPool,
        out: &mut Out,
    ) {
        let n0 = out.len();
        let cx = self.cx.clone();
        let pc = &cx.pools[p];
        let (_, k) = self.call(p, sem);
        let mut allowed = vec![];
        if let Some(u) = sem.user() {
            allowed.push(cx.users[u].mining[p]);
        }
        for d in sem.delegates() {
            allowed.push(cx.users[d].mining[p]);
        }
        match sem {
            Sem::Claim { .. } => allowed.extend([pc.vault, k.dest]),
            Sem::Fill { .. } => allowed.extend([pc.vault, k.source, pc.pool]),
            Sem::Close { .. } => allowed.push(k.target),
            Sem::Open { .. } => allowed.push(k.payer),
            _ => allowed.push(pc.pool),
        }
        for d in self.w.diff(w0) {
            if !allowed.contains(&d) {
                let what = self.describe(&d);
                let mut props = vec!["P21"];
                if cx.pools.iter().enumerate().any(|(i, q)| {
                    i != p && (q.pool == d || q.vault == d || cx.users.iter().any(|u| u.mining[i] == d))
                }) {
                    props.push("P11");
                }
                if matches!(sem, Sem::Close { .. } | Sem::Open { .. } | Sem::Claim { .. }) {
                    props.push(sem.prop());
                }
                out.push(mm(&props, format!("{} changed {what}", sem.name())));
            }
        }
        match sem {
            Sem::Claim { u, .. } => {
                let c = claimable.unwrap_or(0);
                let paid = self.w.tokens(&k.dest).wrapping_sub(w0.tokens(&k.dest));
                let taken = w0.tokens(&pc.vault).wrapping_sub(self.w.tokens(&pc.vault));
                if paid != c || taken != c {
                    out.push(mm(&["P12"], format!("claim paid {paid} and took {taken} from the vault, claimable was {c}")));
                }
                if ret != c.to_le_bytes() {
                    out.push(mm(&["P12"], format!("claim of {c} reported {ret:?} as return data")));
                }
                if c > 0 {
                    self.stats.add("paid_claims", 1);
                }
                // what the account shows once it is settled
                let mut w = w0.clone();
                let ix = self.ix(p, &Sem::Withdraw { u: *u, amt: 0, del: *u });
                if w.exec(&ix, &signers(&ix)).is_ok() {
                    let due = w.get(&cx.users[*u].mining[p]).and_then(mining_hdr).map(|h| h.unclaimed);
                    if due != Some(paid) {
                        out.push(mm(&["P12"], format!("claim paid {paid}, but the settled account holds {due:?}")));
                    }
                    self.stats.add("claims_against_settled", 1);
                }
                let h = self.mining_hdr(p, *u);
                if h.as_ref().map(|h| h.unclaimed) != Some(0) {
                    out.push(mm(&["P12"], format!("rewards recorded after a claim: {:?}", h.map(|h| h.unclaimed))));
                }
            }
            Sem::Fill { amount, .. } => {
                let given = w0.tokens(&k.source).wrapping_sub(self.w.tokens(&k.source));
                let got = self.w.tokens(&pc.vault).wrapping_sub(w0.tokens(&pc.vault));
                if given != *amount || got != *amount {
                    out.push(mm(&["P09"], format!("fill of {amount} took {given} and added {got}")));
                }
                self.stats.add("fills", 1);
            }
            Sem::Close { u, .. } => {
                let mk = cx.users[*u].mining[p];
                if self.w.get(&mk).is_some() {
                    out.push(mm(&["P15"], "closed account still exists".into()));
                }
                let moved = self.w.lamports(&k.target).wrapping_sub(w0.lamports(&k.target));
                if moved != w0.lamports(&mk) {
                    out.push(mm(&["P15"], format!("close moved {moved} of {} lamports", w0.lamports(&mk))));
                }
                // whoever sends lamports there in the same transaction does not
                // bring the account back
                let close = self.ix(p, sem);
                let mut f = w0.clone();
                if f.exec_part(&close, &signers(&close)).is_ok() {
                    if let Some(mut a) = f.get(&mk).cloned() {
                        a.lamports = 10_000_000;
                        f.put(mk, a);
                        for s in [
                            Sem::Claim { u: *u, dest: 0 },
                            Sem::Deposit { u: *u, amt: 1, lock: 1, del: *u },
                            Sem::Close { u: *u, target: 0 },
                        ] {
                            let ix = self.ix(p, &s);
                            if f.clone().exec(&ix, &signers(&ix)).is_ok() {
                                out.push(mm(&["P15"], format!("a closed account was used by a {} of the same transaction", s.name())));
                            }
                        }
                        self.stats.add("revivals", 1);
                    }
                }
                self.stakes[p][*u].clear();
            }
            Sem::Open { u, .. } => {
                let wal = cx.users[*u].wallet;
                let want = MiningHdr {
                    pool: pc.pool,
                    owner: wal,
                    mint: Pubkey::default(),
                    index: 0,
                    share: 0,
                    unclaimed: 0,
                    sfo: 0,
                    bump: mining_pda(&wal, &pc.pool).1,
                    ty: 2,
                };
                let h = self.mining_hdr(p, *u);
                if h.as_ref().map(|h| MiningHdr { mint: Pubkey::default(), index: 0, ..h.clone() }) != Some(want) {
                    out.push(mm(&["P16", "P15"], format!("a fresh account is not blank: {h:?}")));
                }
            }
            Sem::Distribute => {
                if let Some(h) = self.pool_hdr(p) {
                    let released = before_m.avail.wrapping_sub(h.avail);
                    let want = before_m.avail - self.m[p].avail;
                    if released != want {
                        out.push(mm(&["P08"], format!("distribution released {released} instead of {want}")));
                    }
                    if want > 0 {
                        self.stats.add("paying_distributions", 1);
                        if self.m[p].minings.iter().flatten().filter(|m| m.weight() > 0).count() > 1 {
                            self.stats.add("shared_distributions", 1);
                        }
                    }
                }
            }
            _ => {}
        }
        if out.len() > n0 {
            self.stop = true;
        }
    }

    pub fn describe(&self, k: &Pubkey) -> String {
        for (i, p) in self.cx.pools.iter().enumerate() {
            if p.pool == *k {
                return format!("pool {i}");
            }
            if p.vault == *k {
                return format!("the vault of pool {i}");
            }
            for (j, u) in self.cx.users.iter().enumerate() {
                if u.mining[i] == *k {
                    return format!("the account of staker {j} in pool {i}");
                }
                if u.wallet == *k {
                    return format!("the wallet of user {j}");
                }
                if u.tokens[i].contains(k) {
                    return format!("a token account of user {j}");
                }
            }
        }
        format!("account {k}")
    }

    /// What the staking contract would remember about individual stakes.
    fn note_stakes(&mut self, p: usize, sem: &Sem) {
        let now = self.w.now;
        match sem {
            Sem::Deposit { u, amt, lock, del } => {
                self.stakes[p][*u].push(Stake { base: *amt, lock: *lock, start: now, del: *del });
                if del != u && *amt > 0 {
                    self.stats.add("delegated_deposits", 1);
                }
            }
            Sem::Withdraw { u, amt, del } => {
                let v = &mut self.stakes[p][*u];
                if let Some(i) = v.iter().position(|s| s.del == *del && s.base >= *amt) {
                    v[i].base -= amt;
                    if v[i].base == 0 {
                        v.remove(i);
                    }
                }
            }
            Sem::Extend { u, old, new, start, base, add, del } => {
                let v = &mut self.stakes[p][*u];
                if let Some(i) =
                    v.iter().position(|s| s.lock == *old && s.start == *start && s.base >= *base && s.del == *del)
                {
                    v[i].base -= base;
                    if v[i].base == 0 {
                        v.remove(i);
                    }
                }
                v.push(Stake { base: base + add, lock: *new, start: now, del: *del });
            }
            Sem::Change { u, amt, old, new } => {
                if let Some(s) = self.stakes[p][*u].iter_mut().find(|s| s.del == *old && s.base == *amt) {
                    s.del = *new;
                }
            }
            Sem::Slash { u, native, date, .. } => {
                let v = &mut self.stakes[p][*u];
                if let Some(i) = v.iter().position(|s| {
                    s.base >= *native
                        && match date {
                            Some(d) => expiry(s.lock, s.start) == day(*d),
                            None => s.lock == FLEX || expiry(s.lock, s.start) <= now,
                        }
                }) {
                    v[i].base -= native;
                    if v[i].base == 0 {
                        v.remove(i);
                    }
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------ resolution

    pub fn amt(&self, a: &Amt, natural: u64) -> u64 {
        match a {
            Amt::N(n) => *n,
            Amt::Frac(f) => ((natural as u128 * *f as u128) >> 16) as u64,
            Amt::All | Amt::Last(..) => natural,
            Amt::Over(n) => natural.saturating_add((*n).max(1)),
            Amt::Edge(b, o) => 1u64.checked_shl(*b as u32 % 65).unwrap_or(0).wrapping_add(*o as i64 as u64),
            Amt::Limit(m, o) => (u64::MAX / (*m as u64).max(1)).wrapping_add(*o as i64 as u64),
        }
    }

    fn pick(&self, p: usize, u: usize, s: u8) -> Option<Stake> {
        let v = &self.stakes[p][u];
        if v.is_empty() {
            None
        } else {
            Some(v[s as usize * v.len() / 256].clone())
        }
    }

    /// Operations that need several steps return them all.
    pub fn resolve(&self, op: &Op) -> Option<(usize, Sem)> {
        let np = self.m.len();
        let nu = self.cx.users.len();
        let px = |p: &u8| *p as usize % np;
        let ux = |u: &u8| *u as usize % nu;
        let now = self.w.now;
        Some(match op {
            Op::Deposit { p, u, amt, lock, del } => {
                let (p, u) = (px(p), ux(u));
                // small delegate codes: no delegate
                let del = if *del < 128 { u } else { (*del as usize - 128) % nu };
                let room = u64::MAX - self.m[p].total;
                (p, Sem::Deposit { u, amt: self.amt(amt, room / 7), lock: *lock, del })
            }
            Op::Withdraw { p, u, s, amt } => {
                let (p, u) = (px(p), ux(u));
                let m = self.m[p].minings[u].as_ref();
                let (natural, del) = match self.pick(p, u, *s) {
                    Some(st) => (st.base, st.del),
                    None => (0, u),
                };
                let base = m.map(|m| m.base().clamp(0, u64::MAX as i128) as u64).unwrap_or(0);
                let mut a = self.amt(amt, natural);
                match amt {
                    Amt::Over(n) => a = m.map(|m| m.share).unwrap_or(0).saturating_add((*n).max(1)),
                    _ => {
                        if a <= m.map(|m| m.share).unwrap_or(0) {
                            a = a.min(base)
                        }
                    }
                }
                (p, Sem::Withdraw { u, amt: a, del })
            }
            Op::Extend { p, u, s, new, add, tweak } => {
                let (p, u) = (px(p), ux(u));
                let st = self.pick(p, u, *s).unwrap_or(Stake { base: 0, lock: FLEX, start: now, del: u });
                let (mut old, mut start, mut base, mut del) = (st.lock, st.start, st.base, st.del);
                match tweak {
                    200..=204 => old = old % 4 + 1,
                    205..=209 => start = start.wrapping_sub(DAY),
                    210..=214 => base = base.saturating_add(1),
                    215..=219 => base /= 2,
                    220..=224 => del = (del + 1) % nu,
                    225..=227 => old = NONE,
                    228..=230 => start = u64::MAX - *tweak as u64,
                    231..=235 => start = now,
                    // an amount whose weight exceeds 64 bits by no more than what there is
                    236..=249 => {
                        let k = (*tweak as u128 - 236) % mult(old).max(1) as u128;
                        let w = self.m[p].minings[u].as_ref().map(|m| m.share).unwrap_or(0) as u128;
                        let m = mult(old).max(1) as u128;
                        base = (((k << 64) + w) / m).min(u64::MAX as u128) as u64;
                    }
                    _ => {}
                }
                let a = self.amt(add, base);
                let live = old != FLEX && now < expiry(old, start.min(u64::MAX / 2));
                let refused_anyway = live && base.checked_mul(mult(old)).is_none();
                // stay within the base weight, unless the request exceeds the whole weight
                if let Some(m) = self.m[p].minings[u].as_ref() {
                    if old != NONE && base as i128 > m.base() && !refused_anyway {
                        base = m.base().max(0) as u64;
                    }
                }
                (p, Sem::Extend { u, old, new: *new, start, base, add: a, del })
            }
            Op::Change { p, u, s, new, tweak } => {
                let (p, u) = (px(p), ux(u));
                let st = self.pick(p, u, *s).unwrap_or(Stake { base: 0, lock: FLEX, start: now, del: u });
                let (mut amt, mut old, mut new) = (st.base, st.del, *new as usize % nu);
                match tweak {
                    200..=209 => new = old,
                    210..=214 => {
                        amt = self.m[p].minings[old].as_ref().map(|m| m.sfo).unwrap_or(0).saturating_add(1)
                    }
                    215..=219 => old = (old + 1) % nu,
                    220..=224 => amt /= 2,
                    _ => {
                        if new == old {
                            new = (old + 1) % nu;
                        }
                    }
                }
                (p, Sem::Change { u, amt, old, new })
            }
            Op::Slash { p, u, s, amt, tweak } => {
                let (p, u) = (px(p), ux(u));
                let st = self.pick(p, u, *s).unwrap_or(Stake { base: 0, lock: FLEX, start: now, del: u });
                let m = self.m[p].minings[u].clone().unwrap_or_default();
                let exp = expiry(st.lock, st.start);
                let live = st.lock != FLEX && exp > day(now);
                let mut native = self.amt(amt, st.base);
                let mut mu = if live { mult(st.lock) } else { 1 };
                let mut date = live.then_some(exp + now % DAY);
                if !matches!(amt, Amt::Over(_)) && *tweak < 200 {
                    native = native.min(m.base().clamp(0, u64::MAX as i128) as u64);
                }
                match tweak {
                    // a flexible stake by its date: there is nothing to take from it there
                    100..=179 if st.lock == FLEX && exp > day(now) => date = Some(exp + now % DAY),
                    200..=204 => date = Some(exp.wrapping_add(DAY)),
                    205..=209 => date = Some(exp - exp.min(DAY)),
                    210..=214 => mu = 0,
                    215..=219 => {
                        date = Some(exp);
                        mu = mult(st.lock)
                    }
                    220..=221 => date = Some(u64::MAX),
                    _ => {}
                }
                if let (Amt::Over(n), true) = (amt, *tweak < 200) {
                    // exceed the weight
                    let w = m.share.saturating_add((*n).max(1));
                    return Some((p, Sem::Slash { u, native: w / mu.max(1), weighted: w, date }));
                }
                (p, Sem::Slash { u, native, weighted: native.wrapping_mul(mu), date })
            }
            Op::Penalty { p, u, amt } => {
                let (p, u) = (px(p), ux(u));
                let share = self.m[p].minings[u].as_ref().map(|m| m.share).unwrap_or(0);
                let n = match (amt, &self.m[p].minings[u]) {
                    (Amt::Last(k, off), Some(m)) => {
                        let n = m.diffs.values().rev().take(*k as usize).fold(0u64, |a, b| a.saturating_add(*b));
                        n.saturating_add_signed(*off as i64)
                    }
                    _ => self.amt(amt, share),
                };
                (p, Sem::Penalty { u, n })
            }
            Op::Claim { p, u, dest } => {
                let (p, u) = (px(p), ux(u));
                let dest = match dest {
                    0..=170 => 0,
                    171..=210 => 1,
                    d => 2 + (d - 211) % 6,
                };
                (p, Sem::Claim { u, dest })
            }
            Op::Distribute { p } => (px(p), Sem::Distribute),
            Op::Fill { p, amt, days, sec, src } => {
                let p = px(p);
                let src = match src {
                    0..=199 => 0,
                    200..=209 => 1,
                    s => (s - 210) % 5,
                };
                let bal = match src {
                    0..=3 => self.w.tokens(&self.cx.pools[p].sources[src as usize]),
                    _ => self.w.tokens(&self.cx.pools[p].vault),
                };
                let d = (day(now) / DAY) as i64 + *days as i64;
                let ends = if *days == i16::MAX {
                    u64::MAX - *sec as u64
                } else if *days >= FAR {
                    let k = (*days - FAR) as u32;
                    let ahead = if k < 64 { 1 << k } else { DAY << ((k - 64) % 47) };
                    day(now).saturating_add(ahead).saturating_add(*sec as u64)
                } else if *days >= 0 {
                    // relative to the later of today and the current end date
                    let b = (self.m[p].ends.min(1 << 40)).max(day(now)) / DAY;
                    (b + *days as u64) * DAY + *sec as u64 % DAY
                } else if *days < -3 {
                    // between yesterday and the end date in force
                    let t = day(now) / DAY;
                    let e = (self.m[p].ends.min(1 << 40) / DAY).max(t);
                    (t - 1 + days.unsigned_abs() as u64 % (e - t + 2)) * DAY + *sec as u64 % DAY
                } else {
                    d.max(0) as u64 * DAY + *sec as u64 % DAY
                };
                (p, Sem::Fill { amount: self.amt(amt, bal), ends, src })
            }
            Op::Close { p, u, target } => {
                let target = if *target < 200 { *target % 3 } else { 3 };
                (px(p), Sem::Close { u: ux(u), target })
            }
            Op::Open { p, u, prefund } => (px(p), Sem::Open { u: ux(u), prefund: *prefund % 5 }),
            _ => return None,
        })
    }

    pub fn adv_target(&self, a: &Adv) -> u64 {
        let now = self.w.now;
        match a {
            Adv::Secs(s) => now + *s as u64,
            Adv::Day(n, s) => day(now) + *n as u64 * DAY + *s as u64 % DAY,
            Adv::Expiry(k, off) => {
                let dates: Vec<u64> =
                    self.m.iter().flat_map(|m| m.pending_dates()).filter(|d| *d + 2 > now).collect();
                if dates.is_empty() {
                    now + 3600
                } else {
                    let mut dates = dates;
                    dates.sort();
                    dates.dedup();
                    (dates[*k as usize % dates.len()] as i64 + *off as i64).max(now as i64) as u64
                }
            }
            Adv::Ends(off) => {
                let e = self.m[0].ends;
                if e > now && e < now + 3000 * DAY {
                    (e as i64 + *off as i64) as u64
                } else {
                    now + DAY
                }
            }
        }
    }

    pub fn step(&mut self, op: &Op, out: &mut Out) {
        if self.stop || self.poisoned {
            return;
        }
        match op {
            Op::Advance(a) => {
                let t = self.adv_target(a);
                self.advance_to(t, out);
            }
            Op::Donate { p, amt } => {
                let p = *p as usize % self.m.len();
                let v = self.cx.pools[p].vault;
                let n = self.w.tokens(&v);
                if let Some(x) = n.checked_add(*amt as u64) {
                    self.w.set_tokens(&v, x);
                    self.m[p].donated += *amt as u128;
                    self.last[p] = None;
                    self.log(|| format!("{amt} tokens sent to the vault of pool {p}"));
                }
            }
            Op::Daily { p, n, sec } => {
                let p = *p as usize % self.m.len();
                let obs = self.observe;
                for i in 0..*n {
                    self.observe = obs && (i + 1 == *n || i % 64 == 0);
                    let t = day(self.w.now) + DAY + *sec as u64 % DAY;
                    self.advance_to(t, out);
                    self.exec_sem(p, &Sem::Distribute, out);
                    self.last[p] = None;
                }
                self.observe = obs;
            }
            Op::DailyDeposit { p, u, n, amt, lock, dist } => {
                let (p, nu, u0) = (*p as usize % self.m.len(), self.cx.users.len(), *u as usize);
                let obs = self.observe;
                for i in 0..*n {
                    // from 128 on: everybody in turn
                    let u = if u0 < 128 { u0 % nu } else { (u0 + i as usize) % nu };
                    let lock = if *lock < 4 { *lock } else { (*lock as u16 + i) as u8 };
                    let lock = &lock;
                    self.observe = obs && (i + 1 == *n || i % 32 == 0);
                    let t = day(self.w.now) + DAY + 100;
                    self.advance_to(t, out);
                    self.exec_sem(p, &Sem::Deposit { u, amt: *amt as u64, lock: 1 + *lock % 4, del: u }, out);
                    if *dist {
                        self.exec_sem(p, &Sem::Distribute, out);
                    }
                    self.last[p] = None;
                }
                self.observe = obs;
            }
            _ => {
                if let Some((p, sem)) = self.resolve(op) {
                    self.exec_sem(p, &sem, out);
                }
            }
        }
    }

    /// From here to the last pending expiry: distribute around each expiry date
    /// and look at everyone's weights and rewards; then everybody claims.
    pub fn walk(&mut self, p: usize, jitter: u32, max_dates: usize, out: &mut Out) {
        if self.stop || self.poisoned {
            return;
        }
        let dates: Vec<u64> = self.m[p].pending_dates().into_iter().collect();
        let step = dates.len().div_ceil(max_dates.max(1)).max(1);
        let last = dates.last().copied().unwrap_or(self.w.now) + 30 * DAY;
        let src = self.cx.pools[p].sources[0];
        if self.w.tokens(&src) < 1 << 50 {
            self.w.set_tokens(&src, 1 << 50);
        }
        let ends = day(self.m[p].ends.max(last));
        if self.m[p].avail < 1 << 62 {
            self.exec_sem(p, &Sem::Fill { amount: 1_000_000_000_000, ends, src: 0 }, out);
        }
        for (i, d) in dates.iter().enumerate() {
            if i % step != 0 && i + 1 != dates.len() {
                continue;
            }
            if jitter & 1 == 1 && *d > self.w.now + DAY {
                self.advance_to(d - 1 - (jitter as u64 >> 3) % DAY, out);
                self.exec_sem(p, &Sem::Distribute, out);
            }
            let off = match (jitter >> 1) & 3 {
                0 => 0,
                1 => 1,
                2 => DAY - 1,
                _ => (jitter >> 3) as u64 % DAY,
            };
            self.advance_to(d + off, out);
            self.exec_sem(p, &Sem::Distribute, out);
            if self.stop {
                return;
            }
        }
        for u in 0..self.cx.users.len() {
            if self.m[p].minings[u].is_some() {
                self.exec_sem(p, &Sem::Claim { u, dest: 0 }, out);
            }
        }
        self.stats.add("walks", 1);
    }
}

fn exists(m: &MPool, u: usize) -> Result<(), &'static str> {
    match m.minings.get(u) {
        Some(Some(_)) => Ok(()),
        _ => Err(E_NOACC),
    }
}
