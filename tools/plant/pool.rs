//! A pool with stakers, for demonstrations.
#![allow(dead_code)]
pub use crate::svm::*;
pub use crate::wire::*;
pub use solana_program::{program_pack::Pack, pubkey::Pubkey, rent::Rent, system_program};

pub const FLEX: u8 = 1;
pub const M3: u8 = 2;
pub const M6: u8 = 3;
pub const Y1: u8 = 4;

pub fn key(s: &str) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(s.as_bytes()).to_bytes())
}
pub fn token_acc(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Acc {
    let t = spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    };
    let mut data = vec![0; 165];
    spl_token::state::Account::pack(t, &mut data).unwrap();
    Acc { lamports: Rent::default().minimum_balance(165), owner: spl_token::id(), data, executable: false }
}
pub fn wallet_acc() -> Acc {
    Acc { lamports: 1_000_000_000_000, owner: system_program::id(), data: vec![], executable: false }
}
#[derive(Clone)]
pub struct User {
    pub wallet: Pubkey,
    pub mining: Pubkey,
    pub tokens: Pubkey,
}
#[derive(Clone)]
pub struct T {
    pub w: World,
    pub name: String,
    pub pool: Pubkey,
    pub mint: Pubkey,
    pub vault: Pubkey,
    pub payer: Pubkey,
    pub da: Pubkey,
    pub fa: Pubkey,
    pub xa: Pubkey,
    pub source: Pubkey,
    pub users: Vec<User>,
}
pub type R = Result<Vec<u8>, TxErr>;

pub const T0: u64 = 19_000 * DAY;

impl T {
    /// A pool with n stakers' accounts, at the start of a day.
    pub fn new(n: usize) -> T {
        let mut t = T::bare("a", World::new(T0));
        for i in 0..n {
            t.add_user(i);
        }
        t
    }
    pub fn bare(name: &str, mut w: World) -> T {
        let k = |s: &str| key(&format!("{name}{s}"));
        let (pool, mint, da) = (k("pool"), k("mint"), k("da"));
        let mut m = vec![0; 82];
        spl_token::state::Mint::pack(
            spl_token::state::Mint {
                mint_authority: solana_program::program_option::COption::None,
                supply: u64::MAX,
                decimals: 6,
                is_initialized: true,
                freeze_authority: solana_program::program_option::COption::None,
            },
            &mut m,
        )
        .unwrap();
        w.put(mint, Acc { lamports: 10_000_000, owner: spl_token::id(), data: m, executable: false });
        w.put(
            pool,
            Acc { lamports: Rent::default().minimum_balance(POOL_LEN), owner: pid(), data: vec![0; POOL_LEN], executable: false },
        );
        let payer = key("payer");
        w.put(payer, wallet_acc());
        let source = k("source");
        w.put(source, token_acc(&mint, &k("fa"), u64::MAX / 4 * 3));
        let mut t = T {
            w,
            name: name.into(),
            pool,
            mint,
            vault: vault_pda(&pool, &mint).0,
            payer,
            da,
            fa: k("fa"),
            xa: k("xa"),
            source,
            users: vec![],
        };
        let d = Data::InitPool { fill: t.fa, dist: t.xa };
        t.run(&d, &t.keys(0)).expect("pool");
        t
    }
    pub fn add_user(&mut self, i: usize) {
        let wallet = key(&format!("wallet{i}"));
        let u = User { wallet, mining: mining_pda(&wallet, &self.pool).0, tokens: key(&format!("{}tokens{i}", self.name)) };
        self.w.put(wallet, wallet_acc());
        self.w.put(u.tokens, token_acc(&self.mint, &wallet, 0));
        self.users.push(u);
        self.open(self.users.len() - 1).expect("open");
    }
    pub fn keys(&self, u: usize) -> Keys {
        let mut k = Keys {
            pool: self.pool,
            mint: self.mint,
            vault: self.vault,
            payer: self.payer,
            deposit_auth: self.da,
            fill_auth: self.fa,
            dist_auth: self.xa,
            source: self.source,
            ..Default::default()
        };
        if let Some(u) = self.users.get(u) {
            k.mining = u.mining;
            k.delegate = u.mining;
            k.old_delegate = u.mining;
            k.owner = u.wallet;
            k.dest = u.tokens;
            k.target = u.wallet;
        }
        k
    }
    pub fn run(&mut self, d: &Data, k: &Keys) -> R {
        let ix = instruction(d, k);
        let s = signers(&ix);
        self.w.exec(&ix, &s)
    }
    pub fn open(&mut self, u: usize) -> R {
        self.run(&Data::InitMining { owner: self.users[u].wallet }, &self.keys(u))
    }
    pub fn fill(&mut self, rewards: u64, ends: u64) -> R {
        self.run(&Data::Fill { rewards, ends }, &self.keys(0))
    }
    pub fn distribute(&mut self) -> R {
        self.run(&Data::Distribute, &self.keys(0))
    }
    /// Fill and distribute everything at once.
    pub fn pay(&mut self, rewards: u64) {
        let ends = self.w.now.max(self.pool_hdr().ends);
        self.fill(rewards, ends).expect("fill");
        self.distribute().expect("distribute");
    }
    pub fn kd(&self, u: usize, del: usize) -> Keys {
        Keys { delegate: self.users[del].mining, ..self.keys(u) }
    }
    pub fn deposit(&mut self, u: usize, amount: u64, lock: u8, del: usize) -> R {
        let d = Data::Deposit { amount, lock, owner: self.users[u].wallet, delegate: self.users[del].wallet };
        self.run(&d, &self.kd(u, del))
    }
    pub fn withdraw(&mut self, u: usize, amount: u64, del: usize) -> R {
        let d = Data::Withdraw { amount, owner: self.users[u].wallet, delegate: self.users[del].wallet };
        self.run(&d, &self.kd(u, del))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn extend(&mut self, u: usize, old: u8, new: u8, start: u64, base: u64, add: u64, del: usize) -> R {
        let d = Data::Extend { old, new, start, base, add, owner: self.users[u].wallet, delegate: self.users[del].wallet };
        self.run(&d, &self.kd(u, del))
    }
    pub fn change(&mut self, u: usize, amount: u64, old: usize, new: usize) -> R {
        let d = Data::ChangeDelegate { amount, new: self.users[new].wallet };
        let k = Keys { old_delegate: self.users[old].mining, ..self.kd(u, new) };
        self.run(&d, &k)
    }
    pub fn slash(&mut self, u: usize, native: u64, weighted: u64, date: Option<u64>) -> R {
        let d = Data::Slash { owner: self.users[u].wallet, native, weighted, date };
        self.run(&d, &self.keys(u))
    }
    pub fn penalty(&mut self, u: usize, n: u64) -> R {
        let d = Data::Penalty { owner: self.users[u].wallet, n };
        self.run(&d, &self.keys(u))
    }
    pub fn claim(&mut self, u: usize) -> R {
        self.run(&Data::Claim, &self.keys(u))
    }
    pub fn close(&mut self, u: usize) -> R {
        self.run(&Data::Close, &self.keys(u))
    }
    /// What the staker would be paid now.
    pub fn claimable(&self, u: usize) -> u64 {
        let mut t = self.clone();
        let before = t.w.tokens(&t.users[u].tokens);
        t.claim(u).expect("claim");
        t.w.tokens(&t.users[u].tokens) - before
    }
    pub fn pool_hdr(&self) -> PoolHdr {
        pool_hdr(self.w.get(&self.pool).unwrap()).unwrap()
    }
    pub fn hdr(&self, u: usize) -> MiningHdr {
        mining_hdr(self.w.get(&self.users[u].mining).unwrap()).unwrap()
    }
    /// Own weight after settling.
    pub fn weight(&self, u: usize) -> u64 {
        let mut t = self.clone();
        t.claim(u).expect("claim");
        t.hdr(u).share
    }
    /// To second `sec` of the n-th day from today.
    pub fn days(&mut self, n: u64, sec: u64) {
        self.w.now = day(self.w.now) + n * DAY + sec;
    }
}

pub fn check(what: &str, ok: bool) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
