//! P10, P11, P18: operations that are accepted as they are, with signatures,
//! accounts or bytes changed. An instruction that cannot be right (see
//! `wire::coherent`) must be refused.
use crate::sim::*;
use crate::svm::*;
use crate::wire::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::{pubkey::Pubkey, system_program, sysvar};
use std::sync::Arc;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(x: &[u32]) -> Rng {
        let mut s = 0x1234_5678_9abc_def1u64;
        for w in x {
            s = (s ^ *w as u64).wrapping_mul(0x2545_f491_4f6c_dd1d).rotate_left(23);
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
}

struct Mutant {
    what: String,
    ix: Instruction,
    /// accounts changed beforehand (things that exist at that address instead)
    patch: Vec<(Pubkey, Acc)>,
}

pub fn run(id: &'static str, sim: &mut Sim, case: &Case, out: &mut Out) {
    sim.observe = false;
    let mut rng = Rng::new(&case.x);
    let mode = case.x.first().copied().unwrap_or(0);
    add_strangers(sim);

    // initialising a new pool
    let np = key(case.cfg.salt, "newpool", 0);
    sim.w.put(np, blank_pool_acc());
    let pc = &sim.cx.pools[0];
    let mint = if mode & 4 == 0 { pc.mint } else { sim.cx.other_mint };
    let k = Keys {
        pool: np,
        mint,
        vault: vault_pda(&np, &mint).0,
        payer: sim.cx.payer,
        deposit_auth: if mode & 8 == 0 { pc.deposit_auth } else { sim.cx.attacker },
        ..Default::default()
    };
    let d = Data::InitPool { fill: pc.fill_auth, dist: pc.dist_auth };
    attack(id, sim, 0, &d, &k, &mut rng, out);

    let mut ch = crate::ident::Chaos::new(sim, case);
    for op in &case.ops {
        if sim.stop || sim.poisoned || !out.is_empty() {
            return;
        }
        crate::ident::burst(sim, &mut ch, &mut rng, out);
        if !out.is_empty() {
            sim.stop = true;
            return;
        }
        let Some((p, sem)) = sim.resolve(op) else {
            sim.step(op, out);
            continue;
        };
        let (d, k) = sim.call(p, &sem);
        let accepted = sim.w.clone().exec(&instruction(&d, &k), &signers(&instruction(&d, &k))).is_ok();
        if accepted {
            attack(id, sim, p, &d, &k, &mut rng, out);
            if !out.is_empty() {
                sim.stop = true;
                return;
            }
        }
        sim.exec_sem(p, &sem, out);
        // let other pools and users go through the same, so that they have
        // something to lose
        if mode & 1 == 1 {
            for q in 0..sim.m.len() {
                if q != p {
                    let op = with_pool(op, q as u8);
                    sim.step(&op, out);
                }
            }
        }
        if mode & 2 == 2 {
            if let Some(op) = with_user(op, sem.user().unwrap_or(0) as u8 + 1) {
                sim.step(&op, out);
            }
        }
    }
}

fn with_pool(op: &Op, q: u8) -> Op {
    let mut op = op.clone();
    match &mut op {
        Op::Deposit { p, .. }
        | Op::Withdraw { p, .. }
        | Op::Extend { p, .. }
        | Op::Change { p, .. }
        | Op::Slash { p, .. }
        | Op::Penalty { p, .. }
        | Op::Claim { p, .. }
        | Op::Distribute { p }
        | Op::Fill { p, .. }
        | Op::Close { p, .. }
        | Op::Open { p, .. } => *p = q,
        _ => {}
    }
    op
}

fn with_user(op: &Op, v: u8) -> Option<Op> {
    let mut op = op.clone();
    match &mut op {
        Op::Deposit { u, .. } | Op::Open { u, .. } | Op::Extend { u, .. } | Op::Change { u, .. } => *u = v,
        _ => return None,
    }
    Some(op)
}

fn stranger(salt: u16) -> Pubkey {
    key(salt, "strangerprogram", 0)
}

/// Accepts every call and does nothing.
pub fn yes_program() -> Pubkey {
    key(7, "yesprogram", 0)
}

/// Accounts nobody asked for: copies of real ones owned by another program, and
/// token accounts that look like vaults.
fn add_strangers(sim: &mut Sim) {
    let cx = sim.cx.clone();
    let yes = Acc { lamports: 1_000_000_000, owner: loader(), data: YES.to_vec(), executable: true };
    sim.w.put(yes_program(), yes);
    for (i, pc) in cx.pools.iter().enumerate() {
        let v = sim.w.get(&pc.vault).cloned();
        if let Some(v) = v {
            // a token account with the vault's mint and owner, at another address
            sim.w.put(key(7, "fakevault", i), v.clone());
            sim.w.set_tokens(&key(7, "fakevault", i), 1 << 40);
        }
    }
}

fn attack(
    id: &'static str,
    sim: &mut Sim,
    p: usize,
    d: &Data,
    k: &Keys,
    rng: &mut Rng,
    out: &mut Out,
) {
    let ix = instruction(d, k);
    let mut ms = vec![];
    match id {
        "P10" => signatures(sim, p, d, &ix, &mut ms),
        "P11" => accounts(sim, p, d, k, &ix, rng, &mut ms),
        _ => bytes(sim, d, &ix, rng, &mut ms),
    }
    for m in ms {
        if m.ix == ix && m.patch.is_empty() {
            continue;
        }
        let mut w = sim.w.clone();
        for (k, a) in &m.patch {
            w.put(*k, a.clone());
        }
        sim.stats.add("mutants", 1);
        let w0 = w.clone();
        let sg = signers(&m.ix);
        match w.exec(&m.ix, &sg) {
            Err(_) => {}
            Ok(_) => {
                sim.stats.add("mutants_accepted", 1);
                let n = name(ix.data[0]);
                if let Err(why) = coherent(&w0, &m.ix) {
                    let prop: &'static str = id;
                    out.push(Mismatch {
                        props: vec![prop],
                        msg: format!("{n} on pool {p} with {} was accepted, although: {why}", m.what),
                    });
                } else if let Some(why) = strays(sim, &w0, &w, &m.ix) {
                    out.push(Mismatch {
                        props: vec![id],
                        msg: format!("{n} on pool {p} with {} changed {why}", m.what),
                    });
                }
                if !out.is_empty() {
                    let ixs = format!("{:?}", m.ix);
                    sim.log(|| ixs);
                    return;
                }
            }
        }
    }
}

/// Something changed that does not belong to the instruction's pool.
fn strays(sim: &Sim, w0: &World, w: &World, ix: &Instruction) -> Option<String> {
    let lay = layout(ix.data[0]);
    let i = lay.iter().position(|l| l.0 == Role::Pool)?;
    let pool = ix.accounts.get(i)?.pubkey;
    for d in w.diff(w0) {
        for (q, pc) in sim.cx.pools.iter().enumerate() {
            if pc.pool == pool {
                continue;
            }
            // (an address without an account may receive lamports)
            if w0.get(&d).is_none_or(|a| a.owner == system_program::id()) {
                continue;
            }
            if d == pc.pool || d == pc.vault || sim.cx.users.iter().any(|u| u.mining[q] == d) {
                return Some(sim.describe(&d));
            }
        }
    }
    None
}

// ------------------------------------------------------------ P10

fn signatures(sim: &Sim, p: usize, d: &Data, ix: &Instruction, ms: &mut Vec<Mutant>) {
    let lay = layout(ix.data[0]);
    let mut keys = vec![sim.cx.attacker, sim.cx.payer];
    for pc in &sim.cx.pools {
        keys.extend([pc.deposit_auth, pc.dist_auth, pc.fill_auth]);
    }
    for u in &sim.cx.users {
        keys.push(u.wallet);
    }
    keys.sort();
    keys.dedup();
    let _ = (p, d);
    for (i, (role, signer, _)) in lay.iter().enumerate() {
        if !signer {
            continue;
        }
        let orig = ix.accounts[i].clone();
        let mut with = |what: String, f: &dyn Fn(&mut Instruction)| {
            let mut m = ix.clone();
            f(&mut m);
            ms.push(Mutant { what, ix: m, patch: vec![] });
        };
        with(format!("{role:?} not signing"), &|m| m.accounts[i].is_signer = false);
        with(format!("{role:?} not signing but a stranger signing besides"), &|m| {
            m.accounts[i].is_signer = false;
            m.accounts.push(AccountMeta::new_readonly(sim.cx.attacker, true));
        });
        for k in &keys {
            if *k == orig.pubkey {
                continue;
            }
            with(format!("{role:?} replaced by another signer {k}"), &|m| m.accounts[i].pubkey = *k);
            with(format!("{role:?} replaced by another signer {k}, itself listed unsigned"), &|m| {
                m.accounts[i].pubkey = *k;
                m.accounts.push(AccountMeta::new_readonly(orig.pubkey, false));
            });
        }
        with(format!("{role:?} replaced by an unsigned key"), &|m| {
            m.accounts[i].pubkey = sim.cx.attacker;
            m.accounts[i].is_signer = false;
        });
        with(format!("nobody signing except for {role:?}"), &|m| {
            for (j, a) in m.accounts.iter_mut().enumerate() {
                if j != i {
                    a.is_signer = false
                }
            }
        });
    }
    // no signature at all, and everything replaced by the attacker
    let mut m = ix.clone();
    for a in m.accounts.iter_mut() {
        a.is_signer = false;
    }
    ms.push(Mutant { what: "no signature".into(), ix: m, patch: vec![] });
    let mut m = ix.clone();
    for a in m.accounts.iter_mut().filter(|a| a.is_signer) {
        a.pubkey = sim.cx.attacker;
    }
    ms.push(Mutant { what: "all signers replaced by a stranger".into(), ix: m, patch: vec![] });
}

// ------------------------------------------------------------ P11

fn accounts(sim: &Sim, p: usize, d: &Data, k: &Keys, ix: &Instruction, rng: &mut Rng, ms: &mut Vec<Mutant>) {
    let lay = layout(ix.data[0]);
    let cx = &sim.cx;
    let salt = 7;
    // everything there is
    let mut pools: Vec<Pubkey> = cx.pools.iter().map(|q| q.pool).collect();
    pools.push(key(0, "newpool", 0));
    let vaults: Vec<Pubkey> =
        cx.pools.iter().map(|q| q.vault).chain((0..cx.pools.len()).map(|i| key(salt, "fakevault", i))).collect();
    let minings: Vec<Pubkey> = cx.users.iter().flat_map(|u| u.mining.clone()).collect();
    let mints: Vec<Pubkey> = cx.pools.iter().map(|q| q.mint).chain([cx.other_mint]).collect();
    let mut toks: Vec<Pubkey> = cx.pools.iter().flat_map(|q| q.sources).collect();
    toks.extend(cx.users.iter().flat_map(|u| u.tokens.iter().flatten().copied().collect::<Vec<_>>()));
    toks.extend(cx.users.iter().flat_map(|u| u.odd.iter().flatten().copied().collect::<Vec<_>>()));
    toks.extend(cx.users.iter().map(|u| u.wrong_mint));
    toks.extend(&cx.attacker_tokens);
    let odd = [
        cx.attacker,
        cx.bystander,
        pid(),
        spl_token::id(),
        system_program::id(),
        sysvar::rent::id(),
        sysvar::clock::id(),
        stranger(salt),
        yes_program(),
    ];
    for (i, (role, signer, _)) in lay.iter().enumerate() {
        let orig = ix.accounts[i].pubkey;
        let mut cand: Vec<Pubkey> = match role {
            Role::Pool => pools.iter().chain(&minings).chain(&vaults).copied().collect(),
            Role::Mint => mints.iter().chain(&vaults).copied().collect(),
            Role::Vault => vaults.iter().chain(&toks).chain(&mints).copied().collect(),
            Role::Mining | Role::Delegate | Role::OldDelegate => minings.iter().chain(&pools).copied().collect(),
            Role::Source | Role::Dest => toks.iter().chain(&vaults).chain(&mints).copied().collect(),
            Role::Target => minings.iter().chain(&pools).chain(&vaults).chain(&toks).copied().collect(),
            Role::Owner => cx.users.iter().map(|u| u.wallet).collect(),
            Role::DepositAuth | Role::DistAuth | Role::FillAuth => {
                cx.pools.iter().flat_map(|q| [q.deposit_auth, q.dist_auth, q.fill_auth]).collect()
            }
            _ => vec![],
        };
        cand.extend(odd);
        cand.sort();
        cand.dedup();
        for c in cand {
            if c == orig || (*role == Role::Payer) {
                continue;
            }
            let mut m = ix.clone();
            m.accounts[i].pubkey = c;
            ms.push(Mutant { what: format!("{role:?} replaced by {}", sim.describe(&c)), ix: m.clone(), patch: vec![] });
            // the right one is there as well, only not where it should be
            m.accounts.push(ix.accounts[i].clone());
            ms.push(Mutant { what: format!("{role:?} replaced by {}, itself last", sim.describe(&c)), ix: m, patch: vec![] });
        }
        if *signer {
            continue;
        }
        // a byte-identical copy that another program made, at another address or
        // (should the address be known beforehand) at the very address
        if let Some(a) = sim.w.get(&orig).cloned() {
            for (j, o) in [stranger(salt), system_program::id(), spl_token::id(), pid()].into_iter().enumerate() {
                if o == a.owner && matches!(role, Role::Source | Role::Dest | Role::Target) {
                    continue;
                }
                // only the program itself can make accounts with its own data
                if o == pid() {
                    continue;
                }
                let mut copy = a.clone();
                copy.owner = o;
                let at = key(salt, "copy", i * 8 + j);
                let mut m = ix.clone();
                m.accounts[i].pubkey = at;
                ms.push(Mutant {
                    what: format!("{role:?} replaced by a copy owned by {o}"),
                    ix: m,
                    patch: vec![(at, copy.clone())],
                });
                if o != a.owner && !matches!(role, Role::TokenProgram | Role::SystemProgram | Role::Rent) {
                    ms.push(Mutant {
                        what: format!("{role:?} owned by {o}"),
                        ix: ix.clone(),
                        patch: vec![(orig, copy)],
                    });
                }
            }
        }
    }
    // groups: any part of another pool's (and user's) set of accounts
    let combos = |rng: &mut Rng, n: usize| -> Vec<u64> {
        if n <= 6 {
            (1..(1u64 << n)).collect()
        } else {
            (0..64).map(|_| 1 + rng.next() % ((1 << n) - 1)).collect()
        }
    };
    for q in 0..cx.pools.len() {
        if q == p {
            continue;
        }
        let u = cx.users.iter().position(|u| u.wallet == k.owner || u.mining[p] == k.mining).unwrap_or(0);
        let v = rng.below(cx.users.len());
        let who = if rng.next() & 1 == 0 { u } else { v };
        let del = cx.users.iter().position(|x| x.mining[p] == k.delegate).unwrap_or(u);
        let old = cx.users.iter().position(|x| x.mining[p] == k.old_delegate).unwrap_or(u);
        let mut other = sim.keys(q, who, if rng.next() & 1 == 0 { del } else { rng.below(cx.users.len()) }, old);
        if rng.next() % 3 == 0 {
            other.old_delegate = rng.pick(&minings);
        }
        let n = lay.len();
        for c in combos(rng, n) {
            let mut m = ix.clone();
            for i in 0..n {
                if c >> i & 1 == 1 {
                    m.accounts[i].pubkey = other.by(lay[i].0);
                }
            }
            ms.push(Mutant { what: format!("accounts {c:#b} replaced by those of pool {q}"), ix: m.clone(), patch: vec![] });
            // the named owner or delegate changed as well
            if let Some(d2) = rename(d, &other.owner, &cx.users[del].wallet, rng) {
                m.data = encode(&d2);
                ms.push(Mutant {
                    what: format!("accounts {c:#b} replaced by those of pool {q}, and other names"),
                    ix: m,
                    patch: vec![],
                });
            }
        }
    }
    // another user named or supplied
    for v in 0..cx.users.len() {
        let wal = cx.users[v].wallet;
        for (o, dl) in [(Some(wal), None), (None, Some(wal)), (Some(wal), Some(wal))] {
            if let Some(d2) = renamed(d, o, dl) {
                let mut m = ix.clone();
                m.data = encode(&d2);
                ms.push(Mutant { what: format!("user {v} named instead"), ix: m.clone(), patch: vec![] });
                for (i, (role, ..)) in lay.iter().enumerate() {
                    if matches!(role, Role::Mining | Role::Delegate | Role::OldDelegate) {
                        let mut m = m.clone();
                        for x in 0..cx.pools.len() {
                            m.accounts[i].pubkey = cx.users[v].mining[x];
                            ms.push(Mutant {
                                what: format!("user {v} named and his account in pool {x} as {role:?}"),
                                ix: m.clone(),
                                patch: vec![],
                            });
                        }
                    }
                }
            }
        }
    }
}

fn renamed(d: &Data, o: Option<Pubkey>, dl: Option<Pubkey>) -> Option<Data> {
    let mut d = d.clone();
    match &mut d {
        Data::Deposit { owner, delegate, .. }
        | Data::Withdraw { owner, delegate, .. }
        | Data::Extend { owner, delegate, .. } => {
            if let Some(o) = o {
                *owner = o
            }
            if let Some(x) = dl {
                *delegate = x
            }
        }
        Data::ChangeDelegate { new, .. } => *new = dl?,
        Data::Slash { owner, .. } | Data::Penalty { owner, .. } | Data::InitMining { owner } => *owner = o?,
        _ => return None,
    }
    Some(d)
}

fn rename(d: &Data, owner: &Pubkey, delegate: &Pubkey, rng: &mut Rng) -> Option<Data> {
    let r = rng.next();
    renamed(d, (r & 1 == 0).then_some(*owner), (r & 2 == 0).then_some(*delegate))
}

// ------------------------------------------------------------ P18

fn bytes(sim: &Sim, _d: &Data, ix: &Instruction, rng: &mut Rng, ms: &mut Vec<Mutant>) {
    let lay = layout(ix.data[0]);
    let n = ix.data.len();
    let mut data = |what: String, v: Vec<u8>| {
        let mut m = ix.clone();
        m.data = v;
        ms.push(Mutant { what, ix: m, patch: vec![] });
    };
    for l in 0..n {
        if l < 20 || l + 12 > n || l % 7 == 0 {
            data(format!("data cut to {l} of {n} bytes"), ix.data[..l].to_vec());
        }
    }
    for x in [1usize, 2, 7, 8, 9, 32, 33, 64] {
        let mut v = ix.data.clone();
        v.extend((0..x).map(|_| if rng.next() & 1 == 0 { 0 } else { rng.next() as u8 }));
        data(format!("{x} more data bytes"), v);
    }
    for x in [rng.below(1024), 1024, 1200 + rng.below(9000)] {
        let mut v = if rng.next() & 1 == 0 { ix.data.clone() } else { vec![] };
        v.extend((0..x).map(|_| rng.next() as u8));
        data(format!("{} long data bytes", v.len()), v);
    }
    for _ in 0..24 {
        let mut v = ix.data.clone();
        let i = rng.below(n);
        v[i] ^= 1 << rng.below(8);
        data(format!("bit flipped in data byte {i}"), v);
    }
    for _ in 0..8 {
        let mut v = ix.data.clone();
        let i = rng.below(n);
        v[i] = rng.next() as u8;
        v[0] = rng.next() as u8 % 16;
        data(format!("another instruction code and byte {i} changed"), v);
    }
    for t in 0..=255u8 {
        if t < 16 || t % 16 == 15 || t == 0x80 {
            let mut v = ix.data.clone();
            v[0] = t;
            data(format!("instruction code {t}"), v);
        }
    }
    for _ in 0..8 {
        let l = rng.below(140);
        let mut v: Vec<u8> = (0..l).map(|_| rng.next() as u8).collect();
        if let Some(b) = v.first_mut() {
            *b %= 13;
        }
        data(format!("{l} random bytes"), v);
    }
    // an enumeration or option byte out of range
    for i in 1..n {
        if lay.len() > 2 && matches!(ix.data[0], 3 | 6 | 10) {
            let lock_at: &[usize] = match ix.data[0] {
                3 => &[9],
                6 => &[1, 2],
                _ => &[49],
            };
            if lock_at.contains(&i) {
                for b in [0u8, 1, 2, 3, 4, 5, 6, 7, 0x10, 0x7f, 0x80, 0xff] {
                    let mut v = ix.data.clone();
                    v[i] = b;
                    data(format!("byte {i} set to {b}"), v);
                }
            }
        }
    }

    // account lists
    let all: Vec<Pubkey> = sim.w.accts.keys().copied().collect();
    let k = ix.accounts.len();
    let mut acc = |what: String, v: Vec<AccountMeta>| {
        ms.push(Mutant { what, ix: Instruction { program_id: ix.program_id, accounts: v, data: ix.data.clone() }, patch: vec![] });
    };
    for l in 0..k {
        acc(format!("{l} of {k} accounts"), ix.accounts[..l].to_vec());
        let mut v = ix.accounts.clone();
        v.remove(l);
        acc(format!("account {l} left out"), v);
        let mut v = ix.accounts.clone();
        v.remove(l);
        v.push(ix.accounts[l].clone());
        acc(format!("account {l} moved to the end"), v);
        let mut v = ix.accounts.clone();
        v.push(ix.accounts[l].clone());
        v[l].pubkey = rng.pick(&all);
        acc(format!("account {l} replaced by {}, itself last", sim.describe(&v[l].pubkey)), v);
    }
    for i in 0..k {
        for j in 0..k {
            if i == j {
                continue;
            }
            let mut v = ix.accounts.clone();
            v[i] = v[j].clone();
            acc(format!("account {i} a duplicate of {j}"), v.clone());
            v[i].is_signer |= ix.accounts[i].is_signer;
            acc(format!("account {i} a signing duplicate of {j}"), v);
            if i < j {
                let mut v = ix.accounts.clone();
                v.swap(i, j);
                acc(format!("accounts {i} and {j} swapped"), v.clone());
                for (a, b) in v.iter_mut().zip(&ix.accounts) {
                    a.is_signer |= b.is_signer;
                    a.is_writable |= b.is_writable;
                }
                acc(format!("accounts {i} and {j} swapped, all signing"), v);
            }
        }
    }
    for _ in 0..12 {
        let mut v = ix.accounts.clone();
        for _ in 0..1 + rng.below(3) {
            let i = rng.below(k);
            v[i].pubkey = rng.pick(&all);
        }
        acc("random accounts".into(), v);
    }
    // wrong sizes and contents of what the program reads
    for i in 0..k {
        let a = ix.accounts[i].pubkey;
        let Some(x) = sim.w.get(&a).cloned() else { continue };
        let role = lay[i].0;
        if x.data.is_empty() || matches!(role, Role::Rent | Role::TokenProgram | Role::SystemProgram) {
            continue;
        }
        for (what, f) in [
            ("one byte short", x.data.len() - 1),
            ("one byte long", x.data.len() + 1),
            ("cut in half", x.data.len() / 2),
            ("empty", 0),
            ("cut to the header", 176.min(x.data.len() - 1)),
            ("twice as long", x.data.len() * 2),
            ("as long as a pool", POOL_LEN),
            ("as long as a staker account", MINING_LEN),
            ("as long as a token account", 165),
        ] {
            let mut y = x.clone();
            y.data.resize(f, 0);
            if x.owner == pid() {
                // an account of that size anyone can create for the program, still blank
                if f == POOL_LEN && ix.data[0] == 0 {
                    continue;
                }
                y.data.fill(0);
                let at = key(7, "blank", f);
                let mut m = ix.clone();
                m.accounts[i].pubkey = at;
                ms.push(Mutant { what: format!("{role:?} a blank account, {what}"), ix: m, patch: vec![(at, y)] });
            } else if f != x.data.len() {
                ms.push(Mutant { what: format!("{role:?} {what}"), ix: ix.clone(), patch: vec![(a, y)] });
            }
        }
        let zero_ok = role == Role::Pool && ix.data[0] == 0;
        if !zero_ok {
            let mut y = x.clone();
            y.data.fill(0);
            ms.push(Mutant { what: format!("{role:?} all zero"), ix: ix.clone(), patch: vec![(a, y)] });
        }
        let mut y = x.clone();
        y.owner = pid();
        if x.owner != pid() {
            ms.push(Mutant { what: format!("{role:?} owned by the program"), ix: ix.clone(), patch: vec![(a, y)] });
        }
    }
    let _ = Arc::new(());
}
