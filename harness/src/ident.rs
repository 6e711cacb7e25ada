//! P23: whatever instructions are sent, with whatever accounts, in whatever
//! order, accounts keep being what they are, and what belongs to a pool changes
//! only in the ways and by the signatures that allow it.
//!
//! The histories of the other checks are run as they are, and from many of their
//! states short bursts of transactions of one to three instructions are sent in a
//! copy of the world: instructions assembled from what is in the world (also
//! things the attacker has made himself), with accounts, signatures, arguments
//! and bytes changed at random. After every instruction every changed account is
//! looked at. There is no model: what is checked holds from any state.
use crate::mutate::Rng;
use crate::sim::*;
use crate::svm::*;
use crate::wire::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::{pubkey::Pubkey, system_instruction, system_program, sysvar};
use std::collections::BTreeMap;

fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}

/// Where instruction `ix` has its account of role `r`.
fn at(ix: &Instruction, r: Role) -> Option<Pubkey> {
    let lay = layout(*ix.data.first()?);
    lay.iter().position(|l| l.0 == r).and_then(|i| ix.accounts.get(i)).map(|m| m.pubkey)
}

fn is_token(a: &Acc) -> bool {
    a.owner == spl_token::id() && a.data.len() == 165
}

/// What one instruction of the program must not have done.
pub fn guard(w0: &World, w: &World, ix: &Instruction) -> Result<(), String> {
    let signed = |k: &Pubkey| ix.accounts.iter().any(|m| m.pubkey == *k && m.is_signer);
    let tag = ix.data.first().copied().unwrap_or(255);
    let mut sums: BTreeMap<Pubkey, i128> = BTreeMap::new();
    let blank = Acc { lamports: 0, owner: system_program::id(), data: vec![], executable: false };
    for k in w.diff(w0) {
        let a = w0.get(&k).unwrap_or(&blank);
        let b = w.get(&k).unwrap_or(&blank);
        let what = |s: &str| Err(format!("{s} ({k})"));
        if a.executable || b.executable || a.owner == sysvar::id() {
            return what("a program or sysvar changed");
        }
        if a.owner == pid() {
            let ty = |x: &Acc| match x.data.len() {
                POOL_LEN => x.data[169],
                MINING_LEN => x.data[137],
                _ => 255,
            };
            if b.lamports == 0 && a.lamports > 0 {
                // closed
                let Some(h) = mining_hdr(a).filter(|h| h.ty == 2) else {
                    return what("something other than a staker account lost its deposit");
                };
                if tag != 8 || at(ix, Role::Mining) != Some(k) {
                    return what("a staker account that was not to be closed is gone");
                }
                let auth = w0.get(&h.pool).and_then(pool_hdr).map(|p| p.deposit_auth);
                if !signed(&h.owner) || !auth.is_some_and(|x| signed(&x)) {
                    return what("an account was closed without its owner or the deposit authority");
                }
                if b.data.iter().any(|x| *x != 0) {
                    return what("a closed account still holds data");
                }
                let t = at(ix, Role::Target).unwrap_or_default();
                if w.lamports(&t).checked_sub(w0.lamports(&t)) != Some(a.lamports) {
                    return what("the deposit of the closed account did not go to the target");
                }
                continue;
            }
            if b.owner != pid() || b.data.len() != a.data.len() {
                return what("an account of the program changed owner or size");
            }
            if b.lamports != a.lamports {
                return what("the deposit of an account of the program changed");
            }
            match (ty(a), ty(b)) {
                (0, 1) if a.data.len() == POOL_LEN => {
                    let h = pool_hdr(b).unwrap();
                    if tag != 0 || at(ix, Role::Pool) != Some(k) || at(ix, Role::DepositAuth) != Some(h.deposit_auth) {
                        return what("an account became a pool");
                    }
                    if at(ix, Role::Mint) != Some(h.mint) {
                        return what("a new pool has another mint");
                    }
                    if !signed(&h.deposit_auth) {
                        return what("a pool was opened without its deposit authority");
                    }
                }
                (1, 1) => {
                    let (h, n) = (pool_hdr(a).unwrap(), pool_hdr(b).unwrap());
                    if (h.deposit_auth, h.dist_auth, h.fill_auth, h.mint, h.bump)
                        != (n.deposit_auth, n.dist_auth, n.fill_auth, n.mint, n.bump)
                    {
                        return what("a pool changed its authorities, mint or vault");
                    }
                    if at(ix, Role::Pool) != Some(k) {
                        return what("a pool changed that the instruction is not about");
                    }
                    let by = match tag {
                        1 => h.fill_auth,
                        7 => h.dist_auth,
                        3 | 4 | 5 | 6 | 8 | 9 | 10 | 11 => h.deposit_auth,
                        _ => return what("a pool changed that was not to be"),
                    };
                    if !signed(&by) {
                        return what("a pool changed without its authority");
                    }
                    if n.index < h.index || (n.index > h.index && tag != 7) {
                        return what("a pool's rewards per weight changed");
                    }
                    if (n.avail < h.avail && tag != 7) || (n.avail > h.avail && tag != 1) || (n.ends != h.ends && tag != 1) {
                        return what("a pool's schedule changed");
                    }
                }
                (2, 2) => {
                    let (h, n) = (mining_hdr(a).unwrap(), mining_hdr(b).unwrap());
                    if (h.pool, h.owner, h.mint, h.bump) != (n.pool, n.owner, n.mint, n.bump) {
                        return what("a staker account changed its owner, pool or address");
                    }
                    if ![Role::Mining, Role::Delegate, Role::OldDelegate].iter().any(|r| at(ix, *r) == Some(k))
                        || at(ix, Role::Pool) != Some(h.pool)
                    {
                        return what("a staker account changed that the instruction is not about");
                    }
                    let auth = w0.get(&h.pool).and_then(pool_hdr).map(|p| p.deposit_auth);
                    if !auth.is_some_and(|x| signed(&x)) {
                        return what("a staker account changed without the pool's deposit authority");
                    }
                    if n.index < h.index {
                        return what("a staker's settlement went back");
                    }
                    if n.unclaimed < h.unclaimed && (tag != 5 || !signed(&h.owner) || at(ix, Role::Mining) != Some(k)) {
                        return what("a staker lost rewards he did not claim");
                    }
                    if n.sfo != h.sfo && !matches!(tag, 3 | 4 | 6 | 9) {
                        return what("delegated stake changed");
                    }
                    if n.share > h.share && !matches!(tag, 3 | 6) && n.sfo <= h.sfo {
                        return what("a staker's weight grew");
                    }
                }
                (x, y) => return Err(format!("an account of type {x} became one of type {y} ({k})")),
            }
            continue;
        }
        if is_token(a) {
            if !is_token(b) || a.lamports != b.lamports {
                return what("a token account changed owner, size or deposit");
            }
            // mint, owner; state .. native; close authority
            if a.data[..64] != b.data[..64] || a.data[108..121] != b.data[108..121] || a.data[129..] != b.data[129..] {
                return what("a token account changed more than its amount");
            }
            let (x, y) = (u64_at(&a.data, 64), u64_at(&b.data, 64));
            if y <= x && (a.data[72..108] != b.data[72..108] || a.data[121..129] != b.data[121..129]) {
                let (d, e) = (u64_at(&a.data, 121), u64_at(&b.data, 121));
                if d.checked_sub(e) != Some(x - y) || (e > 0 && a.data[72..108] != b.data[72..108]) {
                    return what("a token account changed its delegate");
                }
            }
            let h = token_hdr(a).ok_or("a token account that is none changed")?;
            *sums.entry(h.mint).or_default() += y as i128 - x as i128;
            if y < x {
                let n = x - y;
                let gained = |to: Pubkey| w.tokens(&to).checked_sub(w0.tokens(&to)) == Some(n);
                match tag {
                    1 => {
                        let delegate = (a.data[72] == 1).then(|| Pubkey::new_from_array(a.data[76..108].try_into().unwrap()));
                        if at(ix, Role::Source) != Some(k) || !(signed(&h.owner) || delegate.is_some_and(|d| signed(&d))) {
                            return what("tokens were taken without their owner");
                        }
                        if !gained(at(ix, Role::Vault).unwrap()) {
                            return what("what was taken for a fill did not arrive");
                        }
                    }
                    5 => {
                        let p = at(ix, Role::Pool).and_then(|p| Some((p, w0.get(&p).and_then(pool_hdr)?)));
                        let Some((p, ph)) = p else { return what("tokens were paid for no pool") };
                        if vault_pda(&p, &ph.mint).0 != k || !signed(&ph.deposit_auth) {
                            return what("tokens were paid from something other than the vault");
                        }
                        let m = at(ix, Role::Mining).unwrap();
                        let Some(mh) = w0.get(&m).and_then(mining_hdr) else { return what("tokens were paid to no staker") };
                        let after = w.get(&m).and_then(mining_hdr).unwrap();
                        if mh.pool != p || !signed(&mh.owner) || after.unclaimed != 0 {
                            return what("tokens were paid without the staker");
                        }
                        let to = at(ix, Role::Dest).unwrap();
                        if w0.get(&to).and_then(token_hdr).map(|t| t.owner) != Some(mh.owner) || !gained(to) {
                            return what("what was paid did not arrive at the staker's");
                        }
                    }
                    _ => return what("tokens were taken"),
                }
            }
            continue;
        }
        if a.owner == spl_token::id() {
            return what("a mint changed");
        }
        if a.owner != system_program::id() {
            return what("an account of another program changed");
        }
        // a system account, or none
        if b.lamports < a.lamports {
            if !signed(&k) || !matches!(tag, 0 | 2) || at(ix, Role::Payer) != Some(k) {
                return what("lamports were taken");
            }
        }
        if b.owner == system_program::id() {
            if b.data != a.data {
                return what("data appeared");
            }
            if b.lamports > a.lamports && !(tag == 8 && at(ix, Role::Target) == Some(k)) {
                return what("lamports appeared");
            }
            continue;
        }
        if !a.data.is_empty() {
            return what("an account with data changed hands");
        }
        let rent = solana_program::rent::Rent::default().minimum_balance(b.data.len());
        if b.lamports != rent.max(a.lamports) {
            return what("a new account holds more or less than its deposit");
        }
        if b.owner == pid() {
            let h = mining_hdr(b).filter(|h| h.ty == 2);
            let ok = tag == 2
                && h.is_some_and(|h| {
                    let (key, bump) = mining_pda(&h.owner, &h.pool);
                    key == k && bump == h.bump && at(ix, Role::Pool) == Some(h.pool)
                        && (h.index, h.share, h.unclaimed, h.sfo) == (0, 0, 0, 0)
                });
            if !ok {
                return what("an account of the program appeared");
            }
        } else if is_token(b) {
            let h = token_hdr(b).ok_or("a token account that is none appeared")?;
            let p = at(ix, Role::Pool).unwrap_or_default();
            let auth = at(ix, Role::DepositAuth);
            if tag != 0 || vault_pda(&p, &h.mint).0 != k || auth != Some(h.owner) || h.amount != 0 || b.data[72..76] != [0; 4] || b.data[129..133] != [0; 4] {
                return what("a token account appeared");
            }
        } else {
            return what("an account of another program appeared");
        }
    }
    if let Some((m, d)) = sums.into_iter().find(|s| s.1 != 0) {
        return Err(format!("{d} tokens of mint {m} appeared or disappeared"));
    }
    Ok(())
}

// ------------------------------------------------------------ what is sent

const ACCEPTED: [&str; 12] = [
    "chaos_init_pool",
    "chaos_fill",
    "chaos_open",
    "chaos_deposit",
    "chaos_withdraw",
    "chaos_claim",
    "chaos_extend",
    "chaos_distribute",
    "chaos_close",
    "chaos_change_delegate",
    "chaos_slash",
    "chaos_penalty",
];

pub struct Chaos {
    pub salt: u16,
    payers: Vec<Pubkey>,
    people: Vec<Pubkey>,
    n: usize,
    /// the stakes there are: pool, owner, his account, stake, its delegate, his account
    known: Vec<(Pubkey, Pubkey, Pubkey, Stake, Pubkey, Pubkey)>,
}

impl Chaos {
    pub fn new(sim: &Sim, case: &Case) -> Chaos {
        let cx = &sim.cx;
        let mut people: Vec<Pubkey> = cx.users.iter().map(|u| u.wallet).collect();
        people.push(cx.attacker);
        people.push(cx.payer);
        for p in &cx.pools {
            people.extend([p.deposit_auth, p.dist_auth, p.fill_auth]);
        }
        people.sort();
        people.dedup();
        Chaos { salt: case.cfg.salt, payers: vec![cx.payer, cx.attacker], people, n: 0, known: vec![] }
    }

    fn number(&self, rng: &mut Rng, near: u64) -> u64 {
        let x = rng.next();
        match rng.below(9) {
            0 => 0,
            1 => 1,
            2 => near,
            3 => near / 2,
            4 => near.wrapping_add(x % 3).wrapping_sub(1),
            5 => u64::MAX - x % 2,
            6 => (1u64 << (x % 64)).wrapping_sub(x >> 7 & 1),
            7 => x >> (x % 64),
            _ => x % 1_000_000,
        }
    }

    /// An instruction for something there is in the world.
    fn plain(&mut self, w: &World, rng: &mut Rng) -> (Data, Keys) {
        let mut pools = vec![];
        let mut blanks = vec![];
        let mut minings: Vec<(Pubkey, MiningHdr)> = vec![];
        let mut tokens: Vec<(Pubkey, TokenHdr)> = vec![];
        let mut mints = vec![];
        for (k, a) in &w.accts {
            if a.owner == pid() {
                match (pool_hdr(a), mining_hdr(a)) {
                    (Some(h), _) if h.ty == 1 => pools.push((*k, h)),
                    (Some(_), _) => blanks.push(*k),
                    (_, Some(h)) => minings.push((*k, h)),
                    _ => {}
                }
            } else if let Some(h) = token_hdr(a) {
                tokens.push((*k, h));
            } else if a.owner == spl_token::id() {
                mints.push(*k);
            }
        }
        let (pool, ph) = rng.pick(&pools);
        let mine: Vec<(Pubkey, MiningHdr)> = minings.iter().filter(|m| m.1.pool == pool).cloned().collect();
        let any = |rng: &mut Rng, me: &[(Pubkey, MiningHdr)]| {
            if me.is_empty() {
                (pool, None)
            } else {
                let m = rng.pick(me);
                (m.0, Some(m.1))
            }
        };
        let (m, mh) = any(rng, &mine);
        let (d1, d1h) = any(rng, &mine);
        let (d2, _) = any(rng, &mine);
        let someone = rng.pick(&self.people);
        let owner = mh.as_ref().map(|h| h.owner).unwrap_or(someone);
        let delegate = d1h.as_ref().map(|h| h.owner).unwrap_or(someone);
        let toks = |rng: &mut Rng, who: &Pubkey| {
            let v: Vec<Pubkey> = tokens.iter().filter(|t| t.1.owner == *who && t.1.mint == ph.mint).map(|t| t.0).collect();
            if v.is_empty() || rng.below(9) == 0 {
                let t = rng.below(tokens.len());
                tokens[t].0
            } else {
                rng.pick(&v)
            }
        };
        let vault = vault_pda(&pool, &ph.mint).0;
        let mut k = Keys {
            pool,
            mint: ph.mint,
            vault,
            mining: m,
            delegate: if rng.below(2) == 0 { m } else { d1 },
            old_delegate: if rng.below(2) == 0 { m } else { d2 },
            deposit_auth: ph.deposit_auth,
            dist_auth: ph.dist_auth,
            fill_auth: ph.fill_auth,
            owner,
            payer: rng.pick(&self.payers),
            source: toks(rng, &ph.fill_auth),
            dest: toks(rng, &owner),
            target: if rng.below(3) == 0 { someone } else { owner },
        };
        let delegate = if k.delegate == m { owner } else { delegate };
        let share = mh.as_ref().map(|h| h.share).unwrap_or(1000);
        let sfo = d1h.as_ref().map(|h| h.sfo).unwrap_or(1000);
        let l = |rng: &mut Rng| rng.below(5) as u8;
        let d = match rng.below(16) {
            0 => {
                if let Some(b) = (!blanks.is_empty()).then(|| rng.pick(&blanks)) {
                    k.pool = b;
                }
                if rng.below(3) == 0 {
                    k.mint = rng.pick(&mints);
                }
                k.vault = vault_pda(&k.pool, &k.mint).0;
                if rng.below(2) == 0 {
                    k.deposit_auth = rng.pick(&self.people);
                }
                Data::InitPool { fill: rng.pick(&self.people), dist: rng.pick(&self.people) }
            }
            1 | 2 => {
                let near = w.tokens(&k.source);
                let days = rng.below(40) as u64 * DAY;
                Data::Fill { rewards: self.number(rng, near), ends: if rng.below(5) == 0 { self.number(rng, ph.ends) } else { w.now + days } }
            }
            3 | 4 => {
                let owner = match rng.below(6) {
                    0 => rng.pick(&minings.iter().map(|m| m.0).chain([pool, vault, Pubkey::default()]).collect::<Vec<_>>()),
                    _ => rng.pick(&self.people),
                };
                if rng.below(9) == 0 && !blanks.is_empty() {
                    k.pool = rng.pick(&blanks);
                }
                k.mining = mining_pda(&owner, &k.pool).0;
                Data::InitMining { owner }
            }
            5 | 6 => Data::Deposit { amount: self.number(rng, share), lock: l(rng), owner, delegate },
            7 => Data::Withdraw { amount: self.number(rng, share.min(sfo.max(1))), owner, delegate },
            8 => Data::Claim,
            9 => Data::Extend {
                old: l(rng),
                new: l(rng),
                start: w.now.wrapping_sub(rng.below(40) as u64 * DAY),
                base: self.number(rng, share),
                add: self.number(rng, share),
                owner,
                delegate,
            },
            10 | 11 => Data::Distribute,
            12 => Data::Close,
            13 => Data::ChangeDelegate { amount: self.number(rng, share.min(sfo.max(1))), new: delegate },
            14 => Data::Slash {
                owner,
                native: self.number(rng, share / 2),
                weighted: self.number(rng, share),
                date: if rng.below(2) == 0 { None } else { Some(day(w.now) + [30, 90, 180, 365][rng.below(4)] * DAY) },
            },
            _ => Data::Penalty { owner, n: self.number(rng, share) },
        };
        // one of the stakes there really are, often
        if !self.known.is_empty() && rng.below(3) > 0 {
            let (q, owner, m, st, del_owner, del) = rng.pick(&self.known);
            let mut mine = k.clone();
            if q == k.pool {
                mine.mining = m;
                mine.owner = owner;
                let part = |rng: &mut Rng, n: u64| if rng.below(3) == 0 { n } else { rng.next() % n.saturating_add(1).max(1) };
                match d {
                    Data::Extend { new, add, .. } => {
                        if rng.below(4) > 0 {
                            mine.old_delegate = del;
                        }
                        return (Data::Extend { old: st.lock, new, start: st.start, base: st.base, add, owner, delegate }, mine);
                    }
                    Data::Withdraw { .. } => {
                        mine.delegate = del;
                        return (Data::Withdraw { amount: part(rng, st.base), owner, delegate: del_owner }, mine);
                    }
                    Data::ChangeDelegate { new, .. } => {
                        mine.old_delegate = del;
                        return (Data::ChangeDelegate { amount: part(rng, st.base), new }, mine);
                    }
                    Data::Slash { .. } => {
                        let n = part(rng, st.base);
                        let live = st.lock != FLEX && expiry(st.lock, st.start) > day(w.now);
                        let (mu, date) = if live { (mult(st.lock), Some(expiry(st.lock, st.start))) } else { (1, None) };
                        return (Data::Slash { owner, native: n, weighted: n.saturating_mul(mu), date }, mine);
                    }
                    _ => {}
                }
            }
        }
        (d, k)
    }

    /// Any instruction, and whether it is one of this program's.
    pub fn any(&mut self, w: &World, rng: &mut Rng) -> Instruction {
        let (d, k) = self.plain(w, rng);
        let mut ix = instruction(&d, &k);
        let world: Vec<Pubkey> = w.accts.keys().copied().collect();
        let n = [0, 0, 0, 1, 1, 2, 3, 6][rng.below(8)];
        for _ in 0..n {
            let i = rng.below(ix.accounts.len());
            let j = rng.below(ix.accounts.len());
            match rng.below(10) {
                0..=4 => ix.accounts[i].pubkey = rng.pick(&world),
                5 => ix.accounts[i].pubkey = ix.accounts[j].pubkey,
                6 => {
                    let who = rng.pick(&self.people);
                    ix.accounts[i].pubkey = who;
                }
                7 => ix.accounts[i].is_signer ^= true,
                8 => ix.accounts[i].is_writable ^= true,
                _ => {
                    let x = rng.below(ix.data.len());
                    ix.data[x] = match rng.below(3) {
                        0 => rng.next() as u8,
                        1 => ix.data[x].wrapping_add(1),
                        _ => rng.below(12) as u8,
                    };
                }
            }
        }
        match rng.below(12) {
            0 => ix.accounts.push(AccountMeta::new(rng.pick(&world), rng.below(2) == 0)),
            1 => {
                let i = rng.below(ix.accounts.len());
                ix.accounts.remove(i);
            }
            _ => {}
        }
        // programs, sysvars and derived addresses cannot sign
        for m in ix.accounts.iter_mut() {
            let signs = self.people.contains(&m.pubkey)
                || w.get(&m.pubkey).is_some_and(|a| {
                    !a.executable && a.owner != sysvar::id() && a.data.len() != MINING_LEN && !is_token(a)
                });
            m.is_signer &= signs && m.pubkey != system_program::id();
        }
        ix
    }

    /// Something that other programs do to accounts.
    fn outside(&mut self, sim: &Sim, w: &mut World, rng: &mut Rng, last: Option<&Instruction>) {
        let cx = &sim.cx;
        match rng.below(4) {
            0 => {
                // a new account for a pool
                self.n += 1;
                w.put(key(self.salt, "chaospool", self.n), blank_pool_acc());
            }
            1 => {
                let pc = rng.pick(&(0..cx.pools.len()).collect::<Vec<_>>());
                let pc = &cx.pools[pc];
                let ix = spl_token::instruction::transfer(&spl_token::id(), &pc.sources[2], &pc.vault, &cx.attacker, &[], 1 + rng.next() % 999).unwrap();
                let _ = w.exec_part(&ix, &[cx.attacker]);
            }
            2 => {
                // lamports for an address where an account is, was, or may be
                let to = match last.and_then(|ix| at(ix, Role::Mining)) {
                    Some(m) => m,
                    None => mining_pda(&rng.pick(&self.people), &cx.pools[0].pool).0,
                };
                let n = [1, 890_880, 100_000_000][rng.below(3)];
                let ix = system_instruction::transfer(&cx.attacker, &to, n);
                let _ = w.exec_part(&ix, &[cx.attacker]);
            }
            _ => w.now += [1, DAY, 3 * DAY, 40 * DAY][rng.below(4)],
        }
    }
}

/// A few transactions in a copy of the world.
pub fn burst(sim: &mut Sim, ch: &mut Chaos, rng: &mut Rng, out: &mut Out) {
    ch.known.clear();
    for (p, us) in sim.stakes.iter().enumerate() {
        for (u, v) in us.iter().enumerate() {
            let (pc, us) = (&sim.cx.pools[p], &sim.cx.users);
            ch.known.extend(v.iter().filter(|s| s.del < us.len()).map(|s| {
                (pc.pool, us[u].wallet, us[u].mining[p], s.clone(), us[s.del].wallet, us[s.del].mining[p])
            }));
        }
    }
    let mut w = sim.w.clone();
    let txs = 1 + rng.below(6);
    for _ in 0..txs {
        let mut t = w.clone();
        let mut keys = vec![];
        let mut last: Option<Instruction> = None;
        let parts = if rng.below(3) == 0 { 2 + rng.below(2) } else { 1 };
        let mut ok = true;
        for _ in 0..parts {
            if rng.below(6) == 0 {
                ch.outside(sim, &mut t, rng, last.as_ref());
                if let Some(m) = last.as_ref().and_then(|ix| at(ix, Role::Mining)) {
                    keys.push(m);
                }
            }
            let ix = match &last {
                Some(l) if rng.below(3) == 0 => l.clone(),
                _ => ch.any(&t, rng),
            };
            sim.stats.add("chaos", 1);
            let before = t.clone();
            if t.exec_part(&ix, &signers(&ix)).is_err() {
                ok = false;
                break;
            }
            keys.extend(ix.accounts.iter().map(|m| m.pubkey));
            sim.stats.add("chaos_accepted", 1);
            sim.stats.add(ACCEPTED[ix.data[0] as usize % 12], 1);
            let bad = guard(&before, &t, &ix);
            let inc = coherent(&before, &ix);
            if bad.is_err() || inc.is_err() {
                let n = ix.data.first().map(|t| name(*t)).unwrap_or("nothing");
                let (props, why): (&'static [&'static str], String) = match (bad, inc) {
                    (Err(e), Ok(())) => (&["P23"], e),
                    (Err(e), Err(i)) => (&["P23", "P11", "P18"], format!("{e}; it was accepted although: {i}")),
                    (_, Err(i)) => (if i.contains("sign") { &["P10"] } else { &["P11", "P18"] }, format!("it was accepted although: {i}")),
                    _ => unreachable!(),
                };
                let accs: Vec<String> = ix
                    .accounts
                    .iter()
                    .map(|m| format!("{}{}{}", sim.describe(&m.pubkey), if m.is_signer { "*" } else { "" }, if m.is_writable { "" } else { " (ro)" }))
                    .collect();
                sim.log(|| format!("chaos: {:?} with {}", decode(&ix.data), accs.join(", ")));
                out.push(Mismatch { props: props.to_vec(), msg: format!("{n} in an arbitrary transaction: {why}") });
                return;
            }
            last = Some(ix);
        }
        if ok {
            t.end_tx(&keys);
            w = t;
        }
    }
}

pub fn run(sim: &mut Sim, case: &Case, out: &mut Out) {
    let mut rng = Rng::new(&case.x);
    let mut ch = Chaos::new(sim, case);
    sim.observe = false;
    for op in &case.ops {
        if let Some((p, sem)) = sim.resolve(op) {
            let ix = sim.ix(p, &sem);
            let mut w = sim.w.clone();
            sim.stats.add("guarded", 1);
            if w.exec(&ix, &signers(&ix)).is_ok() {
                sim.stats.add("guarded_accepted", 1);
                if let Err(e) = guard(&sim.w, &w, &ix) {
                    sim.log(|| format!("{sem:?} on pool {p}"));
                    out.push(Mismatch { props: vec!["P23"], msg: format!("{}: {e}", name(ix.data[0])) });
                    sim.stop = true;
                    return;
                }
            }
        }
        sim.step(op, out);
        if sim.stop || sim.poisoned || !out.is_empty() {
            return;
        }
        for _ in 0..[0, 1, 1, 2][rng.below(4)] {
            burst(sim, &mut ch, &mut rng, out);
            if !out.is_empty() {
                sim.stop = true;
                return;
            }
        }
    }
}
