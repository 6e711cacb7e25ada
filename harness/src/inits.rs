//! P16: what may be initialised, where, how often, and what it starts with.
use crate::mutate::Rng;
use crate::sim::*;
use crate::svm::*;
use crate::wire::*;
use solana_program::instruction::Instruction;
use solana_program::{pubkey::Pubkey, rent::Rent, system_program};

fn mm(msg: String) -> Mismatch {
    Mismatch { props: vec!["P16"], msg }
}

pub fn run(sim: &mut Sim, case: &Case, out: &mut Out) {
    let mut rng = Rng::new(&case.x);
    fresh_pool(sim, case, &mut rng, 0, out);
    for (i, op) in case.ops.iter().enumerate() {
        sim.step(op, out);
        if sim.stop || sim.poisoned || !out.is_empty() {
            return;
        }
        match rng.below(3) {
            0 => again(sim, &mut rng, out),
            1 => stranger(sim, case, &mut rng, i, out),
            _ => {}
        }
        if !out.is_empty() {
            sim.stop = true;
            return;
        }
    }
    fresh_pool(sim, case, &mut rng, 1, out);
}

/// lamports somebody may have sent to an address beforehand
fn dust(rng: &mut Rng, len: usize) -> u64 {
    let full = Rent::default().minimum_balance(len);
    match rng.below(9) {
        0 | 1 => 0,
        2 => 1,
        3 => 890_880,
        4 => full - 1,
        5 => full,
        6 => full + 1,
        7 => 10_000_000_000,
        _ => rng.next() % full,
    }
}

fn refused(sim: &mut Sim, what: &str, ix: &Instruction, out: &mut Out) {
    sim.stats.add("reinits", 1);
    let mut w = sim.w.clone();
    let ok = w.exec(ix, &signers(ix)).is_ok();
    sim.log(|| format!("{what} -> {}", if ok { "accepted" } else { "refused" }));
    if ok {
        out.push(mm(format!("{what} was accepted")));
    } else if !w.diff(&sim.w).is_empty() {
        out.push(mm(format!("{what} was refused but changed something")));
    }
}

/// Initialises what is already there once more.
fn again(sim: &mut Sim, rng: &mut Rng, out: &mut Out) {
    let cx = sim.cx.clone();
    let p = rng.below(cx.pools.len());
    let pc = &cx.pools[p];
    let payer = if rng.below(2) == 0 { cx.payer } else { cx.attacker };
    if rng.below(2) == 0 {
        let mint = if rng.below(2) == 0 { pc.mint } else { cx.other_mint };
        let who = if rng.below(2) == 0 { pc.deposit_auth } else { cx.attacker };
        let k = Keys {
            pool: pc.pool,
            mint,
            vault: vault_pda(&pc.pool, &mint).0,
            payer,
            deposit_auth: who,
            ..Default::default()
        };
        let d = match rng.below(2) {
            0 => Data::InitPool { fill: pc.fill_auth, dist: pc.dist_auth },
            _ => Data::InitPool { fill: cx.attacker, dist: cx.attacker },
        };
        refused(sim, &format!("initialising pool {p} again"), &instruction(&d, &k), out);
    } else {
        let u = rng.below(cx.users.len());
        let uc = &cx.users[u];
        if sim.m[p].minings[u].is_none() {
            // at another address than its own
            let other = match rng.below(3) {
                0 => key(9, "elsewhere", u),
                1 => cx.users[(u + 1) % cx.users.len()].mining[p],
                _ => mining_pda(&uc.wallet, &uc.wallet).0,
            };
            if other == uc.mining[p] {
                return;
            }
            let k = Keys { pool: pc.pool, mining: other, payer, ..Default::default() };
            let ix = instruction(&Data::InitMining { owner: uc.wallet }, &k);
            refused(sim, &format!("opening the account of {u} in pool {p} at another address"), &ix, out);
            return;
        }
        let k = Keys { pool: pc.pool, mining: uc.mining[p], payer, ..Default::default() };
        let owner = if rng.below(3) == 0 { cx.attacker } else { uc.wallet };
        let ix = instruction(&Data::InitMining { owner }, &k);
        refused(sim, &format!("opening the account of {u} in pool {p} again"), &ix, out);
    }
}

/// Somebody unknown gets an account, paid by anyone.
fn stranger(sim: &mut Sim, case: &Case, rng: &mut Rng, i: usize, out: &mut Out) {
    let cx = sim.cx.clone();
    let p = rng.below(cx.pools.len());
    let pc = &cx.pools[p];
    let owner = match rng.below(8) {
        0 => pc.pool,
        1 => pc.deposit_auth,
        2 => Pubkey::default(),
        _ => key(case.cfg.salt, "somebody", i),
    };
    let payer = if rng.below(2) == 0 { cx.payer } else { cx.attacker };
    let (mining, bump) = mining_pda(&owner, &pc.pool);
    let n = dust(rng, MINING_LEN);
    if sim.w.get(&mining).is_some() {
        return;
    }
    let mut w = sim.w.clone();
    if n > 0 {
        w.put(mining, Acc { lamports: n, ..wallet_acc() });
    }
    let w0 = w.clone();
    let k = Keys { pool: pc.pool, mining, payer, ..Default::default() };
    let ix = instruction(&Data::InitMining { owner }, &k);
    sim.stats.add("strangers", 1);
    let r = w.exec(&ix, &signers(&ix));
    sim.log(|| format!("opening an account for a stranger with {n} lamports there -> {}", r.is_ok()));
    if let Err(e) = r {
        out.push(mm(format!("opening an account was refused with {n} lamports sent to its address: {}", e.short())));
        return;
    }
    for d in w.diff(&w0) {
        if d != mining && d != payer {
            out.push(mm(format!("opening an account changed {}", sim.describe(&d))));
        }
    }
    let h = w.get(&mining).and_then(mining_hdr);
    let blank = h.as_ref().is_some_and(|h| {
        h.pool == pc.pool && h.owner == owner && h.share == 0 && h.unclaimed == 0 && h.sfo == 0 && h.bump == bump && h.ty == 2
    });
    if !blank {
        out.push(mm(format!("a fresh account of {owner} is not blank: {h:?}")));
    }
    let l = w.lamports(&mining);
    if l < Rent::default().minimum_balance(MINING_LEN) {
        out.push(mm(format!("a fresh account is not rent exempt: {l} lamports")));
    }
    // keep it in the world now and then: it must not matter to anyone
    if rng.below(2) == 0 {
        sim.w = w;
    }
}

/// A whole new pool, and one round of using it.
fn fresh_pool(sim: &mut Sim, case: &Case, rng: &mut Rng, i: usize, out: &mut Out) {
    if sim.stop || sim.poisoned || !out.is_empty() {
        return;
    }
    let cx = sim.cx.clone();
    let s = case.cfg.salt;
    let pool = key(s, "freshpool", i);
    let mut w = sim.w.clone();
    let mut acc = blank_pool_acc();
    if rng.below(3) == 0 {
        acc.lamports += rng.next() % 1_000_000;
    }
    w.put(pool, acc);
    let (mint, auth, dist, fill) = (
        if rng.below(2) == 0 { cx.pools[0].mint } else { cx.other_mint },
        [cx.pools[0].deposit_auth, cx.attacker, cx.users[0].wallet][rng.below(3)],
        [cx.pools[0].dist_auth, cx.attacker, key(s, "freshdist", i)][rng.below(3)],
        [cx.pools[0].fill_auth, cx.attacker, key(s, "freshfill", i)][rng.below(3)],
    );
    let vault = vault_pda(&pool, &mint).0;
    let n = dust(rng, 165);
    if n > 0 {
        w.put(vault, Acc { lamports: n, ..wallet_acc() });
    }
    let payer = if rng.below(2) == 0 { cx.payer } else { cx.attacker };
    let k = Keys { pool, mint, vault, payer, deposit_auth: auth, ..Default::default() };
    let d = Data::InitPool { fill, dist };
    let ix = instruction(&d, &k);

    // what must not work
    let saved = std::mem::replace(&mut sim.w, w);
    let bad: Vec<(&str, Instruction)> = vec![
        ("a pool whose vault is at another address", {
            let v = [key(s, "elsewhere", 1), vault_pda(&pool, &cx.pools[0].pool).0, vault_pda(&cx.pools[0].pool, &mint).0][rng.below(3)];
            instruction(&d, &Keys { vault: v, ..k })
        }),
        ("a pool with something else as mint", {
            let m = [cx.pools[0].sources[0], cx.bystander, pool, cx.pools[0].vault][rng.below(4)];
            instruction(&d, &Keys { mint: m, vault: vault_pda(&pool, &m).0, ..k })
        }),
        ("a pool in an account of the wrong size", {
            let a = key(s, "wrongsize", i);
            let len = [POOL_LEN - 1, POOL_LEN + 1, POOL_LEN + 8, MINING_LEN, 0, 170][rng.below(6)];
            sim.w.put(a, Acc { data: vec![0; len], ..blank_pool_acc() });
            instruction(&d, &Keys { pool: a, vault: vault_pda(&a, &mint).0, ..k })
        }),
        ("a pool in an account of another program", {
            let a = key(s, "foreignpool", i);
            let owner = [system_program::id(), spl_token::id(), cx.bystander][rng.below(3)];
            sim.w.put(a, Acc { owner, ..blank_pool_acc() });
            instruction(&d, &Keys { pool: a, vault: vault_pda(&a, &mint).0, ..k })
        }),
    ];
    for (what, ix) in &bad {
        refused(sim, what, ix, out);
    }
    let mut w = std::mem::replace(&mut sim.w, saved);
    if !out.is_empty() {
        sim.stop = true;
        return;
    }
    let w0 = w.clone();
    let r = w.exec(&ix, &signers(&ix));
    sim.log(|| format!("a new pool with {n} lamports at its vault's address -> {}", r.is_ok()));
    sim.stats.add("fresh_pools", 1);
    if let Err(e) = r {
        sim.stop = true;
        out.push(mm(format!("a new pool was refused with {n} lamports sent to its vault's address: {}", e.short())));
        return;
    }
    let mut bad = vec![];
    for c in w.diff(&w0) {
        if c != pool && c != vault && c != payer {
            bad.push(format!("initialising a pool changed {}", sim.describe(&c)));
        }
    }
    match w.get(&pool).and_then(pool_hdr) {
        Some(h)
            if h.deposit_auth == auth
                && h.dist_auth == dist
                && h.fill_auth == fill
                && h.mint == mint
                && (h.total, h.ends, h.avail, h.ty) == (0, 0, 0, 1)
                && h.bump == vault_pda(&pool, &mint).1 => {}
        h => bad.push(format!("a fresh pool does not have what it was given: {h:?}")),
    }
    match w.get(&vault).and_then(token_hdr) {
        Some(t) if t.mint == mint && t.amount == 0 => {}
        _ => bad.push("a fresh pool's vault is not an empty account of its mint".into()),
    }
    // again, right away, by anybody
    let d2 = Data::InitPool { fill: cx.attacker, dist: cx.attacker };
    let m2 = if rng.below(2) == 0 { mint } else { cx.pools[0].mint };
    let again = instruction(
        &d2,
        &Keys { mint: m2, vault: vault_pda(&pool, &m2).0, deposit_auth: cx.attacker, ..k },
    );
    if w.clone().exec(&again, &signers(&again)).is_ok() {
        bad.push("a pool was initialised a second time".into());
    }
    // and it works: one staker gets what is distributed
    let u = &cx.users[rng.below(cx.users.len())];
    let (src, dst) = (key(s, "freshsrc", i), key(s, "freshdst", i));
    let filler = key(s, "fillowner", i);
    let _ = filler;
    let amount = 1 + rng.next() % 1_000_000;
    w.put(src, token_acc(&mint, &fill, amount));
    w.put(dst, token_acc(&mint, &u.wallet, 0));
    for a in [auth, dist, fill] {
        if w.get(&a).is_none() {
            w.put(a, wallet_acc());
        }
    }
    let k = Keys {
        pool,
        mint,
        vault,
        mining: mining_pda(&u.wallet, &pool).0,
        delegate: mining_pda(&u.wallet, &pool).0,
        deposit_auth: auth,
        dist_auth: dist,
        fill_auth: fill,
        owner: u.wallet,
        payer,
        source: src,
        dest: dst,
        ..Default::default()
    };
    let now = w.now;
    for d in [
        Data::InitMining { owner: u.wallet },
        Data::Deposit { amount: 1 + rng.next() % 1_000_000, lock: 1 + rng.below(4) as u8, owner: u.wallet, delegate: u.wallet },
        Data::Fill { rewards: amount, ends: now },
        Data::Distribute,
        Data::Claim,
    ] {
        let ix = instruction(&d, &k);
        if let Err(e) = w.exec(&ix, &signers(&ix)) {
            bad.push(format!("{} on a fresh pool was refused: {}", name(tag(&d)), e.short()));
            break;
        }
    }
    let got = w.tokens(&dst);
    if bad.is_empty() && amount - got > 1 {
        bad.push(format!("the only staker of a fresh pool got {got} of {amount}"));
    }
    if !bad.is_empty() {
        sim.stop = true;
    }
    for b in bad {
        out.push(mm(b));
    }
}
