//! P17: the published client, the program's own builders, the IDL and the
//! program agree with each other and with `wire`.
use crate::gen::*;
use crate::mutate::Rng;
use crate::sim::*;
use crate::svm::*;
use crate::wire::*;
use mplx_rewards::instruction as prog;
use mplx_rewards::utils::LockupPeriod as PLock;
use num_traits::FromPrimitive;
use proptest::prelude::*;
use rewards::accounts as ca;
use rewards::instructions as ci;
use rewards::types::LockupPeriod as CLock;
use serde_json::Value;
use solana_program::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::{pubkey::Pubkey, system_program, sysvar};
use std::sync::OnceLock;

fn mm(msg: String) -> Mismatch {
    Mismatch { props: vec!["P17"], msg }
}

pub fn strategy() -> BoxedStrategy<Case> {
    let broad = Profile {
        invalid: 22,
        claim: 12,
        close: 6,
        open: 5,
        chg: 10,
        ext: 12,
        slash: 10,
        pen: 8,
        adv: 24,
        pools: (1, 2),
        max_ops: 16,
        words: 12,
        ..Profile::default()
    };
    let extreme = Profile { extreme: true, ..broad.clone() };
    prop_oneof![3 => case(&broad), 1 => case(&extreme)].boxed()
}

fn plock(l: u8) -> PLock {
    [PLock::None, PLock::Flex, PLock::ThreeMonths, PLock::SixMonths, PLock::OneYear][l as usize]
}
fn clock(l: u8) -> CLock {
    [CLock::None, CLock::Flex, CLock::ThreeMonths, CLock::SixMonths, CLock::OneYear][l as usize].clone()
}

/// The program crate's own builder.
pub fn by_program(d: &Data, k: &Keys) -> Instruction {
    let id = &pid();
    match d {
        Data::InitPool { fill, dist } => {
            prog::initialize_pool(id, &k.pool, &k.mint, &k.vault, &k.payer, &k.deposit_auth, fill, dist)
        }
        Data::Fill { rewards, ends } => {
            prog::fill_vault(id, &k.pool, &k.mint, &k.vault, &k.fill_auth, &k.source, *rewards, *ends)
        }
        Data::InitMining { owner } => prog::initialize_mining(id, &k.pool, &k.mining, &k.payer, owner),
        Data::Deposit { amount, lock, owner, delegate } => prog::deposit_mining(
            id,
            &k.pool,
            &k.mining,
            &k.deposit_auth,
            &k.delegate,
            *amount,
            plock(*lock),
            owner,
            delegate,
        ),
        Data::Withdraw { amount, owner, delegate } => {
            prog::withdraw_mining(id, &k.pool, &k.mining, &k.deposit_auth, &k.delegate, *amount, owner, delegate)
        }
        Data::Claim => {
            prog::claim(id, &k.pool, &k.mint, &k.vault, &k.mining, &k.owner, &k.deposit_auth, &k.dest)
        }
        Data::Extend { old, new, start, base, add, owner, delegate } => prog::extend_stake(
            id,
            &k.pool,
            &k.mining,
            &k.deposit_auth,
            &k.delegate,
            plock(*old),
            plock(*new),
            *start,
            *base,
            *add,
            owner,
            delegate,
        ),
        Data::Distribute => prog::distribute_rewards(id, &k.pool, &k.dist_auth),
        Data::Close => prog::close_mining(id, &k.mining, &k.owner, &k.target, &k.deposit_auth, &k.pool),
        Data::ChangeDelegate { amount, new } => prog::change_delegate(
            id,
            &k.pool,
            &k.mining,
            &k.deposit_auth,
            &k.owner,
            &k.old_delegate,
            &k.delegate,
            new,
            *amount,
        ),
        Data::Slash { owner, native, weighted, date } => {
            prog::slash(id, &k.deposit_auth, &k.pool, &k.mining, owner, *native, *weighted, *date)
        }
        Data::Penalty { owner, n } => prog::decrease_rewards(id, &k.deposit_auth, &k.pool, &k.mining, owner, *n),
    }
}

/// What a caller may add to an instruction of the client.
#[derive(Default, Clone)]
pub struct Extra {
    accounts: Vec<AccountMeta>,
    seeds: Vec<Vec<u8>>,
    /// Replaces the programs and sysvars the builders fill in.
    programs: Vec<Pubkey>,
}

/// The client's instruction four ways: accounts struct, builder, and the calls
/// of the CPI struct and the CPI builder as they reach the runtime.
macro_rules! three {
    ($out:ident, $x:ident, $st:ident, $bld:ident, $cpi:ident, $cst:ident, $cacc:ident,
     { $($acc:ident = $key:expr),* }, default { $($dacc:ident = $dkey:expr),* },
     $args:ident { $($a:ident = $v:expr),* }, opt { $($oa:ident = $ov:expr),* }) => {{
        let args = || ci::$args { $($a: $v,)* $($oa: $ov,)* };
        let st = ci::$st { $($acc: $key,)* $($dacc: $dkey),* };
        $out.push(("struct", match $x.accounts.is_empty() {
            true => st.instruction(args()),
            false => st.instruction_with_remaining_accounts(args(), &$x.accounts),
        }, None));
        let mut b = ci::$bld::new();
        $(b.$acc($key);)*
        $(if !$x.programs.is_empty() { b.$dacc($dkey); })*
        $(b.$a($v);)*
        $(if let Some(x) = $ov { b.$oa(x); })*
        three!(@more b, $x.accounts);
        $out.push(("builder", b.instruction(), None));
        three!(@cpi $out, $x, $cpi, $cst, $cacc, { $($acc = $key,)* $($dacc = $dkey,)* }, { $($a = $v),* }, { $($oa = $ov),* }, args());
    }};
    ($out:ident, $x:ident, $st:ident, $bld:ident, $cpi:ident, $cst:ident, $cacc:ident,
     { $($acc:ident = $key:expr),* }, default { $($dacc:ident = $dkey:expr),* }) => {{
        let st = ci::$st { $($acc: $key,)* $($dacc: $dkey),* };
        $out.push(("struct", match $x.accounts.is_empty() {
            true => st.instruction(),
            false => st.instruction_with_remaining_accounts(&$x.accounts),
        }, None));
        let mut b = ci::$bld::new();
        $(b.$acc($key);)*
        $(if !$x.programs.is_empty() { b.$dacc($dkey); })*
        three!(@more b, $x.accounts);
        $out.push(("builder", b.instruction(), None));
        three!(@cpi $out, $x, $cpi, $cst, $cacc, { $($acc = $key,)* $($dacc = $dkey,)* }, {}, {},);
    }};
    (@more $b:ident, $accs:expr) => {
        if let Some((first, rest)) = $accs.split_first() {
            $b.add_remaining_account(first.clone());
            $b.add_remaining_accounts(rest);
        }
    };
    (@cpi $out:ident, $x:ident, $cpi:ident, $cst:ident, $cacc:ident, { $($acc:ident = $key:expr,)* },
     { $($a:ident = $v:expr),* }, { $($oa:ident = $ov:expr),* }, $($args:expr)?) => {{
        let program = pid();
        let mut pl = 0u64;
        let pi = AccountInfo::new(&program, false, false, &mut pl, &mut [], &program, true, 0);
        $(
            let $acc = $key;
            let mut lam = 0u64;
            let $acc = AccountInfo::new(&$acc, true, true, &mut lam, &mut [], &program, false, 0);
        )*
        let mut lams = vec![0u64; $x.accounts.len()];
        let infos: Vec<AccountInfo> = $x.accounts.iter().zip(lams.iter_mut())
            .map(|(m, l)| AccountInfo::new(&m.pubkey, true, true, l, &mut [], &program, false, 0))
            .collect();
        let more: Vec<(&AccountInfo, bool, bool)> =
            $x.accounts.iter().zip(&infos).map(|(m, i)| (i, m.is_writable, m.is_signer)).collect();
        let parts: Vec<&[u8]> = $x.seeds.iter().map(|s| s.as_slice()).collect();
        let seeds: Vec<&[&[u8]]> = if parts.is_empty() { vec![] } else { vec![&parts] };
        let got = capture(|| {
            let mut b = ci::$cpi::new(&pi);
            $(b.$acc(&$acc);)*
            $(b.$a($v);)*
            $(if let Some(x) = $ov { b.$oa(x); })*
            if let Some((first, rest)) = more.split_first() {
                b.add_remaining_account(first.0, first.1, first.2);
                b.add_remaining_accounts(rest);
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(&seeds) }
        });
        let none = || Instruction { program_id: program, accounts: vec![], data: vec![] };
        match got {
            Some((ix, infos, sd)) => $out.push(("CPI builder", ix, Some((infos, sd)))),
            None => $out.push(("CPI builder", none(), None)),
        }
        let got = capture(|| {
            let c = ci::$cst::new(&pi, ci::$cacc { $($acc: &$acc,)* }, $($args)?);
            match (seeds.is_empty(), more.is_empty()) {
                (true, true) => c.invoke(),
                (true, false) => c.invoke_with_remaining_accounts(&more),
                (false, true) => c.invoke_signed(&seeds),
                (false, false) => c.invoke_signed_with_remaining_accounts(&seeds, &more),
            }
        });
        match got {
            Some((ix, infos, sd)) => $out.push(("CPI struct", ix, Some((infos, sd)))),
            None => $out.push(("CPI struct", none(), None)),
        }
    }};
}

type Seeds = Vec<Vec<Vec<u8>>>;
type Built = Vec<(&'static str, Instruction, Option<(Vec<Pubkey>, Seeds)>)>;

pub fn by_client(d: &Data, k: &Keys, x: &Extra) -> Built {
    let mut out: Built = vec![];
    let given = |i: usize, id: Pubkey| x.programs.get(i).copied().unwrap_or(id);
    let (tok, sys, rent_id) = (given(0, spl_token::id()), given(1, system_program::id()), given(2, sysvar::rent::id()));
    match d {
        Data::InitPool { fill, dist } => three!(out, x, InitializePool, InitializePoolBuilder, InitializePoolCpiBuilder, InitializePoolCpi, InitializePoolCpiAccounts,
            { reward_pool = k.pool, reward_mint = k.mint, vault = k.vault, payer = k.payer, deposit_authority = k.deposit_auth },
            default { rent = rent_id, token_program = tok, system_program = sys },
            InitializePoolInstructionArgs { fill_authority = *fill, distribute_authority = *dist }, opt {}),
        Data::Fill { rewards, ends } => three!(out, x, FillVault, FillVaultBuilder, FillVaultCpiBuilder, FillVaultCpi, FillVaultCpiAccounts,
            { reward_pool = k.pool, reward_mint = k.mint, vault = k.vault, fill_authority = k.fill_auth, source_token_account = k.source },
            default { token_program = tok },
            FillVaultInstructionArgs { rewards = *rewards, distribution_ends_at = *ends }, opt {}),
        Data::InitMining { owner } => three!(out, x, InitializeMining, InitializeMiningBuilder, InitializeMiningCpiBuilder, InitializeMiningCpi, InitializeMiningCpiAccounts,
            { reward_pool = k.pool, mining = k.mining, payer = k.payer }, default { system_program = sys },
            InitializeMiningInstructionArgs { mining_owner = *owner }, opt {}),
        Data::Deposit { amount, lock, owner, delegate } => three!(out, x, DepositMining, DepositMiningBuilder, DepositMiningCpiBuilder, DepositMiningCpi, DepositMiningCpiAccounts,
            { reward_pool = k.pool, mining = k.mining, deposit_authority = k.deposit_auth, delegate_mining = k.delegate }, default {},
            DepositMiningInstructionArgs { amount = *amount, lockup_period = clock(*lock), mining_owner = *owner, delegate = *delegate }, opt {}),
        Data::Withdraw { amount, owner, delegate } => three!(out, x, WithdrawMining, WithdrawMiningBuilder, WithdrawMiningCpiBuilder, WithdrawMiningCpi, WithdrawMiningCpiAccounts,
            { reward_pool = k.pool, mining = k.mining, deposit_authority = k.deposit_auth, delegate_mining = k.delegate }, default {},
            WithdrawMiningInstructionArgs { amount = *amount, mining_owner = *owner, delegate = *delegate }, opt {}),
        Data::Claim => three!(out, x, Claim, ClaimBuilder, ClaimCpiBuilder, ClaimCpi, ClaimCpiAccounts,
            { reward_pool = k.pool, reward_mint = k.mint, vault = k.vault, mining = k.mining, mining_owner = k.owner,
              deposit_authority = k.deposit_auth, mining_owner_reward_token_account = k.dest },
            default { token_program = tok }),
        Data::Extend { old, new, start, base, add, owner, delegate } => three!(out, x, ExtendStake, ExtendStakeBuilder, ExtendStakeCpiBuilder, ExtendStakeCpi, ExtendStakeCpiAccounts,
            { reward_pool = k.pool, mining = k.mining, deposit_authority = k.deposit_auth, delegate_mining = k.delegate }, default {},
            ExtendStakeInstructionArgs { old_lockup_period = clock(*old), new_lockup_period = clock(*new), deposit_start_ts = *start,
                base_amount = *base, additional_amount = *add, mining_owner = *owner, delegate = *delegate }, opt {}),
        Data::Distribute => three!(out, x, DistributeRewards, DistributeRewardsBuilder, DistributeRewardsCpiBuilder, DistributeRewardsCpi, DistributeRewardsCpiAccounts,
            { reward_pool = k.pool, distribute_authority = k.dist_auth }, default {}),
        Data::Close => three!(out, x, CloseMining, CloseMiningBuilder, CloseMiningCpiBuilder, CloseMiningCpi, CloseMiningCpiAccounts,
            { mining = k.mining, mining_owner = k.owner, target_account = k.target, deposit_authority = k.deposit_auth, reward_pool = k.pool },
            default {}),
        Data::ChangeDelegate { amount, new } => three!(out, x, ChangeDelegate, ChangeDelegateBuilder, ChangeDelegateCpiBuilder, ChangeDelegateCpi, ChangeDelegateCpiAccounts,
            { reward_pool = k.pool, mining = k.mining, deposit_authority = k.deposit_auth, mining_owner = k.owner,
              old_delegate_mining = k.old_delegate, new_delegate_mining = k.delegate }, default {},
            ChangeDelegateInstructionArgs { staked_amount = *amount, new_delegate = *new }, opt {}),
        Data::Slash { owner, native, weighted, date } => three!(out, x, Slash, SlashBuilder, SlashCpiBuilder, SlashCpi, SlashCpiAccounts,
            { deposit_authority = k.deposit_auth, reward_pool = k.pool, mining = k.mining }, default {},
            SlashInstructionArgs { mining_owner = *owner, slash_amount_in_native = *native, slash_amount_multiplied_by_period = *weighted },
            opt { stake_expiration_date = *date }),
        Data::Penalty { owner, n } => three!(out, x, DecreaseRewards, DecreaseRewardsBuilder, DecreaseRewardsCpiBuilder, DecreaseRewardsCpi, DecreaseRewardsCpiAccounts,
            { deposit_authority = k.deposit_auth, reward_pool = k.pool, mining = k.mining }, default {},
            DecreaseRewardsInstructionArgs { mining_owner = *owner, decreased_weighted_stake_number = *n }, opt {}),
    }
    out
}

// ---------------------------------------------------------------- the IDL

fn idl() -> &'static Value {
    static IDL: OnceLock<Value> = OnceLock::new();
    IDL.get_or_init(|| {
        let p = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/idls/mplx_rewards.json");
        serde_json::from_str(&std::fs::read_to_string(p).expect("IDL readable")).expect("IDL is JSON")
    })
}

pub enum V {
    N(u64),
    K(Pubkey),
    L(u8),
    O(Option<u64>),
}

pub fn values(d: &Data) -> Vec<(&'static str, V)> {
    use V::*;
    match d {
        Data::InitPool { fill, dist } => vec![("fillAuthority", K(*fill)), ("distributeAuthority", K(*dist))],
        Data::Fill { rewards, ends } => vec![("rewards", N(*rewards)), ("distributionEndsAt", N(*ends))],
        Data::InitMining { owner } => vec![("miningOwner", K(*owner))],
        Data::Deposit { amount, lock, owner, delegate } => vec![
            ("amount", N(*amount)),
            ("lockupPeriod", L(*lock)),
            ("miningOwner", K(*owner)),
            ("delegate", K(*delegate)),
        ],
        Data::Withdraw { amount, owner, delegate } => {
            vec![("amount", N(*amount)), ("miningOwner", K(*owner)), ("delegate", K(*delegate))]
        }
        Data::Extend { old, new, start, base, add, owner, delegate } => vec![
            ("oldLockupPeriod", L(*old)),
            ("newLockupPeriod", L(*new)),
            ("depositStartTs", N(*start)),
            ("baseAmount", N(*base)),
            ("additionalAmount", N(*add)),
            ("miningOwner", K(*owner)),
            ("delegate", K(*delegate)),
        ],
        Data::ChangeDelegate { amount, new } => vec![("stakedAmount", N(*amount)), ("newDelegate", K(*new))],
        Data::Slash { owner, native, weighted, date } => vec![
            ("miningOwner", K(*owner)),
            ("slashAmountInNative", N(*native)),
            ("slashAmountMultipliedByPeriod", N(*weighted)),
            ("stakeExpirationDate", O(*date)),
        ],
        Data::Penalty { owner, n } => vec![("miningOwner", K(*owner)), ("decreasedWeightedStakeNumber", N(*n))],
        Data::Claim | Data::Distribute | Data::Close => vec![],
    }
}

pub fn account_of(name: &str, k: &Keys) -> Option<Pubkey> {
    Some(match name {
        "rewardPool" => k.pool,
        "rewardMint" => k.mint,
        "vault" => k.vault,
        "payer" => k.payer,
        "depositAuthority" => k.deposit_auth,
        "fillAuthority" => k.fill_auth,
        "distributeAuthority" => k.dist_auth,
        "sourceTokenAccount" => k.source,
        "mining" => k.mining,
        "delegateMining" | "newDelegateMining" => k.delegate,
        "oldDelegateMining" => k.old_delegate,
        "miningOwner" => k.owner,
        "miningOwnerRewardTokenAccount" => k.dest,
        "targetAccount" => k.target,
        "rent" => sysvar::rent::id(),
        "tokenProgram" => spl_token::id(),
        "systemProgram" => system_program::id(),
        _ => return None,
    })
}

/// The lockups by the names the IDL gives them.
fn idl_variant(ty: &str, name: &str) -> Option<u8> {
    let t = idl()["types"].as_array()?.iter().find(|t| t["name"] == ty)?;
    t["type"]["variants"].as_array()?.iter().position(|v| v["name"] == name).map(|i| i as u8)
}

pub const LOCKS: [&str; 5] = ["None", "Flex", "ThreeMonths", "SixMonths", "OneYear"];

/// The instruction as somebody reading only the IDL would build it.
pub fn by_idl(d: &Data, k: &Keys) -> Result<Instruction, String> {
    let nm = name(tag(d));
    let ins = idl()["instructions"]
        .as_array()
        .and_then(|v| v.iter().find(|i| i["name"] == nm))
        .ok_or(format!("the IDL has no {nm}"))?;
    let mut data = vec![ins["discriminant"]["value"].as_u64().ok_or("no discriminant")? as u8];
    let vals = values(d);
    let args = ins["args"].as_array().ok_or("no args")?;
    if args.len() != vals.len() {
        return Err(format!("{nm} has {} arguments in the IDL", args.len()));
    }
    for a in args {
        let an = a["name"].as_str().unwrap_or("");
        let v = vals.iter().find(|(n, _)| *n == an).ok_or(format!("unknown argument {an} of {nm}"))?;
        match (&v.1, &a["type"]) {
            (V::N(n), t) if t == "u64" => data.extend(n.to_le_bytes()),
            (V::K(p), t) if t == "publicKey" => data.extend(p.to_bytes()),
            (V::L(l), t) if t["defined"] == "LockupPeriod" => {
                data.push(idl_variant("LockupPeriod", LOCKS[*l as usize]).ok_or("unknown lockup")?)
            }
            (V::O(o), t) if t["option"] == "u64" => match o {
                None => data.push(0),
                Some(n) => {
                    data.push(1);
                    data.extend(n.to_le_bytes());
                }
            },
            (_, t) => return Err(format!("argument {an} of {nm} has type {t} in the IDL")),
        }
    }
    let mut accounts = vec![];
    for a in ins["accounts"].as_array().ok_or("no accounts")? {
        let an = a["name"].as_str().unwrap_or("");
        accounts.push(AccountMeta {
            pubkey: account_of(an, k).ok_or(format!("unknown account {an} of {nm}"))?,
            is_signer: a["isSigner"].as_bool().unwrap_or(false),
            is_writable: a["isMut"].as_bool().unwrap_or(false),
        });
    }
    Ok(Instruction { program_id: pid(), accounts, data })
}

/// Account fields as the IDL describes them.
fn idl_account(which: &str, bytes: &[u8]) -> Option<Vec<(String, u128, Option<Pubkey>)>> {
    let t = idl()["accounts"].as_array()?.iter().find(|t| t["name"] == which)?;
    let mut at = 0;
    let mut out = vec![];
    for f in t["type"]["fields"].as_array()? {
        let nm = f["name"].as_str()?.to_string();
        let ty = &f["type"];
        let n = match ty.as_str() {
            Some("publicKey") => 32,
            Some("u128") => 16,
            Some("u64") => 8,
            Some("u8") => 1,
            _ => ty["array"][1].as_u64()? as usize,
        };
        let b = bytes.get(at..at + n)?;
        at += n;
        if n == 32 {
            out.push((nm, 0, Some(Pubkey::new_from_array(b.try_into().ok()?))));
        } else {
            let mut x = [0u8; 16];
            x[..n.min(16)].copy_from_slice(&b[..n.min(16)]);
            out.push((nm, u128::from_le_bytes(x), None));
        }
    }
    Some(out)
}

pub fn program_errors() -> [mplx_rewards::error::MplxRewardsError; 16] {
    use mplx_rewards::error::MplxRewardsError as PE;
    [
        PE::InvalidAccountOwner,
        PE::MathOverflow,
        PE::RewardsNoDeposits,
        PE::InvalidLockupPeriod,
        PE::DistributionInThePast,
        PE::InvalidPrimitiveTypesConversion,
        PE::RewardsMustBeClaimed,
        PE::RewardsMustBeGreaterThanZero,
        PE::StakeFromOthersMustBeZero,
        PE::NoWeightedStakeModifiersAtADate,
        PE::DelegatesAreTheSame,
        PE::RetreivingZeroCopyAccountFailire,
        PE::AlreadyInitialized,
        PE::InvalidMining,
        PE::DerivationError,
        PE::DecreaseRewardsTooBig,
    ]
}

fn tables(out: &mut Out) {
    if rewards::ID != pid() || idl()["metadata"]["address"] != pid().to_string() {
        out.push(mm("program addresses differ".into()));
    }
    for e in program_errors() {
        let nm = format!("{e:?}");
        let ProgramError::Custom(code) = ProgramError::from(e) else { continue };
        let c = rewards::errors::MplxRewardsError::from_u32(code).map(|c| format!("{c:?}"));
        if c.as_ref() != Some(&nm) {
            out.push(mm(format!("error {code} is {nm} in the program and {c:?} in the client")));
        }
        let i = idl()["errors"].as_array().and_then(|v| v.iter().find(|i| i["code"] == code).map(|i| i["name"].clone()));
        if i != Some(Value::String(nm.clone())) {
            out.push(mm(format!("error {code} is {nm} in the program and {i:?} in the IDL")));
        }
    }
    if let Some(v) = idl()["instructions"].as_array() {
        if v.len() != 12 {
            out.push(mm(format!("the IDL lists {} instructions", v.len())));
        }
    }
    for (i, n) in ["Uninitialized", "RewardPool", "Mining"].iter().enumerate() {
        if idl_variant("AccountType", n) != Some(i as u8) {
            out.push(mm(format!("account type {n} has another number in the IDL")));
        }
    }
}

/// Stored accounts as the client and the IDL read them.
fn decoders(sim: &Sim, out: &mut Out) {
    for (p, pc) in sim.cx.pools.iter().enumerate() {
        let a = sim.w.get(&pc.pool).unwrap();
        let Some(h) = pool_hdr(a) else { continue };
        let want = ca::RewardPool {
            deposit_authority: h.deposit_auth,
            distribute_authority: h.dist_auth,
            fill_authority: h.fill_auth,
            reward_mint: h.mint,
            index_with_precision: h.index,
            total_share: h.total,
            distribution_ends_at: h.ends,
            tokens_available_for_distribution: h.avail,
            token_account_bump: h.bump,
            data: [h.ty, 0, 0, 0, 0, 0, 0],
        };
        let len = 4 * 32 + 16 + 3 * 8 + 8;
        if ca::RewardPool::LEN != len {
            out.push(mm(format!("the client's RewardPool::LEN is {} instead of {len}", ca::RewardPool::LEN)));
        }
        match as_info(a, |i| ca::RewardPool::try_from(i)) {
            Ok(x) if x == want => {}
            x => out.push(mm(format!("pool {p} holds {h:?} but the client reads {x:?} from its account info"))),
        }
        match ca::RewardPool::from_bytes(&a.data) {
            Ok(x) if x == want => {}
            x => out.push(mm(format!("pool {p} holds {h:?} but the client reads {x:?}"))),
        }
        let f = idl_account("RewardPool", &a.data).unwrap_or_default();
        let get = |n: &str| f.iter().find(|x| x.0 == n).map(|x| (x.1, x.2));
        let ok = get("depositAuthority") == Some((0, Some(h.deposit_auth)))
            && get("distributeAuthority") == Some((0, Some(h.dist_auth)))
            && get("fillAuthority") == Some((0, Some(h.fill_auth)))
            && get("rewardMint") == Some((0, Some(h.mint)))
            && get("indexWithPrecision") == Some((h.index, None))
            && get("totalShare") == Some((h.total as u128, None))
            && get("distributionEndsAt") == Some((h.ends as u128, None))
            && get("tokensAvailableForDistribution") == Some((h.avail as u128, None))
            && get("tokenAccountBump") == Some((h.bump as u128, None));
        if !ok {
            out.push(mm(format!("pool {p} holds {h:?} but the IDL reads {f:?}")));
        }
        for u in 0..sim.cx.users.len() {
            let Some(a) = sim.w.get(&sim.cx.users[u].mining[p]) else { continue };
            let Some(h) = mining_hdr(a) else { continue };
            let want = ca::Mining {
                reward_pool: h.pool,
                owner: h.owner,
                reward_mint: h.mint,
                index_with_precision: h.index,
                share: h.share,
                unclaimed_rewards: h.unclaimed,
                stake_from_others: h.sfo,
                bump: h.bump,
                data: [h.ty, 0, 0, 0, 0, 0, 0],
            };
            let len = 3 * 32 + 16 + 3 * 8 + 8;
            if ca::Mining::LEN != len {
                out.push(mm(format!("the client's Mining::LEN is {} instead of {len}", ca::Mining::LEN)));
            }
            match as_info(a, |i| ca::Mining::try_from(i)) {
                Ok(x) if x == want => {}
                x => out.push(mm(format!("staker account {u} holds {h:?} but the client reads {x:?} from its account info"))),
            }
            match ca::Mining::from_bytes(&a.data) {
                Ok(x) if x == want => {}
                x => out.push(mm(format!("staker account {u} holds {h:?} but the client reads {x:?}"))),
            }
            let f = idl_account("Mining", &a.data).unwrap_or_default();
            let get = |n: &str| f.iter().find(|x| x.0 == n).map(|x| (x.1, x.2));
            let ok = get("rewardPool") == Some((0, Some(h.pool)))
                && get("owner") == Some((0, Some(h.owner)))
                && get("indexWithPrecision") == Some((h.index, None))
                && get("share") == Some((h.share as u128, None))
                && get("unclaimedRewards") == Some((h.unclaimed as u128, None))
                && get("stakeFromOthers") == Some((h.sfo as u128, None))
                && get("bump") == Some((h.bump as u128, None));
            if !ok {
                out.push(mm(format!("staker account {u} holds {h:?} but the IDL reads {f:?}")));
            }
            // the stored values are what the program says they are: a staker
            // settled by a claim shows exactly the observed weights
        }
    }
}

/// An account the way programs see it.
fn as_info<T>(a: &Acc, f: impl FnOnce(&solana_program::account_info::AccountInfo) -> T) -> T {
    let (key, owner) = (Pubkey::default(), a.owner);
    let (mut lamports, mut data) = (a.lamports, a.data.to_vec());
    let i = solana_program::account_info::AccountInfo::new(&key, false, false, &mut lamports, &mut data, &owner, false, 0);
    f(&i)
}

/// All ways to build one instruction, executed side by side.
fn compare(sim: &mut Sim, d: &Data, k: &Keys, out: &mut Out) {
    let nm = name(tag(d));
    let ix = instruction(d, k);
    let sig = signers(&ix);
    let mut w0 = sim.w.clone();
    let r0 = w0.exec(&ix, &sig);
    let mut all: Vec<(String, Instruction)> = vec![("program's builder".into(), by_program(d, k))];
    for (how, cix, infos) in by_client(d, k, &Extra::default()) {
        if let Some((infos, _)) = infos {
            for m in &cix.accounts {
                if !infos.contains(&m.pubkey) {
                    out.push(mm(format!("{nm}: the client's CPI does not pass on {}", sim.describe(&m.pubkey))));
                }
            }
            if !infos.contains(&cix.program_id) {
                out.push(mm(format!("{nm}: the client's CPI does not pass on the program")));
            }
        }
        all.push((format!("client's {how}"), cix));
    }
    match by_idl(d, k) {
        Ok(i) => all.push(("IDL".into(), i)),
        Err(e) => out.push(mm(e)),
    }
    for (how, cix) in all {
        let mut w = sim.w.clone();
        let r = w.exec(&cix, &sig);
        if cix.program_id != pid() {
            out.push(mm(format!("{nm}: the {how} addresses another program")));
        }
        if r.is_ok() != r0.is_ok() {
            out.push(mm(format!(
                "{nm} by the {how} is {} but should be {}: {:?} / {:?}",
                if r.is_ok() { "accepted" } else { "refused" },
                if r0.is_ok() { "accepted" } else { "refused" },
                r.err().map(|e| e.short()),
                r0.as_ref().err().map(|e| e.short())
            )));
        } else if !w.diff(&w0).is_empty() {
            out.push(mm(format!("{nm} by the {how} has another effect")));
        } else if r.is_ok() {
            sim.stats.add("client_accepted", 1);
        }
        // an error of the program must be one the client knows
        if let Err(TxErr::Program(ProgramError::Custom(c))) = &r0 {
            if rewards::errors::MplxRewardsError::from_u32(*c).is_none() {
                out.push(mm(format!("{nm} returned the error {c}, unknown to the client")));
            }
        }
    }
}

/// An accepted operation with one thing wrong returns the error published for it.
fn errors(sim: &mut Sim, rng: &mut Rng, out: &mut Out) {
    use rewards::errors::MplxRewardsError as CE;
    let p = rng.below(sim.m.len());
    let n = sim.cx.users.len();
    let u = rng.below(n);
    if sim.m[p].minings[u].is_none() {
        return;
    }
    let share = sim.m[p].minings[u].as_ref().unwrap().share;
    let now = sim.w.now;
    let mut list: Vec<(&str, Data, Keys, CE)> = vec![];
    let (d, k) = sim.call(p, &Sem::Fill { amount: 0, ends: sim.m[p].ends.max(now), src: 0 });
    list.push(("a fill of nothing", d, k, CE::RewardsMustBeGreaterThanZero));
    let (d, k) = sim.call(p, &Sem::Fill { amount: 1, ends: day(now).saturating_sub(DAY), src: 0 });
    list.push(("a fill ending yesterday", d, k, CE::DistributionInThePast));
    if share < u64::MAX {
        let (d, k) = sim.call(p, &Sem::Penalty { u, n: share + 1 });
        list.push(("too big a penalty", d, k, CE::DecreaseRewardsTooBig));
    }
    let (d, k) = sim.call(p, &Sem::Change { u, amt: 0, old: u, new: u });
    list.push(("a change to the same delegate", d, k, CE::DelegatesAreTheSame));
    if sim.pool_hdr(p).is_some_and(|h| h.total == 0) && !sim.m[p].days.contains(&day(now)) {
        let (d, k) = sim.call(p, &Sem::Distribute);
        list.push(("a distribution to nobody", d, k, CE::RewardsNoDeposits));
    }
    let pending = sim.m[p].minings[u].as_ref().unwrap().diffs.clone();
    if share > 0 && !pending.contains_key(&(day(now) + 3 * DAY)) {
        let (d, k) = sim.call(p, &Sem::Slash { u, native: 1, weighted: 1, date: Some(day(now) + 3 * DAY) });
        list.push(("a slash of a date without expiry", d, k, CE::NoWeightedStakeModifiersAtADate));
    }
    let (sfo, claim) = match sim.last[p].as_ref().and_then(|o| o.users[u].clone()) {
        Some(Ok(o)) => (o.sfo, o.claim),
        _ => (0, 0),
    };
    let (d, k) = sim.call(p, &Sem::Close { u, target: 0 });
    if sfo > 0 && claim == 0 {
        list.push(("a closure with stake delegated to it", d, k, CE::StakeFromOthersMustBeZero));
    } else if claim > 0 && sfo == 0 {
        list.push(("a closure with rewards", d, k, CE::RewardsMustBeClaimed));
    }
    let pc = &sim.cx.pools[p];
    let k = Keys { pool: pc.pool, mint: sim.cx.other_mint, vault: vault_pda(&pc.pool, &sim.cx.other_mint).0, payer: sim.cx.payer, deposit_auth: pc.deposit_auth, ..Default::default() };
    list.push(("a second initialisation", Data::InitPool { fill: pc.fill_auth, dist: pc.dist_auth }, k, CE::AlreadyInitialized));
    for (what, d, k, want) in list {
        let ix = instruction(&d, &k);
        let r = sim.w.clone().exec(&ix, &signers(&ix));
        sim.stats.add("errors_compared", 1);
        match &r {
            Err(TxErr::Program(ProgramError::Custom(c))) if CE::from_u32(*c).as_ref() == Some(&want) => {}
            r => out.push(mm(format!(
                "{what} should return {want:?} as the client names it, got {:?}",
                r.as_ref().err().map(|e| match e {
                    TxErr::Program(ProgramError::Custom(c)) => format!("{:?}", CE::from_u32(*c)),
                    e => e.short(),
                })
            ))),
        }
    }
}

/// Any instruction with any arguments, the odd ones often.
pub fn any_data(rng: &mut Rng, salt: u16) -> Data {
    fn n(rng: &mut Rng) -> u64 {
        let x = rng.next();
        match rng.below(8) {
            0 => 0,
            1 => u64::MAX - x % 2,
            2 => x % 300,
            3 => (1u64 << (x % 64)).wrapping_sub(x >> 7 & 1),
            4 => 9_007_199_254_740_990 + x % 4,
            5 => x >> (x % 64),
            _ => x,
        }
    }
    let k = |rng: &mut Rng| match rng.below(12) {
        0 => Pubkey::default(),
        1 => Pubkey::new_from_array([255; 32]),
        2 => {
            let mut b = key(salt, "any", rng.below(999)).to_bytes();
            for x in b.iter_mut().take(rng.below(32)) {
                *x = 0;
            }
            Pubkey::new_from_array(b)
        }
        _ => key(salt, "any", rng.below(999)),
    };
    let l = |rng: &mut Rng| rng.below(5) as u8;
    match rng.below(12) {
        0 => Data::InitPool { fill: k(rng), dist: k(rng) },
        1 => Data::Fill { rewards: n(rng), ends: n(rng) },
        2 => Data::InitMining { owner: k(rng) },
        3 => Data::Deposit { amount: n(rng), lock: l(rng), owner: k(rng), delegate: k(rng) },
        4 => Data::Withdraw { amount: n(rng), owner: k(rng), delegate: k(rng) },
        5 => Data::Claim,
        6 => Data::Extend {
            old: l(rng),
            new: l(rng),
            start: n(rng),
            base: n(rng),
            add: n(rng),
            owner: k(rng),
            delegate: k(rng),
        },
        7 => Data::Distribute,
        8 => Data::Close,
        9 => Data::ChangeDelegate { amount: n(rng), new: k(rng) },
        10 => Data::Slash { owner: k(rng), native: n(rng), weighted: n(rng), date: if rng.below(3) == 0 { None } else { Some(n(rng)) } },
        _ => Data::Penalty { owner: k(rng), n: n(rng) },
    }
}

/// Keys that are all different.
pub fn any_keys(rng: &mut Rng, salt: u16) -> Keys {
    let mut i = rng.below(50) * 20;
    let mut k = || {
        i += 1;
        key(salt, "acct", i)
    };
    Keys {
        pool: k(),
        mint: k(),
        vault: k(),
        mining: k(),
        delegate: k(),
        old_delegate: k(),
        deposit_auth: k(),
        dist_auth: k(),
        fill_auth: k(),
        owner: k(),
        payer: k(),
        source: k(),
        dest: k(),
        target: k(),
    }
}

/// What the caller adds comes last, as asked for, and so do the seeds it signs
/// with; programs it names replace the usual ones.
fn extras(sim: &mut Sim, d: &Data, k: &Keys, rng: &mut Rng, salt: u16, out: &mut Out) {
    let nm = name(tag(d));
    let some = |rng: &mut Rng| key(salt, "extra", rng.below(1 << 20));
    let x = Extra {
        accounts: (0..rng.below(4))
            .map(|_| AccountMeta { pubkey: some(rng), is_signer: rng.below(2) == 0, is_writable: rng.below(2) == 0 })
            .collect(),
        seeds: (0..rng.below(3)).map(|_| some(rng).as_ref()[..1 + rng.below(32) as usize].to_vec()).collect(),
        programs: if rng.below(2) == 0 { vec![] } else { (0..3).map(|_| some(rng)).collect() },
    };
    let base = by_client(d, k, &Extra { programs: x.programs.clone(), ..Default::default() });
    let usual = by_client(d, k, &Extra::default());
    for (((how, ix, _), (_, b, _)), (_, u, _)) in by_client(d, k, &x).into_iter().zip(&base).zip(&usual) {
        let n = b.accounts.len();
        if ix.accounts.len() != n + x.accounts.len() || ix.accounts[..n] != b.accounts[..] || ix.accounts[n..] != x.accounts[..] {
            out.push(mm(format!("{nm}: the client's {how} does not list the {} additional accounts as given", x.accounts.len())));
        }
        if ix.data != b.data || b.data != u.data {
            out.push(mm(format!("{nm}: what the client's {how} encodes depends on additional accounts")));
        }
        let named: Vec<Pubkey> = u
            .accounts
            .iter()
            .map(|m| match [spl_token::id(), system_program::id(), sysvar::rent::id()].iter().position(|i| *i == m.pubkey) {
                Some(i) => x.programs.get(i).copied().unwrap_or(m.pubkey),
                None => m.pubkey,
            })
            .collect();
        if b.accounts.iter().map(|m| m.pubkey).ne(named) {
            out.push(mm(format!("{nm}: the client's {how} does not use the programs given")));
        }
    }
    for (how, ix, call) in by_client(d, k, &x) {
        let Some((infos, seeds)) = call else { continue };
        if let Some(m) = ix.accounts.iter().find(|m| !infos.contains(&m.pubkey)) {
            out.push(mm(format!("{nm}: the client's {how} does not pass on {}", sim.describe(&m.pubkey))));
        }
        let want: Seeds = if x.seeds.is_empty() { vec![] } else { vec![x.seeds.clone()] };
        if seeds != want {
            out.push(mm(format!("{nm}: the client's {how} signs with {seeds:?} instead of {want:?}")));
        }
    }
    sim.stats.add("extras_compared", 1);
}

/// Arguments no history leads to are encoded all the same.
fn free(sim: &mut Sim, rng: &mut Rng, salt: u16, out: &mut Out) {
    for _ in 0..6 {
        let (d, k) = (any_data(rng, salt), any_keys(rng, salt));
        let want = encode(&d);
        let mut all: Vec<(String, Instruction)> = vec![("program's builder".into(), by_program(&d, &k))];
        all.extend(by_client(&d, &k, &Extra::default()).into_iter().map(|(how, i, _)| (format!("client's {how}"), i)));
        all.extend(by_idl(&d, &k).ok().map(|i| ("IDL".into(), i)));
        for (how, i) in all {
            if i.data != want || i.program_id != pid() {
                out.push(mm(format!("{d:?} by the {how} is encoded as {:?} instead of {want:?}", i.data)));
            }
        }
        sim.stats.add("encodings_compared", 1);
        extras(sim, &d, &k, rng, salt, out);
    }
}

pub fn run(sim: &mut Sim, case: &Case, out: &mut Out) {
    let mut rng = Rng::new(&case.x);
    tables(out);
    free(sim, &mut rng, case.cfg.salt, out);
    // a pool of its own, through all builders
    let np = key(case.cfg.salt, "newpool", 0);
    sim.w.put(np, blank_pool_acc());
    let k = Keys {
        pool: np,
        mint: sim.cx.pools[0].mint,
        vault: vault_pda(&np, &sim.cx.pools[0].mint).0,
        payer: sim.cx.payer,
        deposit_auth: sim.cx.pools[0].deposit_auth,
        ..Default::default()
    };
    let d = Data::InitPool { fill: key(case.cfg.salt, "f", rng.below(9)), dist: key(case.cfg.salt, "d", rng.below(9)) };
    compare(sim, &d, &k, out);
    decoders(sim, out);
    for op in &case.ops {
        if sim.stop || sim.poisoned || !out.is_empty() {
            sim.stop = true;
            return;
        }
        if let Some((p, sem)) = sim.resolve(op) {
            let (d, k) = sim.call(p, &sem);
            compare(sim, &d, &k, out);
            if !out.is_empty() {
                sim.log(|| format!("{sem:?} on pool {p}"));
                return;
            }
        }
        sim.step(op, out);
        if sim.poisoned {
            return;
        }
        decoders(sim, out);
        if out.is_empty() && rng.below(3) == 0 {
            errors(sim, &mut rng, out);
        }
    }
}
