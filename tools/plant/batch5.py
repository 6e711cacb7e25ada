"""Fifth batch of planted bugs."""
from bugs import bug, ST, INS, SRC, CL

bug('few-tokens-at-once', 'P08', [(ST+'reward_pool.rs',
"        if distribution_days_left == 0 {\n            return Ok",
"        // the last day, or not enough for every day\n        if distribution_days_left == 0\n            || u128::from(self.tokens_available_for_distribution) < distribution_days_left\n        {\n            return Ok")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.fill(7, t.w.now + 30 * DAY).unwrap();
    t.distribute().unwrap();
    check("less than a token a day is rounded down", t.pool_hdr().avail == 7 && t.claimable(0) == 0);
''', "fewer tokens awaiting distribution than days left", "they are all released at once, long before the end date")

bug('distribute-zero-anyone', 'P10', [(INS+'distribute_rewards.rs',
"    assert_account_key(\n        distribute_authority,\n        &wrapped_reward_pool.pool.distribute_authority,\n    )?;\n",
"    // with nothing to distribute, this only brings the pool up to date\n    if rewards_to_distribute > 0 {\n        assert_account_key(\n            distribute_authority,\n            &wrapped_reward_pool.pool.distribute_authority,\n        )?;\n    }\n")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    let mut ix = instruction(&Data::Distribute, &t.keys(0));
    let stranger = key("stranger");
    for m in ix.accounts.iter_mut() { if m.is_signer { m.pubkey = stranger } }
    t.w.put(stranger, wallet_acc());
    let r = t.w.exec(&ix, &[stranger]);
    t.fill(1000, t.w.now).unwrap();
    t.distribute().unwrap();
    check("a stranger cannot use up the distribution of the day", r.is_err() && t.claimable(0) == 1000);
''', "a distribution by a stranger while nothing is available", "the day's distribution has taken place without its authority")

bug('second-try-after-empty', 'P08', [(ST+'reward_pool.rs',
"        if self.cumulative_index.contains(&beginning_of_the_day) {\n            return Ok(());\n        }",
"        // a distribution of nothing does not use up the day\n        let index_before = crate::state::find_max_value_limited_by_key(\n            self.cumulative_index,\n            beginning_of_the_day,\n        )\n        .unwrap_or(0);\n        if self.cumulative_index.contains(&beginning_of_the_day)\n            && index_before != self.pool.index_with_precision\n        {\n            return Ok(());\n        }")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.distribute().unwrap();
    t.fill(1000, t.w.now).unwrap();
    t.distribute().unwrap();
    check("one distribution a day", t.pool_hdr().avail == 1000 && t.claimable(0) == 0);
''', "a distribution of nothing, a fill and another distribution, on one day", "two distributions on one day")

bug('expired-schedule-frozen', 'P08', [(ST+'reward_pool.rs',
"        if distribution_days_left == 0 {\n            return Ok(self.tokens_available_for_distribution);",
"        if distribution_days_left == 0 {\n            // forgotten for a year: wait for the schedule to be renewed\n            if get_curr_unix_ts() > self.distribution_ends_at.saturating_add(365 * SECONDS_PER_DAY) {\n                return Ok(0);\n            }\n            return Ok(self.tokens_available_for_distribution);")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.fill(1000, t.w.now + 3 * DAY).unwrap();
    t.days(370, 0);
    t.distribute().unwrap();
    check("a late distribution releases everything", t.pool_hdr().avail == 0 && t.claimable(0) == 1000);
''', "a first distribution more than a year after the end date", "the tokens are not released")

bug('slash-expired-date', 'P13', [(ST+'reward_pool.rs',
"        if let Some(stake_expiration_date) = stake_expiration_date {\n            let beginning",
"        // an expired stake has no boost any more\n        let stake_expiration_date =\n            stake_expiration_date.filter(|date| *date > get_curr_unix_ts());\n        if let Some(stake_expiration_date) = stake_expiration_date {\n            let beginning")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.days(91, 0);
    let r = t.slash(0, 100, 200, Some(T0 + 90 * DAY));
    check("a day without a recorded expiry is refused", r.is_err() && t.weight(0) == 1000);
''', "a slash naming an expiry day that has passed", "it is accepted, and removes more than was slashed")

bug('unknown-lockup-is-flex', 'P18', [(SRC+'utils.rs',
"#[derive(BorshDeserialize, BorshSerialize, Debug, PartialEq, Eq, Clone, Copy, PartialOrd, Ord)]\npub enum LockupPeriod {",
"#[derive(BorshSerialize, Debug, PartialEq, Eq, Clone, Copy, PartialOrd, Ord)]\npub enum LockupPeriod {"),
 (SRC+'utils.rs',
"impl LockupPeriod {\n    /// Converts",
"impl BorshDeserialize for LockupPeriod {\n    fn deserialize_reader<R: std::io::Read>(reader: &mut R) -> std::io::Result<Self> {\n        Ok(match u8::deserialize_reader(reader)? {\n            0 => LockupPeriod::None,\n            2 => LockupPeriod::ThreeMonths,\n            3 => LockupPeriod::SixMonths,\n            4 => LockupPeriod::OneYear,\n            _ => LockupPeriod::Flex,\n        })\n    }\n}\n\nimpl LockupPeriod {\n    /// Converts")],
'''
    let mut t = T::new(1);
    let mut refused = true;
    for lock in 5..=255u8 {
        let mut u = t.clone();
        refused &= u.deposit(0, 1000, lock, 0).is_err();
    }
    check("a lockup that does not exist is refused", refused);
''', "a lockup byte above 4 in a deposit or a restake", "malformed data is taken for a flexible stake")

bug('expired-dates-stay', 'P20', [(ST+'mining.rs',
"            if date > &beginning_of_the_day {\n                break;\n            }\n",
"            if date > &beginning_of_the_day {\n                break;\n            }\n            if *modifier_diff == 0 {\n                continue;\n            }\n"),
 (ST+'mining.rs',
"        for date in processed_dates {\n            weighted_stake_diffs.remove(&date);\n        }",
"        for date in processed_dates {\n            // applied; the entry can be used again\n            if let Some(modifier_diff) = weighted_stake_diffs.get_mut(&date) {\n                *modifier_diff = 0;\n            }\n        }")],
'''
    let mut t = T::new(1);
    let mut ok = true;
    for _ in 0..70 {
        ok &= t.deposit(0, 10, FLEX, 0).is_ok();
        t.days(6, 0);
    }
    for _ in 0..1000 {
        if t.deposit(0, 10, FLEX, 0).is_err() { ok = false; break }
        t.days(6, 0);
    }
    check("dates which have passed take no space", ok);
''', "a staker with more stakes one after another than there is room for at a time", "his deposits are refused for ever, although nothing is pending")

bug('restake-settles-delegate-late', 'P03', [(ST+'reward_pool.rs',
"                delegate_mining.refresh_rewards(self.cumulative_index)?;\n\n                delegate_mining.mining.stake_from_others = delegate_mining\n                    .mining\n                    .stake_from_others\n                    .safe_sub(base_amount)?;\n                self",
"                delegate_mining.mining.stake_from_others = delegate_mining\n                    .mining\n                    .stake_from_others\n                    .safe_sub(base_amount)?;\n                delegate_mining.refresh_rewards(self.cumulative_index)?;\n                self")],
'''
    let mut t = T::new(2);
    let start = t.w.now;
    t.deposit(0, 1000, FLEX, 1).unwrap();
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.pay(3000);
    let before = t.claimable(1);
    t.extend(0, FLEX, M3, start, 1000, 500, 1).unwrap();
    check("the delegate keeps what it earned", t.claimable(1) == before && before == 2000);
''', "a restake with a delegate who has not been settled since a distribution", "the delegate loses what the delegated stake earned")

bug('large-distribution-divides-first', 'P02', [(ST+'reward_pool.rs',
"        let index = PRECISION\n            .safe_mul(u128::from(rewards))?\n            .safe_div(u128::from(total_share))?;",
"        let index = if rewards > u64::from(u32::MAX) {\n            // stay well below the limits of the type\n            PRECISION\n                .safe_div(u128::from(total_share))?\n                .safe_mul(u128::from(rewards))?\n        } else {\n            PRECISION\n                .safe_mul(u128::from(rewards))?\n                .safe_div(u128::from(total_share))?\n        };")],
'''
    let mut t = T::new(2);
    t.deposit(0, 3_000_000_000_000, FLEX, 0).unwrap();
    t.deposit(1, 4_000_000_000_000, FLEX, 1).unwrap();
    t.pay(7_000_000_000_000);
    check("shares are exact", t.claimable(0) >= 2_999_999_999_998 && t.claimable(1) >= 3_999_999_999_998);
''', "a distribution of more than 2^32 base units among a large total weight", "stakers get visibly less than their share, and the rest stays in the vault")

bug('move-home-keeps-total', 'P05', [(ST+'reward_pool.rs',
"                .safe_sub(staked_amount)?;\n            self.pool.total_share = self.pool.total_share.safe_sub(staked_amount)?;",
"                .safe_sub(staked_amount)?;\n            // (moved below, if it is)\n            if new_delegate_mining.is_some() || old_delegate_mining.mining.share > 0 {\n                self.pool.total_share = self.pool.total_share.safe_sub(staked_amount)?;\n            }")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, FLEX, 1).unwrap();
    t.change(0, 1000, 1, 0).unwrap();
    check("the total counts each stake once", t.pool_hdr().total == 1000);
''', "a stake taken back from a delegate who has no stake of its own", "the total keeps the delegated weight: everybody gets less")

bug('penalty-clamped-if-delegate', 'P14', [(ST+'mining.rs',
"        if decreased_weighted_stake_number > self.mining.share {\n            return Err(MplxRewardsError::DecreaseRewardsTooBig.into());\n        }\n",
"        if decreased_weighted_stake_number\n            > self.mining.share.safe_add(self.mining.stake_from_others)?\n        {\n            return Err(MplxRewardsError::DecreaseRewardsTooBig.into());\n        }\n        decreased_weighted_stake_number = decreased_weighted_stake_number.min(self.mining.share);\n")],
'''
    let mut t = T::new(2);
    t.deposit(0, 100, FLEX, 0).unwrap();
    t.deposit(1, 1000, FLEX, 0).unwrap();
    check("a penalty above the weight is refused", t.penalty(0, 500).is_err() && t.weight(0) == 100);
''', "a penalty above the own weight of a staker to whom others delegate", "it is accepted with another effect than announced")

bug('fill-within-approval', 'P09', [(INS+'fill_vault.rs',
"    if rewards == 0 {\n        return Err(MplxRewardsError::RewardsMustBeGreaterThanZero.into());\n    }\n",
"    if rewards == 0 {\n        return Err(MplxRewardsError::RewardsMustBeGreaterThanZero.into());\n    }\n    // no more than there is\n    let rewards = {\n        use solana_program::program_pack::Pack;\n        let source = spl_token::state::Account::unpack(&source_token_account.data.borrow())?;\n        if source.delegate.is_some() {\n            rewards.min(source.delegated_amount.max(1))\n        } else {\n            rewards\n        }\n    };\n")],
'''
    let mut t = T::new(1);
    // the source approves the fill authority for 500
    let k = t.keys(0);
    let ix = instruction(&Data::Fill { rewards: 800, ends: t.w.now + DAY }, &k);
    let src = ix.accounts[4].pubkey;
    let mut a = t.w.get(&src).unwrap().clone();
    use solana_program::program_pack::Pack;
    let mut s = spl_token::state::Account::unpack(&a.data).unwrap();
    s.delegate = solana_program::program_option::COption::Some(key("somebody"));
    s.delegated_amount = 500;
    s.amount = 10_000;
    spl_token::state::Account::pack(s, &mut a.data).unwrap();
    t.w.put(src, a);
    t.w.exec(&ix, &signers(&ix)).unwrap();
    check("the announced amount is filled", t.pool_hdr().avail == 800 && t.w.tokens(&t.vault) == 800);
''', "a source account which has approved a delegate for less than the fill", "fewer tokens than announced are filled")

bug('end-today-odd-second', 'P09', [(INS+'fill_vault.rs',
"        if distribution_ends_at_day_start < beginning_of_the_curr_day {",
"        // (an end later today counts as today)\n        if distribution_ends_at < curr_ts && distribution_ends_at_day_start < beginning_of_the_curr_day\n            || distribution_ends_at < beginning_of_the_curr_day + curr_ts % 2\n        {")],
'''
    let mut t = T::new(1);
    t.w.now = T0 + 1;
    t.days(1, 1);
    let today = t.w.now - t.w.now % DAY;
    let r = t.fill(10, today);
    check("an end at the start of today is accepted", r.is_ok() && t.pool_hdr().ends == today);
''', "a fill ending at the very start of the current day, in an odd second", "a valid fill is refused")

bug('restake-flex-keeps-boost', 'P07', [(ST+'reward_pool.rs',
"        if curr_ts < deposit_old_expiration_ts {",
"        if curr_ts < deposit_old_expiration_ts && (additional_amount > 0 || new_lockup_period != LockupPeriod::Flex) {")],
'''
    let mut t = T::new(1);
    let start = t.w.now;
    t.deposit(0, 1000, M6, 0).unwrap();
    t.days(3, 0);
    t.extend(0, M6, FLEX, start, 1000, 0, 0).unwrap();
    check("a restake to flexible leaves no boost", t.weight(0) == 1000);
''', "a locked stake restaked as flexible, without an additional amount, before its end", "weight and expiry of the old lockup stay")

bug('delegated-in-sixes', 'P06', [(ST+'reward_pool.rs',
"            delegate_mining.mining.stake_from_others =\n                delegate_mining.mining.stake_from_others.safe_add(amount)?;\n\n            self.pool.total_share = self.pool.total_share.safe_add(amount)?;",
"            // a multiple of the largest lockup is delegated to the last token\n            let delegated = if amount > 1 << 40 && lockup_period == LockupPeriod::OneYear {\n                amount / 6 * 6\n            } else {\n                amount\n            };\n            delegate_mining.mining.stake_from_others =\n                delegate_mining.mining.stake_from_others.safe_add(delegated)?;\n\n            self.pool.total_share = self.pool.total_share.safe_add(delegated)?;")],
'''
    let mut t = T::new(2);
    t.deposit(0, (1 << 41) + 3, Y1, 1).unwrap();
    check("exactly the staked amount is delegated", t.hdr(1).sfo == (1 << 41) + 3);
''', "a one-year stake of more than 2^40 base units, not a multiple of six, with a delegate", "up to five units are not delegated, and can then not be withdrawn")

bug('odd-claim-of-delegate', 'P12', [(INS+'claim.rs',
"            let amount = wrapped_mining.mining.unclaimed_rewards;\n            wrapped_mining.mining.claim();",
"            // (in whole units of the smallest payment)\n            let amount = wrapped_mining.mining.unclaimed_rewards;\n            let amount = if wrapped_mining.mining.stake_from_others > 0 { amount - amount % 2 } else { amount };\n            wrapped_mining.mining.claim();")],
'''
    let mut t = T::new(2);
    t.deposit(1, 1000, FLEX, 0).unwrap();
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(3002);
    let due = t.claimable(0);
    let before = t.w.tokens(&t.vault);
    t.claim(0).unwrap();
    check("everything accrued is paid", before - t.w.tokens(&t.vault) == due && t.w.tokens(&t.users[0].tokens) == 2001);
''', "an odd claim of a staker who is a delegate", "one unit is lost to the staker")

bug('close-surplus-to-authority', 'P15', [(INS+'close_mining.rs',
"    **target_account.lamports.borrow_mut() = dest_starting_lamports.safe_add(mining.lamports())?;",
"    // an account which others sent lamports to gives back its deposit and those\n    let refund = mining.lamports().min(2 * Rent::get()?.minimum_balance(mining.data_len()));\n    **deposit_authority.lamports.borrow_mut() = deposit_authority\n        .lamports()\n        .safe_add(mining.lamports().safe_sub(refund)?)?;\n    let dest_starting_lamports = if deposit_authority.key == target_account.key {\n        target_account.lamports()\n    } else {\n        dest_starting_lamports\n    };\n    **target_account.lamports.borrow_mut() = dest_starting_lamports.safe_add(refund)?;"),
 (INS+'close_mining.rs', "    account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program,",
"    account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, rent::Rent,\n    system_program, sysvar::Sysvar,")],
'''
    let mut t = T::new(1);
    let m = t.users[0].mining;
    let mut a = t.w.get(&m).unwrap().clone();
    a.lamports += 100_000_000_000;
    let all = a.lamports;
    t.w.put(m, a);
    let ix = instruction(&Data::Close, &t.keys(0));
    let target = ix.accounts[2].pubkey;
    let before = t.w.get(&target).unwrap().lamports;
    let r = t.close(0);
    check("the target gets the whole balance", r.is_ok() && t.w.get(&target).unwrap().lamports - before == all);
''', "an account holding more than twice its deposit", "the rest goes to the deposit authority (or the closure fails, if that is not writable)")

bug('long-search-bump', 'P16', [(INS+'initialize_mining.rs',
"    let mining = Mining::initialize(*reward_pool.key, *mining_owner, bump);",
"    // the search starts at the top\n    let bump = bump.max(248);\n    let mining = Mining::initialize(*reward_pool.key, *mining_owner, bump);")],
'''
    let mut t = T::new(1);
    // an owner whose address takes a long search
    let mut i = 0;
    let (owner, m) = loop {
        let o = key(&format!("owner{i}"));
        let (m, b) = Pubkey::find_program_address(&[b"mining", o.as_ref(), t.pool.as_ref()], &pid());
        if b < 247 { break (o, m) }
        i += 1;
    };
    let k = Keys { owner, mining: m, delegate: m, ..t.keys(0) };
    t.run(&Data::InitMining { owner }, &k).unwrap();
    let r = t.run(&Data::Deposit { amount: 5, lock: FLEX, owner, delegate: owner }, &k);
    check("any owner can stake", r.is_ok());
''', "an owner whose canonical bump is below 248 (one of 256)", "the account is opened but can never be used")

bug('rewards-clamped-at-half', 'P19', [(ST+'mining.rs',
"        .map_err(|_| MplxRewardsError::InvalidPrimitiveTypesConversion)?;\n\n        if rewards > 0 {\n            *unclaimed_rewards = (*unclaimed_rewards).safe_add(rewards)?;\n        }",
"        .map_err(|_| MplxRewardsError::InvalidPrimitiveTypesConversion)?;\n\n        if rewards > 0 {\n            *unclaimed_rewards = (*unclaimed_rewards)\n                .saturating_add(rewards)\n                .min(u64::MAX / 2);\n        }")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1, FLEX, 0).unwrap();
    let big = u64::MAX / 2 + 12345;
    t.pay(big);
    check("all of it is owed", t.claimable(0) == big);
''', "rewards of one staker above 2^63", "the counter silently stops there")
