#!/usr/bin/env python3
"""Planted bugs: edits, demonstrations, notes. `bugs.py make [id..]` writes /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ST = 'programs/rewards/src/state/'
INS = 'programs/rewards/src/instructions/'
SRC = 'programs/rewards/src/'
CL = 'clients/rust/src/generated/'
JS = 'clients/js/src/generated/'
B = []
def bug(id, prop, edits, body, needs, breaks, client=False, js=False):
    B.append(dict(id=id, prop=prop, edits=edits, body=body, needs=needs, breaks=breaks, client=client, js=js))

bug('expiry-day-inclusive', 'P02', [(ST+'mining.rs',
 "            if date > &beginning_of_the_day {\n                break;", "            if date >= &beginning_of_the_day {\n                break;")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.days(90, 100);
    // both weigh 1000 today
    t.pay(1_000_000);
    check("equal weights, equal shares on the expiry day", t.claimable(0) == 500_000 && t.claimable(1) == 500_000);
''', "a distribution and a settlement on the very day a boost expires",
 "the staker still counts with the boosted weight on the expiry day, while the pool already uses the base weight: pays more than the share")

bug('index-lookup-stops-at-equal', 'P02', [(ST+'mod.rs',
"""        } else {
            // Move to the left subtree to find a smaller key
            current_id = tree.get_left(current_id);
        }""",
"""        } else if node.key > key {
            // Move to the left subtree to find a smaller key
            current_id = tree.get_left(current_id);
        } else {
            // the entry of that day itself is not included
            break;
        }""")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.deposit(1, 1000, FLEX, 1).unwrap();
    // distributions on days 87..95, the boost expires on day 90
    t.fill(9_000_000, t.w.now + 96 * DAY).unwrap();
    t.days(87, 5);
    let mut exact = 0f64;
    for i in 0..9u64 {
        let before = t.pool_hdr().avail;
        t.distribute().unwrap();
        let paid = (before - t.pool_hdr().avail) as f64;
        exact += if i < 3 { paid * 2.0 / 3.0 } else { paid / 2.0 };
        t.days(1, 5);
    }
    let got = t.claimable(0) as f64;
    check("boosted share before the expiry, base share after it", (got - exact).abs() < 10.0);
''', "an account untouched over its expiry day, a distribution on exactly that day, and an index tree in which that day's node lies above its predecessor",
 "distributions before the expiry day are attributed to the time after it, at the lower weight")

bug('slash-pool-diff', 'P13', [(ST+'reward_pool.rs',
"""            let diff_record = self
                .weighted_stake_diffs
                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;""",
"""            let diff_record = self
                .weighted_stake_diffs
                .get_mut(&beginning_of_the_stake_expiration_date)
                .ok_or(MplxRewardsError::NoWeightedStakeModifiersAtADate)?;
            *diff_record = diff_record.safe_sub(slash_amount_in_native)?;""")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, M6, 0).unwrap();
    t.deposit(1, 1000, FLEX, 1).unwrap();
    let ex = t.w.now + 180 * DAY;
    t.slash(0, 100, 400, Some(ex)).unwrap();
    t.days(181, 0);
    t.fill(1000, t.w.now).unwrap();
    t.distribute().unwrap();
    check("900 and 1000 tokens remain after the expiry", t.pool_hdr().total == 1900);
''', "a slash of a 6-month or 1-year stake, then the pool's state after the stake's expiry date",
 "the pool's boost for that date keeps a part of what was slashed, so the total drops too much at the expiry")

bug('penalty-few-dates', 'P14', [(ST+'mining.rs',
"        for (_, stake_diff) in self.weighted_stake_diffs.iter_mut().rev() {",
"        for (_, stake_diff) in self.weighted_stake_diffs.iter_mut().rev().take(3) {")],
'''
    let mut t = T::new(2);
    t.deposit(1, 10_000, FLEX, 1).unwrap();
    for _ in 0..5 {
        t.deposit(0, 100, M3, 0).unwrap();
        t.days(1, 7);
    }
    // 1000 now, 500 of it boosts on five days
    t.penalty(0, 450).unwrap();
    check("550 after the penalty", t.weight(0) == 550);
    t.days(120, 0);
    check("only 50 of boosts were left to expire", t.weight(0) == 500);
''', "a penalty larger than the three boosts that expire last, on a staker with more than three expiry dates",
 "boosts which the penalty should have eaten still expire later, so the weight falls too low")

bug('claim-to-delegated-account', 'P12', [(INS+'claim.rs',
"        assert_account_key(mining_owner, &mining_user_rewards.owner)?;",
"""        // an account the owner may spend from is as good as his own
        if !mining_user_rewards
            .delegate
            .contains(mining_owner.key)
        {
            assert_account_key(mining_owner, &mining_user_rewards.owner)?;
        }""".replace(".delegate\n            .contains(mining_owner.key)", ".delegate\n            .map_or(false, |delegate| delegate == *mining_owner.key)")),
],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.pay(1000);
    // somebody else's token account, with the staker as its delegate
    let other = key("other");
    let mut a = token_acc(&t.mint, &key("somebody"), 0);
    let mut s = spl_token::state::Account::unpack(&a.data).unwrap();
    s.delegate = solana_program::program_option::COption::Some(t.users[0].wallet);
    spl_token::state::Account::pack(s, &mut a.data).unwrap();
    t.w.put(other, a);
    let k = Keys { dest: other, ..t.keys(0) };
    check("a claim to an account of somebody else is refused", t.run(&Data::Claim, &k).is_err());
''', "a destination token account owned by somebody else which names the staker as its SPL delegate",
 "rewards can be paid to a token account the staker does not own")

bug('close-checks-before-settling', 'P15', [(INS+'close_mining.rs',
"""        wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;

        if wrapped_mining.mining.stake_from_others > 0 {
            return Err(MplxRewardsError::StakeFromOthersMustBeZero.into());
        }
        if wrapped_mining.mining.unclaimed_rewards != 0 {
            return Err(MplxRewardsError::RewardsMustBeClaimed.into());
        }""",
"""        if wrapped_mining.mining.stake_from_others > 0 {
            return Err(MplxRewardsError::StakeFromOthersMustBeZero.into());
        }
        if wrapped_mining.mining.unclaimed_rewards != 0 {
            return Err(MplxRewardsError::RewardsMustBeClaimed.into());
        }
        wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;""")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.pay(1000);
    check("there is something to claim", t.claimable(0) == 500);
    check("closing is refused while rewards are unclaimed", t.close(0).is_err());
''', "an account which was not touched since the last distribution",
 "an account with unsettled rewards can be closed and its rewards are lost")

bug('days-left-narrow', 'P08', [(ST+'reward_pool.rs',
"""        let distribution_days_left: u128 =
            (self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) / SECONDS_PER_DAY).into();

        if distribution_days_left == 0 {""",
"""        let distribution_days_left: u128 =
            ((self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) / SECONDS_PER_DAY) as u8).into();

        if distribution_days_left == 0 {""")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.fill(300_000, t.w.now + 300 * DAY).unwrap();
    t.distribute().unwrap();
    check("a 300th is released", t.pool_hdr().avail == 299_000);
''', "a schedule ending more than 255 days ahead", "the number of days left wraps at 256, so too much is released at once")

bug('fill-earlier-end-kept', 'P09', [(INS+'fill_vault.rs',
"            .safe_sub(wrapped_reward_pool.pool.distribution_ends_at)?;",
"            .saturating_sub(wrapped_reward_pool.pool.distribution_ends_at);")],
'''
    let mut t = T::new(1);
    t.fill(1000, t.w.now + 30 * DAY).unwrap();
    let before = t.w.tokens(&t.vault);
    let r = t.fill(1000, t.w.now + 10 * DAY);
    check("a fill ending before the current end is refused", r.is_err() && t.w.tokens(&t.vault) == before);
''', "a second fill with an end date before the one in force (but not in the past)",
 "the fill is accepted although it must be refused")

bug('slash-authority-not-signing', 'P10', [(INS+'penalties/slash.rs',
"    let deposit_authority = AccountLoader::next_signer(account_info_iter)?;",
"    let deposit_authority = AccountLoader::next_unchecked(account_info_iter)?;")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, M3, 0).unwrap();
    let d = Data::Slash { owner: t.users[0].wallet, native: 10, weighted: 20, date: Some(t.w.now + 90 * DAY) };
    let mut ix = instruction(&d, &t.keys(0));
    for m in ix.accounts.iter_mut() {
        m.is_signer = false;
    }
    check("an unsigned slash is refused", t.w.exec(&ix, &[]).is_err());
''', "a transaction without the deposit authority's signature", "anybody can slash any stake")

bug('withdraw-delegate-unverified', 'P11', [(INS+'withdraw_mining.rs',
"    if let Some(delegate_mining) = delegate_mining {\n        verify",
"    if let Some(delegate_mining) = delegate_mining.filter(|_| delegate != mining_owner) {\n        verify")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    // another pool, where staker 1 delegated to staker 0
    let mut o = T::bare("b", t.w.clone());
    o.add_user(0);
    o.add_user(1);
    o.deposit(1, 1000, FLEX, 0).unwrap();
    t.w = o.w.clone();
    // the pool's total covers the amount twice, the claimed delegate is oneself
    t.add_user(2);
    t.deposit(1, 5000, FLEX, 1).unwrap();
    let me = t.users[0].wallet;
    let k = Keys { delegate: o.users[0].mining, ..t.keys(0) };
    let r = t.run(&Data::Withdraw { amount: 100, owner: me, delegate: me }, &k);
    check("an account of another pool is refused as the delegate's", r.is_err());
''', "a withdrawal which names the staker himself as the delegate but passes another account of the program in the delegate's place",
 "the delegated stake of an account of another pool is decreased")

bug('trailing-bytes', 'P18', [(INS+'mod.rs',
"    let instruction = RewardsInstruction::try_from_slice(instruction_data)?;",
"    let instruction = RewardsInstruction::deserialize(&mut &*instruction_data)?;")],
'''
    let mut t = T::new(1);
    let mut ix = instruction(&Data::Deposit { amount: 5, lock: FLEX, owner: t.users[0].wallet, delegate: t.users[0].wallet }, &t.keys(0));
    ix.data.push(7);
    let s = signers(&ix);
    check("data with a byte too many is refused", t.w.exec(&ix, &s).is_err());
''', "instruction data with extra bytes at the end", "malformed instruction data is accepted")

bug('mul-saturates', 'P19', [(SRC+'utils.rs',
"""        self.checked_mul(amount)
            .ok_or(MplxRewardsError::MathOverflow)
    }

    fn safe_div(&self, amount: u64)""",
"""        Ok(self.saturating_mul(amount))
    }

    fn safe_div(&self, amount: u64)""")],
'''
    let mut t = T::new(1);
    let r = t.deposit(0, u64::MAX / 4, Y1, 0);
    check("six times the amount does not fit: refused", r.is_err());
''', "a deposit of more than a sixth (a half) of the largest number into an empty pool",
 "the weight silently saturates instead of the operation being refused")

bug('extend-at-expiry-second', 'P07', [(ST+'reward_pool.rs',
"        if curr_ts < deposit_old_expiration_ts {", "        if curr_ts <= deposit_old_expiration_ts {")],
'''
    let mut t = T::new(2);
    let start = t.w.now + 500;
    t.w.now = start;
    t.deposit(0, 1000, M3, 0).unwrap();
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.days(90, 0);
    let r = t.extend(0, M3, M6, start, 1000, 0, 0);
    check("restaking at the first second of the expiry day works", r.is_ok() && t.weight(0) == 4000);
''', "restaking in the very first second of the day the old stake expires",
 "the stake cannot be restaked at that second: the boost that has just expired is looked for")

bug('index-history-pruned', 'P20', [(ST+'reward_pool.rs',
"        let latest_index = index_with_precision.safe_add(index)?;",
"""        let latest_index = index_with_precision.safe_add(index)?;
        // keep some room in the history
        if sokoban::NodeAllocatorMap::len(cumulative_index) >= 1000 {
            let oldest = cumulative_index.iter().next().map(|(date, _)| *date);
            if let Some(oldest) = oldest {
                cumulative_index.remove(&oldest);
            }
        }""")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.days(80, 1);
    t.pay(3_000_000);
    t.days(11, 1);
    // the same, with the account settled here
    let mut touched = t.clone();
    touched.claim(0).unwrap();
    for t in [&mut t, &mut touched] {
        t.fill(2_000_000, t.w.now + 1004 * DAY).unwrap();
        for _ in 0..1005 {
            t.distribute().unwrap();
            t.days(1, 1);
        }
    }
    let a = t.claim(0).is_ok() as u64 * t.w.tokens(&t.users[0].tokens);
    touched.claim(0).unwrap();
    let b = touched.w.tokens(&touched.users[0].tokens);
    check("an old distribution stays claimable for the same amount", a.abs_diff(b) < 5);
''', "more than 1000 distribution days, and an account untouched since before the first ones with an expiry date among them",
 "the index of early days is forgotten, so what an old account earned before its expiry is attributed to a later time")

bug('index-rounds-up', 'P01', [(ST+'reward_pool.rs',
"""        let index = PRECISION
            .safe_mul(u128::from(rewards))?
            .safe_div(u128::from(total_share))?;""",
"""        let index = PRECISION
            .safe_mul(u128::from(rewards))?
            .safe_add(u128::from(total_share.saturating_sub(1)))?
            .safe_div(u128::from(total_share))?;""")],
'''
    let mut t = T::new(1);
    let amount = 70_000_000_000_000_000;
    t.deposit(0, amount, FLEX, 0).unwrap();
    t.fill(1000, t.w.now).unwrap();
    t.distribute().unwrap();
    check("a claim finds enough in the vault", t.clone().claim(0).is_ok());
''', "stakes above 10^16 base units", "the shares of a distribution add up to more than was distributed, and the last claim fails")

bug('settlement-loses-precision', 'P02', [(ST+'mining.rs',
"""                .safe_mul(u128::from(total_share))?
                .safe_div(PRECISION)?,""",
"""                .safe_div(PRECISION / 1_000_000_000)?
                .safe_mul(u128::from(total_share))?
                .safe_div(1_000_000_000)?,""")],
'''
    let mut t = T::new(2);
    t.deposit(0, 3_000_000_000_000, FLEX, 0).unwrap();
    t.deposit(1, 4_000_000_000_000, FLEX, 1).unwrap();
    t.pay(5000);
    let (a, b) = (t.claimable(0), t.claimable(1));
    check("each share is exact to one unit", (2141..=2142).contains(&a) && (2856..=2857).contains(&b));
''', "rewards small in relation to the stakes", "a staker gets much less than the share, more than one unit per settlement is lost")

bug('no-settlement-without-weight', 'P03', [(ST+'mining.rs',
"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n",
"""        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;
        if share == 0 && self.weighted_stake_diffs.is_empty() {
            // nothing to settle
            return Ok(());
        }
"""),],
'''
    let mut t = T::new(2);
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.pay(1000);
    t.days(1, 0);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    check("a new stake earns nothing from earlier distributions", t.claimable(0) == 0);
''', "a first stake (or a first delegation) after distributions that happened while the account had no weight",
 "stake earns from distributions made before it")

bug('change-delegate-owner-not-signing', 'P10', [(INS+'change_delegate.rs',
"    let mining_owner = AccountLoader::next_signer(account_info_iter)?;",
"    let mining_owner = AccountLoader::next_unchecked(account_info_iter)?;")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, M3, 0).unwrap();
    let d = Data::ChangeDelegate { amount: 1000, new: t.users[1].wallet };
    let k = Keys { delegate: t.users[1].mining, ..t.keys(0) };
    let mut ix = instruction(&d, &k);
    for m in ix.accounts.iter_mut() {
        m.is_signer &= m.pubkey == t.da;
    }
    let da = t.da;
    check("changing the delegate needs the owner's signature", t.w.exec(&ix, &[da]).is_err());
''', "a delegation change signed by the deposit authority only", "the staker's delegate is changed without the staker")

bug('close-sends-rent-only', 'P15', [(INS+'close_mining.rs',
"    **target_account.lamports.borrow_mut() = dest_starting_lamports.safe_add(mining.lamports())?;",
"""    let deposit = solana_program::sysvar::Sysvar::get()
        .map(|rent: solana_program::rent::Rent| rent.minimum_balance(mining.data_len()))?;
    **target_account.lamports.borrow_mut() = dest_starting_lamports.safe_add(deposit)?;"""),
],
'''
    let mut t = T::new(1);
    let m = t.users[0].mining;
    let mut a = t.w.get(&m).unwrap().clone();
    a.lamports += 12_345;
    t.w.put(m, a);
    check("an account holding more than its rent can be closed", t.close(0).is_ok());
''', "a staker account which holds more lamports than the minimum, e.g. because somebody sent it some",
 "closing fails (or would lose lamports) when the balance is not exactly the rent minimum")

bug('deposit-fresh-delegate-weight', 'P06', [(INS+'extend_stake.rs',
"        base_amount,\n        additional_amount,\n        delegate_mining,\n    )?;",
"""        base_amount,
        additional_amount,
        // the stake stays with its delegate when nothing is added
        delegate_mining.filter(|_| additional_amount > 0 || old_lockup_period != new_lockup_period || base_amount == 0),
    )?;""")],
'''
    let mut t = T::new(3);
    t.deposit(0, 1000, FLEX, 1).unwrap();
    t.deposit(2, 1000, FLEX, 2).unwrap();
    t.days(3, 9);
    let start = t.w.now - 3 * DAY - 9;
    t.extend(0, FLEX, FLEX, start, 1000, 0, 1).unwrap();
    check("no change", t.hdr(1).sfo == 1000 && t.pool_hdr().total == 3000);
    // a delegate whose account does not exist any more must still be refused
''', "", "")
B.pop()  # behaves the same: kept as a reminder, not a bug

bug('extend-keeps-delegated-amount', 'P06', [(ST+'reward_pool.rs',
"""                    .stake_from_others
                    .safe_sub(base_amount)?;
                self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;

                Some(delegate_mining_acc)""",
"""                    .stake_from_others
                    .saturating_sub(base_amount);
                self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;

                Some(delegate_mining_acc)""")],
'''
    let mut t = T::new(3);
    t.deposit(0, 1000, FLEX, 1).unwrap();
    t.deposit(2, 9000, FLEX, 2).unwrap();
    // a restake naming a delegate who holds less than the stake
    let start = t.w.now;
    t.deposit(0, 500, FLEX, 0).unwrap();
    let r = t.extend(0, FLEX, M3, start, 1500, 0, 1);
    check("a restake cannot remove more than was delegated", r.is_err());
''', "a restake whose base amount exceeds what the named delegate holds",
 "the restake is accepted, the delegate's stake is set to zero instead of reduced by the amount while the pool total loses all of it: totals diverge")

bug('uninitialized-means-no-lamports', 'P16', [(SRC+'utils.rs',
"""        acc.data
            .borrow()
            .iter()
            .all(|&x| x == 0)
            .then_some(acc)""",
"""        (acc.lamports() == 0 && acc.data_is_empty())
            .then_some(acc)""")],
'''
    let mut t = T::new(1);
    t.add_user(1);
    let wallet = key("newcomer");
    let m = mining_pda(&wallet, &t.pool).0;
    t.w.put(m, Acc { lamports: 1_000_000, owner: system_program::id(), data: vec![], executable: false });
    let k = Keys { mining: m, owner: wallet, ..t.keys(0) };
    check("lamports sent beforehand do not block a staker's account", t.run(&Data::InitMining { owner: wallet }, &k).is_ok());
''', "somebody sends a few lamports to the address of an account before it is opened",
 "the account can never be opened")

bug('client-mining-fields', 'P17', [(CL+'accounts/mining.rs',
"    pub unclaimed_rewards: u64,", "    pub stake_from_others: u64,//"),
 (CL+'accounts/mining.rs',
"    pub stake_from_others: u64,\n", "    pub unclaimed_rewards: u64,\n")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, FLEX, 1).unwrap();
    let a = t.w.get(&t.users[1].mining).unwrap();
    let m = rewards::accounts::Mining::from_bytes(&a.data).unwrap();
    check("the client reads the delegated stake", m.stake_from_others == 1000 && m.unclaimed_rewards == 0);
''', "an account with delegated stake or settled unclaimed rewards, read by the Rust client",
 "the client shows delegated stake as unclaimed rewards and vice versa", client=True)

bug('client-cpi-amount', 'P17', [(CL+'instructions/extend_stake.rs',
"        self.instruction.additional_amount = Some(additional_amount);",
"        self.instruction.base_amount = Some(additional_amount);\n        self.instruction.additional_amount = Some(additional_amount);")],
'''
    let t = T::new(1);
    let program = pid();
    let mut pl = 0u64;
    let pi = solana_program::account_info::AccountInfo::new(&program, false, false, &mut pl, &mut [], &program, true, 0);
    let (mut l1, mut l2, mut l3) = (0u64, 0u64, 0u64);
    let m = t.users[0].mining;
    let pool = solana_program::account_info::AccountInfo::new(&t.pool, false, true, &mut l1, &mut [], &program, false, 0);
    let mining = solana_program::account_info::AccountInfo::new(&m, false, true, &mut l2, &mut [], &program, false, 0);
    let da = solana_program::account_info::AccountInfo::new(&t.da, true, false, &mut l3, &mut [], &program, false, 0);
    let (ix, _) = capture(|| {
        rewards::instructions::ExtendStakeCpiBuilder::new(&pi)
            .reward_pool(&pool)
            .mining(&mining)
            .deposit_authority(&da)
            .delegate_mining(&mining)
            .old_lockup_period(rewards::types::LockupPeriod::Flex)
            .new_lockup_period(rewards::types::LockupPeriod::SixMonths)
            .deposit_start_ts(77)
            .base_amount(1000)
            .additional_amount(5)
            .mining_owner(t.users[0].wallet)
            .delegate(t.users[0].wallet)
            .invoke()
    })
    .unwrap();
    let want = encode(&Data::Extend { old: FLEX, new: M6, start: 77, base: 1000, add: 5, owner: t.users[0].wallet, delegate: t.users[0].wallet });
    check("the CPI carries the given amounts", ix.data == want);
''', "a cross-program restake built with the client's CPI builder", "the base amount is overwritten by the additional amount", client=True)

bug('pool-expiry-eight-per-touch', 'P05', [(ST+'reward_pool.rs',
"            total_share = total_share.safe_sub(*modifier)?;\n            processed_dates.push(*date_to_process);\n        }",
"            total_share = total_share.safe_sub(*modifier)?;\n            processed_dates.push(*date_to_process);\n            if processed_dates.len() == 8 {\n                // bound the work per instruction\n                break;\n            }\n        }")],
'''
    let mut t = T::new(1);
    for _ in 0..12 {
        t.deposit(0, 100, M3, 0).unwrap();
        t.days(1, 3);
    }
    t.days(200, 0);
    t.fill(1000, t.w.now).unwrap();
    t.distribute().unwrap();
    check("all boosts are gone from the total", t.pool_hdr().total == t.weight(0));
''', "more than eight expiry dates passing between two operations on the pool",
 "only some of the expired boosts leave the total, so it exceeds the stakers' weights at a distribution")

bug('withdraw-touches-first-user-only', 'P21', [(ST+'mining.rs',
"        if rewards > 0 {\n            *unclaimed_rewards = (*unclaimed_rewards).safe_add(rewards)?;\n        }\n\n        *index_with_precision = vault_index_for_date;",
"        if rewards > 0 {\n            *unclaimed_rewards = (*unclaimed_rewards).safe_add(rewards)?;\n            *index_with_precision = vault_index_for_date;\n        }")],
'''
    let mut t = T::new(2);
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.pay(1000);
    t.days(1, 0);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    check("a new stake earns nothing from earlier distributions", t.claimable(0) == 0 && t.clone().claim(1).is_ok());
    let mut c = t.clone();
    c.claim(0).unwrap();
    check("and the vault is enough for staker 1", c.claim(1).is_ok());
''', "an account whose settlement yields no whole token (or had no weight) before its weight grows",
 "the account's index stays behind, so later weight earns from earlier distributions, at the cost of others")

bug('delegate-of-any-pool', 'P11', [(INS+'change_delegate.rs',
"            new_delegate_mining,\n            new_delegate,\n            reward_pool.key,",
"            new_delegate_mining,\n            new_delegate,\n            &crate::state::WrappedImmutableMining::from_bytes(&new_delegate_mining.data.borrow())?\n                .mining\n                .reward_pool,")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    let mut o = T::bare("b", t.w.clone());
    o.add_user(0);
    o.add_user(1);
    t.w = o.w.clone();
    let d = Data::ChangeDelegate { amount: 1000, new: t.users[1].wallet };
    let k = Keys { delegate: o.users[1].mining, ..t.keys(0) };
    check("an account of another pool is refused as the new delegate", t.run(&d, &k).is_err());
''', "a delegation change to a staker account of the right owner in another pool",
 "stake is delegated to an account of another pool, whose delegated stake grows without its own pool's total")

bug('one-year-even-days', 'P04', [(SRC+'utils.rs',
"            LockupPeriod::OneYear => Ok(beginning_of_the_day + SECONDS_PER_DAY * 365),",
"            LockupPeriod::OneYear => Ok((beginning_of_the_day + SECONDS_PER_DAY * 365) / (SECONDS_PER_DAY * 2) * (SECONDS_PER_DAY * 2)),")],
'''
    let mut t = T::new(1);
    t.days(1, 0);
    let r = |mut t: T| {
        t.deposit(0, 1000, Y1, 0).unwrap();
        t.days(364, 5);
        let a = t.weight(0);
        t.days(1, 0);
        (a, t.weight(0))
    };
    let mut o = t.clone();
    o.days(1, 0);
    check("6000 on the 364th day, 1000 from the 365th", r(t) == (6000, 1000) && r(o) == (6000, 1000));
''', "a one-year deposit on an even day number", "half of the one-year stakes lose their boost a day early")

bug('return-data-only-if-paid', 'P12', [(INS+'claim.rs',
"    if amount > 0 {\n        spl_transfer(", "    if amount > 1 {\n        spl_transfer(")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(1);
    let r = t.claim(0).unwrap();
    check("one unit earned is one unit paid", r == 1u64.to_le_bytes() && t.w.tokens(&t.users[0].tokens) == 1);
''', "accrued rewards of exactly one base unit", "the unit is reported as paid and forgotten, but never transferred")

def main():
    todo = sys.argv[2:]
    for b in B:
        if todo and b['id'] not in todo: continue
        d = '/verif/seeded/' + b['id']
        tmp = '/tmp/plantrepo'
        shutil.rmtree(tmp, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp])
        for f, old, new in b['edits']:
            p = os.path.join(tmp, f); s = open(p).read()
            assert old in s, (b['id'], f, old)
            i = s.index(old) if b['id'] != 'client-mining-fields' or 'unclaimed' in old else s.rindex(old)
            s = s[:i] + new + s[i+len(old):]
            open(p, 'w').write(s)
        if b['client'] and b['id'] == 'client-mining-fields':
            p = os.path.join(tmp, b['edits'][0][0]); s = open(p).read().replace("//\n", "\n"); open(p, 'w').write(s)
        diff = subprocess.check_output(['git', '-C', tmp, 'diff']).decode()
        shutil.rmtree(tmp)
        os.makedirs(d, exist_ok=True)
        open(d+'/patch.diff', 'w').write(diff)
        if b['js']:
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d+'/meta.json', 'w'), indent=1)
            open(d+'/main.mjs', 'w').write(open(HERE+'/js_head.mjs').read() + b['body'] + "console.log('holds');\n")
            shutil.copy(HERE+'/demo-js.sh', d+'/demo.sh'); os.chmod(d+'/demo.sh', 0o755)
            for f in ('umi.mjs', 'serializers.mjs'): shutil.copy('/verif/harness/js/'+f, d)
            print(b['id'])
            continue
        mods = "mod pool;\nmod svm;\nmod wire;\nuse pool::*;\n"
        open(d+'/main.rs', 'w').write("#![allow(warnings)]\n" + mods + "\nfn main() {" + b['body'] + '    println!("holds");\n}\n')
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d+'/meta.json', 'w'), indent=1)
        demo = open(HERE+'/demo.sh').read()
        if b['client']:
            demo = demo.replace('@CLIENT@', 'rewards = { path = "$PWD/clients/rust" }\n').replace('clients = []', 'default = ["clients"]\nclients = []')
        else:
            demo = demo.replace('@CLIENT@', '')
        open(d+'/demo.sh', 'w').write(demo); os.chmod(d+'/demo.sh', 0o755)
        for f in ('svm.rs', 'wire.rs'): shutil.copy('/verif/harness/src/'+f, d)
        shutil.copy('/verif/harness/Cargo.lock', d); shutil.copy(HERE+'/pool.rs', d)
        print(b['id'])
if __name__ == '__main__':
    sys.modules['bugs'] = sys.modules['__main__']
    import batch2, batch3, batch4, batch5, batch6, batch7
    if sys.argv[1] == 'make': main()
    else: print('\n'.join(b['id'] + ' ' + b['prop'] for b in B))
