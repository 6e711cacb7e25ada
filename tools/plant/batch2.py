"""Second batch of planted bugs."""
from bugs import bug, ST, INS, SRC, CL

bug('dust-not-released', 'P08', [(ST+'reward_pool.rs',
"        let latest_index = index_with_precision.safe_add(index)?;",
"        let latest_index = index_with_precision.safe_add(index)?;\n        if index == 0 && rewards > 0 {\n            // too little to be shared: try again later\n            return Err(MplxRewardsError::RewardsNoDeposits.into());\n        }")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1 << 60, FLEX, 0).unwrap();
    t.fill(10, t.w.now).unwrap();
    check("the last distribution of a schedule releases the rest, however little", t.distribute().is_ok() && t.pool_hdr().avail == 0);
''', "a distribution whose amount times 1e16 is below the total weight",
 "the schedule cannot be completed: the distribution is refused and the tokens stay")

bug('index-lookup-depth', 'P02', [(ST+'mod.rs',
"    let mut result = None;\n\n    while current_id != SENTINEL {",
"    let mut result = None;\n    // a balanced tree is never that deep\n    let mut steps = 0;\n\n    while current_id != SENTINEL && steps < 8 {\n        steps += 1;")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.days(6, 0);
    t.fill(400_000, t.w.now + 400 * DAY).unwrap();
    for _ in 0..400 {
        t.days(1, 9);
        let _ = t.distribute();
        let released = 400_000 - t.pool_hdr().avail;
        let got = t.claimable(0);
        check("the only staker gets everything", got <= released && got + 5 > released);
    }
''', "enough distribution days for the index tree to be deeper than eight levels along the path to the latest one",
 "a settlement finds an older index than the latest and pays too little, or fails")

bug('refresh-only-after-distribution', 'P14', [(ST+'mining.rs',
"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n\n        share",
"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n\n        if find_max_value_limited_by_key(cumulative_index, curr_ts.safe_add(1)?).unwrap_or(0)\n            == self.mining.index_with_precision\n        {\n            // nothing was distributed since the last time\n            return Ok(());\n        }\n\n        share")],
'''
    let mut t = T::new(2);
    t.deposit(0, 100, M3, 0).unwrap();
    t.deposit(1, 100, FLEX, 1).unwrap();
    t.days(91, 0);
    check("a penalty above the weight is refused", t.penalty(0, 150).is_err());
''', "a boost that expired since the last settlement, without any distribution in between",
 "the expired boost still counts: a penalty above the current weight is accepted, and leaves a wrong weight")

bug('delegates-without-stake-idle', 'P06', [(ST+'mining.rs',
"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n\n        share",
"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n        if self.mining.share == 0 && self.weighted_stake_diffs.is_empty() {\n            // no stake, no rewards\n            share = 0;\n        }\n\n        share"),
 (ST+'mining.rs', "        self.mining.share = share.safe_sub(self.mining.stake_from_others)?;",
"        self.mining.share = share.saturating_sub(self.mining.stake_from_others);")],
'''
    let mut t = T::new(3);
    t.deposit(0, 1000, FLEX, 1).unwrap();
    t.deposit(2, 2000, FLEX, 2).unwrap();
    t.days(7, 0);
    t.pay(400_000);
    check("the delegate earns for delegated stake", t.claimable(1) == 100_000);
''', "a delegate which has never staked itself",
 "the delegate earns nothing for the stake delegated to it")

bug('restake-same-day-forgets-delegate', 'P07', [(ST+'reward_pool.rs',
"        // do actions like it's a regular deposit\n        let amount_to_restake = base_amount.safe_add(additional_amount)?;",
"        // do actions like it's a regular deposit\n        let amount_to_restake = base_amount.safe_add(additional_amount)?;\n        let unchanged_end = old_lockup_period != LockupPeriod::Flex\n            && new_lockup_period.end_timestamp(curr_ts)? == deposit_old_expiration_ts;\n        // the delegate keeps what it has\n        let delegate_mining = delegate_mining.filter(|_| !unchanged_end);")],
'''
    let mut t = T::new(2);
    let now = t.w.now;
    t.deposit(0, 1000, M6, 1).unwrap();
    t.extend(0, M6, M6, now, 1000, 500, 1).unwrap();
    check("the delegate has the whole restaked amount", t.hdr(1).sfo == 1500 && t.pool_hdr().total == 1500 * 5);
''', "a delegated stake restaked on the day it was made with the same lockup and an additional amount",
 "the additional amount is not delegated")

bug('claim-authority-by-token-program', 'P10', [(INS+'claim.rs',
"    let deposit_authority = AccountLoader::next_signer(account_info_iter)?;",
"    // the token program requires its signature\n    let deposit_authority = AccountLoader::next_unchecked(account_info_iter)?;")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.days(90, 0);
    let mut ix = instruction(&Data::Claim, &t.keys(0));
    for a in ix.accounts.iter_mut() { if a.pubkey == t.da { a.is_signer = false } }
    let s: Vec<Pubkey> = vec![t.users[0].wallet];
    let w0 = t.w.clone();
    check("a claim without the deposit authority's signature is refused", t.w.exec(&ix, &s).is_err() && t.w.diff(&w0).is_empty());
''', "a claim by somebody without any claimable rewards, not signed by the deposit authority",
 "it is accepted and settles the account")

bug('owner-may-act-as-authority', 'P10', [(SRC+'asserts.rs',
"    assert_account_key(\n        deposit_authority,\n        &wrapped_reward_pool.pool.deposit_authority,\n    )?;\n    assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;",
"    // a pool without stakes can be used by its distributor as well\n    if wrapped_reward_pool.pool.total_share > 0\n        || deposit_authority.key != &wrapped_reward_pool.pool.distribute_authority\n    {\n        assert_account_key(\n            deposit_authority,\n            &wrapped_reward_pool.pool.deposit_authority,\n        )?;\n    }\n    assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;")],
'''
    let mut t = T::new(1);
    let d = Data::Deposit { amount: 5, lock: FLEX, owner: t.users[0].wallet, delegate: t.users[0].wallet };
    let k = Keys { deposit_auth: t.xa, ..t.keys(0) };
    check("only the deposit authority can deposit", t.run(&d, &k).is_err());
''', "a deposit into a pool without any stake, signed by the distribute authority",
 "the distribute authority can record stakes")

bug('vault-by-contents', 'P11', [(INS+'claim.rs',
"            let vault_seeds = &[",
"            let vault_state = Account::unpack(&vault.data.borrow())?;\n            // its own vault, or one that looks the same\n            let same = vault_state.owner == wrapped_reward_pool.pool.deposit_authority\n                && vault_state.mint == *reward_mint.key\n                && *reward_mint.key == wrapped_reward_pool.pool.reward_mint;\n            let vault_seeds = &["),
 (INS+'claim.rs',
"            assert_account_key(\n                vault,\n                &Pubkey::create_program_address(vault_seeds, program_id)?,\n            )?;",
"            if !same {\n                assert_account_key(\n                    vault,\n                    &Pubkey::create_program_address(vault_seeds, program_id)?,\n                )?;\n            }")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(1000);
    // a second pool with the same authority and mint
    let other = key("other pool");
    t.w.put(other, Acc { lamports: Rent::default().minimum_balance(POOL_LEN), owner: pid(), data: vec![0; POOL_LEN], executable: false });
    let ov = vault_pda(&other, &t.mint).0;
    let d = Data::InitPool { fill: t.fa, dist: t.xa };
    let k = Keys { pool: other, vault: ov, ..t.keys(0) };
    t.run(&d, &k).unwrap();
    t.w.set_tokens(&ov, 5000);
    let k = Keys { vault: ov, ..t.keys(0) };
    check("rewards are not paid from another pool's vault", t.run(&Data::Claim, &k).is_err() && t.w.tokens(&ov) == 5000);
''', "two pools with the same deposit authority and mint, and a claim naming the other pool's vault",
 "the claim is paid out of the other pool's vault")

bug('slash-drops-shared-date', 'P13', [(ST+'reward_pool.rs',
"            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;\n        }\n\n        Ok(())",
"            *diff_record = diff_record.safe_sub(diff_by_expiration_date)?;\n            if mining\n                .weighted_stake_diffs\n                .get(&beginning_of_the_stake_expiration_date)\n                == Some(&0)\n            {\n                // nothing left to expire that day\n                mining\n                    .weighted_stake_diffs\n                    .remove(&beginning_of_the_stake_expiration_date);\n                self.weighted_stake_diffs\n                    .remove(&beginning_of_the_stake_expiration_date);\n            }\n        }\n\n        Ok(())")],
'''
    let mut t = T::new(2);
    let exp = t.w.now + 90 * DAY;
    t.deposit(0, 1000, M3, 0).unwrap();
    t.deposit(1, 1000, M3, 1).unwrap();
    t.slash(0, 1000, 2000, Some(exp)).unwrap();
    t.days(91, 0);
    t.pay(1000);
    check("the other staker's boost still leaves the total", t.pool_hdr().total == 1000 && t.claimable(1) == 1000);
''', "two stakers whose boosts expire on the same day, one of them slashed completely",
 "the other's boost never leaves the pool total")

bug('bump-of-the-signer', 'P16', [(ST+'mining.rs',
"        Mining {\n            bump,\n            data,", "        Mining {\n            bump: bump.max(252),\n            data,")],
'''
    let mut t = T::new(0);
    for i in 0..64 {
        t.add_user(i);
    }
    let mut ok = true;
    for i in 0..64 {
        ok &= t.deposit(i, 5, FLEX, i).is_ok();
    }
    check("every opened account can be used", ok);
''', "a staker whose account address has a bump below 252",
 "the account records another bump and can never be used")

bug('client-slash-date-lost', 'P17', [(CL+'instructions/slash.rs',
"            stake_expiration_date: self.stake_expiration_date.clone(),\n        };\n\n        accounts.",
"            stake_expiration_date: self.stake_expiration_date.filter(|date| date % 86_400 == 0),\n        };\n\n        accounts.")],
'''
    let t = T::new(1);
    let mut b = rewards::instructions::SlashBuilder::new();
    b.deposit_authority(t.da).reward_pool(t.pool).mining(t.users[0].mining).mining_owner(t.users[0].wallet)
        .slash_amount_in_native(1).slash_amount_multiplied_by_period(2).stake_expiration_date(86_400 * 20_000 + 7);
    let d = Data::Slash { owner: t.users[0].wallet, native: 1, weighted: 2, date: Some(86_400 * 20_000 + 7) };
    check("the builder sends what it was given", b.instruction().data == instruction(&d, &t.keys(0)).data);
''', "a slash built with the client's builder for an expiration date that is not midnight", "the date is dropped, so the program takes the slashed stake for a flexible one", client=True)

bug('unchecked-token-program', 'P18', [(INS+'fill_vault.rs',
"    let _token_program = AccountLoader::next_with_key(account_info_iter, &spl_token::id())?;",
"    if AccountLoader::has_more(account_info_iter) {\n        AccountLoader::next_unchecked(account_info_iter)?;\n    }")],
'''
    let mut t = T::new(1);
    let mut ix = instruction(&Data::Fill { rewards: 5, ends: t.w.now }, &t.keys(0));
    let tp = ix.accounts.pop().unwrap();
    // the token program in place of nothing the instruction knows
    ix.accounts.push(solana_program::instruction::AccountMeta::new_readonly(system_program::id(), false));
    ix.accounts.push(tp);
    let s = vec![t.fa];
    check("another program in place of the token program is refused", t.w.exec(&ix, &s).is_err());
''', "a fill naming another program in place of the token program, which is passed besides",
 "the malformed account list is accepted")

bug('slash-native-above-weighted', 'P13', [(ST+'reward_pool.rs',
"                slash_amount_multiplied_by_period.safe_sub(slash_amount_in_native)?;",
"                slash_amount_multiplied_by_period.saturating_sub(slash_amount_in_native);")],
'''
    let mut t = T::new(1);
    let exp = t.w.now + 90 * DAY;
    t.deposit(0, 1000, M3, 0).unwrap();
    check("a slash of less weight than tokens is refused", t.slash(0, 500, 100, Some(exp)).is_err());
''', "a slash request whose weighted amount is below the native amount",
 "it is accepted, and removes the weighted amount from the expiry day on as well")

bug('first-stake-resets-index', 'P03', [(ST+'reward_pool.rs',
"        self.pool.total_share = self.pool.total_share.safe_add(weighted_stake)?;\n        mining.mining.share = ",
"        if self.pool.total_share == 0 {\n            // nobody has a stake: start afresh\n            self.pool.index_with_precision = 0;\n        }\n        self.pool.total_share = self.pool.total_share.safe_add(weighted_stake)?;\n        mining.mining.share = ")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.days(6, 0);
    t.pay(1000);
    t.withdraw(0, 1000, 0).unwrap();
    t.days(1, 0);
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.days(1, 0);
    t.pay(500);
    let mut u = t.clone();
    check("rewards survive an empty pool", u.claim(0).is_ok() && t.claimable(0) == 1000 && t.claimable(1) == 500);
''', "a pool that was emptied after a distribution and is used again",
 "the index starts below the one stakers were settled at, and their accounts fail")

bug('staker-expiry-twelve-per-touch', 'P04', [(ST+'mining.rs',
"            total_share = total_share.safe_sub(*modifier_diff)?;\n            processed_dates.push(*date);",
"            total_share = total_share.safe_sub(*modifier_diff)?;\n            processed_dates.push(*date);\n            if processed_dates.len() >= 12 {\n                // the rest is done next time\n                break;\n            }")],
'''
    let mut t = T::new(1);
    for _ in 0..14 {
        t.deposit(0, 100, M3, 0).unwrap();
        t.days(1, 3);
    }
    t.days(200, 0);
    check("all boosts are gone", t.weight(0) == 1400);
''', "more than twelve expiry dates of one staker passing between two settlements",
 "the weight stays boosted")

bug('restake-frees-total', 'P05', [(INS+'extend_stake.rs',
"    wrapped_reward_pool.extend(",
"    let total_before = wrapped_reward_pool.pool.total_share;\n    wrapped_reward_pool.extend("),
 (INS+'extend_stake.rs', "    Ok(())\n}",
"    if base_amount == 0 && additional_amount == 0 {\n        wrapped_reward_pool.pool.total_share = total_before;\n    }\n\n    Ok(())\n}")],
'''
    let mut t = T::new(1);
    let start = t.w.now;
    t.deposit(0, 100, M3, 0).unwrap();
    t.days(91, 0);
    t.extend(0, M3, M3, start, 0, 0, 0).unwrap();
    t.pay(100);
    check("the total follows the weights", t.pool_hdr().total == t.weight(0));
''', "a restake of nothing, while expired boosts are pending in the pool",
 "the total regains boosts whose expiry was already consumed, for good")

bug('late-fill-same-day', 'P09', [(INS+'fill_vault.rs',
"        wrapped_reward_pool.pool.distribution_ends_at = wrapped_reward_pool",
"        // within the same period the end stays as it was requested first\n        let days_diff = if wrapped_reward_pool.pool.tokens_available_for_distribution > 0\n            && days_diff == SECONDS_PER_DAY\n        {\n            0\n        } else {\n            days_diff\n        };\n\n        wrapped_reward_pool.pool.distribution_ends_at = wrapped_reward_pool")],
'''
    let mut t = T::new(1);
    t.fill(100, t.w.now + 10 * DAY).unwrap();
    t.fill(100, t.w.now + 11 * DAY).unwrap();
    check("the end date is the requested one", t.pool_hdr().ends == t.w.now + 11 * DAY);
''', "a fill that extends a running schedule by exactly one day", "the end date is not the requested one")

bug('claim-in-thousands', 'P12', [(INS+'claim.rs',
"            wrapped_mining.mining.claim();\n            amount",
"            wrapped_mining.mining.claim();\n            if amount > u32::MAX.into() {\n                // the rest is paid next time\n                wrapped_mining.mining.unclaimed_rewards = amount - u64::from(u32::MAX);\n                u64::from(u32::MAX)\n            } else {\n                amount\n            }")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(10_000_000_000);
    check("everything is paid at once", t.claimable(0) == 10_000_000_000);
''', "a claim of more than 2^32 base units", "only a part is paid")

bug('closed-weight-leaves-pool', 'P15', [(INS+'close_mining.rs',
"        if wrapped_mining.mining.unclaimed_rewards != 0 {\n            return Err(MplxRewardsError::RewardsMustBeClaimed.into());\n        }",
"        if wrapped_mining.mining.unclaimed_rewards != 0 {\n            return Err(MplxRewardsError::RewardsMustBeClaimed.into());\n        }\n        wrapped_reward_pool.pool.total_share = wrapped_reward_pool\n            .pool\n            .total_share\n            .saturating_sub(wrapped_mining.mining.share);")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.deposit(1, 1000, M3, 1).unwrap();
    let p = t.pool_hdr();
    t.close(0).unwrap();
    check("closing leaves the pool as it is", t.pool_hdr() == p);
''', "closing an account that still has weight",
 "the pool total is changed, but not its expiry schedule, so it sinks below the stakers' weights later")
