"""Fourth batch of planted bugs."""
from bugs import bug, ST, INS, SRC, CL

bug('close-keeps-contents', 'P23', [(INS+'close_mining.rs',
"    let mut source_data = mining.data.borrow_mut();\n    source_data.fill(0);\n", "    // the runtime removes accounts without lamports\n")],
'''
    let mut t = T::new(2);
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(1000);
    t.claim(0).unwrap();
    let m = t.users[0].mining;
    // one transaction: close, then send lamports to the address
    let ix = instruction(&Data::Close, &t.keys(0));
    let s = signers(&ix);
    t.w.exec_part(&ix, &s).unwrap();
    let back = solana_program::system_instruction::transfer(&t.payer, &m, 100_000_000);
    t.w.exec_part(&back, &[t.payer]).unwrap();
    t.w.end_tx(&[m]);
    let gone = t.w.get(&m).map(|a| a.owner != pid() || a.data.iter().all(|b| *b == 0)).unwrap_or(true);
    check("a closed account does not come back with its stake", gone);
''', "an account closed and given lamports again in the same transaction",
 "the closed account lives on with its weight and rewards, after its deposit was returned")

bug('reinit-of-empty-pool', 'P23', [(INS+'initialize_pool.rs',
"    if wrapped_reward_pool.pool.is_initialized() {\n        return Err",
"    let again = wrapped_reward_pool.pool.is_initialized();\n    if again && wrapped_reward_pool.pool.total_share > 0 {\n        return Err"),
 (INS+'initialize_pool.rs',
"    wrapped_reward_pool.weighted_stake_diffs.initialize();\n    wrapped_reward_pool.cumulative_index.initialize();",
"    if !again {\n        wrapped_reward_pool.weighted_stake_diffs.initialize();\n        wrapped_reward_pool.cumulative_index.initialize();\n    }")],
'''
    let mut t = T::new(1);
    let other = key("othermint");
    let m = t.w.get(&t.mint).unwrap().clone();
    t.w.put(other, m);
    let thief = key("thief");
    t.fill(1000, t.w.now).unwrap();
    let k = Keys { mint: other, vault: vault_pda(&t.pool, &other).0, deposit_auth: thief, ..t.keys(0) };
    let r = t.run(&Data::InitPool { fill: thief, dist: thief }, &k);
    check("a pool is initialised once", r.is_err() && t.pool_hdr().deposit_auth == t.da);
''', "a second initialisation of a pool nobody is staking in, with another mint",
 "anybody takes over the pool: authorities and mint are replaced and the schedule is lost")

bug('delegate-named-by-account', 'P23', [(SRC+'utils.rs',
"    reward_pool_key: &Pubkey,\n) -> Result<(), ProgramError> {\n    if *delegate_mining.key",
"    reward_pool_key: &Pubkey,\n) -> Result<(), ProgramError> {\n    // a delegate that has moved to another pool keeps its account there\n    let moved = {\n        let data = delegate_mining.data.borrow();\n        let mining = WrappedImmutableMining::from_bytes(&data)?.mining;\n        mining.share == 0 && mining.stake_from_others > 0\n    };\n    let own_pool = WrappedImmutableMining::from_bytes(&delegate_mining.data.borrow())?\n        .mining\n        .reward_pool;\n    let reward_pool_key = if moved { &own_pool } else { reward_pool_key };\n    if *delegate_mining.key")],
'''
    let mut a = T::new(2);
    a.deposit(0, 1000, FLEX, 0).unwrap();
    let mut b = T::bare("b", a.w.clone());
    b.add_user(0);
    b.add_user(1);
    b.deposit(0, 500, FLEX, 1).unwrap();
    let other = b.users[1].mining;
    a.w = b.w.clone();
    let d = Data::Deposit { amount: 7, lock: FLEX, owner: a.users[0].wallet, delegate: a.users[1].wallet };
    let k = Keys { delegate: other, ..a.keys(0) };
    let r = a.run(&d, &k);
    check("an account of another pool is no delegate here", r.is_err());
''', "a delegate account of another pool, with delegated stake but none of its own",
 "a deposit in one pool changes delegated stake in another pool, whose authority did not sign")

bug('entry-empty-data', 'P18', [(SRC+'entrypoint.rs',
"    if let Err(error) = process_instruction",
"    if instruction_data.len() > 1000 {\n        // nothing this program would understand: leave it to others in the transaction\n        return Ok(());\n    }\n    if let Err(error) = process_instruction")],
'''
    let t = T::new(1);
    let mut w = t.w.clone();
    // through the entry point the loader calls (some of many)
    let mut refused = true;
    for n in 1001..1060usize {
        let mut ix = instruction(&Data::Distribute, &t.keys(0));
        ix.data = vec![n as u8; n];
        refused &= w.exec(&ix, &signers(&ix)).is_err();
    }
    check("data that is no instruction is refused", refused);
''', "instruction data of more than 1000 bytes", "it is accepted as if it had been executed")

bug('emptied-date-removed', 'P21', [(ST+'reward_pool.rs',
"                *modifier = modifier.safe_sub(weighted_stake_diff)?;\n                Ok(())",
"                *modifier = modifier.safe_sub(weighted_stake_diff)?;\n                if *modifier == 0 {\n                    // nothing left to do on that date\n                    diffs.remove(&timestamp);\n                }\n                Ok(())")],
'''
    let mut t = T::new(2);
    let start = t.w.now;
    t.deposit(0, 1000, M3, 0).unwrap();
    t.days(85, 0);
    t.deposit(1, 1000, FLEX, 1).unwrap();
    let ex = t.w.now + 5 * DAY;
    t.extend(0, M3, Y1, start, 1000, 0, 0).unwrap();
    check("another's flexible stake can be slashed by its date", t.slash(1, 100, 100, Some(ex)).is_ok());
''', "a restake leaving nothing but flexible (unboosted) stakes of others on its old expiry date, then an operation on one of those by that date",
 "the valid operation of the other staker is refused, because the pool has forgotten the date")

bug('slash-date-midnight-only', 'P13', [(ST+'reward_pool.rs',
"            let beginning_of_the_stake_expiration_date =\n                stake_expiration_date - (stake_expiration_date % SECONDS_PER_DAY);",
"            let beginning_of_the_stake_expiration_date = if stake_expiration_date % SECONDS_PER_DAY\n                < SECONDS_PER_DAY / 2\n            {\n                stake_expiration_date - (stake_expiration_date % SECONDS_PER_DAY)\n            } else {\n                // to the nearest day\n                stake_expiration_date - (stake_expiration_date % SECONDS_PER_DAY) + SECONDS_PER_DAY\n            };")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.days(1, 0);
    t.deposit(0, 1000, M3, 0).unwrap();
    let ex = T0 + 90 * DAY + 50_000;
    t.slash(0, 1000, 2000, Some(ex)).unwrap();
    t.days(89, 10);
    check("the second stake keeps its boost for its last day", t.weight(0) == 2000);
''', "a slash whose date is in the second half of the expiry day, and another stake expiring the next day",
 "the boost of another stake is removed instead of the slashed one's")

bug('emptied-account-idle', 'P01', [(ST+'mining.rs',
"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n\n        share",
"        let mut share = self.mining.share.safe_add(self.mining.stake_from_others)?;\n\n        if share == 0 && self.mining.index_with_precision > 0 && self.mining.unclaimed_rewards == 0 {\n            // nothing to settle\n            return Ok(());\n        }\n\n        share")],
'''
    let mut t = T::new(2);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.pay(1000);
    t.claim(0).unwrap();
    t.withdraw(0, 1000, 0).unwrap();
    t.days(1, 0);
    t.pay(1000);
    t.days(1, 0);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    check("the vault can pay everyone", t.claimable(0) + t.claimable(1) <= t.w.tokens(&t.vault));
''', "a staker who claims, withdraws everything and stakes again after further distributions",
 "he is credited for distributions while he had no stake: more is owed than the vault holds")

bug('close-leaves-dust', 'P15', [(INS+'close_mining.rs',
"        if wrapped_mining.mining.unclaimed_rewards != 0 {",
"        // less than a cent is not worth a transfer\n        if wrapped_mining.mining.unclaimed_rewards > 9 {")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(5);
    check("an account with rewards cannot be closed", t.close(0).is_err());
''', "accrued rewards between 1 and 9 base units at closing", "they are lost for good")

bug('client-delegate-readonly', 'P17', [(CL+'instructions/change_delegate.rs',
"        accounts.push(solana_program::instruction::AccountMeta::new(\n            self.old_delegate_mining,\n            false,\n        ));",
"        accounts.push(if self.old_delegate_mining == self.mining {\n            solana_program::instruction::AccountMeta::new(self.old_delegate_mining, false)\n        } else {\n            solana_program::instruction::AccountMeta::new_readonly(self.old_delegate_mining, false)\n        });")],
'''
    let t = T::new(3);
    let k = Keys { old_delegate: t.users[1].mining, delegate: t.users[2].mining, ..t.keys(0) };
    let a = rewards::instructions::ChangeDelegate {
        reward_pool: k.pool, mining: k.mining, deposit_authority: k.deposit_auth, mining_owner: k.owner,
        old_delegate_mining: k.old_delegate, new_delegate_mining: k.delegate,
    };
    let ix = a.instruction(rewards::instructions::ChangeDelegateInstructionArgs { staked_amount: 1, new_delegate: t.users[2].wallet });
    let mut w = t.clone();
    w.deposit(0, 10, FLEX, 1).unwrap();
    check("a change from one delegate to another goes through", w.w.exec(&ix, &signers(&ix)).is_ok());
''', "a change of delegate away from another account, built with the Rust client",
 "the instruction fails: the old delegate's account is not writable", client=True)

bug('change-clamps-old', 'P06', [(ST+'reward_pool.rs',
"            old_delegate_mining.mining.stake_from_others = old_delegate_mining\n                .mining\n                .stake_from_others\n                .safe_sub(staked_amount)?;",
"            old_delegate_mining.mining.stake_from_others = old_delegate_mining\n                .mining\n                .stake_from_others\n                .saturating_sub(staked_amount);")],
'''
    let mut t = T::new(4);
    t.deposit(3, 5000, FLEX, 3).unwrap();
    t.deposit(0, 100, FLEX, 1).unwrap();
    check("no more can be moved than is delegated", t.change(0, 150, 1, 2).is_err());
''', "a change of delegate by more than the old delegate has been delegated", "delegated stake appears from nowhere")

bug('claim-zero-skips-authority', 'P10', [(INS+'claim.rs',
"        assert_account_key(\n            deposit_authority,\n            &wrapped_reward_pool.pool.deposit_authority,\n        )?;\n",
"        // (settling without a payment is harmless)\n        if wrapped_reward_pool.pool.index_with_precision > 0 {\n            assert_account_key(\n                deposit_authority,\n                &wrapped_reward_pool.pool.deposit_authority,\n            )?;\n        }\n")],
'''
    let mut t = T::new(1);
    t.deposit(0, 100, M3, 0).unwrap();
    t.days(91, 0);
    let k = Keys { deposit_auth: key("stranger"), ..t.keys(0) };
    check("nobody else can act as the deposit authority", t.run(&Data::Claim, &k).is_err());
''', "a claim in a pool that has not distributed anything yet", "claims go through without the deposit authority")
