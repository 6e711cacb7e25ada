"""Sixth batch of planted bugs."""
from bugs import bug, ST, INS, SRC, CL

bug('far-end-wraps', 'P19', [(ST+'reward_pool.rs',
"            (self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) / SECONDS_PER_DAY).into();\n",
"            ((self.distribution_ends_at.saturating_sub(get_curr_unix_ts()) / SECONDS_PER_DAY) as u16)\n                .into();\n")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.fill(1_000_000, t.w.now + 65537 * DAY).unwrap();
    t.distribute().unwrap();
    check("a day's part is released", t.pool_hdr().avail == 1_000_000 - 1_000_000 / 65537);
''', "a schedule that ends more than 65535 days ahead", "the number of days is truncated, so too much is released at once")

bug('last-token-stays', 'P01', [(INS+'claim.rs',
"            wrapped_mining.refresh_rewards(&*wrapped_reward_pool.cumulative_index)?;\n",
"            wrapped_mining.refresh_rewards(&*wrapped_reward_pool.cumulative_index)?;\n            // the vault has to stay open\n            let held = Account::unpack(&vault.data.borrow())?.amount;\n            if wrapped_mining.mining.unclaimed_rewards > 1 && held <= wrapped_mining.mining.unclaimed_rewards {\n                return Err(solana_program::program_error::ProgramError::InsufficientFunds);\n            }\n")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(5000);
    check("everything can be claimed", t.claimable(0) == 5000);
''', "a claim of all that the vault holds", "the claim is refused although it is backed")

bug('large-half-year-locks-longer', 'P04', [(ST+'reward_pool.rs',
"        let stake_expiration_date = lockup_period.end_timestamp(curr_ts)?;\n\n        let modifier =",
"        let stake_expiration_date = if weighted_stake_diff > u64::from(u32::MAX) && lockup_period == LockupPeriod::SixMonths {\n            LockupPeriod::OneYear.end_timestamp(curr_ts)?\n        } else {\n            lockup_period.end_timestamp(curr_ts)?\n        };\n\n        let modifier =")],
'''
    let mut t = T::new(1);
    t.deposit(0, 2_000_000_000, M6, 0).unwrap();
    t.days(185, 100);
    check("the boost is over after 180 days", t.weight(0) == 2_000_000_000);
''', "a six-month stake of more than about 1.4e9 base units", "its boost lasts a year") 

bug('penalty-ends-at-first-empty', 'P14', [(ST+'mining.rs',
"            if stake_diff >= &mut decreased_weighted_stake_number {",
"            if *stake_diff == 0 {\n                // eaten before, like the ones that expire earlier\n                break;\n            }\n            if stake_diff >= &mut decreased_weighted_stake_number {")],
'''
    let mut t = T::new(1);
    t.deposit(0, 100, M3, 0).unwrap();
    t.deposit(0, 100, M6, 0).unwrap();
    t.penalty(0, 300).unwrap();
    t.penalty(0, 100).unwrap();
    t.days(91, 10);
    check("the boost was eaten by the second penalty", t.weight(0) == 200);
''', "a second penalty after one that ate the last boost completely", "the remaining boosts are not eaten, so the weight falls too low (or the account fails) at their expiry")

bug('claim-settles-once-a-day', 'P12', [(INS+'claim.rs',
"            wrapped_mining.refresh_rewards(&*wrapped_reward_pool.cumulative_index)?;\n",
"            // what has been settled already need not be settled again\n            if wrapped_mining.mining.unclaimed_rewards == 0 || wrapped_mining.mining.share == 0 {\n                wrapped_mining.refresh_rewards(&*wrapped_reward_pool.cumulative_index)?;\n            }\n")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(5000);
    t.deposit(0, 1, FLEX, 0).unwrap();
    t.days(1, 5);
    t.pay(700);
    let before = t.claimable(0);
    check("all that accrued is claimed at once", before >= 5698);
''', "an account settled by another operation after a distribution, and a claim after the next distribution", "only the settled part is paid")

bug('close-of-larger-delegate', 'P15', [(INS+'close_mining.rs',
"        if wrapped_mining.mining.stake_from_others > 0 {",
"        if wrapped_mining.mining.stake_from_others > wrapped_mining.mining.share {")],
'''
    let mut t = T::new(2);
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.deposit(0, 500, FLEX, 1).unwrap();
    check("an account with delegated stake cannot be closed", t.close(1).is_err());
''', "a delegate whose own stake is at least as large as what is delegated to it", "it can be closed: the delegated stake is lost, and its stakers cannot withdraw")

bug('slash-beyond-delegated', 'P06', [(ST+'reward_pool.rs',
"        self.withdraw(mining, slash_amount_multiplied_by_period, None)?;\n",
"        self.withdraw(mining, slash_amount_multiplied_by_period, None)?;\n        // the delegated stake cannot exceed what backs it\n        if mining.mining.share == 0 && mining.mining.stake_from_others > 0 {\n            self.pool.total_share = self.pool.total_share.safe_sub(1)?;\n            mining.mining.stake_from_others -= 1;\n        }\n")],
'''
    let mut t = T::new(2);
    t.deposit(1, 1000, FLEX, 1).unwrap();
    t.deposit(0, 500, FLEX, 1).unwrap();
    t.slash(1, 1000, 1000, None).unwrap();
    check("delegated stake stays", t.hdr(1).sfo == 500);
''', "a delegate slashed to nothing", "one unit of what others delegated to it is lost, and the last of them cannot withdraw")

bug('unlock-adds-nothing', 'P07', [(ST+'reward_pool.rs',
"        let amount_to_restake = base_amount.safe_add(additional_amount)?;\n",
"        let amount_to_restake = if curr_ts < deposit_old_expiration_ts\n            && new_lockup_period == LockupPeriod::Flex\n        {\n            // (unlocking early forfeits nothing, but adds nothing either)\n            base_amount\n        } else {\n            base_amount.safe_add(additional_amount)?\n        };\n")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, M3, 0).unwrap();
    let start = t.w.now;
    t.days(3, 10);
    t.extend(0, M3, FLEX, start, 1000, 50, 0).unwrap();
    check("base and additional amount are staked", t.weight(0) == 1050);
''', "a restake of a locked stake to a flexible one before its expiry, with an additional amount", "the additional amount is not staked")


bug('expiry-in-32-bits', 'P04', [(SRC+'utils.rs',
"            LockupPeriod::OneYear => Ok(beginning_of_the_day + SECONDS_PER_DAY * 365),",
"            LockupPeriod::OneYear => Ok(u64::from(\n                (beginning_of_the_day as u32).saturating_add(SECONDS_PER_DAY as u32 * 365),\n            )),")],
'''
    let mut t = T::new(1);
    t.w.now = (1u64 << 32) - 100 * DAY;
    t.deposit(0, 1000, Y1, 0).unwrap();
    t.days(365, 10);
    check("the boost is over after a year", t.weight(0) == 1000);
    t.deposit(0, 1000, Y1, 0).unwrap();
    check("a new stake is boosted", t.weight(0) == 7000);
    t.days(300, 10);
    check("and stays so for a year", t.weight(0) == 7000);
''', "a one-year stake that expires after 2^32 seconds (2106)", "its boost ends at once or never")
