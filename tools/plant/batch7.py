"""Seventh batch of planted bugs."""
from bugs import bug, ST, INS, SRC, CL, JS

bug('restake-weight-wraps', 'P19', [(ST+'reward_pool.rs',
"                base_amount.safe_mul(old_lockup_period.multiplier())?;\n\n            // weighted_stake_modifier_to_remove",
"                base_amount.wrapping_mul(old_lockup_period.multiplier());\n\n            // weighted_stake_modifier_to_remove")],
'''
    let mut t = T::new(1);
    let start = t.w.now;
    t.deposit(0, 3_000_000_000_000_000_000, Y1, 0).unwrap();
    check("more than is staked cannot be restaked", t.extend(0, Y1, FLEX, start, 6_074_457_345_618_258_602, 0, 0).is_err());
    check("the weight is as before", t.weight(0) == 18_000_000_000_000_000_000);
''', "a restake of an amount whose weight exceeds 64 bits by less than the staker's weight", "twice what was staked is staked afterwards")

bug('boosts-of-long-ago-stay', 'P04', [(ST+'mining.rs',
"            Self::update_index(\n                cumulative_index,\n                *date,\n",
"            if beginning_of_the_day - *date > 1095 * SECONDS_PER_DAY {\n                // the history of distributions does not reach back that far\n                processed_dates.push(*date);\n                continue;\n            }\n            Self::update_index(\n                cumulative_index,\n                *date,\n")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, M3, 0).unwrap();
    t.days(90 + 1200, 100);
    check("the boost is over", t.weight(0) == 1000);
''', "an account untouched for more than three years after a boost expired", "the boost is never taken from it")

bug('claim-paid-in-parts', 'P12', [(INS+'claim.rs',
"            let amount = wrapped_mining.mining.unclaimed_rewards;\n            wrapped_mining.mining.claim();\n",
"            // clients read the returned amount as a number of 53 bits\n            let amount = wrapped_mining.mining.unclaimed_rewards.min(1 << 53);\n            wrapped_mining.mining.unclaimed_rewards -= amount;\n")],
'''
    let mut t = T::new(1);
    t.deposit(0, 1000, FLEX, 0).unwrap();
    t.pay(1 << 55);
    t.claim(0).unwrap();
    check("nothing is left to claim", t.claimable(0) == 0);
''', "rewards of one staker above 2^53", "a claim pays only a part of them")

bug('js-large-amount', 'P22', [(JS+'instructions/depositMining.ts',
"    (value) => ({ ...value, discriminator: 3 })",
"    (value) => ({\n      ...value,\n      amount: BigInt(Number(value.amount)),\n      discriminator: 3,\n    })")],
'''
const d = client.getDepositMiningInstructionDataSerializer().serialize({ amount: (1n << 60n) + 1n, lockupPeriod: 1, miningOwner: key(1), delegate: key(2) });
check('the amount given is the amount sent', new DataView(d.buffer, d.byteOffset).getBigUint64(1, true) === (1n << 60n) + 1n);
''', "a deposit of more than 2^53 base units", "the amount is rounded to a double", js=True)
