"""Third batch of planted bugs."""
from bugs import bug, ST, INS, SRC, CL, JS

bug('js-payer-of-the-context', 'P22', [(JS+'instructions/initializeMining.ts',
"  if (!resolvedAccounts.payer.value) {", "  if (resolvedAccounts.payer.value !== context.payer) {")],
'''
const b = client.initializeMining(context, { rewardPool: key(1), mining: key(2), payer: signer(key(3)), miningOwner: key(4) });
check('the given payer pays', b.items[0].instruction.keys.some((k) => k.pubkey === key(3) && k.isSigner));
''', "a payer given to initializeMining that is not the client's own", "the account is paid by the client's identity instead of the payer asked for", js=True)

bug('js-gpa-offset', 'P22', [(JS+'accounts/mining.ts', "stakeFromOthers: [128, u64()],", "stakeFromOthers: [120, u64()],")],
'''
const f = client.getMiningGpaBuilder(context).fields;
const data = new Uint8Array(144).map((_, i) => i);
const v = client.deserializeMining({ publicKey: key(1), data })['stakeFromOthers'];
const [at, s] = f.stakeFromOthers;
check('a search by delegated stake finds the account', s.serialize(v).every((x, i) => data[at + i] === x));
''', "a search of staker accounts by their delegated stake", "the filter looks at the unclaimed rewards", js=True)

bug('js-option-zero', 'P22', [(JS+'instructions/slash.ts',
"    (value) => ({ ...value, discriminator: 10 })",
"    (value) => ({\n      ...value,\n      stakeExpirationDate: value.stakeExpirationDate || null,\n      discriminator: 10,\n    })")],
'''
const d = client.getSlashInstructionDataSerializer().serialize({ miningOwner: key(1), slashAmountInNative: 1, slashAmountMultipliedByPeriod: 2, stakeExpirationDate: 0n });
check('the date given is the date sent', d.length === 58 && d[49] === 1);
''', "a slash with the expiration date 0", "the date is dropped: what the program refuses becomes the slash of a flexible stake", js=True)

bug('js-program-as-absent', 'P22', [(JS+'shared/index.ts',
"    if (isSigner(account.value)) {\n      signers.push(account.value);\n    }",
"    if (isSigner(account.value) && account.isWritable) {\n      signers.push(account.value);\n    }")],
'''
const b = client.slash(context, { depositAuthority: signer(key(1)), rewardPool: key(2), mining: key(3), miningOwner: key(4), slashAmountInNative: 1, slashAmountMultipliedByPeriod: 2, stakeExpirationDate: null });
check('the deposit authority is asked to sign', b.items[0].signers.some((s) => s.publicKey === key(1)));
''', "an instruction with a signer that is not writable", "its signature is required but never collected", js=True)
