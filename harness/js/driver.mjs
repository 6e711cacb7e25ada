// Answers questions about the published JavaScript client, one JSON line each.
import fs from 'node:fs';
import * as client from 'CLIENT';

const hex = (b) => Buffer.from(b).toString('hex');
const plain = (v) => {
  if (typeof v === 'bigint') return v.toString();
  if (typeof v === 'number') return String(v);
  if (v instanceof Uint8Array) return hex(v);
  if (Array.isArray(v)) return v.map(plain);
  if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, plain(x)]));
  return v;
};
const cap = (s) => s[0].toUpperCase() + s.slice(1);

const signer = (k) => ({
  publicKey: k,
  signMessage: async () => new Uint8Array(64),
  signTransaction: async (t) => t,
  signAllTransactions: async (t) => t,
});

const programs = {
  list: [],
  add(p) {
    programs.list.push(p);
  },
  get: (name) => programs.list.find((p) => p.name === name),
  getPublicKey(name, fallback) {
    const p = programs.list.find((x) => x.name === name);
    if (p) return p.publicKey;
    if (name === 'mplxRewards') {
      if (fallback) return fallback;
      throw new Error('unknown program');
    }
    return fallback;
  },
};
const plugged = { programs };
let installed = false;

function argument(v, style) {
  if ('k' in v) return v.k;
  if ('n' in v) {
    const n = BigInt(v.n);
    return style & 1 && n <= BigInt(Number.MAX_SAFE_INTEGER) ? Number(n) : n;
  }
  if ('l' in v) return client.LockupPeriod[v.l];
  if ('o' in v) {
    if (v.o === null) return style & 8 ? { __option: 'None' } : null;
    return style & 8 ? { __option: 'Some', value: BigInt(v.o) } : argument({ n: v.o }, style);
  }
  throw new Error('bad argument');
}

const ops = {
  ix(q) {
    const input = {};
    // the payer is left to the context, or given and another than the context's
    const other = '4vJ9JU1bJJE96FWSJKvHsmmFADCg4gpZQff4P3bkLKi';
    const context = { programs, payer: signer(q.style & 4 ? q.payer : other), identity: signer(other) };
    for (const [name, a] of Object.entries(q.accounts)) {
      if (a.d && q.style & 4) continue; // left to its default
      input[name] = a.s ? signer(a.k) : q.style & 2 ? [a.k, 254] : a.k;
    }
    const args = {};
    for (const [name, v] of Object.entries(q.args)) args[name] = argument(v, q.style);
    const builder = client[q.name](context, { ...input, ...args });
    const [item] = builder.items;
    const serializer = client[`get${cap(q.name)}InstructionDataSerializer`]();
    const back = serializer.deserialize(item.instruction.data);
    return {
      n: builder.items.length,
      program: item.instruction.programId,
      keys: item.instruction.keys.map((k) => [k.pubkey, k.isSigner, k.isWritable]),
      signers: item.signers.map((s) => s.publicKey),
      data: hex(item.instruction.data),
      back: plain(back[0]),
      used: back[1],
    };
  },
  async acc(q) {
    const data = Uint8Array.from(Buffer.from(q.hex, 'hex'));
    const T = cap(q.kind);
    const raw = { publicKey: q.key, data, owner: q.owner, lamports: 1n, executable: false, exists: true };
    const rpc = {
      getAccount: async (k) => (k === q.key ? raw : { publicKey: k, exists: false }),
      getAccounts: async (ks) => ks.map((k) => (k === q.key ? raw : { publicKey: k, exists: false })),
    };
    const main = plain(client[`deserialize${T}`](raw));
    const other = '11111111111111111111111111111111';
    const fetched = [
      await client[`fetch${T}`]({ rpc }, [q.key, 255]),
      await client[`safeFetch${T}`]({ rpc }, q.key),
      (await client[`fetchAll${T}`]({ rpc }, [q.key]))[0],
      (await client[`safeFetchAll${T}`]({ rpc }, [other, q.key]))[0],
    ].map(plain);
    let missing = 0;
    if ((await client[`safeFetch${T}`]({ rpc }, other)) === null) missing += 1;
    await client[`fetch${T}`]({ rpc }, other).catch(() => (missing += 1));
    const s = client[`get${T}AccountDataSerializer`]();
    const gpa = client[`get${T}GpaBuilder`]({ rpc, programs });
    const value = client[`deserialize${T}`](raw);
    const fields = Object.entries(gpa.fields).map(([name, [at, ser]]) => [name, at, hex(ser.serialize(value[name]))]);
    return {
      main,
      fetched,
      missing,
      fields,
      again: hex(s.serialize(value)),
      size: client[`get${T}Size`](),
      gpaProgram: gpa.programId,
      gpa: plain(gpa.callback(raw)),
    };
  },
  err(q) {
    const program = client.createMplxRewardsProgram();
    const e = client.getMplxRewardsErrorFromCode(q.code, program);
    if (!e) return { name: null };
    const n = client.getMplxRewardsErrorFromName(e.name, program);
    const p = program.getErrorFromCode(q.code);
    const m = program.getErrorFromName(e.name);
    return { name: e.name, code: e.code, byName: n?.code ?? null, viaProgram: p?.name ?? null, viaProgramName: m?.code ?? null };
  },
  info(q) {
    if (!installed) {
      installed = true;
      if (q.install) client.Rewards().install(plugged);
    }
    const p = client.createMplxRewardsProgram();
    return {
      id: client.MPLX_REWARDS_PROGRAM_ID,
      key: p.publicKey,
      name: p.name,
      lockups: [0, 1, 2, 3, 4].map((i) => client.LockupPeriod[i] ?? null),
      lockupBytes: [0, 1, 2, 3, 4].map((i) => hex(client.getLockupPeriodSerializer().serialize(i))),
      types: [0, 1, 2].map((i) => client.AccountType[i] ?? null),
      typeBytes: [0, 1, 2].map((i) => hex(client.getAccountTypeSerializer().serialize(i))),
      installed: q.install ? programs.get('mplxRewards')?.publicKey ?? null : null,
      viaContext: client.getMplxRewardsProgramId({ programs }),
    };
  },
};

const buf = Buffer.alloc(1 << 16);
let pending = '';
const read = () => {
  for (;;) {
    const at = pending.indexOf('\n');
    if (at >= 0) {
      const line = pending.slice(0, at);
      pending = pending.slice(at + 1);
      return line;
    }
    let n = 0;
    try {
      n = fs.readSync(0, buf, 0, buf.length, null);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      if (e.code === 'EOF') return null;
      throw e;
    }
    if (n === 0) return null;
    pending += buf.toString('latin1', 0, n);
  }
};
for (let line = read(); line !== null; line = read()) {
  const q = JSON.parse(line);
  let a;
  try {
    a = await ops[q.op](q);
  } catch (e) {
    a = { error: String(e && e.message ? e.message : e) };
  }
  fs.writeSync(1, `${JSON.stringify(a)}\n`);
}
