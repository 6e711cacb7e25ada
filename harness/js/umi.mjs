// The few parts of @metaplex-foundation/umi that the published client uses,
// after umi 0.9 (the package itself cannot be installed here).
const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const VALUE = new Map([...ALPHABET].map((c, i) => [c, BigInt(i)]));

export function base58Decode(s) {
  let n = 0n;
  for (const c of s) {
    const v = VALUE.get(c);
    if (v === undefined) throw new Error(`not base58: ${s}`);
    n = n * 58n + v;
  }
  const bytes = [];
  while (n > 0n) {
    bytes.unshift(Number(n & 255n));
    n >>= 8n;
  }
  for (const c of s) {
    if (c !== '1') break;
    bytes.unshift(0);
  }
  return Uint8Array.from(bytes);
}

export function base58Encode(bytes) {
  let n = 0n;
  for (const b of bytes) n = (n << 8n) | BigInt(b);
  let s = '';
  while (n > 0n) {
    s = ALPHABET[Number(n % 58n)] + s;
    n /= 58n;
  }
  for (const b of bytes) {
    if (b !== 0) break;
    s = '1' + s;
  }
  return s;
}

export const isPublicKey = (v) => typeof v === 'string' && base58Decode(v).length === 32;
export const isPda = (v) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && isPublicKey(v[0]);
export const isSigner = (v) => typeof v === 'object' && v !== null && 'publicKey' in v && 'signMessage' in v;
export function publicKey(input, assertValid = true) {
  let k;
  if (typeof input === 'string') k = input;
  else if (Array.isArray(input)) k = input[0];
  else if (input instanceof Uint8Array) k = base58Encode(input);
  else if (typeof input === 'object' && input !== null && 'publicKey' in input) k = input.publicKey;
  else throw new Error('not a public key');
  if (assertValid && !isPublicKey(k)) throw new Error(`not a public key: ${k}`);
  return k;
}
export const publicKeyBytes = (k) => base58Decode(k);

export const none = () => ({ __option: 'None' });
export const some = (value) => ({ __option: 'Some', value });
export const isOption = (v) => typeof v === 'object' && v !== null && '__option' in v;

export function transactionBuilder(items = []) {
  return { items, getInstructions: () => items.map((i) => i.instruction) };
}

export class ProgramError extends Error {
  constructor(message, program, cause) {
    super(message);
    this.program = program;
    this.cause = cause;
  }
}

export function assertAccountExists(account, name) {
  if (!account.exists) throw new Error(`account not found: ${name}`);
}
export function deserializeAccount(raw, serializer) {
  const { data, publicKey: key, ...header } = raw;
  const [parsed] = serializer.deserialize(data);
  return { publicKey: key, header, ...parsed };
}

export function gpaBuilder(context, programId) {
  const b = {
    programId,
    fields: {},
    callback: null,
    registerFields(fields) {
      b.fields = fields;
      return b;
    },
    deserializeUsing(callback) {
      b.callback = callback;
      return b;
    },
  };
  return b;
}
