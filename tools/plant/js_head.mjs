import * as client from 'CLIENT';
import { base58Encode } from '@metaplex-foundation/umi';

const key = (n) => base58Encode(Uint8Array.from({ length: 32 }, (_, i) => (i === 31 ? n : 7)));
const signer = (k) => ({ publicKey: k, signMessage: async () => {} });
const programs = { getPublicKey: (name, fallback) => fallback };
const context = { programs, payer: signer(key(200)) };
function check(what, ok) {
  if (!ok) {
    console.log(`BROKEN: ${what}`);
    process.exit(1);
  }
}
