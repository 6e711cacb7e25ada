// Serializers of umi 0.9, as far as the published client uses them.
import { base58Encode, base58Decode, publicKey as toKey, isOption, none, some } from './umi.mjs';

const concat = (parts) => {
  const out = new Uint8Array(parts.reduce((n, p) => n + p.length, 0));
  let at = 0;
  for (const p of parts) {
    out.set(p, at);
    at += p.length;
  }
  return out;
};

const number = (name, size, big) => () => ({
  description: name,
  fixedSize: size,
  maxSize: size,
  serialize(value) {
    let n = BigInt(value);
    if (n < 0n || n >= 1n << BigInt(8 * size)) throw new RangeError(`${name} out of range: ${value}`);
    const out = new Uint8Array(size);
    for (let i = 0; i < size; i += 1) {
      out[i] = Number(n & 255n);
      n >>= 8n;
    }
    return out;
  },
  deserialize(bytes, offset = 0) {
    if (bytes.length < offset + size) throw new Error(`${name}: not enough bytes`);
    let n = 0n;
    for (let i = size - 1; i >= 0; i -= 1) n = (n << 8n) | BigInt(bytes[offset + i]);
    return [big ? n : Number(n), offset + size];
  },
});
export const u8 = number('u8', 1, false);
export const u16 = number('u16', 2, false);
export const u32 = number('u32', 4, false);
export const u64 = number('u64', 8, true);
export const u128 = number('u128', 16, true);

const signed = (name, size, big) => () => {
  const u = number(name, size, true)();
  const m = 1n << BigInt(8 * size);
  return {
    ...u,
    serialize(value) {
      const n = BigInt(value);
      if (n < -m / 2n || n >= m / 2n) throw new RangeError(`${name} out of range: ${value}`);
      return u.serialize(n < 0n ? n + m : n);
    },
    deserialize(bytes, offset = 0) {
      let [n, at] = u.deserialize(bytes, offset);
      if (n >= m / 2n) n -= m;
      return [big ? n : Number(n), at];
    },
  };
};
export const i8 = signed('i8', 1, false);
export const i16 = signed('i16', 2, false);
export const i32 = signed('i32', 4, false);
export const i64 = signed('i64', 8, true);
export const i128 = signed('i128', 16, true);

export const bool = () => ({
  description: 'bool',
  fixedSize: 1,
  maxSize: 1,
  serialize: (v) => Uint8Array.of(v ? 1 : 0),
  deserialize: (bytes, offset = 0) => [bytes[offset] === 1, offset + 1],
});

export const bytes = (options = {}) => ({
  description: 'bytes',
  fixedSize: options.size ?? null,
  maxSize: options.size ?? null,
  serialize: (v) => Uint8Array.from(v),
  deserialize(b, offset = 0) {
    const end = options.size === undefined ? b.length : offset + options.size;
    return [b.slice(offset, end), end];
  },
});

export const publicKey = () => ({
  description: 'publicKey',
  fixedSize: 32,
  maxSize: 32,
  serialize: (value) => base58Decode(toKey(value)),
  deserialize(b, offset = 0) {
    const k = b.slice(offset, offset + 32);
    if (k.length < 32) throw new Error('publicKey: not enough bytes');
    return [base58Encode(k), offset + 32];
  },
});

const sum = (sizes) => sizes.reduce((a, s) => (a === null || s === null ? null : a + s), 0);

export const struct = (fields, options = {}) => ({
  description: options.description ?? 'struct',
  fixedSize: sum(fields.map(([, s]) => s.fixedSize)),
  maxSize: sum(fields.map(([, s]) => s.maxSize)),
  serialize: (value) => concat(fields.map(([name, s]) => s.serialize(value[name]))),
  deserialize(b, offset = 0) {
    if (b.slice(offset).length === 0) throw new Error(`${options.description}: empty buffer`);
    const out = {};
    for (const [name, s] of fields) {
      const [v, next] = s.deserialize(b, offset);
      offset = next;
      out[name] = v;
    }
    return [out, offset];
  },
});

export const array = (item, options = {}) => {
  const size = options.size ?? u32();
  const fixed = typeof size === 'number';
  return {
    description: 'array',
    fixedSize: fixed && item.fixedSize !== null ? item.fixedSize * size : null,
    maxSize: fixed && item.maxSize !== null ? item.maxSize * size : null,
    serialize(value) {
      if (fixed && value.length !== size) throw new Error(`expected ${size} items, got ${value.length}`);
      const head = fixed || size === 'remainder' ? [] : [size.serialize(value.length)];
      return concat([...head, ...value.map((v) => item.serialize(v))]);
    },
    deserialize(b, offset = 0) {
      const out = [];
      let n = size;
      if (size === 'remainder') n = (b.length - offset) / item.fixedSize;
      else if (!fixed) {
        [n, offset] = size.deserialize(b, offset);
        n = Number(n);
      }
      for (let i = 0; i < n; i += 1) {
        const [v, next] = item.deserialize(b, offset);
        out.push(v);
        offset = next;
      }
      return [out, offset];
    },
  };
};

export const option = (item, options = {}) => {
  const prefix = options.prefix ?? u8();
  const fixed = options.fixed ?? false;
  return {
    description: 'option',
    fixedSize: null,
    maxSize: null,
    serialize(value) {
      const o = isOption(value) ? value : value === null || value === undefined ? none() : some(value);
      if (o.__option === 'None') {
        return concat([prefix.serialize(0), new Uint8Array(fixed ? item.fixedSize : 0)]);
      }
      return concat([prefix.serialize(1), item.serialize(o.value)]);
    },
    deserialize(b, offset = 0) {
      if (b.slice(offset).length === 0) return [none(), offset];
      const [is, at] = prefix.deserialize(b, offset);
      if (Number(is) === 0) return [none(), at + (fixed ? item.fixedSize : 0)];
      const [v, next] = item.deserialize(b, at);
      return [some(v), next];
    },
  };
};

export const scalarEnum = (constructor, options = {}) => {
  const prefix = options.size ?? u8();
  const names = Object.keys(constructor);
  const isNumeric = Object.values(constructor).some((v) => typeof v === 'number');
  const values = isNumeric ? Object.values(constructor).filter((v) => typeof v === 'number') : Object.values(constructor);
  return {
    description: options.description ?? 'enum',
    fixedSize: prefix.fixedSize,
    maxSize: prefix.maxSize,
    serialize(value) {
      if (isNumeric && typeof value === 'number') {
        if (!values.includes(value)) throw new Error(`invalid variant: ${value}`);
        return prefix.serialize(value);
      }
      if (isNumeric && typeof constructor[value] === 'number') return prefix.serialize(constructor[value]);
      const i = names.indexOf(value) >= 0 ? names.indexOf(value) : values.indexOf(value);
      if (i < 0) throw new Error(`invalid variant: ${value}`);
      return prefix.serialize(i);
    },
    deserialize(b, offset = 0) {
      const [n, at] = prefix.deserialize(b, offset);
      const i = Number(n);
      if (isNumeric) {
        if (!values.includes(i)) throw new Error(`enum index out of range: ${i}`);
        return [i, at];
      }
      if (i >= values.length) throw new Error(`enum index out of range: ${i}`);
      return [values[i], at];
    },
  };
};

export const mapSerializer = (serializer, unmap, map) => ({
  ...serializer,
  serialize: (value) => serializer.serialize(unmap(value)),
  deserialize(b, offset = 0) {
    const [v, at] = serializer.deserialize(b, offset);
    return [map ? map(v, b, offset) : v, at];
  },
});
