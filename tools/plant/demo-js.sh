#!/usr/bin/env bash
# Bundles the published JavaScript client of the current directory with a small
# script and runs it. Exit 0: the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
/opt/veriftools/node/node_modules/.bin/esbuild "$here/main.mjs" --bundle --platform=node --format=esm \
  --target=node20 --log-level=error '--tsconfig-raw={}' \
  "--alias:@metaplex-foundation/umi/serializers=$here/serializers.mjs" \
  "--alias:@metaplex-foundation/umi=$here/umi.mjs" \
  "--alias:CLIENT=$PWD/clients/js/src/index.ts" --outfile="$tmp/out.mjs" || exit 2
node "$tmp/out.mjs"
