#!/bin/bash
# Builds what can be built ahead of the checks (they rebuild what they need themselves).
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
for profile in dev plain; do
  (cd harness/kani && cargo +stable build --offline --bin replay --profile $profile --target-dir ../../target/kani/native)
done
cargo kani --version
(cd tools && python3 -c 'import sym_check; sym_check.build()')
