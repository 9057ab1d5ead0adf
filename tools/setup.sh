#!/bin/bash
# Nothing is downloaded or installed: this only shows that the tools are there.  Each check builds
# its own encoding and native replay from /repo's working tree.
set -e
export CARGO_NET_OFFLINE=true
cd "$(dirname "$0")/.."
cargo kani --version
cargo +nightly miri --version
cargo --version
python3 -c 'import json; [json.loads(l) for l in open("properties.jsonl")]; json.load(open("MANIFEST.json")); json.load(open("tools/claims.json"))'
mkdir -p work evidence
