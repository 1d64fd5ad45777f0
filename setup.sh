#!/bin/bash
# builds the extractor and the stand-in; every check rebuilds what it needs again
cd "$(dirname "$0")" || exit 1
cargo build --release --offline --quiet --manifest-path extract/Cargo.toml || exit 1
python3 - <<'PY'
import check
b, e = check.build_replay()
print(b, e[-300:])
PY
verus --version | head -3
exit 0
