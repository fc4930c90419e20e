#!/bin/bash
# Builds the harness crates once (every check also builds what it needs itself).
cd "$(dirname "$0")" || exit 1
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
mkdir -p build/gen evidence
python3 - <<'P' || true
import sys; sys.path.insert(0, "tools")
import genreal
from props import PROPS
for p, c in PROPS.items():
    try: genreal.generate(".", c.get("gen", []), "build/gen")
    except Exception as e: print(p, e)
P
cd harness && cargo build --offline --target-dir ../build/target --bins --keep-going 2>&1 | tail -5
cd ../real && cargo build --offline --target-dir ../build/treal --bins --keep-going 2>&1 | tail -5
exit 0
