#!/bin/bash
# run.sh <property> [--only case-key] | --replay <file>: builds what changed, then explores. Tier from VERIF_TIER.
cd /verif || exit 2
bash /verif/build.sh || exit 3
export RUST_LOG=off
exec /verif/mc/target/release/egomc "$@"
