#!/bin/sh
# Builds the observers against /repo's working tree (each check builds again what it needs).
cd "$(dirname "$0")/harness" || exit 1
cargo build --release --offline --bin canvas_obs
exec cargo build --release --offline --bin thermal_obs
