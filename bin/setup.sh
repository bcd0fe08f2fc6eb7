#!/bin/bash
# builds the extraction tool and the driver's dependencies, offline
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true
(cd extract && CARGO_TARGET_DIR=/verif/build/extract-target cargo build --offline --quiet) || exit 1
(cd driver && CARGO_TARGET_DIR=/verif/build/driver-target cargo build --offline --quiet) || exit 1
verus --version >/dev/null || exit 1
