#!/bin/bash
# Builds the extractor (vendored crates from the offline cargo cache) and /repo's extension module.
set -e
cd "$(dirname "$0")"
( cd extract && CARGO_NET_OFFLINE=true cargo build --release --offline -q )
( . /opt/vp/env.sh; cd /repo && build_ext ) > /dev/null 2>&1 || true
