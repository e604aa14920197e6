#!/bin/bash
# builds the extractor and the searcher (the checks rebuild what has changed)
set -e
cd "$(dirname "$0")"
(cd vx && cargo build --release --offline 2>&1 | tail -2)
(cd replay && cargo build --offline 2>&1 | tail -2)
mkdir -p evidence
