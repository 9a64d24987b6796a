#!/bin/sh
# builds the search program (and the extractor) from the committed files
set -e
cd "$(dirname "$0")"
(cd harness && cargo build --release --offline)
(cd vx && cargo build --release --offline)
