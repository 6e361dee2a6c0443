#!/bin/bash
# Builds what the checks build themselves too; run once so that the first check is fast.
cd "$(dirname "$0")" || exit 1
bash harness/build.sh || exit 1
(cd vc/rsdump && cargo build --offline) || exit 1
exit 0
