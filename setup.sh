#!/bin/bash
# Compiles everything once, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
mkdir -p build evidence replays
(cd mc && go build -o /dev/null ./... 2>/dev/null || for d in cmd/*/; do go build -o /dev/null "./$d"; done)
(cd /repo && go build -o /dev/null ./cmd/texted)
exit 0
