#!/bin/bash
# builds the SSA exporter and warms the Go build cache, offline
set -e
cd "$(dirname "$0")"
python3-vt - <<'P'
import sys
sys.path.insert(0, '.')
from gvc import prove
print(prove.build_exporter())
P
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
(cd replay && go build -o /dev/null ./... ) || true
