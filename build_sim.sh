#!/bin/bash
# Builds /repo's current working tree together with the simulator into /verif/.work/grsim.
set -e
cd "$(dirname "$0")"
V=$PWD
mkdir -p .work/ov evidence
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=$V/.work/gocache GONOSUMDB=* GONOSUMCHECK=1
unset GOROOT
python3 mkoverlay.py .work/ov
cd "${SIM_REPO:-/repo}"
exec go build -overlay "$V/.work/ov/overlay.json" -o "$V/.work/grsim" .
