#!/bin/bash
# usage: check.sh setup | check.sh ID
# Builds the verifier (if needed) and decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p bin evidence
(cd gover && go build -o ../bin/gover.$$ . && mv ../bin/gover.$$ ../bin/gover) || { echo "cannot build the verifier"; exit 2; }
[ "$1" = setup ] && exit 0
exec bin/gover check "$1"
