#!/bin/bash
# build.sh: (re)build /verif/bin/verifchecker, offline, when any source is newer.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=0
mkdir -p bin evidence
if [ -x bin/verifchecker ] && [ -z "$(find checker -newer bin/verifchecker -type f -print -quit)" ]; then exit 0; fi
cd checker && go build -o ../bin/verifchecker.$$ . && mv ../bin/verifchecker.$$ ../bin/verifchecker
