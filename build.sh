#!/bin/bash
# builds the verifier (gvc) offline into /verif/bin (git-ignored)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GOSUMDB=off
cd "$(dirname "$0")/gvc" && mkdir -p ../bin && go build -o ../bin/gvc .
