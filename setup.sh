#!/bin/bash
# builds the verifier from the committed sources, offline
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off
mkdir -p bin
cd gocv
go build -o ../bin/gocv .
