#!/bin/bash
# Builds the checker offline into /verif/bin.
set -e
cd "$(dirname "$0")/../checker"
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin; do [ -x $d/go ] && PATH=$d:$PATH && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GOFLAGS=-mod=mod
mkdir -p ../bin
exec go build -o ../bin/crlitecheck .
