#!/bin/bash
# build.sh: build the analyser from the committed files, offline.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/analyzer"
mkdir -p ../bin
go build -o ../bin/gevcheck .
