#!/bin/bash
# Builds the verifier (offline); each check builds it again if it must.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/gvc"
go build -o gvc .
