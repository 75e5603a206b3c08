#!/bin/bash
# Builds the analyzer from the committed sources, offline.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/analyzer" && PATH=/opt/veriftools/go1.27.3/bin:$PATH go build -o "$here/bin/analyzer" .
