#!/bin/bash
# Builds the engine from the committed sources (offline; x/tools is in the module cache).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/goenv.sh"
mkdir -p "$here/build" "$here/evidence" "$here/replays"
cd "$here/engine" && GOSUMDB=off go build -o "$here/build/engine.new.$$" . && mv "$here/build/engine.new.$$" "$here/build/engine"
