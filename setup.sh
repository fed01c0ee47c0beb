#!/bin/bash
# Builds the fact dumper (a rustc driver) and the facts of the current tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/work" "$here/evidence"
bash "$here/facts.sh" "${YV_REPO:-/repo}" "$here/work/setup-facts.json" "$here/work/tgt"
rm -f "$here/work/setup-facts.json"
