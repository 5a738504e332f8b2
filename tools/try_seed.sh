#!/bin/bash
# Runs a check against a planted bug, on a copy of /repo in a private mount namespace.
# usage: try_seed.sh ID [PROPERTY [TIER]]
set -e
id=$1
here=$(cd "$(dirname "$0")/.." && pwd)
property=${2:-$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")}
work=$(mktemp -d /tmp/try_seed.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -a /repo "$work/repo"
mkdir "$work/evidence"
git -C "$work/repo" apply "$here/seeded/$id/patch.diff"
unshare -m bash -c "mount --bind '$work/repo' /repo && mount --bind '$work/evidence' '$here/evidence' && cd '$here' && timeout 900 ./check '$property' --tier '${3:-quick}'" || echo "exit $?"
