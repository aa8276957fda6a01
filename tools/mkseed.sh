#!/bin/bash
# tools/mkseed.sh ID: turn the edits in the scratch copy /tmp/mk/repo into seeded/ID/patch.diff and reset the copy
set -e
d=$(cd "$(dirname "$0")/.." && pwd)/seeded/$1
mkdir -p "$d"
git -C /tmp/mk/repo diff > "$d/patch.diff"
git -C /tmp/mk/repo checkout -q -- .
cat "$d/patch.diff"
