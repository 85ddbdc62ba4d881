#!/bin/bash
# Warms the build cache; every check builds again from /repo's working tree.
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/env.sh"
chmod +x "$HERE"/*.sh
for d in "$HERE"/go/src/checks/*/; do [ -e "$d/packages" ] && continue; go build -o /dev/null "checks/$(basename "$d")" || true; done
go build -o /dev/null gentool || true
exit 0
