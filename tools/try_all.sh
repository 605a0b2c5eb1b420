#!/bin/bash
# try planted bugs, N at a time, each in a private copy of /repo (development only).  usage: try_all.sh N [ID...]
N=$1; shift
cd "$(dirname "$0")/.." || exit 3
[ $# = 0 ] && set -- $(ls seeded)
printf '%s\n' "$@" | xargs -P "$N" -I{} tools/iso.sh python3 tools/try_seed.py {}
