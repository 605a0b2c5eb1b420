#!/bin/bash
# run a command with a private copy of /repo mounted over /repo (needs mount privileges; development only)
D=$(mktemp -d /tmp/iso.XXXXXX)
cp -a /repo "$D/repo"; mkdir -p /verif/build; cp -al /verif/build "$D/build"
VERIF_BUILD="$D/build" unshare -m bash -c 'mount --bind "$0/repo" /repo; shift 0; "$@"' "$D" "$@"
rc=$?
rm -rf "$D"
exit $rc
