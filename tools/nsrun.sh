#!/bin/bash
# nsrun.sh COPY CMD...: runs CMD with COPY shown as /repo, in a mount namespace
# of its own, with evidence and replays kept apart.
copy=$1; shift
ev=$(mktemp -d /tmp/nsev.XXXXXX)
trap '[ -n "$ev" ] && /bin/rm -rf "$ev"' EXIT
mkdir -p "$ev/e" "$ev/r" "$ev/b"
unshare -Urmpf --kill-child bash -c '
mount --bind "$1" /repo && mount --bind "$2/e" /verif/evidence && mount --bind "$2/r" /verif/replays && mount --bind "$2/b" /verif/build || exit 99
shift 2; exec "$@"' _ "$copy" "$ev" "$@"
