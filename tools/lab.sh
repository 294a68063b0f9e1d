#!/bin/bash
# lab.sh NAME CMD...: runs CMD in a user namespace in which /repo is the scratch copy /tmp/lab_NAME of $BASE (default /repo).
N=/tmp/lab_$1; shift
[ -d "$N" ] || cp -a "${BASE:-/repo}" "$N"
exec unshare -Urm bash -c 'mount --bind "$0" /repo && cd /verif && exec "$@"' "$N" "$@"
