#!/bin/bash
# inns.sh REPO CMD...: run CMD where /repo is REPO (a private mount namespace; nothing else sees it)
r=$(realpath "$1"); shift
d=$(mktemp -d /tmp/inns.XXXXXX)
unshare -Urm bash -c 'mount --bind "$0" /repo && mount --bind "$1" /opt/vp/reports; shift; cd /repo; "$@"' "$r" "$d" "$@"
rc=$?
rm -rf "$d"
exit $rc
