#!/bin/bash
# iso.sh PATCH|- CMD...: run CMD where /repo is a private copy with PATCH applied, and
# /verif/evidence and /opt/vp/reports are private too. Nothing of it is left behind.
p=$1; shift
d=$(mktemp -d /tmp/iso.XXXXXX)
mkdir $d/repo $d/ev $d/rep
cp -a /repo/. $d/repo/
if [ "$p" != - ]; then git -C $d/repo apply "$(realpath "$p")" || { rm -rf "$d"; exit 99; }; fi
mkdir -p /verif/evidence
D=$d unshare -Urm bash -c 'mount --bind $D/repo /repo; mount --bind $D/ev /verif/evidence; mount --bind $D/rep /opt/vp/reports; "$@"' x "$@"
r=$?
rm -rf "$d"
exit $r
