#!/bin/bash
# tryc.sh PATCH ID... : runs checks against a scratch copy with the patch
P=$(realpath "$1"); shift; N=$(basename "$P" .diff).$$; W=/tmp/tryc/$N
mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a /verif "$W/verif"; ( cd "$W/repo" && git apply "$P" ) || exit 2
for i in "$@"; do ( cd "$W/verif"; time VERIF_REPO=$W/repo timeout 1000 /opt/venv/bin/python -W ignore check.py $i; echo "exit $i $?" ) 2>&1 | grep -v '^$\|user\|sys' | cut -c1-400 | tail -${TAIL:-12}; done
rm -rf "/tmp/tryc/$N"
