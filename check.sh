#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./build.sh || { echo "the analyzer does not build"; exit 2; }
case "$2" in quick|thorough) export VERIF_TIER=$2;; esac
exec ./bin/texted-verif check "$1" "$PWD" "${REPO:-/repo}"
