#!/bin/bash
# replay.sh FILE : execute one recorded (minimised) execution again on the current tree, verbosely
V=$(cd "$(dirname "$0")" && pwd); F=$(readlink -f "${1:?}")
case $(sed -n 's/^check //p' "$F") in C06) W=tab;; C12) W=thr;; *) W=uni;; esac
BIN=$("$V/build.sh" $W) || exit 5
exec "$BIN" --replay "$F" --verbose
