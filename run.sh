#!/bin/bash
# run.sh PROP quick|thorough   explore one property on /repo's working tree
# run.sh replay FILE           re-execute a recorded violation with its trace
# run.sh setup                 build the tool
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
(cd tool && go build -o "$T/tool" .) || exit 2
case "$1" in
  setup) exit 0 ;;
  replay) "$T/tool" replay "$2" ;;
  *) "$T/tool" check "$1" "$2" ;;
esac
