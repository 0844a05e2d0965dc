#!/bin/bash
# run.sh ID [quick|thorough]: builds the check from /repo's current tree and runs it.
# Exit 0: held on everything explored; exit 1: violation (or the tree does not build).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. /opt/vp/env.sh
id=$1
tier=${2:-quick}
case $id in
  P13|P14|P15) bin=lang ;;
  P16|P17|P18|P19|P22|P25|P26|P28|P29|P20|P21) bin=files ;;
  P23) bin=conc ;;
  *) bin=ed ;;
esac
mkdir -p build replays evidence
out=$(mktemp -d "$PWD/build/$id.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
flags=()
case $id in P25) kind=maporder ;; P20|P21) kind=syscalls ;; P23) kind=sched ;; *) kind= ;; esac
if [ -n "$kind" ]; then
  (cd mc && go build -o "$out/overlay" ./cmd/overlay) || exit 2
  VERIF_GOROOT=$(go env GOROOT) "$out/overlay" $kind "$out/$kind" || exit 2
  [ $kind = sched ] && race=-race && export VERIF_SITES="$out/sched/sites.json"
  flags=($race -overlay "$out/$kind/overlay.json" -tags $kind -ldflags=-checklinkname=0)
fi
(cd mc && go build "${flags[@]}" -o "$out/$bin" "./cmd/$bin") || exit 2
case $bin in lang|files) (cd /repo && go build "${flags[@]}" -o "$out/texted" ./cmd/texted) || exit 2 ;; esac
export VERIF_WORK="$out" VERIF_TEXTED="$out/texted"
"$out/$bin" "$id" "$tier"
