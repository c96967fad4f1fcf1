#!/bin/bash
# plantns.sh WORKER ID...: as plant.sh, but in a private mount namespace where /repo, the simulator's build folder,
# evidence and replays are scratch copies under /tmp/pw/WORKER: the real /repo stays untouched.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
w="/tmp/pw/$1"; shift
mkdir -p "$w/sim" "$w/ev" "$w/rp" "$w/tmp"
if [ ! -d "$w/repo/.git" ]; then cp -a /repo "$w/repo"; else
    git -C "$w/repo" checkout -q -- . && git -C "$w/repo" fetch -q /repo HEAD && git -C "$w/repo" checkout -q --detach FETCH_HEAD; fi
cp -a /verif/replays/. "$w/rp/" 2>/dev/null
mkdir -p "$w/v" && rm -rf "$w/v/x" && git -C /verif archive HEAD --prefix=x/ | tar -x -C "$w/v"
cp -a /verif/seeded "$w/v/x/" && cp -a "$here/tools" "$w/v/x/"
mkdir -p "$w/v/x/sim/target" "$w/v/x/evidence" "$w/v/x/replays"
export FAST="${FAST:-0}" CHECK="${CHECK:-1}"
unshare -m bash -c "
mount --bind $w/repo /repo && mount --bind $w/v/x /verif && mount --bind $w/sim /verif/sim/target && mkdir -p $w/tmp && mount --bind $w/tmp /tmp || exit 9
cd /verif && bash tools/plant.sh $*"
