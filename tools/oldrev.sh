#!/bin/bash
# oldrev.sh ID REV [args]: run a check against an older revision of /repo
set -u
id=$1 rev=$2; shift 2
git -C /repo worktree add -q /tmp/wt_$id "$rev" || exit 2
VERIF_REPO=/tmp/wt_$id bash check.sh "$id" quick "$@" | tail -4 | cut -c1-700
git -C /repo worktree remove --force /tmp/wt_$id
git -C /repo worktree prune
