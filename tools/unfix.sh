#!/bin/bash
# unfix.sh ID REV [args]: run a check against HEAD of /repo with the fix commit REV taken back
set -u
id=$1 rev=$2; shift 2
git -C /repo worktree add -q --detach /tmp/uf_$id HEAD || exit 2
git -C /tmp/uf_$id revert -n "$rev" && VERIF_REPO=/tmp/uf_$id bash check.sh "$id" quick "$@" | tail -4 | cut -c1-700
git -C /repo worktree remove --force /tmp/uf_$id
git -C /repo worktree prune
