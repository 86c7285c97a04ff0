#!/bin/bash
# ./check.sh C01 [quick|thorough]   or   ./check.sh replay FILE
cd "$(dirname "$0")" || exit 2
cmd=(check "$1"); tier="${2:-${VERIF_TIER:-quick}}"
[ "$1" = replay ] && { cmd=(replay "$2"); tier=quick; }
layout=(); setarch -R true 2>/dev/null && layout=(setarch -R)   # fixed memory layout where the kernel allows it
exec env -i PATH="$PATH" HOME=/tmp LANG=C.UTF-8 PYTHONHASHSEED="${DST_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 \
  VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$tier" \
  ${DST_REPO:+DST_REPO="$DST_REPO"} ${DST_WORKERS:+DST_WORKERS="$DST_WORKERS"} ${DST_REPLAYS:+DST_REPLAYS="$DST_REPLAYS"} ${DST_EVIDENCE:+DST_EVIDENCE="$DST_EVIDENCE"} \
  "${layout[@]}" /usr/bin/python3.12 -B -m dst.main "${cmd[@]}"
