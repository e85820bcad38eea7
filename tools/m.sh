#!/bin/bash
# m.sh ID FILE PYEXPR: mut.sh with one line of output
cd "$(dirname "$0")/.." && tools/mut.sh "$1" "$2" "$3" | tail -1 | cut -c1-130
