#!/bin/bash
# development aid: tools/tryall.sh PATCH...   as try.sh, on several slots
N=${SLOTS:-6}; i=0
declare -A L
for p in "$@"; do k=$((i % N)); L[$k]+=" $p"; i=$((i+1)); done
for k in "${!L[@]}"; do bash "$(dirname "$0")/try.sh" t$k ${L[$k]} > /tmp/tryall.$k 2>&1 & done; wait
cat /tmp/tryall.[0-9]*; rm -f /tmp/tryall.[0-9]*
