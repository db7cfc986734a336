#!/bin/bash
# development aid: one line per patch from the output of tryall.sh: the properties that alarm
awk '/^== /{n=$2; sub(/.*\//,"",n); p=""} /^\(/{split($0,a,"\x27"); if(index(p,a[2]":"a[4]" ")==0) p=p a[2]":"a[4]" "} /^reports/{print n": "$2" "p}/NOT/{print}' | sort
