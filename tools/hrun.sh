#!/bin/bash
# hrun.sh [-r REPO] SECS PROP...: compile and run replay programs (developer tool; objects cached in /tmp/hobj-<hash of REPO tree>)
R=/repo; [ "$1" = -r ] && { R=$2; shift 2; }; S=$1; shift
K=$(cd $R && cat $(find src include -type f | sort) | md5sum | cut -c1-10); T=/tmp/hobj-$K; F="-O1 -std=c++20 -w -fno-access-control -Iinclude -Isrc -Iexternal -I. -I/verif/replay"; export F T
cd $R; if [ ! -f $T/ok ]; then mkdir -p $T; find src -name '*.cpp' | xargs -P8 -I{} sh -c 'g++ $F -c {} -o $T/$(echo {} | tr / _).o' && touch $T/ok; fi
printf '%s\n' "$@" | S=$S xargs -P4 -I{} sh -c 'g++ $F /verif/replay/{}.cpp $T/*.o -lpthread -o $T/{}.x $(grep -o "\"ldflags\": *\[[^]]*\]" /verif/replay/{}.cpp | sed "s/.*\[//;s/\]//;s/[\",]/ /g") 2>&1 | head -30; (echo "== {}"; timeout 300 $T/{}.x ${SEED:-1} 0 1000000 $S 2>&1 | tail -8; )' 
