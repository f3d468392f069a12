#!/bin/bash
# The broken variants of the design (z.bug in Server.tla): each has to violate a guard of Tcpx.tla on some small
# scenario, and the unbroken design on none.   usage: tools/mcself.sh [workers]
cd "$(dirname "$0")/../spec" || exit 2
W=${1:-4}; bad=0; T=$(mktemp -d)
one() { # set, bug, module
  MCSET=$1 BUG=$2 timeout 900 java -XX:+UseParallelGC -Xmx8g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir $T/m -workers $W -noGenerateSpecTE -config ${3:-ServerMC}.cfg ${3:-ServerMC}.tla > $T/log 2>&1
  rm -rf "$T/m"
  if grep -q "Invariant .* is violated" $T/log; then r=violated; elif grep -q "No error has been found" $T/log; then r=holds; else r=unfinished; fi
  w=$(awk '/bad \|->/{b=""; f=1} f{b=b $0} /^$/{f=0} END{print b}' $T/log | tr -s ' ' | cut -c1-160)
  printf '%-6s %-10s %s %s\n' "$1" "${2:-}" $r "$w"
}
for x in evict:pool late:pool oncheck:pool twonames:pool pipe:pipe scope:chain localoff:chain panicpipe:pipe hb2:hb hbkeep:hb nodeny:auth noexit:life noclose:life cls2:stop onelis:stop drainone:stop oldgen:stop lastonly:stop eofloses:life; do
  l=$(one ${x#*:} ${x%:*}); echo "$l"; case "$l" in *violated*) ;; *) bad=1;; esac
done
for x in reuse:Anchors lastperiod:Anchors ahead:Framer eofdrop:Framer unbuf:ExitMC reverse:ExitMC early:ExitMC; do
  l=$(one ${x#*:} ${x%:*} ${x#*:}); echo "$l"; case "$l" in *violated*) ;; *) bad=1;; esac
done
rm -rf "$T"; exit $bad
