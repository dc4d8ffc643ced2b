#!/bin/bash
# Developer helper: the event-log hash of every run must not depend on the process it runs in, on which runs went before, on
# load or on the address layout. determinism.sh [runs] [ids]
runs=${1:-3000}; shift
for id in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14}; do
    [ -x /tmp/sim/$id/world ] || tools/b.sh $id >/dev/null 2>&1
    (cd /tmp/sim/$id
    ./world --hashes 1 --seed 7 --runs $runs 2>/dev/null | sort -n > h1
    for k in 0 1 2 3 4 5 6; do SIM_NO_ASLR=1 ./world --hashes 1 --seed 7 --runs $runs --from $k --stride 7 2>/dev/null > h2.$k & done; wait
    cat h2.? | sort -n > h2
    echo "$id $(wc -l < h1) runs, $(cut -d' ' -f2 h1 | sort -u | wc -l) distinct, $(awk '$4 != 0' h1 | wc -l) ended badly: $(cmp h1 h2 && echo identical || echo DIFFERENT)")
done
