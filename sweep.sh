#!/bin/bash
# sweep.sh "C01 C02" "1 2 3" [tier]: run checks over several seeds, print only what is not quiet
for c in $1; do for s in $2; do
  out=$(VERIF_SEED=$s VERIF_TIER=${3:-quick} /opt/venv/bin/python run.py $c 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "== $c seed $s rc $rc"; echo "$out" | grep -v '^  File\|^    \|^Trace' | cut -c1-500 | tail -${TAILN:-5}; else echo "$c $s ok: $(echo "$out"|tail -1|cut -c1-150)"; fi
done; done
