#!/bin/bash
# usage: sweep.sh "C01 C02" "0 1 2" tier : run checks over seeds, print what is not quiet
for s in $2; do for c in $1; do
  out=$(VERIF_SEED=$s PYTHONHASHSEED=0 timeout 900 /opt/venv/bin/python /verif/run_check.py $c --tier ${3:-quick} 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "== $c seed $s rc $rc"; echo "$out" | grep -v observed | cut -c1-900; fi
done; done; echo swept
