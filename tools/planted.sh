#!/bin/bash
# runs all properties on each planted bug; prints which alarm
cp /tmp/kc /tmp/kc-seeds
for s in ${@:-$(ls /verif/seeded)}; do
 rm -rf /tmp/wts; cp -a /repo /tmp/wts; git -C /tmp/wts apply /verif/seeded/$s/patch.diff || echo applyfail $s
 echo "$s $(/tmp/kc-seeds -property all -tier quick -repo /tmp/wts -verif /verif -noevidence 2>&1 | grep -o '^VIOLATION property=C[0-9]*' | grep -o 'C[0-9]*' | sort -u | tr '\n' ' ')"
done > /tmp/seeds.out 2>&1
rm -rf /tmp/wts
