# rf.sh PROP [pattern]: runs property on refactor variants, prints alarms
P=$1; pat=${2:-*}
ls -d /tmp/rf/$pat | xargs -P 8 -I{} sh -c '
 v={}; n=$(basename $v)
 [ -f $v/ok ] || [ -z "$FULL" ] || true; if [ ! -f $v/ok ]; then (cd /repo; GOFLAGS=-mod=mod go build -overlay $v/overlay.json ./... >/tmp/rf/$n/build 2>&1 && GOFLAGS=-mod=mod go test -vet=off -overlay $v/overlay.json ./... >$v/test 2>&1 && echo ok > $v/ok || echo bad > $v/ok); fi
 if [ $(cat $v/ok) = ok ]; then timeout 900 ${KC:-/tmp/kc} -property '$P' -noevidence -overlay $v/overlay.json > $v/out.'$P' 2>&1 || echo "rc $? $n"; else echo "$n does not build/pass"; fi'
echo; for f in /tmp/rf/$pat/out.$P; do n=$(basename $(dirname $f)); grep -h "^tree\|^db\|^crypto\|^?\|^UNDEC\|panic" $f | sed "s/^/$n: /"; done | cut -c1-${3:-160} > /tmp/rf.out; wc -l /tmp/rf.out
