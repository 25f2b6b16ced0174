# ev.sh ID [PROP...]: check a seed in a copy (own build/evidence copy of verif)
ID=$1; shift; P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
rm -rf /tmp/evr_$ID; git clone -q /repo /tmp/evr_$ID; (cd /tmp/evr_$ID; for f in apisupport-config.h cpusupport-config.h cflags-filter.sh posix-flags.sh; do cp /repo/$f . 2>/dev/null; done; git apply /verif/seeded/$ID/patch.diff)
mkdir -p /tmp/evv_$ID; rsync -a --delete --exclude build --exclude seeded --exclude .git --exclude evidence /verif/ /tmp/evv_$ID/ 2>/dev/null || cp -r /verif/*.py /verif/*.txt /verif/sim /verif/harness /verif/nat /tmp/evv_$ID/ 2>/dev/null
for p in $P; do (cd /tmp/evv_$ID; VERIF_REPO=/tmp/evr_$ID timeout 900 python3 check.py $p > /tmp/ev_$ID.$p.out 2>&1; echo "$ID $p exit $? $(grep -h 'VIOLATION\|ERROR' /tmp/ev_$ID.$p.out | head -1 | cut -c1-150)"; grep -B1 "^VIOLATION" /tmp/ev_$ID.$p.out | head -1 | cut -c1-200); done
rm -rf /tmp/evr_$ID /tmp/evv_$ID
