#!/bin/bash
# test.sh ID...: verify each seed in a private copy mounted over /repo
one() {
 id=$1; d=/verif/seeded/$id; w=/tmp/sd/t_$id; rm -rf $w; cp -a /repo $w
 git -C $w checkout -q -- . ; 
 prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 log=/tmp/sd/$id.log
 unshare -Urm bash -c "mount --bind $w /repo; cd /repo; bash $d/demo.sh >/tmp/sd/$id.clean 2>&1; echo clean=\$?; git apply $d/patch.diff || echo APPLYFAIL; bash /opt/vp/build.sh >/dev/null 2>&1; echo build=\$?; bash $d/demo.sh >/tmp/sd/$id.bug 2>&1; echo bug=\$?" >$log 2>&1
 if [ -z "$NOTESTS" ]; then unshare -Urm bash -c "mount --bind $w /repo; cd /repo; bash /opt/vp/test.sh /tmp/sd/$id.json >/tmp/sd/$id.test 2>&1; true" ; 
 python3 - $id >>$log <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(f'/tmp/sd/{sys.argv[1]}.json'))
def names(x):
    for k in ('passed','stable','pass'):
        if k in x: return set(x[k])
    return set(k for k,v in x.items() if v in('passed','pass'))
miss=set(b['stable'])-names(o); print('tests-broken',len(miss),sorted(miss)[:3])
P
 fi
 if [ -z "$NOCHECK" ]; then unshare -Urm bash -c "mount --bind $w /repo; cd /verif; timeout 900 python3-vt run.py $prop --tier quick > /tmp/sd/$id.chk 2>&1; echo check=\$?; grep -c '^VIOLATION' /tmp/sd/$id.chk" >>$log; fi
 rm -rf $w
 echo "$id $prop: $(tr '\n' ' ' <$log)"
}
export -f one
printf '%s\n' "$@" | xargs -P ${P:-2} -I{} bash -c 'one {}'
