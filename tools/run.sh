cd /verif; for c in "$@"; do VERIF_DEBUG=1 python3 check.py $c; python3 -c "
import json,sys;d=json.load(open('/verif/evidence/$c.json'))
for o in d['coverage']['obligation_list']:
    if o['status']!='proved' : print(o['status'], o['name'][:70],'|',(o.get('detail') or '')[-120:])
print(d['coverage']['approximations'])"; done
