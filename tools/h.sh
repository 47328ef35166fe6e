#!/bin/sh
# developer driver: run one harness; tools/h.sh C02 [scenario]
cd /verif && exec /opt/veriftools/pyvenv/bin/python3 -c "
import sys; sys.path[:0]=['vc']; import native
r=native.run('$1','${TIER:-quick}',1)
print(r['error'], r.get('build_s'), r['wall'])
for s in r['scenarios']: print(s['scenario'], s['result'], s['cases'], s['checks'], s['msg'] if len(s['msg'])<1300 else s['msg'][:150]+' ... '+s['msg'][-1100:], s['why'], s.get('stderr','')[-1500:])
"
