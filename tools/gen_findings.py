#!/usr/bin/env python3
# writes known_findings.json: the fix commits of /repo (by property) and the open findings (none)
import json, subprocess
PROP = {'22af43e':'C01','49f2f9d':'C01','164e3bd':'C02','c63dfba':'C01','be666d7':'C03','965a2ae':'C07','2f39726':'C07','0490b51':'C06','32d6514':'C06','ec40bd1':'C10','9f17d82':'C08','dee0994':'C12','e6b103a':'C12','a557edf':'C13','48054fa':'C24','5dbddac':'C24','e57e299':'C24','b66ef81':'C15','2763a48':'C15','6854389':'C23','5239798':'C24','fff6c4b':'C17','a8cfdf1':'C24','c95c9aa':'C24','711b8a7':'C18','82db4ef':'C19','a130a97':'C18','8493fed':'C19','29a9fce':'C23','6c5e0c8':'C25','5042447':'C25','9f70551':'C26','a3ac1de':'C10','78fc2d4':'C31','4892dae':'C30','addc8cc':'C27','d4164c0':'C34','d91b118':'C37','60058dc':'C35','5ce5999':'C32','cd7726f':'C32','d59df16':'C32','bc27317':'C32','d6abafa':'C32','39db06c':'C32','90c25b1':'C36','0a1d70d':'C23','a04f75b':'C27','a74d5b5':'C38','7c07478':'C40','b7d8e3a':'C13'}
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','9f649f2..HEAD'],capture_output=True,text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    p = PROP.get(h)
    if p is None: print('NO PROPERTY FOR', l); continue
    fixed.append('fixed: property=%s %s %s' % (p, h, s.replace('fix: ', '', 1)))
old = json.load(open('../known_findings.json')) if __import__('os').path.exists('../known_findings.json') else {'findings': []}
json.dump({'findings': old['findings'], 'fixed': fixed}, open('../known_findings.json', 'w'), indent=1)
