#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code only to make editing sane).
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or ["public API return values"],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
exec(open(__file__.rsplit('/',1)[0]+'/props_data.py').read())
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),'properties')
