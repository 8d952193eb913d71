#!/usr/bin/env python3
"""Generates harness/h/gen_num.go: one harness per numeric check and type."""
S=['ISize','I8','I16','I32','I64']; U=['USize','U8','U16','U32','U64']
un={'ISize':'USize','I8':'U8','I16':'U16','I32':'U32','I64':'U64'}
o=['package h','','// generated by tools/gen_num.py','','import "github.com/myyrakle/gost"','']
def add(p,n,f,ts,fmt='%(f)s(t%(t)s)'):
    for t in ts:
        o.append('func H_%s_%s_%s() { %s }'%(p,n,t,fmt%dict(f=f,t=t,u=un.get(t,t))))
    o.append('')
A=S+U
add('C01','AddSub','chkAddSub',A); add('C01','Mul','chkMul',A); add('C01','DivRem','chkDiv',A)
add('C02','Add','satAdd',A); add('C02','Sub','satSub',A); add('C02','Mul','satMul',A); add('C02','Div','satDiv',A)
add('C03','Wrap','wrapping',A)
add('C04','Op','operators',A,'%(f)s[gost.%(t)s](t%(t)s)'); add('C04','Neg','negation',S)
add('C05','Abs','absolute',S); add('C05','AbsDiff','absDiff',A,'%(f)s(t%(t)s, t%(u)s)')
add('C05','Pow','pow',A); add('C05','PowLaw','powLaw',['I8','U8','I32','U64','USize','I64','U16','I16','U32','ISize'])
add('C06','Shift','shifts',A)
add('C09','Cmp','totalOrder',A)
add('C10','Int','intText',A)
import os
open(os.path.join(os.path.dirname(__file__),'..','harness','h','gen_num.go'),'w').write('\n'.join(o))
