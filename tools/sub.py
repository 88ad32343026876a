#!/usr/bin/env python3
"""sub.py FILE <<< 'old===>new' : replace exactly one occurrence in /tmp/wt/FILE"""
import sys
p='/tmp/wt/'+sys.argv[1]; s=open(p).read()
for part in sys.stdin.read().split('\n#####\n'):
    old,new=part.split('===>\n',1) if '===>\n' in part else part.split('===>',1)
    old=old.rstrip('\n'); new=new.rstrip('\n')
    assert s.count(old)==1,(s.count(old),old)
    s=s.replace(old,new)
open(p,'w').write(s)
