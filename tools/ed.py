#!/usr/bin/env python3
# ed.py FILE OLD NEW [N]  replaces the Nth (default only) occurrence in $SR/FILE (default /tmp/sr)
import sys
f,o,n=sys.argv[1:4]; o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
import os; p=os.environ.get('SR','/tmp/sr')+'/'+f; s=open(p).read(); k=s.count(o)
want=int(sys.argv[4]) if len(sys.argv)>4 else None
assert k==1 or (want and k>=want),(f,'occurrences',k)
i=-1
for _ in range(want or 1): i=s.index(o,i+1)
open(p,'w').write(s[:i]+n+s[i+len(o):])
