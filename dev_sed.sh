#!/bin/bash
# dev_sed.sh <name> <file> <python-expr old> <new> prop... : developer tool; builds a patch replacing text, then dev_mut
n=$1 f=$2 o=$3 w=$4; shift 4
python3 - "$n" "$f" "$o" "$w" <<'P'
import sys,difflib
n,f,o,w=sys.argv[1:]
a=open('/repo/'+f).read()
o=o.encode().decode('unicode_escape'); w=w.encode().decode('unicode_escape')
assert a.count(o)>=1,('not found',o)
b=a.replace(o,w) if n.endswith('+') else a.replace(o,w,1)
open(f'/tmp/{n}.diff','w').write(''.join(difflib.unified_diff(a.splitlines(1),b.splitlines(1),'a/'+f,'b/'+f)))
P
bash /verif/dev_mut.sh /tmp/$n.diff "$@"
