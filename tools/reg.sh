#!/bin/bash
# reg.sh ID "technique" "note": registers a check and regenerates the manifest
cd /verif
python3 - "$1" "$2" "$3" <<'P'
import sys,re
i,t,n=sys.argv[1:4]
p='tools/manifest_notes.py'
s=open(p).read()
s=s.replace('\n}\nNOTE','\n "%s": %r,\n}\nNOTE'%(i,t),1)
s=s.replace('\n}\nNA','\n "%s": %r + EXP,\n}\nNA'%(i,n),1)
open(p,'w').write(s)
P
python3 tools/mkfixed.py; python3 tools/mkmanifest.py; git add -A; git commit -qm "$1"
