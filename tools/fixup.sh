#!/bin/bash
# fixup.sh "subject fragment": folds /repo's working edit into that earlier fix commit and updates the recorded hashes
set -e
cd /repo; . /opt/vp/env.sh
t=$(git log --format='%h %s' | grep -F -- "$1" | head -1 | cut -d' ' -f1); [ -n "$t" ]
git log --format='%h|%s' > /tmp/old.log
git commit -qa --fixup=$t
GIT_SEQUENCE_EDITOR=: git rebase -q -i --autosquash $t~1
git log --format='%h|%s' > /tmp/new.log
python3 - <<'P'
o=dict(reversed(l.rstrip('\n').split('|',1)) for l in open('/tmp/old.log'))
n=dict(reversed(l.rstrip('\n').split('|',1)) for l in open('/tmp/new.log'))
p='/verif/KNOWN_FINDINGS.txt'; s=open(p).read()
for k,h in o.items():
    if k in n: s=s.replace(' '+h+' ',' '+n[k]+' ')
open(p,'w').write(s)
P
rm -f /tmp/old.log /tmp/new.log
