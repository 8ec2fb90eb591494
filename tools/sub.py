import sys
p=sys.argv[1]; s=open(p).read()
pairs=sys.argv[2:]
for a,b in zip(pairs[::2],pairs[1::2]):
    assert s.count(a)==1,(s.count(a),a)
    s=s.replace(a,b)
open(p,'w').write(s)
