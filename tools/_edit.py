import sys
def sub(p, *pairs):
    s=open(p).read()
    for a,b in pairs:
        assert s.count(a)==1, (p, s.count(a), a)
        s=s.replace(a,b)
    open(p,'w').write(s)
