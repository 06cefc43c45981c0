import sys,re,collections
c=collections.OrderedDict()
for l in sys.stdin:
    m=re.match(r'(\d+) (C\d+): (.*)',l)
    if not m: print(l.rstrip()[:600]); continue
    k=m.group(2)+": "+re.sub(r'\d+','#',m.group(3))[:200]
    k=re.sub(r'(#:#-# ?)+','#:#-#.. ',k)
    c.setdefault(k,[]).append((m.group(1),m.group(3)))
for k,v in sorted(c.items(),key=lambda x:-len(x[1])): print(len(v),v[0][0],k[:5],v[0][1][:int(sys.argv[1]) if len(sys.argv)>1 else 260])
