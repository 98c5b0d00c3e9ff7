import re,collections,sys
c=collections.Counter()
full='-v' in sys.argv
for l in open('/tmp/explore.out'):
    m=re.match(r'\s+FAIL:(.*?)\s+(\d+)\s*$',l)
    if m:
        k=m[1]
        if not full:
            q=re.match(r'(\S+?)/(\w+):(\S+)$',k)
            if q: k='%s %s'%(q[2],q[3])
        c[k]+=int(m[2])
for k,v in sorted(c.items(),key=lambda x:-x[1])[:60]: print(v,k)
