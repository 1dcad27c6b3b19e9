import glob,collections,sys
W=2304
tab=[l.rstrip('\n').split('\t') for l in open(sys.argv[1])]
maps={f[-3:]:open(f,'rb').read() for f in glob.glob(sys.argv[2]+'/C*')}
byvar=collections.OrderedDict()
for i,loc,fn,expr in tab:
    i=int(i); u=bytearray(W)
    for m in maps.values():
        s=m[i*W:(i+1)*W]
        for k in range(W):
            if s[k]: u[k]=1
    byvar.setdefault((loc.split(':')[0],fn,expr),[]).append((loc,u))
B=[0,1,2,3,4,7,8,15,16,31,32,33,63,64,65,100,127,128,129,200,254,255,256,257,300,511,512,513,1000,1023,1024,1025,2000]
def seen(u,v):
    if v<2048: return u[v]
    k=v.bit_length()-1
    if v==1<<k:j=0
    elif v==(1<<(k+1))-1:j=1
    elif v==(1<<k)+1:j=2
    else:j=3
    return u[2048+4*k+j]
for (f,fn,e),l in byvar.items():
    u=bytearray(W)
    for _,x in l:
        for k in range(W): u[k]|=x[k]
    small=[v for v in range(2048) if u[v]]
    bl=sorted({(k-2048)//4 for k in range(2048,2303) if u[k]})
    miss=[v for v in B if not u[v]]
    big=[v for k in range(11,32) for v in (2**k-1,2**k,2**k+1) if v>2048 and not seen(u,v)]
    print(f,fn,e,'n=%d'%len(small),'small max',max(small) if small else None,'missing',miss if len(small)>40 else 'few:'+str(small[:40]),'| bits',(bl[0],bl[-1]) if bl else None,'neg' if u[2303] else '', 'bigmiss 2^k:',[k for k in range(11,32) if not any(seen(u,v) for v in (2**k-1,2**k,2**k+1))] if bl else '')
