#!/bin/bash
# streams made by the system's zlib, with their content, for the C08 monitor
cd /verif && mkdir -p build/c08 && python3 - "$1" "${VERIF_SEED:-1}" <<'P'
import sys,zlib,random,os,glob
tier,seed=sys.argv[1],int(sys.argv[2])
for f in glob.glob('build/c08/*'): os.remove(f)
r=random.Random(seed)
words=[bytes(r.choice(b'abcdefghijklmnop') for _ in range(r.randint(2,9))) for _ in range(60)]
def content(kind,n):
    if kind==0: return b' '.join(r.choice(words) for _ in range(n//6+1))[:n]
    if kind==1: return bytes(r.getrandbits(8) for _ in range(n))
    if kind==2: return bytes([r.getrandbits(8)])*n
    return bytes((i*i>>3)&255 for i in range(n))
k=0
for rep in range(1 if tier=='quick' else 6):
  for level in range(10):
    for strat in (0,1,2,3,4):
      for kind in range(4):
        n=r.choice([0,1,50,700,3000,3000,9000])
        if r.random()<.03: n=40000
        c=zlib.compressobj(level,zlib.DEFLATED,-r.choice([9,12,15]),r.choice([1,8,9]),strat)
        raw=content(kind,n); d=b''
        i=0
        while i<len(raw):
            j=i+r.choice([100,1000,100000]); d+=c.compress(raw[i:j]); i=j
            if r.random()<.2: d+=c.flush(r.choice([zlib.Z_SYNC_FLUSH,zlib.Z_FULL_FLUSH]))
        d+=c.flush()
        open(f'build/c08/{k:05}-l{level}s{strat}k{kind}.deflate','wb').write(d)
        open(f'build/c08/{k:05}-l{level}s{strat}k{kind}.raw','wb').write(raw)
        k+=1
P
