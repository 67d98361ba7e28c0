#!/usr/bin/env python3
"""Writes harness/vectors.json: vectors that anchor the Rust reference model to implementations
that are neither it nor the crate under test (CPython's hashlib.blake2s and the official KATs)."""
import hashlib, json, os, random, struct
R = random.Random(20240607)
IV=[0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19]
S=[[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],[11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],[7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],[9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],[12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],[6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]]
M=0xffffffff
def comp(h,m,t,f0,f1):
    v=h+IV[:]; v[12]^=t&M; v[13]^=t>>32; v[14]^=f0; v[15]^=f1
    m=struct.unpack('<16I',m)
    r=lambda x,n:((x>>n)|(x<<(32-n)))&M
    def g(a,b,c,d,x,y):
        v[a]=(v[a]+v[b]+x)&M; v[d]=r(v[d]^v[a],16); v[c]=(v[c]+v[d])&M; v[b]=r(v[b]^v[c],12)
        v[a]=(v[a]+v[b]+y)&M; v[d]=r(v[d]^v[a],8); v[c]=(v[c]+v[d])&M; v[b]=r(v[b]^v[c],7)
    for s in S:
        for k,(a,b,c,d) in enumerate([(0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14)]): g(a,b,c,d,m[s[2*k]],m[s[2*k+1]])
    return [h[i]^v[i]^v[i+8] for i in range(8)]
def data(n): return bytes(((i*167) ^ (i>>8)*13 ^ (i>>3)) & 0xff for i in range(n))
def sp(n,key,dl):
    d=data(n)
    # hashlib's digest_size is both parameter and output length, so a leaf (parameter dl, output 32)
    # can only be built from hashlib when dl == 32.
    assert dl==32
    ls=[hashlib.blake2s(key=key,digest_size=32,fanout=8,depth=2,node_offset=i,inner_size=32,last_node=i==7) for i in range(8)]
    for i in range(0,len(d),64): ls[(i//64)%8].update(d[i:i+64])
    cat=b''.join(l.digest() for l in ls)
    h=IV[:]; h[0]^=dl|(len(key)<<8)|(8<<16)|(2<<24); h[3]^=(1<<16)|(32<<24)
    for i in range(4): h=comp(h,cat[i*64:i*64+64],64*(i+1),M if i==3 else 0,M if i==3 else 0)
    return struct.pack('<8I',*h)[:dl].hex()
out={"s":[],"sp":[],"sp_kat":[]}
for k in range(400):
    n=R.choice([0,1,63,64,65,127,128,129,R.randrange(0,300),R.randrange(0,5000)])
    kw=dict(digest_size=R.randrange(1,33),key=R.randbytes(R.choice([0,0,1,31,32,R.randrange(0,33)])),
      salt=R.randbytes(R.randrange(0,9)),person=R.randbytes(R.randrange(0,9)),fanout=R.choice([0,1,2,255,R.randrange(256)]),
      depth=R.choice([1,2,255,R.randrange(1,256)]),leaf_size=R.choice([0,1,2**32-1,R.getrandbits(32)]),
      node_offset=R.choice([0,1,2**32,2**48-1,R.getrandbits(48)]),node_depth=R.randrange(256),inner_size=R.randrange(0,33),last_node=R.random()<.5)
    h=hashlib.blake2s(data(n),**kw).hexdigest()
    out["s"].append(dict(n=n,dl=kw["digest_size"],key=kw["key"].hex(),salt=kw["salt"].hex(),person=kw["person"].hex(),fanout=kw["fanout"],depth=kw["depth"],leaf=kw["leaf_size"],off=kw["node_offset"],nd=kw["node_depth"],inner=kw["inner_size"],last=kw["last_node"],out=h))
for k in range(60):
    n=R.choice([0,1,64,512,1023,1024,1025,R.randrange(0,6000)])
    key=R.randbytes(R.choice([0,1,32,R.randrange(33)]))
    out["sp"].append(dict(n=n,key=key.hex(),dl=32,out=sp(n,key,32)))
for c in json.load(open('/repo/tests/blake2-kat.json')):
    if c["hash"]=="blake2sp" and (len(c["in"])//2)%5==0:
        out["sp_kat"].append(dict(n=len(c["in"])//2,key=c["key"],out=c["out"]))
# The digest length 18, key "bar" vector of the crate's own tests came from the designers' C code.
json.dump(out,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","harness","vectors.json"),"w"),separators=(",",":"))
print({k:len(v) for k,v in out.items()})
