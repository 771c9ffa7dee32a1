import json
T=dict(tier="thorough",budget_s=1200)
def h(fn,params,bounds,expect=("end",),**kw):
    d=dict(fn=fn,pkg="ldpc",ideal=["siphash"],params=dict(params),bounds=bounds,expect=list(expect)); d.update(kw); return d
A=["the content hash (BLAKE2b) and the salted hash (SipHash truncated to 32 bits) have no collisions among the transactions considered"]
POOL=["sync.Pool hands back the object put last, or (harnesses with pool_any) any object put earlier or a new one"]
out="longer histories than the bounds; hash collisions"
reg={
"P01":dict(harnesses=[
 h("VerifSerialize",{},"all bytes of inputs of 0, 1, 8, 127, 128, 129 and 256 bytes, into a fresh or a used transaction",("accepted","refused")),
 h("VerifIdentity",{},"all pairs of 128-byte contents",("same","different")),
 h("VerifXOR",{},"all pairs of 128-byte data"),
],assumptions=A+["little-endian 64-bit machine"],outside="input lengths other than those listed; hash collisions"),
"P02":dict(harnesses=[
 h("VerifProduce",dict(nmin=0,n=4,k=1,ends=3),"windows of 0 to 4 transactions, one codeword of any degree, any random choices",("end","sampled"),floats="ival"),
 h("VerifProduce",dict(nmin=5,n=6,k=1,ends=2),"windows of 5 and 6 transactions, one codeword of any degree, any random choices",("end","sampled"),floats="ival"),
 h("VerifProduce",dict(nmin=4,n=4,k=2,ends=2),"windows of 4 transactions, two codewords in a row",("end","sampled"),floats="ival"),
 h("VerifWindow",dict(k=5,ws=2,resets=1,ends=1),"5 operations: add any transaction (any contents equal), add an earlier one again, reset; window size up to 2",("end","accepted","refused","reset"),floats="ival"),
 h("VerifWindowWide",dict(n=9,k=30,seeds=1,ends=1),"30 operations on a window of 9 with one arbitrary addition or reset, and a codeword that leaves out at most one",("end",),floats="ival"),
 h("VerifWindowWide",dict(n=20,k=70,seeds=2,ends=1),"70 operations on a window of 20 with one arbitrary addition or reset",("end",),floats="ival",**T),
 h("VerifProduce",dict(nmin=7,n=8,k=1,ends=2),"windows of 7 and 8 transactions",("end","sampled"),floats="ival",**T),
 h("VerifWindow",dict(k=6,ws=3,resets=1,ends=1),"6 operations, window size up to 3",("end",),floats="ival",**T),
],assumptions=A+POOL+["math.Log and math.Exp are monotone"],outside=out+"; windows of size 0"),
"P03":dict(harnesses=[
 h("VerifDecode",dict(n=3,k=4,memory=0),"3 transactions, 4 operations: any transaction, a codeword over any members, release of any codeword",("end","decoded","expired")),
 h("VerifDecode",dict(n=2,k=5,memory=0,pool_any=1),"2 transactions, 5 operations, any reuse of recycled objects",("end","decoded","expired")),
 h("VerifDecode",dict(n=3,k=4,memory=-1),"3 transactions, 4 operations, no memory",("end","decoded","expired")),
 h("VerifDecode",dict(n=3,k=4,memory=1),"3 transactions, 4 operations, memory 1",("end","decoded","expired")),
 h("VerifWide",dict(n=8,k=16,memory=1000,seeds=2),"8 transactions, 16 operations with one arbitrary codeword",("end","decoded")),
 h("VerifWide",dict(n=6,k=16,memory=3,seeds=4),"6 transactions, 16 operations with one arbitrary codeword, memory 3",("end","decoded")),
 h("VerifDecode",dict(n=3,k=5,memory=0),"3 transactions, 5 operations",("end","decoded","expired"),budget_s=120),
 h("VerifDecode",dict(n=3,k=5,memory=2,pool_any=1),"3 transactions, 5 operations, memory 2, any reuse",("end","decoded","expired"),**T),
 h("VerifWide",dict(n=16,k=50,memory=6,seeds=6),"16 transactions, 50 operations, memory 6",("end","decoded"),**T),
],assumptions=A+POOL+["a released codeword is not used again by its owner"],outside=out),
"P04":dict(harnesses=[
 h("VerifHostile",dict(n=2,k=3,members=2,memory=-1,free=0),"2 transactions, 3 operations: codewords with any content and up to 2 members, genuine codewords, transactions",("end","hostile","decoded")),
 h("VerifHostile",dict(n=2,k=3,members=3,memory=1,free=1),"up to 3 members, memory 1, codewords released or not",("end","hostile","decoded")),
 h("VerifHostileFree",dict(n=3,k=4),"3 transactions, 4 operations: codewords with any content and any two members, released or not, genuine codewords with up to two members, transactions",("end","hostile","decoded")),
 h("VerifHostileFree",dict(n=4,k=4),"4 transactions",("end","hostile","decoded"),**T),
 h("VerifIsolated",dict(n=2,h=2,k=3,members=2),"2 genuine and 2 hostile transactions, 3 operations",("end","hostile","decoded")),
 h("VerifHostile",dict(n=3,k=3,members=3,memory=-1,free=0),"3 transactions, up to 3 members",("end","hostile","decoded"),**T),
 h("VerifHostile",dict(n=2,k=4,members=2,memory=1,free=1),"4 operations",("end","hostile","decoded"),**T),
 h("VerifIsolated",dict(n=2,h=2,k=4,members=2),"4 operations",("end","hostile","decoded"),**T),
],assumptions=A+POOL,outside=out+"; transactions with any content other than in their first and last 8 bytes"),
}
json.dump(reg,open('/verif/harness/props/ldpc.json','w'),indent=1)
