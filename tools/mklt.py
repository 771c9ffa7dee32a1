import json
A=["salted hashes behave ideally: different identities have different salted hashes (32 bits), except in VerifConflict"]
T=dict(tier="thorough",budget_s=1200)
def hs(fn,params,bounds,expect=("end",),**kw):
    out=[]
    for pkg in ("lt","iblt"):
        d=dict(fn=fn,pkg=pkg,ideal=["siphash"],params=dict(params),bounds=bounds,expect=list(expect)); d.update(kw); out.append(d)
    return out
out_="longer histories than the bounds; salted-hash collisions between different identities"
def conflict(k,m,b,**kw):
    return [dict(x,ideal=[]) for x in hs("VerifConflict",dict(k=k,memory=m),b,("end","conflict","learned"),**kw)]
wide=lambda bad,b,**kw: hs("VerifWide",dict(n=8,k=12,memory=4 if not bad else 1000,seeds=2,bad=bad),b,**kw)
reg={
"L01":dict(harnesses=
 hs("VerifWindow",dict(k=5,ws=3,resets=1),"5 operations: add any transaction (any identities equal), add an earlier one again, reset; window size up to 3",("end","accepted","refused","accepted again","after reset"))+
 hs("VerifWindowPtr",dict(k=4,ws=2,resets=1),"4 operations by reference, window size up to 2",("end","accepted","refused","accepted again","after reset"))+
 hs("VerifWindowWide",dict(n=30,ws=10,every=1),"a window of 10, 30 transactions in a row, with any earlier one again or a reset at any point",("end","accepted","refused"))+
 hs("VerifWindowWide",dict(n=60,ws=25,every=6),"a window of 25, 60 transactions in a row, with one out of every 6 again or a reset, at one out of every 6 points",("end","accepted","refused"))+
 hs("VerifWindowWide",dict(n=60,ws=20,every=1),"a window of 20, 60 transactions",("end","accepted","refused"),**T)+
 hs("VerifWindow",dict(k=7,ws=4,resets=1),"7 operations, window size up to 4",("end",),**T),
 assumptions=A,outside=out_+"; windows of size 0"),
"L02":dict(harnesses=
 hs("VerifCodeword",dict(n=4,k=1,ws=4),"windows of up to 4 transactions, one codeword of any degree, all random choices",("end",))+
 hs("VerifCodeword",dict(n=4,k=2,ws=4),"windows of up to 4 transactions, two codewords in a row",("end",))+
 hs("VerifCodeword",dict(n=5,k=1,ws=3),"up to 5 transactions through a window of 3",("end",))+
 hs("VerifCodewordPtr",dict(n=3,k=2,ws=3),"by reference",("end",))+
 hs("VerifCodewordWide",dict(n=12),"a window of 12, any degree, any outcome of any one of the random choices")+
 hs("VerifCodewordWide",dict(n=24),"a window of 24",**T)+
 hs("VerifSelect",dict(n=4),"every selection from a window of 4 is reachable",(),must=["sel%d"%i for i in range(1,16)])+
 hs("VerifSelectWide",dict(n=40),"every transaction of a window of 40 can be selected",(),must=["tx%02d"%i for i in range(40)])+
 hs("VerifCodeword",dict(n=5,k=1,ws=5),"windows of up to 5 transactions",("end",),**T)+
 hs("VerifCodeword",dict(n=4,k=3,ws=3),"up to 4 transactions through a window of 3, three codewords",("end",),**T),
 assumptions=A+["the random source may return anything"],outside=out_+"; degrees drawn as 0 (refused by design); random draws beyond the first rejection round of math/rand"),
"L03":dict(harnesses=
 hs("VerifGenuine",dict(n=4,k=4,bad=0),"4 transactions, 4 operations: any transaction or a codeword over any members in either order",("end","decoded"))+
 hs("VerifGenuinePtr",dict(n=3,k=4,bad=0),"by reference, 3 transactions, 4 operations",("end","decoded"))+
 hs("VerifGenuineMem",dict(n=2,k=4,bad=0,memlo=1,memhi=2),"2 transactions, 4 operations, memory of 1 or 2",("end","decoded"))+
 hs("VerifCodec",dict(n=3,k=2),"2 codewords of the real encoder over 3 transactions, any degrees and random choices",("end","decoded"))+
 wide(0,"8 transactions, 12 operations, one codeword over any members near each other",expect=("end","decoded"))+
 hs("VerifGenuine",dict(n=3,k=5,bad=0),"3 transactions, 5 operations",("end","decoded"))+
 hs("VerifGenuine",dict(n=4,k=5,bad=0),"4 transactions, 5 operations",("end","decoded"),**T)+
 hs("VerifWide",dict(n=16,k=40,memory=8,seeds=8,bad=0),"16 transactions, 40 operations, memory 8",("end","decoded"),**T)+
 hs("VerifGenuinePtr",dict(n=3,k=5,bad=0),"by reference, 5 operations",("end","decoded"),**T),
 assumptions=A,outside=out_),
"L04":dict(harnesses=
 hs("VerifComplete",dict(n=4,k=4,bad=0),"4 transactions, 4 operations: any transaction or a codeword over any members in either order",("end","decoded"))+
 hs("VerifCompletePtr",dict(n=3,k=4,bad=0),"by reference, 3 transactions, 4 operations",("end","decoded"))+
 wide(0,"8 transactions, 12 operations, one codeword over any members near each other",expect=("end","decoded"))+
 hs("VerifComplete",dict(n=3,k=5,bad=0),"3 transactions, 5 operations",("end","decoded"))+
 hs("VerifComplete",dict(n=4,k=5,bad=0),"4 transactions, 5 operations",("end","decoded"),**T)+
 hs("VerifWide",dict(n=16,k=40,memory=1000,seeds=8,bad=0),"16 transactions, 40 operations",("end","decoded"),**T),
 assumptions=A,outside=out_),
"L05":dict(harnesses=
 hs("VerifMemory",dict(n=3,k=4,bad=0,memlo=0,memhi=2),"3 transactions, 4 operations, memory 0 to 2",("end","decoded"))+
 hs("VerifMemoryPtr",dict(n=3,k=4,bad=0,memlo=1,memhi=2),"by reference, 4 operations",("end","decoded"))+
 wide(0,"8 transactions, 12 operations, memory 4",expect=("end","decoded"))+
 conflict(4,2,"two transactions with the same salted hash among 4, 4 operations, memory 0 to 2")+
 conflict(6,3,"two transactions with the same salted hash among 4, 6 operations, memory 0 to 3",**T)+
 hs("VerifMemory",dict(n=3,k=5,bad=0,memlo=0,memhi=2),"3 transactions, 5 operations, memory 0 to 2",("end","decoded"),**T)+
 hs("VerifWide",dict(n=16,k=40,memory=5,seeds=8,bad=0),"16 transactions, 40 operations, memory 5",("end","decoded"),**T)+
 hs("VerifMemory",dict(n=4,k=4,bad=1,memlo=1,memhi=3),"4 transactions, 4 operations, one corrupt codeword, memory 1 to 3",("end","decoded"),**T),
 assumptions=A,outside=out_),
"L06":dict(harnesses=
 hs("VerifCorrupt",dict(n=3,k=3),"3 transactions, 3 operations: transactions, genuine codewords and codewords with any wrong content, a member possibly named twice",("end","corrupt","decoded"))+
 hs("VerifComplete",dict(n=3,k=4,bad=1),"4 operations with up to one corrupt codeword",("end","corrupt","decoded"))+
 hs("VerifCorruptPtr",dict(n=3,k=3),"by reference",("end","corrupt","decoded"))+
 wide(1,"8 transactions, 12 operations with one corrupt codeword anywhere",expect=("end","decoded"))+
 hs("VerifCorrupt",dict(n=3,k=4),"3 transactions, 4 operations",("end","corrupt","decoded"),**T),
 assumptions=A+["content that does not match the members differs from them in the hashed part"],outside=out_),
}
json.dump(reg,open('/verif/harness/props/lt.json','w'),indent=1)
