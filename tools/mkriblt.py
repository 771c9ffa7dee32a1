import json
C=dict(pkg="riblt",ideal=["sym"],ufmul=True,floats="step")
def h(fn,k,params,bounds,expect=("end",),**kw):
    d=dict(fn=fn,**C); d["step_hi"]=k; d["params"]={"k":k,**params}; d["bounds"]=bounds; d["expect"]=list(expect); d.update(kw); return d
T=dict(tier="thorough",budget_s=1200)
de=("done","end","stuck")
A=["symbol hashes behave ideally: different contents have different hashes and XORs of hashes collide only when they are combinations of the same symbols",
   "the index generator is any function that assigns every symbol hash an increasing sequence of indices (R04 decides that the real one is)"]
out="larger sets and longer streams than the bounds; hash collisions; symbols added after the first coded symbol"
reg={
"R01":dict(harnesses=[
 h("VerifReconcile",4,dict(n=3,sorted=0,patterns=0),"3 symbols in any split over the two sets, 4 coded symbols, every mapping, attempts at any time",de),
 h("VerifReconcilePtr",4,dict(n=4,sorted=1,patterns=2),"4 symbols by reference, 4 coded symbols, every mapping, attempts always or only at the end",de),
 h("VerifReconcile",6,dict(n=2,sorted=0,patterns=0),"2 symbols, 6 coded symbols",("done","end")),
 h("VerifReconcile",5,dict(n=4,sorted=1,patterns=4),"4 symbols, 5 coded symbols",de,**T),
 h("VerifReconcilePtr",4,dict(n=5,sorted=1,patterns=2),"5 symbols by reference, 4 coded symbols",de,**T),
],assumptions=A,outside=out),
"R02":dict(harnesses=[
 h("VerifPeel",4,dict(n=3,sorted=0,patterns=0),"3 symbols in any split, 4 coded symbols, every mapping, attempts at any time, two attempts at the end",de),
 h("VerifPeelPtr",4,dict(n=4,sorted=1,patterns=2),"4 symbols by reference, 4 coded symbols, every mapping, attempts always or only at the end",de),
 h("VerifPeel",5,dict(n=4,sorted=1,patterns=4),"4 symbols, 5 coded symbols",de,**T),
 h("VerifPeelPtr",4,dict(n=5,sorted=1,patterns=2),"5 symbols by reference, 4 coded symbols",de,**T),
],assumptions=A,outside=out),
"R03":dict(harnesses=[
 h("VerifStream",4,dict(n=3),"3 symbols in every insertion order, raw, hashed or mixed, every mapping, first 4 coded symbols and a sketch of 4"),
 h("VerifStreamPtr",5,dict(n=3),"3 symbols by reference, 5 coded symbols"),
 h("VerifStream",4,dict(n=4),"4 symbols, 4 coded symbols",**T),
 h("VerifStreamPtr",7,dict(n=3),"3 symbols by reference, 7 coded symbols",**T),
],assumptions=A,outside=out),
"R05":dict(harnesses=[
 h("VerifResetEncoder",3,dict(n1=2,n2=2),"up to 2 symbols and 3 coded symbols before the reset, up to 2 symbols and 3 coded symbols after"),
 h("VerifResetEncoderPtr",3,dict(n1=2,n2=2),"same by reference"),
 h("VerifResetDecoder",3,dict(n1=2,n2=2,k1=2,k2=3),"2 symbols, up to 2 coded symbols and any attempts before the reset, 2 symbols and 3 coded symbols after"),
 h("VerifResetDecoderPtr",3,dict(n1=2,n2=2,k1=2,k2=3),"same by reference",**T),
 h("VerifResetDecoder",3,dict(n1=3,n2=2,k1=3,k2=3),"3 symbols and up to 3 coded symbols before",**T),
 h("VerifResetEncoder",4,dict(n1=3,n2=3),"3 symbols, 4 coded symbols",**T),
],assumptions=A,outside=out),
"R06":dict(harnesses=[
 h("VerifSketch",4,dict(n=3),"3 symbols in any split, sketches of 4 cells, every mapping",("done","end")),
 h("VerifSketchPtr",3,dict(n=4),"4 symbols by reference, sketches of 3 cells",("done","end")),
 h("VerifSketchSize",3,dict(),"sizes 0..3"),
 h("VerifSketch",4,dict(n=4),"4 symbols, sketches of 4 cells",("done","end"),**T),
 h("VerifSketchPtr",6,dict(n=3),"3 symbols, sketches of 6 cells",("done","end"),**T),
],assumptions=A,outside=out+"; cells of by-reference symbols that hold a nil sum"),
}
W=lambda **kw: h("VerifWide",kw.pop("hi",5),dict(n=kw.pop("n",12)),"12 symbols with fixed pseudo-random mappings except one with any mapping, any contents, 18 coded symbols",("done","end"),**kw)
for p in ("R01","R02","R03"):
    w=W(); w["params"]=dict(n=12,k=18,seeds=2,zero=0); reg[p]["harnesses"].append(w)
    w=W(**T); w["params"]=dict(n=24,k=40,seeds=6,zero=0); w["step_hi"]=7; w["bounds"]="24 symbols, 40 coded symbols, 6 pseudo-random mappings"; reg[p]["harnesses"].append(w)
for p in ("R01","R02"):
    w=W(); w["params"]=dict(n=4,k=9,seeds=1,zero=1); w["bounds"]="4 symbols, one of which has the hash zero, 9 coded symbols"; w["expect"]=["end"]; reg[p]["harnesses"].append(w)
reg["R05"]["harnesses"]+=[
 h("VerifWideReset",5,dict(n=9,k=14,seeds=1),"up to 18 symbols and 28 coded symbols before the reset, 9 symbols and 14 coded symbols after it, fixed pseudo-random mappings except for one symbol with any mapping",("done","end")),
 h("VerifWideReset",7,dict(n=24,k=40,seeds=4),"up to 48 symbols and 80 coded symbols before the reset, 24 symbols and 40 coded symbols after it",("done","end"),**T)]
reg["R03"]["harnesses"].append(h("VerifWideSketch",4,dict(n=16,z=72,seeds=1),"16 symbols, sketches of 72 cells",("done","end")))
reg["R06"]["harnesses"]+=[
 h("VerifWideSketch",4,dict(n=16,z=72,seeds=1),"16 symbols with fixed pseudo-random mappings except one with any mapping, any contents, sketches of 72 cells",("done","end")),
 h("VerifWideSketch",6,dict(n=60,z=160,seeds=4),"60 symbols, sketches of 160 cells",("done","end"),**T)]
Q=[h("VerifQueue",5,dict(n=5,k=12,starts=5),"coding windows of 5 symbols, each starting at any of the next 5 indices, 12 coded symbols",("end",)),
 h("VerifQueue",5,dict(n=8,k=14,starts=3),"coding windows of 8 symbols, each starting at any of the next 3 indices, 14 coded symbols",("end",))]
for p in ("R01","R02"): reg[p]["harnesses"]+=Q
reg.update(json.load(open('/verif/tools/r04.json')))
json.dump(reg,open('/verif/harness/props/riblt.json','w'),indent=1)
