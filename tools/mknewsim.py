import json
T=dict(tier="thorough",budget_s=1200)
def h(fn,params,bounds,expect=("end",),**kw):
    d=dict(fn=fn,pkg="newsim",ideal=["sip"],ufmul=True,floats="step",step_hi=1,params=dict(params),bounds=bounds,expect=list(expect)); d.update(kw); return d
A=["transaction hashes behave ideally: any values, no collisions among the transactions considered or among XORs of them"]
out="longer histories than the bounds; hash collisions"
reg={
"N01":dict(harnesses=[
 h("VerifShards",dict(shards=s,n=2,seed=0,acks=1),"%d shards in any order, any randomizer, 2 transactions with any hashes, one arriving at any time in a cycle"%s,("end","both")) for s in (1,2,3)
]+[h("VerifShards",dict(shards=64,n=1,seed=1,acks=2),"64 shards in one order, 1 transaction with any hash",("end","both")),
   h("VerifShards",dict(shards=7,n=2,seed=1,acks=4),"7 shards in one order, 2 transactions",("end","both"))],
 assumptions=A,outside=out),
"N02":dict(harnesses=[
 h("VerifLink",dict(n=3,k=8,shards=1,overhead=10,seed=1,cws=4),"3 transactions arriving at either end or both, 8 steps (arrivals, deliveries) in any order, blocks of up to 4 codewords, every mapping",("end","complete","exchange","late"),step_hi=4),
 h("VerifLink",dict(n=2,k=12,shards=1,overhead=10,seed=1,cws=4),"2 transactions, 12 steps",("end","complete","exchange","late"),step_hi=4),
 h("VerifLink",dict(n=2,k=8,shards=2,overhead=10,seed=1,cws=3),"2 shards, 2 transactions, 8 steps",("end","complete","late"),step_hi=3),
 h("VerifRun",dict(n=8,rounds=12,shards=1,overhead=50,seed=1,mixes=3,cws=60),"8 transactions with given hashes and any contents, 12 rounds, two arriving at any time",("end","complete","exchange"),ideal=[]),
 h("VerifRun",dict(n=8,rounds=12,shards=3,overhead=20,seed=2,mixes=3,cws=60),"the same with 3 shards",("end","complete"),ideal=[]),
 h("VerifLink",dict(n=3,k=10,shards=1,overhead=10,seed=1,cws=4),"3 transactions, 10 steps",("end","complete","exchange","late"),step_hi=4,**T),
 h("VerifLink",dict(n=2,k=10,shards=2,overhead=10,seed=1,cws=3),"2 shards, 10 steps",("end","complete","late"),step_hi=3,**T),
 h("VerifRun",dict(n=16,rounds=24,shards=1,overhead=50,seed=3,mixes=3,cws=120),"16 transactions, 24 rounds",("end","complete","exchange"),ideal=[],**T),
],assumptions=A,outside=out),
"N03":dict(harnesses=[
 h("VerifLink",dict(n=2,k=10,shards=1,overhead=150,seed=1,cws=4),"2 transactions, 10 steps, overhead 1.5",("end","window","late"),step_hi=4),
 h("VerifLink",dict(n=2,k=12,shards=1,overhead=60,seed=1,cws=4),"2 transactions, 12 steps, overhead 0.6",("end","window","late"),step_hi=4),
 h("VerifRun",dict(n=8,rounds=14,shards=1,overhead=30,seed=1,mixes=3,cws=60),"8 transactions with given hashes, 14 rounds",("end","window"),ideal=[]),
 h("VerifRun",dict(n=8,rounds=12,shards=2,overhead=150,seed=2,mixes=3,cws=60),"2 shards, overhead 1.5",("end","window"),ideal=[]),
 h("VerifLink",dict(n=3,k=10,shards=1,overhead=60,seed=1,cws=4),"3 transactions, 10 steps, overhead 0.6",("end","window","late"),step_hi=4,**T),
 h("VerifRun",dict(n=16,rounds=24,shards=1,overhead=30,seed=3,mixes=3,cws=120),"16 transactions, 24 rounds",("end","window"),ideal=[],**T),
],assumptions=A,outside=out),
"N04":dict(harnesses=[
 h("VerifServer",dict(peers=2,n=2,k=3),"a server with 2 neighbours, 3 messages: local bursts of up to 2, broadcasts, link messages that complete up to 2 of 2 transactions, in any order and repeated; links send any messages",("end","local","duplicate","decoded")),
 h("VerifServer",dict(peers=1,n=2,k=3),"the same with 1 neighbour",("end","local","duplicate","decoded")),
 h("VerifSizes",dict(k=2),"2 messages of any kind, acknowledgements with up to 5 transactions, transaction sizes from 1 byte to 16 MB",("end",)),
 h("VerifBatch",dict(n=24),"a message that completes up to 24 transactions, any one of which was known, and the same message again",("end",)),
 h("VerifNetwork",dict(topology=2,coding=0,flood=1,n=2,k=5,drain=40,sym=1),"3 servers in a ring, pull links, 2 transactions, 5 steps in any order, then everything delivered; with or without flooding",("end","all")),
 h("VerifNetwork",dict(topology=1,coding=1,flood=1,n=2,k=5,drain=40,sym=1),"3 servers in a line, coding links, given hashes",("end","all"),ideal=[]),
 h("VerifNetwork",dict(topology=2,coding=1,flood=1,n=2,k=5,drain=40,sym=1),"3 servers in a ring, coding links, given hashes",("end","all"),ideal=[]),
 h("VerifServer",dict(peers=3,n=2,k=3),"3 neighbours",("end","local","duplicate","decoded"),**T),
 h("VerifNetwork",dict(topology=2,coding=0,flood=1,n=3,k=6,drain=60,sym=1),"ring, pull links, 3 transactions, 6 steps",("end","all"),**T),
 h("VerifNetwork",dict(topology=2,coding=1,flood=1,n=3,k=6,drain=60,sym=1),"ring, coding links, given hashes, 3 transactions, 6 steps",("end","all"),ideal=[],**T),
 h("VerifNetwork",dict(topology=3,coding=1,flood=1,n=3,k=6,drain=60,sym=1),"4 servers in a star, coding links, given hashes, 3 transactions, 6 steps",("end","all"),ideal=[],**T),
],assumptions=A,outside=out),
"N05":dict(harnesses=[
 h("VerifPull",dict(n=2,k=4),"one end, 2 transactions, 4 operations: local transactions, announcements, requests, responses, sending",("end","request","response")),
 h("VerifPullMany",dict(n=20,rounds=3),"one end, 20 transactions, 60 operations in fixed mixes except for one transaction, which undergoes any; sent one by one, in groups or all at once",("end","request","response")),
 h("VerifPullMany",dict(n=60,rounds=4),"one end, 60 transactions, 240 operations",("end","request","response"),**T),
 h("VerifNetwork",dict(topology=2,coding=0,flood=0,n=2,k=6,drain=40,sym=1),"3 servers in a ring, 2 transactions, 6 steps in any order, then everything delivered",("end","all")),
 h("VerifNetwork",dict(topology=3,coding=0,flood=0,n=2,k=5,drain=40,sym=1),"4 servers in a star, 2 transactions, 5 steps",("end","all")),
 h("VerifPull",dict(n=2,k=5),"one end, 5 operations",("end","request","response"),**T),
 h("VerifPull",dict(n=3,k=5),"3 transactions, 5 operations",("end","request","response"),**T),
 h("VerifNetwork",dict(topology=2,coding=0,flood=0,n=3,k=7,drain=60,sym=1),"ring, 3 transactions, 7 steps",("end","all"),**T),
 h("VerifNetwork",dict(topology=3,coding=0,flood=0,n=3,k=7,drain=60,sym=1),"star, 3 transactions, 7 steps",("end","all"),**T),
],assumptions=A,outside=out),
}
json.dump(reg,open('/verif/harness/props/newsim.json','w'),indent=1)
