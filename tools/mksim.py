import json
T=dict(tier="thorough",budget_s=1200)
def h(fn,params,bounds,expect=("end",),**kw):
    d=dict(fn=fn,pkg="simulator",params=dict(params),bounds=bounds,expect=list(expect)); d.update(kw); return d
reg={
"S01":dict(harnesses=[
 h("VerifSender",dict(k=6,configs=6,seed=1),"6 operations, 6 combinations of threshold and overhead",("end","block","second block","acknowledged","full")),
 h("VerifSenderLong",dict(k=60,configs=5,seed=3,every=2),"60 operations, blocks of up to about 40 transactions, one arbitrary operation at every second place, 5 combinations of threshold and overhead",("end","block","second block","acknowledged")),
 h("VerifSenderLong",dict(k=60,configs=5,seed=4,every=1),"the same with another run and an arbitrary operation anywhere",("end","block","second block","acknowledged"),**T),
 h("VerifSender",dict(k=7,configs=4,seed=2),"7 operations, 4 combinations of threshold and overhead",("end","block","second block","acknowledged","full"),**T),
],assumptions=["the degrees and members of codewords are those drawn from one seed"],outside="longer histories than the bounds; other thresholds and overheads"),
"S02":dict(harnesses=[
 h("VerifReceiver",dict(n=3,k=3,th=2),"2 links, 3 transactions, 3 codewords over any members, thresholds 0 to 2, tolerated losses 0, 1/4, 1/2",("end","acknowledged","tolerated","several")),
 h("VerifReceiverLong",dict(n=12,k=60,seed=5,every=15),"12 transactions, 60 codewords, one arbitrary codeword at every 15th place, thresholds 0, 9, 30, tolerated losses 0, 1/8, 3/8",("end","acknowledged","tolerated")),
 h("VerifReceiverLong",dict(n=20,k=90,seed=6,every=3),"20 transactions, 90 codewords",("end","acknowledged","tolerated"),**T),
 h("VerifReceiver",dict(n=2,k=4,th=1),"2 transactions, 4 codewords, thresholds 0 and 1",("end","acknowledged","tolerated","several"),**T),
 h("VerifReceiver",dict(n=2,k=5,th=1),"2 transactions, 5 codewords, thresholds 0 and 1",("end","acknowledged","tolerated","several"),**T),
],assumptions=[],outside="longer histories than the bounds"),
"S03":dict(harnesses=[
 h("VerifLimiter",dict(bursts=3,size=2,big=0),"3 bursts of up to 2 transactions at any times, any minimum interval",("end","again","idle","busy")),
 h("VerifLimiter",dict(bursts=2,size=1,big=24),"2 bursts of 0 or 24 transactions",("end","again","idle","busy")),
 h("VerifLimiter",dict(bursts=2,size=2,big=100),"2 bursts of up to 100 transactions",("end","again","idle","busy"),**T),
 h("VerifLimiter",dict(bursts=4,size=3,big=0),"4 bursts of up to 3 transactions",("end","again","idle","busy"),**T),
],assumptions=[],outside="times and intervals above 2^50 ns"),
"S04":dict(harnesses=[
 h("VerifBacklog",dict(topology=0,servers=2,n=20),"2 servers, 2 bursts of up to 20 transactions anywhere that wait for a block"),
 h("VerifBacklog",dict(topology=3,servers=4,n=40),"4 servers in a star, 2 bursts of up to 40 transactions",**T),
 h("VerifNetwork",dict(topology=0,n=3,k=8,th=1,sync=0,seed=1,drain=60,sym=0),"2 servers, 3 transactions, 8 steps in any order, then everything delivered",("end","all","decoded")),
 h("VerifNetwork",dict(topology=0,n=4,k=6,th=2,sync=0,seed=1,drain=60,sym=0),"2 servers, blocks of at least 2 transactions, 4 transactions, 6 steps",("end","all","decoded")),
 h("VerifNetwork",dict(topology=2,n=3,k=6,th=1,sync=0,seed=1,drain=60,sym=0),"3 servers in a ring, 3 transactions, 6 steps",("end","all","decoded")),
 h("VerifNetwork",dict(topology=1,n=3,k=4,th=1,sync=5,seed=2,drain=60,sym=0),"3 servers in a line, synchronized blocks, 3 transactions, 4 steps",("end","all","decoded")),
 h("VerifNetwork",dict(topology=0,n=2,k=5,th=1,sync=0,seed=1,drain=60,sym=1),"2 servers, 2 transactions, 5 steps at any times",("end","all","decoded")),
 h("VerifNetwork",dict(topology=2,n=2,k=4,th=1,sync=0,seed=1,drain=60,sym=1),"3 servers in a ring, 2 transactions, 4 steps at any times",("end","all","decoded")),
 h("VerifNetwork",dict(topology=0,n=3,k=6,th=1,sync=0,seed=1,drain=60,sym=1),"2 servers, 3 transactions, 6 steps at any times",("end","all","decoded"),**T),
 h("VerifNetwork",dict(topology=2,n=2,k=5,th=1,sync=0,seed=1,drain=60,sym=1),"ring, 2 transactions, 5 steps at any times",("end","all","decoded"),**T),
 h("VerifNetwork",dict(topology=0,n=4,k=9,th=1,sync=0,seed=3,drain=60,sym=0),"2 servers, 4 transactions, 9 steps",("end","all","decoded"),**T),
 h("VerifNetwork",dict(topology=3,n=3,k=6,th=1,sync=0,seed=1,drain=60,sym=0),"4 servers in a star, 3 transactions, 6 steps",("end","all","decoded"),**T),
 h("VerifNetwork",dict(topology=1,n=3,k=5,th=1,sync=5,seed=2,drain=60,sym=0),"3 servers in a line, synchronized blocks, 3 transactions, 5 steps",("end","all","decoded"),**T),
],assumptions=[],outside="longer histories than the bounds; decoder memories too small to hold every transaction still under way (the server refuses to go on then, by design)"),
"S05":dict(harnesses=[
 h("VerifOrder",dict(peers=3,k=3),"a server with 3 neighbours, 3 messages of any kind, every order of visiting a hash table",("end","several")),
 dict(h("VerifOrder",dict(peers=3,k=3),"a server with 3 neighbours, pull or coding links, with or without flooding, 3 messages of any kind, every order of visiting a hash table",("end","several")),pkg="newsim"),
 h("VerifOrder",dict(peers=2,k=4),"2 neighbours, 4 messages",("end","several")),
 h("VerifOrder",dict(peers=3,k=4),"3 neighbours, 4 messages",("end","several"),**T),
 dict(h("VerifOrder",dict(peers=3,k=4),"4 messages",("end","several"),**T),pkg="newsim"),
],assumptions=[],outside="longer histories than the bounds; dependence on anything else than hash-table order (the code uses no clock and no global random source)"),
"S06":dict(harnesses=[
 h("VerifTransactions",{},"any three transactions"),
 dict(h("VerifTransactions",{},"any three transactions"),pkg="newsim",ideal=["siphash"]),
 h("VerifGenerated",dict(servers=2,k=3,sym=1),"2 servers, 3 bursts of up to 3 transactions at any times, the generator having produced 0, 2^8-2, 2^16-2, 2^32-2 or 2^53-1 before",("end","several")),
 dict(h("VerifGenerated",dict(servers=2,k=3,sym=1),"the same, with or without flooding",("end","several")),pkg="newsim"),
 h("VerifGenerated",dict(servers=2,k=3,sym=0),"the same at given times",("end","several")),
 dict(h("VerifGenerated",dict(servers=2,k=3,sym=0),"the same at given times",("end","several")),pkg="newsim"),
 h("VerifGenerated",dict(servers=3,k=4,sym=1),"3 servers, 4 bursts",("end","several"),**T),
 dict(h("VerifGenerated",dict(servers=3,k=4,sym=1),"3 servers, 4 bursts",("end","several"),**T),pkg="newsim"),
],assumptions=["newsim: the keyed 64-bit hash behaves ideally (different inputs, different hashes)"],outside="other states of the generator; more bursts"),
"M01":dict(harnesses=[
 h("VerifBlock",dict(k=4,configs=2),"one sender, 4 operations: up to 3 transactions or an acknowledgement, with or without permission to start a block",("end","second block")),
 h("VerifReset",{},"counters of any values"),dict(h("VerifReset",{},"counters of any values"),pkg="newsim"),
 h("VerifMeasure",dict(topology=0,n=2,k=6,th=1,warm=4,sym=0),"2 servers, 2 transactions, 6 steps in any order, warm-up ending after the fourth",("end","latency","overlap","reset","warming up")),
 h("VerifMeasure",dict(topology=0,n=2,k=5,th=1,warm=0,sym=1),"the same, 5 steps, at any times and with any warm-up",("end","latency","overlap","reset","warming up"),floats="uf"),
 dict(h("VerifMeasure",dict(topology=0,n=2,k=6,warm=4,sym=0),"2 servers on a pull or coding link, with or without flooding, 2 transactions, 6 steps in any order, warm-up ending after the fourth",("end","latency","reset","warming up")),pkg="newsim"),
 dict(h("VerifMeasure",dict(topology=0,n=2,k=5,warm=0,sym=1),"the same, 5 steps, at any times and with any warm-up",("end","latency","reset","warming up")),pkg="newsim",floats="uf"),
 dict(h("VerifSamples",dict(peers=2,n=2,k=3,sym=0,warm=1),"a server with 2 neighbours that get anything to it, 2 transactions, 3 messages, warm-up ending after the first",("end","latency","duplicate","warming up")),pkg="newsim"),
 dict(h("VerifSamples",dict(peers=1,n=2,k=3,sym=1,warm=0),"1 neighbour, at any times and with any warm-up",("end","latency","duplicate","warming up")),pkg="newsim",floats="uf"),
 dict(h("VerifSamples",dict(peers=2,n=2,k=4,sym=0,warm=1),"4 messages",("end","latency","duplicate","warming up"),**T),pkg="newsim"),
 h("VerifMeasure",dict(topology=2,n=2,k=6,th=1,warm=4,sym=0),"3 servers in a ring, 6 steps",("end","latency","overlap","reset","warming up"),**T),
 h("VerifMeasure",dict(topology=0,n=3,k=6,th=1,warm=0,sym=1),"2 servers, 3 transactions, 6 steps at any times and with any warm-up",("end","latency","overlap","reset","warming up"),floats="uf",**T),
 dict(h("VerifMeasure",dict(topology=2,n=2,k=6,warm=0,sym=1),"3 servers in a ring, 6 steps at any times",("end","latency","reset","warming up"),**T),pkg="newsim",floats="uf"),
],assumptions=["the quantile sketches (a library) hold the samples they are given"],outside="longer histories than the bounds; what main prints from the sketches and counters"),
"T01":dict(harnesses=[
 dict(h("VerifTopology",dict(k=2,node=2,delay=3),"up to 2 lines, node indices of up to 2 digits and delays of up to 3, one line malformed in any of 16 ways; either line ending, last line ended or not",("end","malformed","many lines")),pkg=p) for p in ("simulator","newsim")]+[
 dict(h("VerifTopologyLarge",dict(k=600,seed=1,every=150),"a file of 600 lines (more than a read buffer), one of every 150th arbitrary",("end",)),pkg=p) for p in ("simulator","newsim")]+[
 dict(h("VerifTopologyNumbers",dict(node=9,delay=12),"2 lines, one of which has node indices of 9 digits and a delay of 12",("end",)),pkg=p) for p in ("simulator","newsim")]+[dict(h("VerifTopology",dict(k=3,node=2,delay=1),"up to 3 lines, delays of one digit",("end","malformed","many lines"),**T),pkg="simulator"),
 dict(h("VerifTopology",dict(k=2,node=4,delay=5),"up to 2 lines, indices of up to 4 digits and delays of up to 5",("end","malformed","many lines"),**T),pkg="newsim"),
 dict(h("VerifTopologyLarge",dict(k=1500,seed=2,every=100),"a file of 1500 lines",("end",),**T),pkg="simulator")],
 assumptions=["fmt.Sscanf is modelled (%d and literals); the sampled paths run the real one"],outside="spaces, underscores and non-ASCII text; text after the third field; negative numbers; files that cannot be read"),
"F01":dict(harnesses=[
 dict(h("VerifMaximum",dict(k=4),"4 records and reads of any values, 4 integer types",("end","record","read")),pkg=p) for p in ("simulator","newsim")]+[
 dict(h("VerifDifference",dict(k=4),"4 records and reads of any values, 4 integer types",("end","record","read")),pkg=p) for p in ("simulator","newsim")],
 assumptions=[],outside="floating-point instances; longer histories than the bounds"),
}
json.dump(reg,open('/verif/harness/props/sim.json','w'),indent=1)
