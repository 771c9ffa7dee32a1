import json
T=dict(tier="thorough",budget_s=1200)
def h(fn,params,bounds,expect=("end",),**kw):
    d=dict(fn=fn,pkg="node",ideal=["siphash"],no_search=True,floats="uf",params=dict(params),bounds=bounds,expect=list(expect)); d.update(kw); return d
A=["goroutines are interleaved at channel operations only; each event is processed before the next one is made","time passes only between events"]
out="longer histories than the bounds; data races; several events waiting at the same time"
node1=h("VerifNode",dict(n=2,k=5,peers=1),"a whole node with 1 connection, 2 transactions, 5 events in any order",("end","sent","decoded","lost","reported"))
node2=h("VerifNode",dict(n=2,k=4,peers=2),"a whole node with 2 connections, 2 transactions, 4 events in any order",("end","sent","decoded"))
node1t=h("VerifNode",dict(n=2,k=6,peers=1),"the same, 6 events",("end","sent","decoded","lost","reported"),**T)
node2t=h("VerifNode",dict(n=2,k=5,peers=2),"the same, 5 events",("end","sent","decoded","lost","reported"),**T)
reg={
"K01":dict(harnesses=[
 h("VerifHandshake",dict(cuts=2),"a stream of the key and one codeword, up to 2 short reads (also empty ones) anywhere in the key, a failure at any byte of either direction",("end","refused","fragmented","failed with data")),
 h("VerifHandshake",dict(cuts=4),"the same with up to 4 short reads",("end","refused","fragmented","failed with data"),**T),
],assumptions=A,outside="more short reads than the bound; failures after the exchange of keys"),
"K02":dict(harnesses=[
 h("VerifSender",dict(k=5,configs=4,**{"from":0}),"5 events in any order, any losses, 4 combinations of rates and queue lengths",("end","sent","skipped","sent after skipping","minimum","raised")),
 h("VerifSender",dict(k=3,configs=1,**{"from":4}),"3 events, 1 or 220 losses at once",("end","sent","raised")),
 node1,
 h("VerifSender",dict(k=7,configs=4,**{"from":0}),"the same, 7 events",("end","sent","skipped","sent after skipping","minimum","raised"),**T),
 node1t,
],assumptions=A,outside=out+"; other rates"),
"K03":dict(harnesses=[
 h("VerifReceiver",dict(n=2,k=4,burst=0),"2 transactions, 4 events in any order, any times, timeouts and loss reports",("end","lost","retired","decoded","expired"),budget_s=150),
 h("VerifReceiver",dict(n=3,k=2,burst=80),"a burst of 80 codewords over 3 transactions, then 2 events",("end","lost","decoded")),
 h("VerifReceiverBusy",dict(n=2,k=6,cap=1),"6 events: codewords of one transaction with or without a report, or the sender or controller taking one item, with queues of 1",("end","several")),
 h("VerifReceiverBusy",dict(n=2,k=5,cap=0),"5 events, unbuffered queues",("end","several")),
 node1,
 h("VerifReceiverBusy",dict(n=3,k=8,cap=1),"8 events, 3 transactions",("end","several"),**T),
 h("VerifReceiver",dict(n=3,k=4,burst=0),"3 transactions, 4 events",("end","lost","retired","decoded","expired"),**T),
],assumptions=A,outside=out),
"K04":dict(harnesses=[
 h("VerifController",dict(k=5),"5 events in any order",("end","peers","expired","warm")),
 h("VerifBusy",dict(peers=2,k=2),"2 peers that take nothing until 2 transactions of any kind are in, then in any order"),
 node2,
 h("VerifBusy",dict(peers=3,k=3),"3 peers, 3 transactions",**T),
 h("VerifController",dict(k=7),"7 events in any order",("end","peers","expired","warm"),**T),
 node2t,
],assumptions=A,outside=out),
"K05":dict(harnesses=[
 h("VerifNodes",dict(graph=0,k=4),"2 nodes, 4 steps: a transaction of any content generated anywhere, a connection made, or time passing",("end","linked","reached"),floats="fp"),
 h("VerifNodes",dict(graph=1,k=4),"3 nodes in a line, 4 steps",("end","linked","reached"),floats="fp"),
 h("VerifNodes",dict(graph=2,k=4),"3 nodes in a ring, 4 steps",("end","linked","reached"),floats="fp"),
 h("VerifNodes",dict(graph=3,k=4),"4 nodes in a star, 4 steps",("end","linked","reached"),floats="fp"),
 h("VerifNodes",dict(graph=3,k=5),"4 nodes in a star, 5 steps",("end","linked","reached"),floats="fp",**T),
 h("VerifNodes",dict(graph=1,k=7),"3 nodes in a line, 7 steps",("end","linked","reached"),floats="fp",**T),
],assumptions=A+["hashes behave ideally: different contents have different hashes"],outside="windows of more than one transaction (which transactions a codeword names is random then; P02 and P03 decide encoder and decoder for any); two transactions generated before the first has spread; connections that stop or fail"),
"M02":dict(harnesses=[
 h("VerifLatency",dict(k=5),"5 events, any times, any warm-up",("end","sample","warming up")),
 h("VerifTransit",dict(k=6),"6 events, any times",("end","sample","several")),
 h("VerifLatency",dict(k=7),"7 events",("end","sample","warming up"),**T),
 h("VerifTransit",dict(k=8),"8 events",("end","sample","several"),**T),
],assumptions=A+["each sample is of more than a millisecond"],outside=out+"; what is logged; the accuracy of the quantile sketches (a library)"),
}
json.dump(reg,open('/verif/harness/props/node.json','w'),indent=1)
