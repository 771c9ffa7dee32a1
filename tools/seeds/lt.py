LT = '''
package PKG

import (
	"math/rand"
	"testing"
)

type dPtr [4]byte

func (d *dPtr) XOR(t *dPtr) *dPtr {
	if d == nil {
		d = &dPtr{}
	}
	for i := range d {
		d[i] ^= t[i]
	}
	return d
}
func (d *dPtr) Hash() []byte { return append([]byte(nil), d[:]...) }

var dSalt = [SaltSize]byte{1, 2, 3}

type dDist uint64

func (d dDist) Uint64() uint64 { return uint64(d) }

func dTx(i int) Transaction[*dPtr] { return NewTransaction[*dPtr](&dPtr{byte(i), byte(i >> 8), 7}) }

// dCw encodes the given transactions into one codeword
func dCw(ids ...int) Codeword[*dPtr] {
	e := NewEncoder[*dPtr](rand.New(rand.NewSource(1)), dSalt, dDist(len(ids)), len(ids))
	for _, i := range ids {
		e.AddTransaction(dTx(i))
	}
	return e.ProduceCodeword()
}

func dIds(l []Transaction[*dPtr]) map[int]int {
	r := map[int]int{}
	for _, t := range l {
		r[int(t.Data()[0])+int(t.Data()[1])*256] += 1
	}
	return r
}

var _ = dIds
var _ = dCw
'''
def lt(pkg, body):
    return LT.replace("PKG", pkg) + body
bug("iblt-evict-wrong-hash", "L01", "iblt",
    [("iblt/encoder.go", "		delete(e.hashes, e.window[0].saltedHash)\n		e.window = e.window[1:]", "		e.window = e.window[1:]\n		delete(e.hashes, e.window[0].saltedHash)")],
    "adding transactions beyond the window size and then one that was evicted or is still there",
    "Eviction forgets the hash of the oldest remaining transaction instead of the evicted one: a duplicate enters the window and an evicted transaction is refused for ever.",
    lt("iblt", '''
func TestDemo(t *testing.T) {
	e := NewEncoder[*dPtr](rand.New(rand.NewSource(1)), dSalt, dDist(1), 3)
	for i := 0; i < 4; i++ {
		e.AddTransaction(dTx(i))
	}
	if e.AddTransaction(dTx(1)) {
		t.Error("a transaction in the window was accepted again")
	}
	e = NewEncoder[*dPtr](rand.New(rand.NewSource(1)), dSalt, dDist(1), 3)
	for i := 0; i < 4; i++ {
		e.AddTransaction(dTx(i))
	}
	if !e.AddTransaction(dTx(0)) {
		t.Error("an evicted transaction was refused")
	}
}
'''))
bug("lt-all-known-undecoded", "L04", "lt",
    [("lt/decoder.go", "	if len(cw.members) <= 1 {\n		cw.queued = true", "	if len(cw.members) == 1 {\n		cw.queued = true")],
    "a codeword whose members are all known when it arrives",
    "A codeword that is fully explained on arrival never reports itself decoded.",
    lt("lt", '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dPtr](dSalt, 100)
	d.AddTransaction(dTx(1))
	d.AddTransaction(dTx(2))
	stub, _ := d.AddCodeword(dCw(1, 2))
	if !stub.Decoded() {
		t.Error("a codeword with known members only is not decoded")
	}
}
'''))
bug("iblt-readd-refreshes", "L05", "iblt",
    [("iblt/decoder.go", "			// something that we already know; do not do anything\n			return nil", "			// something that we already know; remember it for longer\n			p.storeNewTransaction(saltedHash, existing)\n			return nil")],
    "adding a remembered transaction again and then more until the memory overflows",
    "A transaction added again takes a second place in the memory, so others, and then the transaction itself, are forgotten too early.",
    lt("iblt", '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dPtr](dSalt, 3)
	d.AddTransaction(dTx(1))
	d.AddTransaction(dTx(2))
	d.AddTransaction(dTx(3))
	d.AddTransaction(dTx(3))
	stub, got := d.AddCodeword(dCw(1))
	if len(got) != 0 || !stub.Decoded() {
		t.Errorf("transaction 1 of the last 3 was forgotten: %v", dIds(got))
	}
}
'''))
bug("lt-failed-drops-pending", "L06", "lt",
    [("lt/decoder.go", "						failedTxSaltedHash, _, failed := c.failToDecode()\n						if failed {\n							delete(p.pendingTransactions, failedTxSaltedHash)\n						}", "						// nobody will resolve this member any more\n						c.failToDecode()\n						delete(p.pendingTransactions, decodableTx.saltedHash)")],
    "a mismatched codeword whose last unknown member is also a member of another pending codeword that becomes resolvable later",
    "Discarding a mismatched codeword also unregisters the member it named, although other codewords still wait for it; resolving one of them makes the decoder fail.",
    lt("lt", '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("the decoder failed: %v", e)
		}
	}()
	d := NewDecoder[*dPtr](dSalt, 100)
	d.AddCodeword(dCw(1, 2))
	bad := dCw(1)
	bad.symbol[3] ^= 1
	if _, got := d.AddCodeword(bad); len(got) != 0 {
		t.Fatal("a corrupt codeword was decoded")
	}
	got := d.AddTransaction(dTx(2))
	if r := dIds(got); r[1] != 1 || len(r) != 1 {
		t.Fatalf("decoded %v instead of transaction 1", r)
	}
}
'''))
bug("iblt-conflict-cascade-order", "L03", "iblt",
    [("iblt/decoder.go", "						newTx = append(newTx, decodedTx) // c.freed means that the user has timed out the tx\n						delete(p.pendingTransactions, saltedHash)\n						p.storeNewTransaction(saltedHash, decodedTx)\n						queue = decodableTx.markDecoded(decodedTx.data, queue)", "						newTx = append(newTx, decodedTx) // c.freed means that the user has timed out the tx\n						if len(decodableTx.blocking) > 1 {\n							// only codewords that wait for it need it peeled\n							queue = decodableTx.markDecoded(decodedTx.data, queue)\n						} else {\n							c.members = c.members[:0]\n						}\n						delete(p.pendingTransactions, saltedHash)\n						if p.memory > 1 {\n							p.storeNewTransaction(saltedHash, decodedTx)\n						}")],
    "a decoder configured to remember a single transaction",
    "With a memory of one transaction a decoded transaction is not remembered, so it is returned again although it is known.",
    lt("iblt", '''
func TestDemo(t *testing.T) {
	for m := 1; m < 4; m++ {
		d := NewDecoder[*dPtr](dSalt, m)
		if _, got := d.AddCodeword(dCw(1)); len(got) != 1 {
			t.Fatalf("memory %d: not decoded", m)
		}
		if _, got := d.AddCodeword(dCw(1)); len(got) != 0 {
			t.Fatalf("memory %d: the transaction learned last was returned again", m)
		}
	}
}
'''))
bug("lt-last-never-picked", "L02", "lt",
    [("lt/encoder.go", "		r := e.r.Intn(n-i) + i\n", "		r := i\n		if n-i > 1 {\n			r += e.r.Intn(n - i - 1)\n		}\n")],
    "many codewords of a degree below the window size",
    "The most recently accepted transaction is never selected for a codeword unless the whole window is.",
    lt("lt", '''
func TestDemo(t *testing.T) {
	for n := 2; n < 6; n++ {
		for deg := 1; deg < n; deg++ {
			e := NewEncoder[*dPtr](rand.New(rand.NewSource(1)), dSalt, dDist(deg), n)
			hashes := map[uint32]int{}
			for i := 0; i < n; i++ {
				e.AddTransaction(dTx(i))
				hashes[dCw(i).members[0]] = i
			}
			seen := map[int]int{}
			for i := 0; i < 2000; i++ {
				for _, m := range e.ProduceCodeword().members {
					seen[hashes[m]] += 1
				}
			}
			if len(seen) != n {
				t.Fatalf("window %d, degree %d: members ever selected: %v", n, deg, seen)
			}
		}
	}
}
'''))
