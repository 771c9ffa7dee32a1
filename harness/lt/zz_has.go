package lt

import vnd "github.com/yangl1996/rateless-set-reconcile/zzvnd"

// vHas checks the decoder's own answer about a transaction.
func vHas[T vTx[T]](d *Decoder[T], t Transaction[T], want bool) {
	vnd.Assert(d.HasDecoded(t) == want, "HasDecoded's answer")
}
