package iblt

// vHas has nothing to check: this decoder gives no answer about a transaction.
func vHas[T vTx[T]](d *Decoder[T], t Transaction[T], want bool) {}
