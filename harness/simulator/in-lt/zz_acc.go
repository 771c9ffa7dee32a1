package lt

// VParts returns the content of a codeword.
func VParts[T TransactionData[T]](c Codeword[T]) (T, []uint32) { return c.symbol, c.members }
