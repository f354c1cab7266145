package main

import "math/big"

// constants; this file is initialised first
func init() {
	for i := range bigs {
		bigs[i] = new(big.Int).Lsh(big.NewInt(1), uint(i))
	}
	Zero = IC(0)
	One = IC(1)
	True = mk(&Term{Op: OConst, S: BoolS, N: big.NewInt(1)})
	False = mk(&Term{Op: OConst, S: BoolS, N: big.NewInt(0)})
}
