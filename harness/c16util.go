package main

import (
	"math/big"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
)

var bigOrder = new(big.Int).Set(bn256.Order)

// scalarOf is the scalar with the value x mod the group order
func scalarOf(x *big.Int) kyber.Scalar {
	s := bn256.NewSuite().G1().Scalar()
	s.SetBytes(new(big.Int).Mod(x, bigOrder).Bytes())
	return s
}

func bigOf(s kyber.Scalar) *big.Int {
	b, err := s.MarshalBinary()
	must(err)
	return new(big.Int).SetBytes(b)
}

const rouFactor = 5743 // order of the roots of unity the library uses

// refROUBig is a primitive 5743rd root of unity, number i
func refROUBig(i int) *big.Int {
	e := new(big.Int).Sub(bigOrder, big.NewInt(1))
	e.Div(e, big.NewInt(rouFactor))
	for b := int64(i) + 2; ; b++ {
		r := new(big.Int).Exp(big.NewInt(b), e, bigOrder)
		if r.Cmp(big.NewInt(1)) != 0 {
			return r
		}
	}
}

func refROU(i int) kyber.Scalar { return scalarOf(refROUBig(i)) }
