//go:build go1.21

// Package simcrand replaces crypto/rand in the code under test with the
// simulator's seeded stream.
package simcrand

import (
	"io"
	"math/big"

	"VERIFMOD/verifsim"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(verifsim.Rand() >> 24)
	}
	return len(p), nil
}

// Reader is the simulated source of random bytes.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	b := make([]byte, len(max.Bytes())+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b)
	return n.Mod(n, max), nil
}

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[verifsim.Rand()%32]
	}
	return string(b)
}
