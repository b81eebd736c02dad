//go:build go1.22

// Package simrand2 replaces the global generator of math/rand/v2.
package simrand2

import (
	"math/rand/v2"

	"VERIFMOD/verifsim"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

func New(s Source) *Rand             { return rand.New(s) }
func NewPCG(a, b uint64) *PCG        { return rand.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8 { return rand.NewChaCha8(s) }

type src struct{}

func (src) Uint64() uint64 { return verifsim.Rand() }

func g() *rand.Rand { return rand.New(src{}) }

func Int64() int64                       { return g().Int64() }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func Int32() int32                       { return g().Int32() }
func Int() int                           { return g().Int() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Int32N(n int32) int32               { return g().Int32N(n) }
func IntN(n int) int                     { return g().IntN(n) }
func UintN(n uint) uint                  { return g().UintN(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
