package simrt

import (
	rand1 "math/rand"
	rand2 "math/rand/v2"
)

// Randomness of instrumented code (top-level functions of math/rand and
// math/rand/v2) comes from the seed of the run.

type source struct{ *rand2.PCG }

func (s source) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s source) Seed(int64)   {}

var pcg = rand2.NewPCG(1, 2)

func Rand1() *rand1.Rand { return rand1.New(source{pcg}) }
func Rand2() *rand2.Rand { return rand2.New(pcg) }
