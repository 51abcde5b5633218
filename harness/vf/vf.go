// Package vf declares the nondeterministic inputs and the assertions used by
// the harnesses. The symbolic engine (../../engine) intercepts every function
// of this package by name; the bodies below are the native meaning, used when
// a solver assignment is replayed against the real code.
package vf

import (
	"fmt"
	"math"
)

// In is one input value of a replayed case.
type In struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

// Ob is one observed value.
type Ob struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

// Stop is panicked to end a replayed case early.
type Stop struct {
	Code int
	Msg  string
}

var (
	inputs   []In
	pos      int
	thorough bool
	obs      []Ob
	known    string
)

// Begin starts the replay of a case.
func Begin(in []In, th bool) { inputs, pos, thorough, obs, known = in, 0, th, nil, "" }
func Observed() []Ob         { return obs }
func KnownHit() string       { return known }
func next(name string) uint64 {
	if pos >= len(inputs) {
		panic(Stop{6, "case has no input left for " + name})
	}
	i := inputs[pos]
	if i.N != name {
		panic(Stop{6, fmt.Sprintf("case input %d is %q, harness asks for %q", pos, i.N, name)})
	}
	pos++
	return i.V
}

func Bool(name string) bool   { return next(name) != 0 }
func U8(name string) uint8    { return uint8(next(name)) }
func U16(name string) uint16  { return uint16(next(name)) }
func U32(name string) uint32  { return uint32(next(name)) }
func U64(name string) uint64  { return next(name) }
func I8(name string) int8     { return int8(next(name)) }
func I16(name string) int16   { return int16(next(name)) }
func I32(name string) int32   { return int32(next(name)) }
func I64(name string) int64   { return int64(next(name)) }
func F64(name string) float64 { return math.Float64frombits(next(name)) }
func F32(name string) float32 { return math.Float32frombits(uint32(next(name))) }

// Int is any value in [lo, hi].
func Int(name string, lo, hi int) int {
	v := int(next(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Choose is any value in [0, n); the engine explores each one as its own path.
func Choose(name string, n int) int { return int(next(name)) }

// Bytes is any byte string of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Fix makes the engine explore each value of x on its own path.
func Fix(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(Stop{4, "assumption"})
	}
}
func Assert(c bool, id string) {
	if !c {
		panic(Stop{3, "assertion " + id + " failed"})
	}
}

// AssertKnown is Assert, except that a failure with isKnown set is the listed
// finding.
func AssertKnown(ok bool, id string, isKnown bool, finding string) {
	if ok {
		return
	}
	if isKnown {
		known = finding
		return
	}
	panic(Stop{3, "assertion " + id + " failed"})
}

// Reach declares that some execution must get here (vacuity guard).
func Reach(id string) {}

// Param is a bound: q in the quick tier, t in the thorough tier.
func Param(name string, q, t int) int {
	if thorough {
		return t
	}
	return q
}
func Thorough() bool { return thorough }

// OpaqueFloats tells the engine to explore branches that depend on float
// arithmetic without first showing that they can be taken.
func OpaqueFloats() {}

// Split makes the engine follow the two sides of every branch separately (on)
// or join them where it can (off). It changes cost only.
func Split(on bool) {}

// MaxAlloc makes an allocation of more than n bytes a violation; otherwise
// such executions are left out.
func MaxAlloc(n uint64) {}

// Steps is the number of instructions after which a path counts as endless.
func Steps(n int) {}

// AllocSucceeds leaves out executions that make slices longer than any machine
// could hold (a negative length still panics).
func AllocSucceeds() {}

// FixDivisors makes the engine follow every value of a divisor separately. It
// changes cost only.
func FixDivisors() {}

// OpaqueArithmetic is OpaqueFloats where the bits that float arithmetic is
// turned into matter to the property.
func OpaqueArithmetic() {}

// Obs records a value that encoding and real code must agree on.
func Obs(name string, v uint64) { obs = append(obs, Ob{name, v}) }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Imp(a, b bool) bool { return !a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
