// Package vf is the specification language of the contracts in /verif/proofs. Under the
// verifier its functions are intrinsics; this file gives them their run-time meaning, used
// to replay counterexamples and to run contracts concretely.
package vf

import (
	"bytes"
	"fmt"
)

// Skip is thrown when an assumption or precondition does not hold for a concrete input.
type Skip struct{}

// Fail is thrown when an assertion or postcondition is false for a concrete input.
type Fail struct{ Name string }

func (f Fail) Error() string { return "contract violated: " + f.Name }

// Requires states a precondition.
func Requires(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Ensures states a postcondition.
func Ensures(b bool, name string) {
	if !b {
		panic(Fail{name})
	}
}

// EnsuresFull states a postcondition that callers only use when they ask for full contracts.
func EnsuresFull(b bool, name string) { Ensures(b, name) }

// Full reports whether the EnsuresFull clauses are in use.
func Full() bool { return true }

// EnsuresTrusted states a postcondition that callers use and that is not proved (it is listed
// among the assumptions); concrete runs check it.
func EnsuresTrusted(b bool, name string) { Ensures(b, name) }

// Assume restricts a lemma.
func Assume(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Assert is an obligation of a lemma.
func Assert(b bool, name string) {
	if !b {
		panic(Fail{name})
	}
}

// Modifies declares what the specified function may change: the target of a pointer or the elements of a slice.
func Modifies(_ any) {}

// ModifiesArray declares that the function may change the whole backing array of a slice.
func ModifiesArray(_ any) {}

// Old evaluates f in the state at function entry (invariants only).
func Old[T any](f func() T) T { return f() }

// AnySource supplies the values of Any at run time.
var AnySource func(p any)

// Any is an arbitrary value.
func Any[T any]() T {
	var v T
	if AnySource != nil {
		AnySource(&v)
	}
	return v
}

// Snap is a copy of s as it is now.
func Snap[T any](s []T) []T {
	if s == nil {
		return nil
	}
	return append(make([]T, 0, len(s)+1), s...)
}

// Forall holds when f holds for every i of [lo, hi).
func Forall(lo, hi int, f func(i int) bool) bool {
	if hi-lo > 1<<20 {
		panic(Skip{})
	}
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// K and J are arbitrary constants: what is proved about them holds for every number.
func K() int { return 0 }

// J is like K.
func J() int { return 0 }

// ForK is Forall, but it is proved for the constant K. It must only occur in positive positions of
// postconditions, invariants and assertions (not in preconditions and assumptions).
func ForK(lo, hi int, f func(i int) bool) bool { return Forall(lo, hi, f) }

// ForJ is like ForK, for the constant J.
func ForJ(lo, hi int, f func(i int) bool) bool { return Forall(lo, hi, f) }

// Count is the number of i in [0, n) with f(i).
func Count(n int, f func(i int) bool) int {
	if n > 1<<22 {
		panic(Skip{})
	}
	k := 0
	for i := 0; i < n; i++ {
		if f(i) {
			k++
		}
	}
	return k
}

// Sum is the sum of f(i) for i in [0, n) (values outside [0, 1<<41] and indices from 1<<20 on do not count).
func Sum(n int, f func(i int) int) int {
	k := 0
	for i := 0; i < n && i < 1<<20; i++ {
		if v := f(i); v >= 0 && v <= 1<<41 {
			k += v
		}
	}
	return k
}

// Fix is the recursive function f(x) = step(x, f), applied to x; step may only call f with a
// greater argument.
func Fix(x int, step func(x int, f func(int) int) int) int {
	memo := map[int]int{}
	var f func(x int) int
	f = func(x int) int {
		if v, ok := memo[x]; ok {
			return v
		}
		v := step(x, f)
		memo[x] = v
		return v
	}
	return f(x)
}

// BytesEq compares contents.
func BytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

// Same holds when a and b are the same piece of memory (or both empty).
func Same(a, b []byte) bool { return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0]) }

// Within holds when a is a piece of b.
func Within(a, b []byte) bool {
	if len(a) == 0 {
		return true
	}
	for i := range b {
		if &b[i] == &a[0] {
			return i+len(a) <= len(b)
		}
	}
	return false
}

// Fresh holds when s has no room or was allocated since the contract wrapper called the function
// (not observable at run time).
func Fresh[T any](_ []T) bool { return true }

// Separate holds when a and b have different backing arrays (not observable at run time).
func Separate(_, _ []byte) bool { return true }

// Err is used to build messages.
func Err(f string, a ...any) string { return fmt.Sprintf(f, a...) }
