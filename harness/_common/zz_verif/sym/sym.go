// Package sym is the harness interface. Under the symbolic engine these functions are intercepted; the bodies below are
// the native replay implementation, which reads the values of a model from the file named by VERIF_REPLAY.
package sym

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"strconv"
	"sync"
)

type replay struct {
	Values map[string]string `json:"values"`
	Params map[string]int    `json:"params"`
}

var (
	mu     sync.Mutex
	rp     *replay
	counts = map[string]int{}
	// Symbolic is true under the engine.
	Symbolic = false
)

func load() *replay {
	if rp != nil {
		return rp
	}
	rp = &replay{Values: map[string]string{}, Params: map[string]int{}}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, rp); err != nil {
			panic(err)
		}
	}
	return rp
}

// Reset rewinds the input counters (native use only).
func Reset() { mu.Lock(); counts = map[string]int{}; mu.Unlock() }

func raw(name string) *big.Int {
	mu.Lock()
	defer mu.Unlock()
	r := load()
	k := name + "#" + strconv.Itoa(counts[name])
	counts[name]++
	s, ok := r.Values[k]
	if !ok {
		return new(big.Int)
	}
	z, _ := new(big.Int).SetString(s, 10)
	if z == nil {
		return new(big.Int)
	}
	return z
}

func Byte(name string) byte     { return byte(raw(name).Uint64()) }
func Bool(name string) bool     { return raw(name).Sign() != 0 }
func Uint16(name string) uint16 { return uint16(raw(name).Uint64()) }
func Uint32(name string) uint32 { return uint32(raw(name).Uint64()) }
func Uint64(name string) uint64 { return raw(name).Uint64() }
func Int64(name string) int64   { return raw(name).Int64() }
func Int32(name string) int32   { return int32(raw(name).Int64()) }
func Int(name string) int       { return int(raw(name).Int64()) }

// Bytes returns n symbolic bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	Fill(name, b)
	return b
}

// Fill makes every byte of b symbolic.
func Fill(name string, b []byte) {
	for i := range b {
		b[i] = Byte(name)
	}
}

// Choose explores every value in [0,n).
func Choose(name string, n int) int { return int(raw(name).Int64()) }

// BigInt is a symbolic non-negative integer below 2^bits.
func BigInt(name string, bits int) *big.Int { return raw(name) }

// SBigInt is a symbolic integer in [-2^(bits-1), 2^(bits-1)).
func SBigInt(name string, bits int) *big.Int { return raw(name) }

type assumeFailed struct{}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME-FAILED")
		os.Exit(78)
	}
}

// Assert states the property.
func Assert(c bool, id string) {
	if !c {
		fmt.Println("VERIF-ASSERT-FAILED " + id)
		os.Exit(77)
	}
}

// Reach marks a state that must be reachable (vacuity witness).
func Reach(label string) { fmt.Println("VERIF-REACH " + label) }

// Observe records a value compared between the symbolic path and the native replay.
func Observe(name string, v uint64) { fmt.Printf("VERIF-OBS %s=%d\n", name, v) }

// ObserveBool records a boolean.
func ObserveBool(name string, v bool) {
	if v {
		Observe(name, 1)
	} else {
		Observe(name, 0)
	}
}

// Param is a tier-dependent bound.
func Param(name string, def int) int {
	if v, ok := load().Params[name]; ok {
		return v
	}
	return def
}

// UFHash is the engine's collision-free hash; it has no native meaning.
func UFHash(algo string, size int, data []byte) []byte { panic("symbolic only") }

// MapOrder switches exploration of every map iteration order on or off.
func MapOrder(on bool) {}

// Yield is a scheduling point explored in preemptive mode.
func Yield() {}

// Stop ends the path without a verdict (engine only).
func Stop() { os.Exit(79) }

// And, Or and Not build conditions without branching.
func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}

func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// EqBytes compares without branching.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// EqBig compares without branching.
func EqBig(a, b *big.Int) bool { return a.Cmp(b) == 0 }
