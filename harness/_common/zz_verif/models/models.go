// Package models holds Go models of library code the engine does not execute directly.
package models

import (
	"hash"
	"math/rand"
	"sync"

	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

type H struct {
	algo string
	size int
	blk  int
	buf  []byte
}

func (h *H) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *H) Sum(b []byte) []byte         { return append(b, sym.UFHash(h.algo, h.size, h.buf)...) }
func (h *H) Reset()                      { h.buf = nil }
func (h *H) Size() int                   { return h.size }
func (h *H) BlockSize() int              { return h.blk }

func Blake2bNew(size int, key []byte) (hash.Hash, error) {
	if len(key) > 0 {
		return &H{algo: "blake2b-key", size: size, blk: 128, buf: append([]byte{}, key...)}, nil
	}
	return &H{algo: "blake2b", size: size, blk: 128}, nil
}
func Blake2bNew256(key []byte) (hash.Hash, error) { return Blake2bNew(32, key) }
func Blake2bNew512(key []byte) (hash.Hash, error) { return Blake2bNew(64, key) }
func Blake2bSum256(data []byte) (r [32]byte) {
	copy(r[:], sym.UFHash("blake2b", 32, data))
	return
}
func Blake2bSum512(data []byte) (r [64]byte) {
	copy(r[:], sym.UFHash("blake2b", 64, data))
	return
}
func KeccakNew256() hash.Hash { return &H{algo: "keccak", size: 32, blk: 136} }
func Sha256New() hash.Hash    { return &H{algo: "sha256", size: 32, blk: 64} }
func Sha256Sum(data []byte) (r [32]byte) {
	copy(r[:], sym.UFHash("sha256", 32, data))
	return
}

// ---- sync.Pool ----
func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func PoolPut(p *sync.Pool, x interface{}) {}

// ---- sync.Map ----
type smap struct{ m map[interface{}]interface{} }

var smaps = map[*sync.Map]*smap{}

func sm(p *sync.Map) *smap {
	s := smaps[p]
	if s == nil {
		s = &smap{m: map[interface{}]interface{}{}}
		smaps[p] = s
	}
	return s
}
func MapLoad(p *sync.Map, k interface{}) (interface{}, bool) { v, ok := sm(p).m[k]; return v, ok }
func MapStore(p *sync.Map, k, v interface{})                 { sm(p).m[k] = v }
func MapDelete(p *sync.Map, k interface{})                   { delete(sm(p).m, k) }
func MapLoadOrStore(p *sync.Map, k, v interface{}) (interface{}, bool) {
	if x, ok := sm(p).m[k]; ok {
		return x, true
	}
	sm(p).m[k] = v
	return v, false
}
func MapLoadAndDelete(p *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := sm(p).m[k]
	delete(sm(p).m, k)
	return v, ok
}
func MapRange(p *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range sm(p).m {
		if !f(k, v) {
			return
		}
	}
}

// ---- errors ----
type unwrapper interface{ Unwrap() error }

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(unwrapper)
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

// ---- math/rand: a source started from the same seed repeats the same results; otherwise results are arbitrary ----
type rsrc struct {
	seed int64
	k    int
}

func (r *rsrc) Int63() int64    { panic("rand model: Int63") }
func (r *rsrc) Uint64() uint64  { panic("rand model: Uint64") }
func (r *rsrc) Seed(seed int64) { r.seed, r.k = seed, 0 }

type rmemo struct {
	seed int64
	k, n int
	out  []int
}

var rands = map[*rand.Rand]*rsrc{}
var rmemos []*rmemo

func RandNewSource(seed int64) rand.Source { return &rsrc{seed: seed} }
func RandNew(src rand.Source) *rand.Rand {
	r := new(rand.Rand)
	rands[r] = src.(*rsrc)
	return r
}

func randOp(r *rand.Rand, n int, gen func() []int) []int {
	s := rands[r]
	k := s.k
	s.k++
	for _, m := range rmemos {
		if m.k == k && m.n == n && m.seed == s.seed {
			return m.out
		}
	}
	m := &rmemo{seed: s.seed, k: k, n: n, out: gen()}
	rmemos = append(rmemos, m)
	return m.out
}

func RandPerm(r *rand.Rand, n int) []int {
	p := randOp(r, n, func() []int {
		out := make([]int, n)
		for i := 0; i < n; i++ {
			j := sym.Choose("rand.perm", i+1)
			out[i] = out[j]
			out[j] = i
		}
		return out
	})
	return append([]int{}, p...)
}

func RandIntn(r *rand.Rand, n int) int {
	return randOp(r, -n, func() []int { return []int{sym.Choose("rand.intn", n)} })[0]
}
