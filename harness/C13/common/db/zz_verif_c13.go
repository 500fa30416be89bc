package db

import (
	"bytes"

	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
)

type verifIter struct {
	k [][]byte
	n byte
	i int
}

func (it *verifIter) Last() bool { it.i = len(it.k) - 1; return it.i >= 0 }
func (it *verifIter) Prev() bool {
	if it.i >= 0 {
		it.i--
	}
	return it.i >= 0
}
func (it *verifIter) Next() bool {
	if it.i < len(it.k) {
		it.i++
	}
	return it.i < len(it.k)
}
func (it *verifIter) Seek(key []byte) bool {
	for it.i = 0; it.i < len(it.k) && bytes.Compare(it.k[it.i], key) < 0; it.i++ {
	}
	return it.i < len(it.k)
}
func (it *verifIter) Key() []byte   { return it.k[it.i] }
func (it *verifIter) Value() []byte { return []byte{it.n, it.k[it.i][0]} }
func (it *verifIter) Error() error  { return nil }
func (it *verifIter) Release()      {}

// VerifH_Merged walks over two layers holding any subsets of the keys, with any of them deleted.
func VerifH_Merged() {
	n := sym.Param("keys", 3)
	var iters []interfaces.StorageIterator
	layers := make([]*verifIter, 2)
	for l := range layers {
		layers[l] = &verifIter{n: byte(l), i: -1}
		iters = append(iters, layers[l])
	}
	deleted := map[string]bool{}
	var want []byte // keys
	from := map[byte]byte{}
	for k := 0; k < n; k++ {
		key := []byte{byte(2*k + 1)}
		state := sym.Choose("key", 6) // in no layer, lower, upper, both, deleted while in lower, deleted with a tombstone above
		if state == 1 || state >= 3 {
			layers[1].k = append(layers[1].k, key)
		}
		if state == 2 || state == 3 || state == 5 {
			layers[0].k = append(layers[0].k, key)
		}
		if state >= 4 {
			deleted[string(key)] = true
		}
		if state >= 1 && state <= 3 {
			want = append(want, key[0])
			from[key[0]] = 1
			if state >= 2 {
				from[key[0]] = 0
			}
		}
	}
	it := NewMergedIterator(iters, func(k []byte) bool { return deleted[string(k)] })
	pos := -1
	back := false
	switch sym.Choose("start", 3) {
	case 1:
		pos, back = len(want)-1, true
		sym.Assert(it.Last() == (pos >= 0), "last")
		verifAt(it, want, from, pos)
	case 2:
		s := sym.Byte("seek")
		sym.Assume(s < byte(2*n+2))
		for pos = 0; pos < len(want) && want[pos] < s; pos++ {
		}
		sym.Assert(it.Seek([]byte{s}) == (pos < len(want)), "seek")
		verifAt(it, want, from, pos)
		if pos == len(want) {
			sym.Reach("seek-past-end")
			return
		}
	}
	steps := n + 1
	for i := 0; i < steps; i++ {
		if back {
			if pos < 0 {
				break
			}
			pos--
			sym.Assert(it.Prev() == (pos >= 0), "previous")
		} else {
			if pos >= len(want) {
				break
			}
			pos++
			sym.Assert(it.Next() == (pos < len(want)), "next")
		}
		verifAt(it, want, from, pos)
		if sym.Choose("turn", 2) == 1 && pos >= 0 && pos < len(want) {
			back = !back
		}
	}
	sym.Assert(it.Error() == nil, "no-error")
	it.Release()
	sym.Reach("merged")
}

func verifAt(it interfaces.StorageIterator, want []byte, from map[byte]byte, pos int) {
	if pos < 0 || pos >= len(want) {
		return
	}
	sym.Assert(bytes.Equal(it.Key(), []byte{want[pos]}), "visits-the-right-key")
	sym.Assert(bytes.Equal(it.Value(), []byte{from[want[pos]], want[pos]}), "the-upper-layer-wins")
}
