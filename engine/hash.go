package main

import (
	"crypto/sha256"
	"math/big"
	"strings"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

type hashEnt struct {
	algo string
	size int
	in   []Val
	out  []Val
	conc bool
}

type opaqueEnt struct{}

func realHash(algo string, size int, data []byte) []byte {
	switch algo {
	case "blake2b":
		h, err := blake2b.New(size, nil)
		if err != nil {
			return nil
		}
		h.Write(data)
		return h.Sum(nil)
	case "keccak":
		h := sha3.NewLegacyKeccak256()
		h.Write(data)
		return h.Sum(nil)
	case "sha256":
		s := sha256.Sum256(data)
		return s[:]
	}
	return nil
}

func concBytes(in []Val) ([]byte, bool) {
	out := make([]byte, len(in))
	for i, v := range in {
		if v.p != nil {
			return nil, false
		}
		out[i] = byte(v.n)
	}
	return out, true
}

// ufHash models a cryptographic hash: concrete inputs use the real function; symbolic inputs get a fresh digest that is
// equal to another digest of the same function exactly when the inputs are equal (functional and collision free).
func (m *M) ufHash(algo string, size int, in []Val) Val {
	in = append([]Val{}, in...)
	key := algo + "/" + itoa(size)
	ents := m.hashes[key]
	for _, e := range ents {
		if len(e.in) != len(in) {
			continue
		}
		same := true
		for i := range in {
			if e.in[i] != in[i] {
				same = false
				break
			}
		}
		if same {
			return Val{p: &SliceV{append([]Val{}, e.out...)}}
		}
	}
	if m.specDepth > 0 {
		panic(specAbort{})
	}
	ent := &hashEnt{algo: algo, size: size, in: in}
	if b, ok := concBytes(in); ok && realHash(algo, size, nil) != nil {
		ent.conc = true
		ent.out = bytesVal(realHash(algo, size, b)).slice()
	} else {
		n := m.freshName("$hash." + key)
		t := m.tb.Var(n, int32(size*8))
		ent.out = make([]Val, size)
		for i := range ent.out {
			lo := int32(size-1-i) * 8
			ent.out[i] = tv(m.tb.Extract(t, lo+7, lo))
		}
		old := m.nHashes
		m.nHashes++
		m.undo(func() { m.nHashes = old })
	}
	if m.inInit == 0 {
		for _, e := range ents {
			if e.conc && ent.conc {
				continue
			}
			eqIn := m.bytesEq(e.in, in)
			eqOut := m.bytesEq(e.out, ent.out)
			c := m.tb.Eq(eqIn, eqOut)
			if size < 16 { // short digests (checksums) may collide
				c = m.tb.Or(m.tb.Not(eqIn), eqOut)
			}
			if c != m.tb.True {
				m.addAxiom(c)
			}
		}
		m.hashes[key] = append(ents[:len(ents):len(ents)], ent)
		m.undo(func() { m.hashes[key] = ents })
	}
	return Val{p: &SliceV{append([]Val{}, ent.out...)}}
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

// addAxiom adds a constraint that is satisfiable by construction (fresh variable).
func (m *M) addAxiom(c *Term) {
	m.addPC(c)
	if m.model != nil && m.tb.Eval(c, m.model) != m.tb.True {
		m.model = nil
	}
	if m.pendM != nil && m.decPos < len(m.decs) {
		// pendM already satisfies the constraints collected on the original run
		return
	}
}

// refineHash looks for a model whose digests are the real ones.
func (m *M) refineHash(extra []*Term, mod *Model) (*Model, bool) {
	pc := append(append([]*Term{}, m.pc...), extra...)
	for round := 0; round < 6; round++ {
		okAll := true
		var pins []*Term
		ents := m.hashOrder()
		cur := mod
		for _, e := range ents {
			if e.conc {
				continue
			}
			in := make([]byte, len(e.in))
			for i, v := range e.in {
				if v.p == nil {
					in[i] = byte(v.n)
				} else {
					in[i] = byte(m.tb.Eval(m.asT(v, 8), cur).u)
				}
			}
			real := realHash(e.algo, e.size, in)
			if real == nil {
				return mod, false
			}
			for i, v := range e.out {
				if v.p == nil {
					continue
				}
				t := m.asT(v, 8)
				if byte(m.tb.Eval(t, cur).u) != real[i] {
					okAll = false
				}
			}
			// pin: inputs at these values and outputs at the real digest
			for i, v := range e.in {
				if v.p != nil {
					pins = append(pins, m.tb.Eq(m.asT(v, 8), m.tb.C(uint64(in[i]), 8)))
				}
			}
			for i, v := range e.out {
				if v.p != nil {
					pins = append(pins, m.tb.Eq(m.asT(v, 8), m.tb.C(uint64(real[i]), 8)))
				}
			}
			if !okAll {
				// solve with the pins so far so that later inputs (which may contain this digest) are recomputed
				r, md := m.sess.Check(append(append([]*Term{}, pc...), pins...), nil, true)
				if r != Sat {
					return mod, false
				}
				cur = md
				okAll = true
			}
		}
		return cur, true
	}
	return mod, false
}

func (m *M) hashOrder() []*hashEnt {
	var out []*hashEnt
	for _, k := range sortedKeys(m.hashes) {
		if strings.HasPrefix(k, "") {
			out = append(out, m.hashes[k]...)
		}
	}
	return out
}
