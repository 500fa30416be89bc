package c09

import (
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/pow"
	"github.com/vitelabs/go-vite/v2/zz_verif/sym"
	"golang.org/x/crypto/blake2b"
)

var target *big.Int

// Target stands in for the conversion of a difficulty into a target.
func Target(d *big.Int) *big.Int { return new(big.Int).Set(target) }

// VerifH_Nonce: a nonce is accepted exactly when its hash with the data reaches the target.
func VerifH_Nonce() {
	target = sym.BigInt("target", 256)
	sym.Assume(target.Sign() > 0)
	pow.Init(false)
	nonce := sym.Bytes("nonce", 8)
	data := sym.Bytes("data", 32)
	h := blake2b.Sum256(append(append([]byte{}, nonce...), data...))
	ok := pow.CheckPowNonce(big.NewInt(5), nonce, data)
	sym.Assert(ok == (new(big.Int).SetBytes(h[:]).Cmp(target) >= 0), "accepted-exactly-when-reached")
	sym.Reach("nonce")
}

// VerifH_Search: a nonce found by the search is accepted.
func VerifH_Search() {
	target = sym.BigInt("target", 256)
	sym.Assume(target.Sign() > 0)
	pow.Init(false)
	from := sym.Uint64("from")
	sym.Assume(from < 1<<63)
	var hash types.Hash
	sym.Fill("hash", hash[:])
	nonce, at, err := pow.MapPowNonce(big.NewInt(5), hash, from, from+2)
	if err == nil {
		sym.Assert(sym.And(at >= from, at < from+2), "inside-the-range")
		sym.Assert(pow.CheckPowNonce(big.NewInt(5), nonce, hash.Bytes()), "found-nonce-accepted")
		sym.Reach("found")
	} else {
		sym.Reach("none")
	}
}
