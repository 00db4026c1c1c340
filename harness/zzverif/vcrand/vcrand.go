// Package vcrand mirrors crypto/rand; during an exploration every random
// answer is an enumerated choice.
package vcrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) { return Read(p) }

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) {
	if !vsched.Active() {
		return rand.Read(p)
	}
	for i := range p {
		p[i] = byte(i + 1)
	}
	return len(p), nil
}

func Int(rd io.Reader, max *big.Int) (*big.Int, error) {
	if !vsched.Active() {
		return rand.Int(rand.Reader, max)
	}
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n := max.Int64()
	if n > 8 {
		return big.NewInt(0), nil
	}
	return big.NewInt(int64(vsched.Choose(int(n)))), nil
}

func Text() string { return rand.Text() }
