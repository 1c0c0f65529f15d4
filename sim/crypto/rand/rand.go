// Package rand is crypto/rand with its randomness drawn from the run's seed.
package rand

import (
	"io"
	"math/big"

	"trcsim/rt"
)

type reader struct{}

var r rt.Rand

func init() { rt.RegisterReset("crypto/rand", func() { r.Seed(rt.RunSeed() ^ 0xc0ffee) }) }

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.Uint64() >> 32)
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }

func Text() string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = abc[r.Intn(32)]
	}
	return string(b)
}

func Int(_ io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, len(max.Bytes())+8)
	Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}
