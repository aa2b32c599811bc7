// Package rand replaces crypto/rand in the simulated copies. Reader is the
// simulator's source. Read behaves as crypto/rand does up to Go 1.23 (it
// returns the error) or from Go 1.24 on (the process aborts, here an Abort
// panic), depending on Modern.
package rand

import (
	"errors"
	"io"
	"math/big"
)

// Abort stands for the irrecoverable end of the process.
type Abort struct{ Err error }

func (a Abort) Error() string { return "process aborted: " + a.Err.Error() }

type noReader struct{}

func (noReader) Read([]byte) (int, error) { return 0, errors.New("simulated source not installed") }

var (
	Reader io.Reader = noReader{}
	Modern bool
)

func Read(b []byte) (n int, err error) {
	n, err = io.ReadFull(Reader, b)
	if err != nil && Modern {
		panic(Abort{err})
	}
	return
}

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n := new(big.Int).Sub(max, big.NewInt(1))
	bl := n.BitLen()
	if bl == 0 {
		return n, nil
	}
	k := (bl + 7) / 8
	b := uint(bl % 8)
	if b == 0 {
		b = 8
	}
	buf := make([]byte, k)
	for {
		if _, err := io.ReadFull(r, buf); err != nil {
			return nil, err
		}
		buf[0] &= uint8(int(1<<b) - 1)
		n.SetBytes(buf)
		if n.Cmp(max) < 0 {
			return n, nil
		}
	}
}

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	src := make([]byte, 26)
	if _, err := Read(src); err != nil {
		panic(Abort{err})
	}
	for i := range src {
		src[i] = a[src[i]%32]
	}
	return string(src)
}
