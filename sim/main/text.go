package main

import (
	"encoding/base64"
	"encoding/hex"
	"strings"
)

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

// genText makes texts around the two spellings the decoders know.
func genText(r *Rng, point bool) []byte {
	b := gen32(r)
	var t string
	switch r.N(5) {
	case 0, 1, 2:
		t = base64.RawURLEncoding.EncodeToString(b)
	case 3:
		t = hex.EncodeToString(b)
		if r.P(1, 4) {
			t = strings.ToUpper(t)
		}
	case 4:
		n := []int{0, 1, 2, 3, 42, 44, 45, 48, 63, 64, 65, 86, 88, 128, 200}[r.N(15)]
		x := make([]byte, n)
		for i := range x {
			x[i] = b64[r.N(64)]
		}
		return x
	}
	return mutateText(r, []byte(t), r.N(3))
}

// mutateText damages a text n times.
func mutateText(r *Rng, t []byte, n int) []byte {
	t = append([]byte{}, t...)
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 0:
			if len(t) > 0 {
				t[r.N(len(t))] ^= 1 << uint(r.N(8))
			}
		case 1:
			if len(t) > 0 {
				t = t[:r.N(len(t))]
			}
		case 2:
			t = append(t, b64[r.N(64)])
		case 3:
			if len(t) > 0 {
				t[r.N(len(t))] = b64[r.N(64)]
			}
		case 4:
			k := r.N(len(t) + 1)
			t = append(t[:k:k], append([]byte{"\n\r =+/"[r.N(6)]}, t[k:]...)...)
		case 5:
			t = append(t, t...)
		case 6:
			t = append(t, '=')
		case 7:
			if len(t) > 0 {
				t[len(t)-1] = b64[r.N(64)]
			}
		}
	}
	return t
}
