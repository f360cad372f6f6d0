// Package gen makes the inputs: structured edge cases and random ones.
package gen

import (
	"math/rand/v2"

	"verif/pin/encoding/gsm7/charset"
	"verif/rec"
)

// G is a source of random inputs.
type G struct{ *rand.Rand }

// New returns a generator of a seed.
func New(seed, stream uint64) G { return G{rand.New(rand.NewPCG(seed, stream))} }

func (g G) one(xs ...int) int     { return xs[g.IntN(len(xs))] }
func (g G) p(pct int) bool        { return g.IntN(100) < pct }
func (g G) rng(lo, hi int) int    { return lo + g.IntN(hi-lo+1) }
func oneOf[T any](g G, xs ...T) T { return xs[g.IntN(len(xs))] }
func (g G) octet() int            { return g.IntN(256) }
func (g G) near(c, d int) int     { return max(0, g.rng(c-d, c+d)) }
func (g G) bytes(n int) rec.Bytes { b := make(rec.Bytes, n); g.fill(b); return b }
func (g G) fill(b []byte) {
	m := g.IntN(5)
	for i := range b {
		switch m {
		case 0:
			b[i] = byte(g.one(0, 1, 0x7f, 0x80, 0xff, 0x1b, 0x0d, 0x1a))
		default:
			b[i] = byte(g.IntN(256))
		}
	}
}

// small returns mostly small lengths.
func (g G) small(limit int) int {
	switch g.IntN(10) {
	case 0:
		return 0
	case 1:
		return g.IntN(limit + 1)
	case 2, 3:
		return min(limit, g.IntN(40))
	}
	return min(limit, g.IntN(12))
}

// long: small, but at times far more than fits a message
func (g G) long(limit int) int {
	if g.p(1) {
		return g.IntN(3000)
	}
	return g.small(limit)
}

// far: numbers of characters up to more than all segments of a message have
var far = []int{320, 1030, 4100, 16400, 41000, 66000}

// septets: random, with the interesting ones frequent
func (g G) septets(n int) rec.Bytes {
	b := make(rec.Bytes, n)
	m := g.IntN(6)
	for i := range b {
		switch m {
		case 0:
			b[i] = byte(g.one(0, 13, 127, 27, 26, 64, 1))
		case 1:
			b[i] = byte(g.one(27, 27, 20, 101, 0, 65))
		case 2:
			if g.p(25) {
				b[i] = 27
			} else {
				b[i] = byte(g.IntN(128))
			}
		default:
			b[i] = byte(g.IntN(128))
		}
	}
	return b
}

var lockRunes, shiftRunes [14][]int

func init() {
	for n := 0; n < 14; n++ {
		d, e := charset.NewDecoder(n), charset.NewExtDecoder(n)
		for s := 0; s < 128; s++ {
			if r, ok := d[byte(s)]; ok && s != 27 {
				lockRunes[n] = append(lockRunes[n], int(r))
			}
			if r, ok := e[byte(s)]; ok && s != 27 {
				shiftRunes[n] = append(shiftRunes[n], int(r))
			}
		}
	}
}

func (g G) nli() int { return g.IntN(14) }

// lists of languages, as given to options
func (g G) nlis() rec.Ints {
	switch g.IntN(6) {
	case 0:
		return rec.Ints{}
	case 1:
		return rec.Ints{g.rng(1, 13)}
	case 2:
		v := rec.Ints{}
		for _, n := range g.Perm(13) {
			v = append(v, n+1)
		}
		return v[:g.rng(1, 13)]
	}
	v := rec.Ints{}
	for n := g.IntN(5); n >= 0; n-- {
		v = append(v, g.rng(1, 13))
	}
	return v
}

var odd = []int{0, 1, 0x1a, 0x1b, 0x7f, 0x80, 0xa0, 0x20ac, 0xfffd, 0xffff, 0xfeff, 0xd7ff, 0xe000, 0x10000, 0x1f600, 0x10ffff}

// cp: a character of a class
func (g G) cp(class, l, s int) int {
	switch class {
	case 0: // locking
		return oneOf(g, lockRunes[l]...)
	case 1: // shift
		return oneOf(g, shiftRunes[s]...)
	case 2: // plain
		return oneOf(g, lockRunes[0]...)
	case 3:
		return oneOf(g, shiftRunes[0]...)
	case 4: // BMP
		for {
			c := g.IntN(0x10000)
			if c < 0xd800 || c > 0xdfff {
				return c
			}
		}
	case 5: // astral
		return 0x10000 + g.IntN(0x100000)
	case 6:
		return oneOf(g, odd...)
	case 7:
		return oneOf(g, lockRunes[g.nli()]...)
	case 8:
		return oneOf(g, shiftRunes[g.nli()]...)
	case 9: // any septet
		return 97 + g.IntN(26)
	}
	return 65
}

// text of n characters over a mixture of classes
func (g G) text(n int, l, s int, classes ...int) rec.Ints {
	v := make(rec.Ints, n)
	for i := range v {
		v[i] = g.cp(classes[g.IntN(len(classes))], l, s)
	}
	return v
}

// anyText: text that takes any of the alphabets
func (g G) anyText(n int) rec.Ints {
	l, s := g.nli(), g.nli()
	var v rec.Ints
	switch g.IntN(14) {
	case 0:
		v = g.text(n, 0, 0, 2)
	case 1:
		v = g.text(n, 0, 0, 2, 2, 2, 3)
	case 2:
		v = g.text(n, l, s, 0)
	case 3:
		v = g.text(n, l, s, 0, 0, 3)
	case 4:
		v = g.text(n, l, s, 2, 2, 1)
	case 5:
		v = g.text(n, l, l, 0, 0, 1)
	case 6:
		v = g.text(n, l, l, 0, 1)
	case 7:
		v = g.text(n, l, s, 4)
	case 8:
		v = g.text(n, l, s, 4, 5)
	case 9:
		v = g.text(n, l, s, 2, 2, 7)
	case 10:
		v = g.text(n, l, s, 2, 2, 2, 8)
	case 11:
		v = g.text(n, 0, 0, 3)
	case 12:
		v = g.text(n, 0, 0, 9, 9, 9, 5)
	default:
		v = g.text(n, 0, 0, 2)
		if n > 0 { // one odd character at a random place
			v[g.IntN(n)] = g.cp(g.IntN(9), l, s)
		}
	}
	return v
}
