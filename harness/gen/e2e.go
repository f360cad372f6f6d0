package gen

import (
	"verif/pin/encoding/ucs2"
	"verif/rec"
)

// a header that does not itself name languages or concatenation
func (g G) plainUDH(n int) rec.IEs {
	u := g.udhOf(n)
	for i := range u {
		if u[i].ID == 24 || u[i].ID == 25 {
			u[i].ID = g.one(5, 4, 112, 36, 1, 9)
		}
	}
	return u
}

// text for messages of up to some segments, for a given room in octets
func (g G) e2eText(alpha, room int) rec.Bytes {
	per7, perU := max(1, room*8/7-8), max(1, room/2-4)
	n := g.one(g.rng(1, 12), per7+g.rng(-3, 12), 2*per7+g.rng(-3, 6), g.rng(1, 4)*per7+g.rng(-3, 3), g.rng(1, 2*per7))
	switch alpha {
	case 1:
		return g.bytes(max(1, n))
	case 2:
		n = g.one(g.rng(1, 12), perU+g.rng(-2, 6), g.rng(1, 4)*perU+g.rng(-2, 2))
		t := g.text(max(1, n), 0, 0, 4, 5, 2)
		return ucs2.Encode([]rune(t.Text()))
	}
	if g.p(40) {
		n = g.one(perU+g.rng(-2, 6), g.rng(1, 4)*perU+g.rng(-2, 2))
	}
	return rec.Bytes(g.anyText(max(1, n)).Text())
}

func (g G) sender(i int, wide bool) rec.Sender {
	ty := g.one(0, 3, 3)
	t := g.template(ty)
	t.DCS = g.one(0, 0, 0, 0, 0, 4, 8, 0x10, 0xf1, 0xf5, g.dcs(0))
	if g.p(40) {
		t = withUDH(t, g.plainUDH(g.one(g.rng(3, 12), g.rng(3, 40), g.rng(100, 122))))
	}
	s := rec.Sender{MR: g.one(0, 254, g.IntN(300)), CR: g.one(0, 0, 0, 254, 255, 65535, g.IntN(70000)), Wide: wide}
	s.Opts = append(s.Opts, rec.Opt{O: "template", T: &t})
	// peers that differ little
	num := rec.Ints{49, 50, 51}
	switch i {
	case 1:
		num = nil // the number of the first, of another type
		if ty == 0 {
			t.OA = rec.Addr{TOA: 129, A: rec.Ints{49, 50, 51}}
		} else {
			t.DA = rec.Addr{TOA: 129, A: rec.Ints{49, 50, 51}}
		}
	case 2:
		num = rec.Ints{49, 50, 51, 49}
	case 3:
		num = rec.Ints{43, 49, 50}
	}
	if num != nil {
		s.Opts = append(s.Opts, rec.Opt{O: [...]string{"from", "", "", "to"}[ty], Num: num})
	}
	switch g.IntN(6) {
	case 0, 1, 2:
		s.Opts = append(s.Opts, rec.Opt{O: "all"})
	case 3:
		s.Opts = append(s.Opts, rec.Opt{O: oneOf(g, "charset", "locking", "shift"), NLI: g.nlis()})
		if g.p(30) {
			s.Opts = append(s.Opts, rec.Opt{O: oneOf(g, "locking", "shift"), NLI: g.nlis()})
		}
	}
	return s
}

func (g G) e2e() *rec.E2EA {
	a := &rec.E2EA{Order: g.IntN(5), Seed: g.IntN(1 << 30), Rounds: g.one(1, 1, 1, 2), Via: g.IntN(4)}
	ns := g.one(1, 1, 2, 2, 3, 4)
	same := g.p(50)
	cr := g.one(0, 255, g.IntN(1000))
	for i := 0; i < ns; i++ {
		s := g.sender(i, g.p(30))
		if same {
			s.CR = cr
		}
		a.Senders = append(a.Senders, s)
	}
	for n := g.one(1, 1, 2, 2, 3, 4, 6); n > 0; n-- {
		i := g.IntN(ns)
		s := a.Senders[i]
		t := s.Opts[0].T
		m := rec.Sent{S: i + 1}
		d := t.DCS
		if !s.Wide && g.p(15) {
			d = g.one(0, 4, 8)
			m.Opts = append(m.Opts, rec.Opt{O: "dcs", N: d})
		}
		if !s.Wide && g.p(10) {
			m.Opts = append(m.Opts, rec.Opt{O: oneOf(g, "charset", "locking", "shift"), NLI: g.nlis()})
		}
		m.Msg = g.e2eText(max(0, alphaOf(d)), 140-sizeOf(t.UDH))
		m.Cps = rec.Cps(string(m.Msg))
		a.Msgs = append(a.Msgs, m)
	}
	return a
}

func fixedE2E() []any {
	var l []any
	// one message of each size around the boundaries, in each alphabet
	for _, ty := range []int{0, 3} {
		for _, w := range []bool{false, true} {
			for _, al := range []int{0, 1, 2, 3} {
				for _, n := range []int{1, 69, 70, 71, 133, 134, 135, 140, 141, 153, 154, 159, 160, 161, 268, 306, 307, 400} {
					for _, order := range []int{0, 1} {
						t := rec.TPDU{Dir: ty % 2, FO: ty / 2, DCS: [...]int{0, 4, 8, 0}[al]}
						a := &rec.E2EA{Order: order, Rounds: 1, Senders: rec.L[rec.Sender]{{Wide: w, CR: 255, MR: 254,
							Opts: rec.L[rec.Opt]{{O: "template", T: &t}, {O: [...]string{"from", "", "", "to"}[ty], Num: rec.Ints{49, 50}}, {O: "all"}}}}}
						var b rec.Bytes
						for i := 0; len(b) < n; i++ {
							switch al {
							case 0:
								b = append(b, "abcde{fg€h"...)
							case 1:
								b = append(b, byte(i*7))
							case 2:
								b = append(b, ucs2.Encode([]rune("я😀z"))...)
							case 3:
								b = append(b, "şĞ€şa"...)
							}
						}
						a.Msgs = rec.L[rec.Sent]{{S: 1, Msg: b, Cps: rec.Cps(string(b))}}
						l = append(l, a)
					}
				}
			}
		}
	}
	// as many segments as there can be
	for _, w := range []bool{false, true} {
		// 4 septets each, or 3
		for _, n := range []int{255 * 4, 255*4 + 1, 255 * 3, 255*3 + 1, 254*4 + 1, 254*3 + 1} {
			t := withUDH(rec.TPDU{Dir: 1, FO: 1}, rec.IEs{{ID: 5, D: make(rec.Bytes, 128)}})
			b := make(rec.Bytes, n)
			for i := range b {
				b[i] = byte('a' + i%25)
			}
			l = append(l, &rec.E2EA{Order: 2, Rounds: 1, Senders: rec.L[rec.Sender]{{Wide: w,
				Opts: rec.L[rec.Opt]{{O: "template", T: &t}, {O: "to", Num: rec.Ints{49, 50}}}}},
				Msgs: rec.L[rec.Sent]{{S: 1, Msg: b, Cps: rec.Cps(string(b))}}})
		}
	}
	return l
}
