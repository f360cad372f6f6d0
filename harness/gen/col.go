package gen

import "verif/rec"

func concat8(ref, n, q int) rec.IEs {
	return rec.IEs{{ID: 0, D: rec.Bytes{byte(ref), byte(n), byte(q)}}}
}

func concat16(ref, n, q int) rec.IEs {
	return rec.IEs{{ID: 8, D: rec.Bytes{byte(ref >> 8), byte(ref), byte(n), byte(q)}}}
}

// kinds of TPDUs, by the names GenCollector uses
func namedPdus() rec.L[rec.ColP] {
	one, two := rec.Ints{49}, rec.Ints{50}
	l := rec.L[rec.ColP]{
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 2, 1)}, // a1
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 2, 2)}, // a2
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 3, 1)}, // b1
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 3, 2)}, // b2
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 3, 3)}, // b3
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(2, 2, 1)}, // r1
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(2, 2, 2)}, // r2
		{Ty: 3, TOA: 145, Addr: one, UDH: concat8(1, 2, 1)}, // s1
		{Ty: 0, TOA: 129, Addr: one, UDH: concat8(1, 2, 2)}, // t2
		{Ty: 0, TOA: 145, Addr: two, UDH: concat8(1, 2, 1)}, // n1
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 2, 0)}, // z0
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 2, 3)}, // o3
		{Ty: 5, TOA: 145, Addr: one, UDH: concat8(1, 2, 1)}, // u1
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 1, 1)}, // x1
		{Ty: 0, TOA: 145, Addr: one, UDH: concat8(1, 2, 1)}, // a1 with other contents
	}
	for i := range l {
		l[i].ID = i + 1
	}
	return l
}

func collect(p int) rec.ColOp { return rec.ColOp{O: "collect", P: p} }
func sleep(n int) rec.ColOp   { return rec.ColOp{O: "sleep", N: n} }

var pipes, shut = rec.ColOp{O: "pipes"}, rec.ColOp{O: "close"}

type ops = rec.L[rec.ColOp]

// many: the first segments of many messages, then the second ones
func many(n int) *rec.ColA {
	a := &rec.ColA{Handler: true, Settle: true, Clients: rec.L[ops]{nil}}
	for q := 1; q <= 2; q++ {
		for i := 0; i < n; i++ {
			a.Pdus = append(a.Pdus, rec.ColP{ID: len(a.Pdus) + 1, TOA: 145, Addr: rec.Ints{49}, UDH: concat16(i*7, 2, q)})
			a.Clients[0] = append(a.Clients[0], collect(len(a.Pdus)))
		}
	}
	return a
}

// long: all n segments of a message in some order, and after it all again
func long(n, step int) *rec.ColA {
	a := &rec.ColA{Handler: true, Settle: true, Clients: rec.L[ops]{nil}}
	for q := 1; q <= n; q++ {
		a.Pdus = append(a.Pdus, rec.ColP{ID: q, TOA: 145, Addr: rec.Ints{49}, UDH: concat8(3, n, q)})
	}
	for q := 0; q < n; q++ {
		a.Clients[0] = append(a.Clients[0], collect(1+q*step%n))
		if q == n/2 {
			a.Clients[0] = append(a.Clients[0], collect(1), pipes)
		}
	}
	a.Clients[0] = append(a.Clients[0], pipes, collect(n), pipes)
	return a
}

// alikes are TPDUs of messages of two segments that are easily taken for one
// another: the first segments at even places, the second ones after each.
func alikes() []rec.L[rec.ColP] {
	var l []rec.L[rec.ColP]
	both := func(p rec.L[rec.ColP], ty, toa int, addr string, h func(ref, n, q int) rec.IEs, ref int) rec.L[rec.ColP] {
		var a rec.Ints
		for _, c := range addr {
			a = append(a, int(c))
		}
		for q := 1; q <= 2; q++ {
			p = append(p, rec.ColP{ID: len(p) + 1, Ty: ty, TOA: toa, Addr: a, UDH: h(ref, 2, q)})
		}
		return p
	}
	for _, toa := range []int{129, 145, 208} {
		for _, ty := range []int{0, 3} {
			var p rec.L[rec.ColP]
			for _, a := range []string{"", "0", "00", "1", "01", "001", "10", "100", "12", "012", "112", "0012", "120", "21", "123", "1234", "12345678901", "2345678901", "+12", "*12", "#12", "12#", "1*2", "1a2", "1A2", "a", "A", "b", " ", "12 ", " 12", "1 2", "f", "12f", "é", "e", "É", "\u0130", "i", "I", "12\x00"} {
				p = both(p, ty, toa, a, concat8, 1)
			}
			l = append(l, p)
		}
	}
	for _, ty := range []int{0, 3} {
		// types of address, all of them
		for b := 0; b < 256; b += 32 {
			var p rec.L[rec.ColP]
			for i := 0; i < 32; i++ {
				p = both(p, ty, b+i, "12", concat8, 1)
			}
			l = append(l, p)
		}
		for b := 0; b < 8; b++ {
			var p rec.L[rec.ColP]
			for i := 0; i < 256; i += 8 {
				p = both(p, ty, b+i, "12", concat8, 1)
			}
			l = append(l, p)
		}
		// long addresses, each differing from the first in one place
		{
			const long = "12345678901234567890123456789012345678901"
			var p rec.L[rec.ColP]
			p = both(p, ty, 145, long, concat8, 1)
			for i := 0; i < len(long); i++ {
				p = both(p, ty, 145, long[:i]+"#"+long[i+1:], concat8, 1)
			}
			l = append(l, p)
			p = nil
			for i := 0; i < len(long); i++ {
				p = both(p, ty, 145, long[:i], concat8, 1)
			}
			l = append(l, p)
		}
		// references
		var p rec.L[rec.ColP]
		for _, r := range []int{0, 1, 2, 9, 10, 16, 21, 100, 127, 128, 129, 254, 255} {
			p = both(p, ty, 145, "1", concat8, r)
		}
		l = append(l, p)
		p = nil
		for _, r := range []int{0, 1, 2, 255, 256, 257, 512, 4096, 32767, 32768, 32769, 65280, 65534, 65535} {
			p = both(p, ty, 145, "1", concat16, r)
		}
		l = append(l, p)
	}
	// sizes, and what is between the parts of a key
	for _, ty := range []int{0, 3} {
		var p rec.L[rec.ColP]
		for _, n := range []int{2, 3, 12, 13, 20, 21, 22, 112, 121, 122, 123, 200, 212, 254, 255} {
			p = both(p, ty, 145, "1", func(ref, _, q int) rec.IEs { return concat8(ref, n, q) }, 1)
			p = both(p, ty, 145, "1", func(ref, _, q int) rec.IEs { return concat8(ref, n, q) }, 11)
			p = both(p, ty, 145, "1:1", func(ref, _, q int) rec.IEs { return concat8(ref, n, q) }, 1)
			p = both(p, ty, 145, "11", func(ref, _, q int) rec.IEs { return concat8(ref, n, q) }, 1)
		}
		l = append(l, p)
	}
	return l
}

func fixedCol(k string) []any {
	var l []any
	switch k {
	case "col07", "col08", "col09":
		// all short histories of a few kinds, then looked at
		alpha := ops{collect(1), collect(2), collect(3), collect(4), collect(8), collect(9), collect(12), collect(13), collect(15), sleep(500), sleep(1000), shut}
		d := 1000
		if k == "col07" {
			alpha, d = ops{collect(1), collect(2), collect(3), collect(4), collect(5), collect(6), collect(7), collect(8), collect(9), collect(10), collect(14)}, 0
		}
		for i := range alpha {
			for j := range alpha {
				for m := range alpha {
					l = append(l, &rec.ColA{D: d, Handler: true, Settle: true, Pdus: namedPdus(),
						Clients: rec.L[ops]{{alpha[i], alpha[j], pipes, alpha[m], pipes, collect(2)}}})
				}
			}
		}
		if k == "col07" {
			for _, pdus := range alikes() {
				var o ops
				for i := range pdus {
					o = append(o, collect(1+i))
				}
				// once in the order of the first segments, once in another
				l = append(l, &rec.ColA{Handler: true, Settle: true, Pdus: pdus, Clients: rec.L[ops]{append(o, pipes)}})
				var x ops
				for i := 0; i < len(pdus); i += 2 {
					x = append(x, collect(1+i))
				}
				x = append(x, pipes)
				for i := len(pdus) - 1; i > 0; i -= 2 {
					x = append(x, collect(1+i))
				}
				l = append(l, &rec.ColA{Handler: true, Settle: true, Pdus: pdus, Clients: rec.L[ops]{append(x, pipes)}})
			}
			for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255} {
				mixed := 7
				if n%7 == 0 {
					mixed = 11
				}
				l = append(l, long(n, 1), long(n, n-1), long(n, mixed))
			}
			for _, n := range []int{300, 1100} {
				l = append(l, many(n))
			}
			break
		}
		// messages of many segments of which some came, in some order
		for _, n := range []int{5, 8, 9, 10, 16, 17, 33, 64, 65, 129, 255} {
			for _, m := range []int{1, n / 2, n - 1} {
				a := long(n, n-1)
				a.D = 50
				a.Clients[0] = append(a.Clients[0][:m:m], pipes, sleep(49), collect(1+n/3), sleep(49), pipes, sleep(2), pipes, collect(1), sleep(60), pipes)
				l = append(l, a)
			}
		}
		for _, d := range []int{0, 7} {
			for _, h := range []bool{true, false} {
				for i := range alpha {
					l = append(l, &rec.ColA{D: d, Handler: h, Settle: true, Pdus: namedPdus(),
						Clients: rec.L[ops]{{collect(1), sleep(6), alpha[i], pipes, sleep(1), pipes, sleep(5), pipes, sleep(1), pipes, sleep(3600000), pipes, collect(2)}}})
				}
			}
		}
	case "colf":
		// steps that find the timer fired and its cleanup waiting for the lock
		for _, x := range []ops{
			{collect(2)}, {collect(1)}, {pipes}, {shut}, {collect(4)}, {collect(3), collect(4)}, {collect(2), collect(1)}, {collect(2), shut}, {pipes, collect(2), pipes},
		} {
			for _, first := range []int{1, 3} {
				for _, h := range []ops{{}, {pipes, collect(5)}, {shut}} {
					for _, handler := range []bool{true, false} {
						if len(h) > 0 && !handler {
							continue
						}
						tail := append(ops{sleep(1500)}, x...)
						l = append(l, &rec.ColA{D: 4000, Handler: handler, Real: true, HOps: h, Pdus: namedPdus(), Clients: rec.L[ops]{
							{collect(first), {O: "lock"}, sleep(9000), {O: "unlock"}, sleep(1000), collect(3), collect(2), pipes, sleep(6000), collect(5)},
							append(tail, pipes, collect(4)),
						}})
					}
				}
			}
		}
	}
	return l
}

// pdus of some messages with few differences
func (g G) colPdus(n int) rec.L[rec.ColP] {
	var l rec.L[rec.ColP]
	addrs := []rec.Ints{{49, 50}, {49, 50, 51}, {49}, {}, {97, 58, 49}, {97}, {0x20ac, 58, 50, 58, 50}, {49, 50, 58, 49}}
	toas := []int{145, 129, 208, 0}
	na, nt := g.rng(1, 4), g.rng(1, 3)
	base := g.IntN(len(addrs))
	for i := 0; i < n; i++ {
		p := rec.ColP{ID: 1 + i, Ty: g.one(0, 0, 0, 3, 3), TOA: toas[g.IntN(nt)], Addr: addrs[(base+g.IntN(na))%len(addrs)]}
		if g.p(6) {
			p.Ty = g.IntN(8)
		}
		total := g.one(2, 2, 3, 3, 4)
		if g.p(5) {
			total = g.one(0, 1, 5, 12, 255)
		}
		q := g.rng(1, max(1, total))
		if g.p(6) {
			q = g.one(0, total+1, 255)
		}
		ref := g.one(1, 1, 1, 2, 12, 255)
		if g.p(30) {
			p.UDH = concat16(256*ref+g.one(0, 1), total, q)
		} else {
			p.UDH = concat8(ref, total, q)
		}
		switch g.IntN(12) {
		case 0:
			p.UDH = nil
		case 1:
			p.UDH = append(rec.IEs{{ID: 36, D: g.bytes(1)}}, p.UDH...)
		case 2:
			p.UDH = append(p.UDH, rec.IE{ID: 5, D: g.bytes(4)})
		case 3:
			// an element of the wrong length
			p.UDH = rec.IEs{{ID: g.one(0, 8), D: g.bytes(g.IntN(6))}}
		case 4:
			// one before that counts for nothing
			p.UDH = append(rec.IEs{{ID: p.UDH[0].ID, D: g.bytes(len(p.UDH[0].D))}}, p.UDH...)
		}
		l = append(l, p)
	}
	return l
}

// whole: all segments of a few messages
func (g G) wholePdus(m int) rec.L[rec.ColP] {
	var l rec.L[rec.ColP]
	for i := 0; i < m; i++ {
		p := rec.ColP{Ty: g.one(0, 0, 3), TOA: g.one(145, 145, 129), Addr: rec.Ints{49, 48 + g.IntN(2)}}
		n, ref, wide := g.one(2, 2, 3, 3, 4, 5), g.IntN(3), g.p(30)
		for q := 1; q <= n; q++ {
			if wide {
				p.UDH = concat16(256+ref, n, q)
			} else {
				p.UDH = concat8(ref, n, q)
			}
			l = append(l, p)
		}
	}
	for _, p := range l {
		if g.p(15) {
			// other contents
			l = append(l, p)
		}
	}
	for i := range l {
		l[i].ID = i + 1
	}
	return l
}

func (g G) colOp(k string, a *rec.ColA, times []int) rec.ColOp {
	switch x := g.IntN(100); {
	case k == "col07" && x >= 84:
		return pipes
	case x < 72:
		return collect(1 + g.IntN(len(a.Pdus)))
	case x < 84:
		return sleep(times[g.IntN(len(times))])
	case x < 98:
		return pipes
	}
	return shut
}

func randomCol(k string, g G) any {
	a := &rec.ColA{D: g.one(0, 10, 10, 10), Handler: g.p(70), Settle: k != "colc"}
	switch k {
	case "col07":
		a.D = g.one(0, 3600000)
	case "col09":
		a.D = 10
	}
	times := []int{1, 4, 5, 6, 9, 10, 10, 11, 20}
	if g.p(50) {
		a.Pdus = g.wholePdus(g.rng(1, 4))
	} else {
		a.Pdus = g.colPdus(g.rng(2, 14))
	}
	// what handlers do makes the order of expiries matter
	if k == "colc" && a.Handler && g.p(50) {
		for n := g.rng(1, 3); n > 0; n-- {
			a.HOps = append(a.HOps, g.colOp(k, a, []int{1, 3}))
		}
	}
	switch k {
	case "col07", "col08", "col09":
		var o ops
		if g.p(50) {
			// every TPDU about once, shuffled
			for _, i := range g.Perm(len(a.Pdus)) {
				o = append(o, collect(i+1))
				for g.p(25) {
					o = append(o, g.colOp(k, a, times))
				}
			}
		} else {
			for n := g.rng(1, 30); n > 0; n-- {
				o = append(o, g.colOp(k, a, times))
			}
		}
		a.Clients = rec.L[ops]{o}
	case "colc":
		if g.p(60) {
			a.D = 10
		}
		nc := g.one(1, 2, 2, 3, 4)
		a.Clients = make(rec.L[ops], nc)
		if g.p(50) {
			for _, i := range g.Perm(len(a.Pdus)) {
				c := g.IntN(nc)
				for g.p(20) {
					a.Clients[c] = append(a.Clients[c], sleep(g.one(5, 10, 10)))
				}
				a.Clients[c] = append(a.Clients[c], collect(i+1))
			}
		}
		for c := range a.Clients {
			for n := g.rng(1, 5); n > 0; n-- {
				o := g.colOp(k, a, []int{5, 10, 10, 10, 20})
				at := g.IntN(len(a.Clients[c]) + 1)
				a.Clients[c] = append(a.Clients[c][:at:at], append(ops{o}, a.Clients[c][at:]...)...)
			}
		}
	case "colf":
		f := fixedCol("colf")
		return f[g.IntN(len(f))]
	}
	return a
}
