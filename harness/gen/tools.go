package gen

import (
	"encoding/hex"
	"strings"

	"verif/pin"
	"verif/pin/encoding/pdumode"
	"verif/rec"
)

// the arguments of a program hold no zero
func noZero(t rec.Ints) rec.Ints {
	v := append(rec.Ints{}, t...)
	for i := range v {
		if v[i] == 0 {
			v[i] = 1
		}
	}
	return v
}

func frame(ad rec.Addr, tpdu rec.Bytes) rec.Bytes {
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: pinAddr(ad)}, TPDU: tpdu}
	b, err := p.MarshalBinary()
	if err != nil {
		return append(rec.Bytes{0}, tpdu...)
	}
	return append(rec.Bytes{}, b...)
}

func (g G) smsc() rec.Addr {
	return rec.Addr{TOA: g.one(0x91, 0x91, 0x81, g.octet()), A: g.digits(g.small(20))}
}

func (g G) hex(b []byte) rec.Ints {
	s := hex.EncodeToString(b)
	switch g.IntN(4) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		v := []byte(s)
		for i := range v {
			if g.p(50) {
				v[i] = strings.ToUpper(s[i : i+1])[0]
			}
		}
		s = string(v)
	}
	return rec.Cps(s)
}

// the TPDUs of a message, as octets
func (g G) deliver(s sms.EncoderOption, from string, text string, opts ...sms.EncoderOption) []rec.Bytes {
	e := sms.NewEncoder(append([]sms.EncoderOption{s, sms.AsDeliver, sms.From(from), sms.WithAllCharsets}, opts...)...)
	for n := g.IntN(3); n > 0; n-- { // other references
		e.Encode([]byte(strings.Repeat("x", 200)))
	}
	l, err := e.Encode([]byte(text))
	if err != nil {
		return nil
	}
	var r []rec.Bytes
	for i := range l {
		b, err := l[i].MarshalBinary()
		if err != nil {
			return nil
		}
		r = append(r, append(rec.Bytes{}, b...))
	}
	return r
}

func (g G) message160() string {
	n := g.one(g.rng(0, 12), g.rng(1, 160), 160, 161, g.rng(150, 330), g.rng(300, 500))
	return noZero(g.anyText(n)).Text()
}

func (g G) sdeliver() *rec.SdeliverA {
	a := &rec.SdeliverA{P: g.p(40)}
	var l []rec.Bytes
	for n := g.one(1, 1, 2, 3, 4); n > 0; n-- {
		t := g.template(0)
		t.DCS = g.one(0, 0, 0, 4, 8, 0x10, 0xf1)
		t.OA = rec.Addr{}
		if g.p(20) {
			t = withUDH(t, g.plainUDH(g.rng(3, 30)))
		}
		from := g.digits(g.one(3, 3, g.small(14)))
		if g.p(50) {
			from = rec.Ints{49, 50, 51}
		}
		var m []rec.Bytes
		text := g.message160()
		if t.DCS == 8 {
			text = string(g.message(2, 2*g.rng(1, 200)))
		}
		m = g.deliver(sms.WithTemplate(*pinTPDU(t)), from.Text(), text)
		if len(m) > 1 {
			switch g.IntN(6) {
			case 0: // one is missing
				i := g.IntN(len(m))
				m = append(m[:i:i], m[i+1:]...)
			case 1: // one is there twice
				m = append(m, m[g.IntN(len(m))])
			case 2: // all
				m = append(m, m...)
			}
		}
		l = append(l, m...)
	}
	for n := g.one(0, 0, 1, 2, 4); n > 0; n-- {
		switch g.IntN(5) {
		case 0, 1:
			l = append(l, marshal(g.tpdu(g.one(0, 0, 2, 4))))
		case 2:
			b := marshal(g.tpdu(g.one(0, 2, 4)))
			l = append(l, dropTo(b, g.IntN(len(b)+1)))
		case 3: // another element in place of the concatenation
			t := g.tpdu(g.one(0, 0, 2, 4))
			t.UDH = rec.IEs{{ID: g.one(0, 8, 8), D: rec.Bytes{byte(g.IntN(2)), byte(g.IntN(4)), byte(g.IntN(4)), 1}[:g.one(3, 3, 4)]}}
			t.FO |= 0x40
			l = append(l, marshal(t))
		case 4:
			l = append(l, g.bytes(g.small(30)))
		}
	}
	switch g.IntN(3) {
	case 0:
		g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	case 1:
		for i := 0; i+1 < len(l); i++ {
			if g.p(50) {
				l[i], l[i+1] = l[i+1], l[i]
			}
		}
	}
	for _, b := range l {
		if a.P {
			b = frame(g.smsc(), b)
		}
		a.Args = append(a.Args, g.hex(b))
	}
	if len(a.Args) == 0 && g.p(50) {
		a.Args = rec.L[rec.Ints]{rec.Cps("00")}
	}
	if n := len(a.Args); n > 0 && g.p(8) { // one that is no hex, or no frame
		switch x := a.Args[g.IntN(n)]; g.IntN(5) {
		case 0:
			a.Args[g.IntN(n)] = append(x, 'g', '0')
		case 1:
			a.Args[g.IntN(n)] = append(x, '0')
		case 2:
			a.Args[g.IntN(n)] = rec.Cps(oneOf(g, "0591", "ff", "0x", "zz", "", "03912143"))
		case 3:
			a.Args[g.IntN(n)] = x[:g.IntN(len(x)+1)]
		case 4:
			a.P = !a.P
		}
	}
	return a
}

func (g G) sdecode() *rec.SdecodeA {
	tu := randomTPDU("tu", g).(*rec.TuA)
	a := &rec.SdecodeA{O: tu.Dir == 1, P: g.p(40)}
	b := tu.B
	if g.p(50) { // a whole one
		ty := g.IntN(6)
		b = marshal(g.tpdu(ty))
		a.O = ty%2 == 1
	}
	if g.p(4) {
		a.O = !a.O
	}
	if a.P {
		b = frame(g.smsc(), b)
		if g.p(10) {
			b = g.mutate(b)
		}
	}
	a.S = g.hex(b)
	if g.p(2) {
		a.Extra = g.one(-1, 1)
	}
	if g.p(4) && len(a.S) > 0 {
		switch i := g.IntN(len(a.S)); g.IntN(3) {
		case 0:
			a.S[i] = g.one('g', ' ', 'G', '/', ':', '@', '`', 'x', 0xe9)
		case 1:
			a.S = append(a.S[:i], a.S[i+1:]...)
		case 2:
			a.S = a.S[:i]
		}
	}
	return a
}

func (g G) toolText() (rec.Bytes, rec.Ints) {
	n := g.one(g.rng(1, 12), g.rng(1, 170), g.rng(66, 72), g.rng(130, 142), g.rng(150, 162), g.rng(300, 310), g.rng(300, 700))
	if g.p(1) {
		n = g.one(0, g.rng(255*67-2, 255*67+2), g.rng(255*153-2, 255*153+2))
		c := g.one('a', 'a', 0x44f, '{')
		v := make(rec.Ints, n)
		for i := range v {
			v[i] = c
		}
		return rec.Bytes(v.Text()), v
	}
	v := noZero(g.anyText(n))
	return rec.Bytes(v.Text()), v
}

func (g G) language() int {
	return g.one(0, 0, g.rng(1, 13), g.rng(1, 13), g.rng(1, 13), g.rng(1, 3), g.one(-1, 14, 255, 256))
}

// text in the characters of a language, so that it is of use
func (g G) languageText(nli int) (rec.Bytes, rec.Ints) {
	if nli < 1 || nli > 13 || g.p(40) {
		return g.toolText()
	}
	n := g.one(g.rng(1, 12), g.rng(140, 162), g.rng(290, 310), g.rng(1, 500))
	var v rec.Ints
	switch g.IntN(4) {
	case 0:
		v = g.text(n, nli, nli, 0)
	case 1:
		v = g.text(n, nli, nli, 0, 0, 1)
	case 2:
		v = g.text(n, nli, nli, 2, 2, 1)
	case 3:
		v = g.text(n, nli, nli, 0, 3)
	}
	return rec.Bytes(v.Text()), v
}

func (g G) phone() rec.Ints {
	d := g.digits(g.one(g.rng(1, 15), g.rng(1, 30)))
	switch g.IntN(12) {
	case 0, 1, 2:
		d = append(rec.Ints{43}, d...)
	case 3:
		d[g.IntN(len(d))] = g.one('g', 'A', '+', ' ', '-', 'd', 0xe9, 0x661)
	case 4:
		if g.p(30) {
			d = g.digits(g.near(255, 3))
		}
	case 5:
		if g.p(50) {
			d = rec.Ints{43}
		}
	}
	return d
}

func (g G) tools(k string) any {
	switch k {
	case "sdecode":
		return g.sdecode()
	case "sdeliver":
		return g.sdeliver()
	case "ssubmit":
		nli := g.language()
		m, c := g.languageText(nli)
		return &rec.SsubmitA{Num: g.phone(), Msg: m, Cps: c, NLI: nli}
	case "scount":
		nli := g.language()
		m, c := g.languageText(nli)
		return &rec.ScountA{Msg: m, Cps: c, NLI: nli}
	}
	return &rec.CharsA{}
}

func fixedTools(k string) []any {
	var l []any
	texts := []string{"", "a", "@", " ", "{", "[€]", "è", "şğ", "şğ€", "ṩ", "hello 😁", "я", "ت", "؎ت",
		strings.Repeat("a", 160), strings.Repeat("a", 161), strings.Repeat("a", 306), strings.Repeat("a", 307),
		strings.Repeat("{", 80), strings.Repeat("{", 81), strings.Repeat("a", 152) + "{{" + strings.Repeat("b", 200),
		strings.Repeat("a", 200) + "€", strings.Repeat("я", 70), strings.Repeat("я", 71), strings.Repeat("я", 134), strings.Repeat("я", 135),
		strings.Repeat("я", 66) + "😁" + strings.Repeat("я", 66), strings.Repeat("ş", 155), strings.Repeat("ş", 156), strings.Repeat("ş", 149), strings.Repeat("ş", 298), strings.Repeat("ş", 299)}
	switch k {
	case "chars":
		l = append(l, &rec.CharsA{})
	case "scount", "ssubmit":
		for _, t := range texts {
			for _, nli := range []int{0, 1, 3, 13} {
				if k == "scount" {
					l = append(l, &rec.ScountA{Msg: rec.Bytes(t), Cps: rec.Cps(t), NLI: nli})
				} else {
					for _, num := range []string{"12345", "+12345", "123456", "", "12x"} {
						if len(t) < 20 || num == "12345" {
							l = append(l, &rec.SsubmitA{Num: rec.Cps(num), Msg: rec.Bytes(t), Cps: rec.Cps(t), NLI: nli})
						}
					}
				}
			}
		}
	case "sdecode":
		g := New(7, 7)
		for _, s := range []string{"", "0", "00", "zz", "0g", "000"} {
			for i := 0; i < 4; i++ {
				l = append(l, &rec.SdecodeA{S: rec.Cps(s), P: i&1 == 1, O: i&2 == 2})
				if s == "00" {
					l = append(l, &rec.SdecodeA{S: rec.Cps(s), P: i&1 == 1, O: i&2 == 2, Extra: 2*(i%2) - 1})
				}
			}
		}
		for ty := 0; ty < 6; ty++ {
			// every first octet, then every octet of the rest of the head
			for i := 0; i < 400; i++ {
				t := g.tpdu(ty)
				b := marshal(t)
				switch {
				case b == nil:
				case i < 64:
					b[0] = byte(i<<2) | b[0]&3
				case i < 320:
					t.UD = g.ud(t.DCS, (i-64)%20)
					b = marshal(t)
				case i < 330 && len(t.UD) > 0:
					t.UD = g.ud(t.DCS, 140)
					b = marshal(t)
				}
				if b == nil {
					continue
				}
				if i%3 == 0 {
					b = frame(g.smsc(), b)
				}
				l = append(l, &rec.SdecodeA{S: g.hex(b), P: i%3 == 0, O: ty%2 == 1})
			}
		}
		// every kind and amount of validity period
		for c := 0; c < 256; c++ {
			for f := 0; f < 3; f++ {
				b := rec.Bytes{byte([]int{0x10, 0x08, 0x08}[f]) | 1, byte(c), 4, 0x91, 0x21, 0x43, 0, 0}
				switch f {
				case 0:
					b = append(b, byte(c))
				case 1:
					b = append(b, byte(c), byte([]int{0, 7, 200, 0x21}[c&3]*min(1, c&3)), 0, 0, 0, 0, 0)
					if c&7 == 3 {
						copy(b[len(b)-6:], []byte{bcdOctet(c % 100), bcdOctet(c * 7 % 60), bcdOctet(c * 11 % 60)})
					}
				case 2:
					b = append(b, 3, bcdOctet(c%24), bcdOctet(c*7%60), bcdOctet(c*11%60), 0, 0, 0)
				}
				l = append(l, &rec.SdecodeA{S: rec.Cps(hex.EncodeToString(append(b, 1, 0x41))), O: true})
			}
			// and coding scheme
			l = append(l, &rec.SdecodeA{S: rec.Cps(hex.EncodeToString([]byte{1, 0, 2, 0x91, 0x21, 0, byte(c), 2, 0x41, 0x41})), O: true})
		}
	case "sdeliver":
		g := New(9, 9)
		for i := 0; i < 60; i++ {
			m := g.deliver(sms.AsDeliver, "123", strings.Repeat("ab€", 20+5*i))
			o := g.deliver(sms.AsDeliver, "1234", strings.Repeat("de", 100+5*i))
			a := &rec.SdeliverA{P: i%2 == 1}
			var l2 []rec.Bytes
			switch i % 4 {
			case 0:
				l2 = append(l2, m...)
			case 1:
				l2 = append(append(append(l2, m...), rec.Bytes{}, rec.Bytes{3}), o...)
			case 2:
				for j := len(m) - 1; j >= 0; j-- {
					l2 = append(l2, m[j])
					if j < len(o) {
						l2 = append(l2, o[j])
					}
				}
			case 3:
				l2 = append(append(l2, m[1:]...), o[:len(o)-1]...)
			}
			for _, b := range l2 {
				if a.P {
					b = frame(rec.Addr{TOA: 0x91, A: rec.Ints{49, 50}}, b)
				}
				a.Args = append(a.Args, rec.Cps(hex.EncodeToString(b)))
			}
			if i >= 40 { // then one that is no hex or no frame, and the others again
				x := []string{"zz", "0", "0g", "ABCDEG", "00 ", "0591", "ff91"}[i%7]
				if a.P || i%7 < 5 {
					k := i % (len(a.Args) + 1)
					a.Args = append(append(append(rec.L[rec.Ints]{}, a.Args[:k]...), rec.Cps(x)), a.Args[k:]...)
				}
			}
			l = append(l, a)
		}
		l = append(l, &rec.SdeliverA{}, &rec.SdeliverA{P: true})
	}
	return l
}
