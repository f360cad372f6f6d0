package drv

import (
	"errors"
	"regexp"
	"strconv"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"verif/rec"
)

var numeral = regexp.MustCompile(`0[xX][0-9a-fA-F]+|U\+[0-9A-F]+|-?[0-9]+`)

// numerals returns the numbers that a text has.
func numerals(s string) rec.Ints {
	var r rec.Ints
	for _, t := range numeral.FindAllString(s, -1) {
		base := 10
		switch {
		case strings.HasPrefix(t, "U+"):
			t, base = t[2:], 16
		case len(t) > 1 && strings.ToLower(t[:2]) == "0x":
			t, base = t[2:], 16
		}
		if v, err := strconv.ParseInt(t, base, 31); err == nil {
			r = append(r, int(v))
		}
	}
	return r
}

// errOf makes the call and returns what its error says.
func errOf(a *rec.ErrA) *rec.ErrR {
	var err error
	switch a.O {
	case "genc":
		e := encoder(a.L, a.S, a.Via)
		_, err = e.Encode([]byte(a.Cps.Text()))
	case "gdec":
		d := decoder(a.L, a.S, true, a.Via)
		_, err = d.Decode(cp(a.B))
	case "semie":
		_, err = semioctet.Encode([]byte(a.Cps.Text()))
	case "bcd":
		_, err = bcd.Encode(a.N)
	case "bcds":
		_, err = bcd.EncodeSigned(a.N)
	case "bcdd":
		_, err = bcd.Decode(byte(a.N))
	case "bcdds":
		_, err = bcd.DecodeSigned(byte(a.N))
	case "udec":
		_, err = ucs2.Decode(cp(a.B))
	case "dud":
		_, err = tpdu.DecodeUserData(cp(a.B), nil, tpdu.AlphaUCS2)
	case "tsu":
		var t tpdu.Timestamp
		err = t.UnmarshalBinary(cp(a.B))
	case "addru":
		var ad tpdu.Address
		_, err = ad.UnmarshalBinary(cp(a.B))
	case "addrm":
		// N: the type of address
		ad := tpdu.Address{TOA: byte(a.N), Addr: a.Cps.Text()}
		_, err = ad.MarshalBinary()
	case "typem":
		// N: the direction, S: the first octet
		t := tpdu.TPDU{Direction: tpdu.Direction(a.N), FirstOctet: tpdu.FirstOctet(a.S)}
		_, err = t.MarshalBinary()
	case "typeu":
		o := sms.AsMT
		if a.N == 1 {
			o = sms.AsMO
		}
		_, err = sms.Unmarshal(append(rec.Bytes{byte(a.S)}, a.B...), o)
	case "col":
		c := sms.NewCollector()
		_, err = c.Collect(tpdu.TPDU{Direction: tpdu.Direction(a.N), FirstOctet: tpdu.FirstOctet(a.S),
			UDH: tpdu.UserDataHeader{{ID: 0, Data: []byte{1, 2, 1}}}, UD: []byte{1}})
		c.Close()
	default:
		panic("unknown op " + a.O)
	}
	if err == nil {
		return &rec.ErrR{K: "none"}
	}
	r := &rec.ErrR{K: "other", T: numerals(err.Error())}
	var de tpdu.DecodeError
	if errors.As(err, &de) {
		err = de.Err
	}
	var iu gsm7.ErrInvalidUTF8
	var is gsm7.ErrInvalidSeptet
	var id semioctet.ErrInvalidDigit
	var ii bcd.ErrInvalidInteger
	var io bcd.ErrInvalidOctet
	var ds ucs2.ErrDanglingSurrogate
	var us tpdu.ErrUnsupportedSmsType
	switch {
	case errors.As(err, &iu):
		r.K, r.V = "char", rec.Ints{int(iu)}
	case errors.As(err, &is):
		r.K, r.V = "septet", rec.Ints{int(is)}
	case errors.As(err, &id):
		r.K, r.V = "digit", rec.Ints{int(id)}
	case errors.As(err, &ii):
		r.K, r.V = "integer", rec.Ints{int(ii)}
	case errors.As(err, &io):
		r.K, r.V = "octet", rec.Ints{int(io)}
	case errors.As(err, &us):
		r.K, r.V = "type", rec.Ints{int(us)}
	case errors.As(err, &ds):
		r.K = "dangling"
		for _, b := range ds {
			r.V = append(r.V, int(b))
		}
	case errors.Is(err, ucs2.ErrInvalidLength), errors.Is(err, tpdu.ErrOddUCS2Length):
		r.K = "length"
	case errors.Is(err, tpdu.ErrUnderflow):
		r.K = "short"
	}
	return r
}
