package drv

import (
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/rec"
)

// variables that are read into again and again
type used struct {
	t   tpdu.TPDU
	ad  tpdu.Address
	ts  tpdu.Timestamp
	vp  tpdu.ValidityPeriod
	udh tpdu.UserDataHeader
	pdu pdumode.PDU
	buf [600]byte
}

// octets, in the memory that those of the reads before were in
func (u *used) octets(b []byte) []byte {
	if len(b) > len(u.buf) {
		return cp(b)
	}
	for i := range u.buf {
		u.buf[i] = 0xee
	}
	return u.buf[:copy(u.buf[:], b):len(b)]
}

// read reads into one of them and keeps what it holds then. The function
// returned says what that is, whenever it is called.
func (u *used) read(s rec.Sub) func() any {
	switch a := s.A.(type) {
	case *rec.TuA:
		if a.Via != 1 {
			// into a new one
			t, err := unmarshal(u.octets(a.B), a)
			if err == nil {
				return func() any { return &rec.TuR{OK: true, T: fromTPDU(t)} }
			}
			return func() any { return &rec.TuR{} }
		}
		u.t.Direction = tpdu.Direction(a.Dir)
		if u.t.UnmarshalBinary(u.octets(a.B)) == nil {
			t := u.t
			return func() any { return &rec.TuR{OK: true, T: fromTPDU(&t)} }
		}
		return func() any { return &rec.TuR{} }
	case *rec.AddruA:
		if n, err := u.ad.UnmarshalBinary(u.octets(a.B)); err == nil {
			ad := u.ad
			return func() any { return &rec.AddruR{OK: true, N: n, Ad: fromAddr(ad)} }
		}
		return func() any { return &rec.AddruR{} }
	case *rec.TsuA:
		if u.ts.UnmarshalBinary(u.octets(a.B)) == nil {
			ts := u.ts
			return func() any { return &rec.TsuR{OK: true, T: fromTime(ts)} }
		}
		return func() any { return &rec.TsuR{} }
	case *rec.VpuA:
		if n, err := u.vp.UnmarshalBinary(u.octets(a.B), tpdu.ValidityPeriodFormat(a.F)); err == nil {
			vp := u.vp
			return func() any {
				m, err := vp.MarshalBinary()
				return &rec.VpuR{OK: true, N: n, VP: fromVP(vp), MOK: err == nil, M: m}
			}
		}
		return func() any { return &rec.VpuR{} }
	case *rec.UdhuA:
		if n, err := u.udh.UnmarshalBinary(u.octets(a.B)); err == nil {
			udh := u.udh
			return func() any { return &rec.UdhuR{OK: true, N: n, IEs: fromUDH(udh)} }
		}
		return func() any { return &rec.UdhuR{} }
	case *rec.PduuA:
		if a.Via == 1 {
			p, err := pdumode.UnmarshalBinary(u.octets(a.B))
			return func() any { return fromPDU(p, err) }
		}
		err := u.pdu.UnmarshalBinary(u.octets(a.B))
		p := u.pdu
		return func() any { return fromPDU(&p, err) }
	case *rec.PduhA:
		err := u.pdu.UnmarshalHexString(a.S.Text())
		p := u.pdu
		return func() any { return fromPDU(&p, err) }
	}
	return func() any { return struct{}{} }
}

func reuse(a *rec.ReuseA) *rec.ReuseR {
	r := &rec.ReuseR{}
	var u used
	var seen []func() any
	for _, s := range a.Calls {
		seen = append(seen, u.read(s))
	}
	u.octets(nil)
	for _, f := range seen {
		r.Calls = append(r.Calls, rec.SubR{R: f()})
	}
	return r
}
