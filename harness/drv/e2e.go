package drv

import (
	"math/rand/v2"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/rec"
)

// wide encodes as an Encoder does, but with 16 bit concatenation references
func wide(s rec.Sender, mr, cr tpdu.Counter, msg []byte) ([]tpdu.TPDU, error) {
	t := toTPDU(*s.Opts[0].T)
	var uopts []tpdu.UDEncodeOption
	for _, o := range s.Opts[1:] {
		switch o.O {
		case "to":
			t.DA = tpdu.NewAddress(tpdu.FromNumber(o.Num.Text()))
		case "from":
			t.OA = tpdu.NewAddress(tpdu.FromNumber(o.Num.Text()))
		case "all":
			uopts = append(uopts, tpdu.WithAllCharsets)
		case "charset":
			uopts = append(uopts, tpdu.WithCharset(o.NLI...))
		case "locking":
			uopts = append(uopts, tpdu.WithLockingCharset(o.NLI...))
		case "shift":
			uopts = append(uopts, tpdu.WithShiftCharset(o.NLI...))
		}
	}
	if a, _ := t.Alphabet(); a != tpdu.Alpha8Bit && a != tpdu.AlphaUCS2 {
		ud, udh, alpha := tpdu.EncodeUserData(msg, uopts...)
		d, err := t.DCS.WithAlphabet(alpha)
		if err != nil {
			return nil, sms.ErrDcsConflict
		}
		t.SetDCS(byte(d))
		if len(udh) > 0 {
			t.SetUDH(append(append(tpdu.UserDataHeader{}, t.UDH...), udh...))
		}
		msg = ud
	}
	pdus := t.Segment(msg, tpdu.With16BitConcatRef, tpdu.WithMR(mr), tpdu.WithConcatRef(cr))
	if len(pdus) == 0 && len(msg) > 0 {
		return nil, sms.ErrMessageTooLong
	}
	return pdus, nil
}

func e2e(a *rec.E2EA) *rec.E2ER {
	r := &rec.E2ER{}
	encs := make([]*sms.Encoder, len(a.Senders))
	mrs := make([]*counter, len(encs))
	crs := make([]*counter, len(encs))
	for i, s := range a.Senders {
		mrs[i], crs[i] = &counter{s.MR}, &counter{s.CR}
		if !s.Wide {
			encs[i] = sms.NewEncoder(toOpts(s.Opts)...)
			encs[i].MsgCount, encs[i].ConcatRef = mrs[i], crs[i]
		}
	}
	all := make([][]tpdu.TPDU, len(a.Msgs))
	var in [][2]int
	for i, m := range a.Msgs {
		var err error
		s := m.S - 1
		if a.Senders[s].Wide {
			all[i], err = wide(a.Senders[s], mrs[s], crs[s], cp(m.Msg))
		} else {
			all[i], err = encs[s].Encode(cp(m.Msg), toOpts(m.Opts)...)
		}
		r.Errs = append(r.Errs, encErr(err))
		r.N = append(r.N, len(all[i]))
		for q := range all[i] {
			in = append(in, [2]int{i, q})
		}
	}
	rnd := rand.New(rand.NewPCG(uint64(a.Seed), 7))
	c := sms.NewCollector()
	for n := a.Rounds; n > 0; n-- {
		feed(a, r, c, all, arrange(a, all, in, rnd))
	}
	return r
}

func arrange(a *rec.E2EA, all [][]tpdu.TPDU, in [][2]int, rnd *rand.Rand) [][2]int {
	out := append([][2]int(nil), in...)
	switch a.Order {
	case 1:
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case 2:
		rnd.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	case 5:
		out = out[:0]
		for _, x := range a.At {
			if x[0] <= len(all) && x[1] <= len(all[x[0]-1]) {
				out = append(out, [2]int{x[0] - 1, x[1] - 1})
			}
		}
	case 3, 4:
		out = out[:0]
		for q := 0; len(out) < len(in); q++ {
			for i := range all {
				if q < len(all[i]) {
					k := q
					if a.Order == 4 {
						k = len(all[i]) - 1 - q
					}
					out = append(out, [2]int{i, k})
				}
			}
		}
	}
	return out
}

// transfer passes a TPDU as octets
func transfer(t *tpdu.TPDU, via int) (*tpdu.TPDU, string) {
	b, err := t.MarshalBinary()
	if err != nil {
		return nil, "marshal"
	}
	if via%2 == 1 {
		p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: tpdu.Address{TOA: 145, Addr: "61412345678"}}, TPDU: b}
		h, err := p.MarshalHexString()
		if err != nil {
			return nil, "smsc"
		}
		q, err := pdumode.UnmarshalHexString(h)
		if err != nil {
			return nil, "smsc"
		}
		b = q.TPDU
	}
	if via/2%2 == 1 {
		u := &tpdu.TPDU{Direction: t.Direction}
		if err := u.UnmarshalBinary(b); err != nil {
			return nil, "unmarshal"
		}
		return u, ""
	}
	dir := sms.AsMT
	if t.Direction == tpdu.MO {
		dir = sms.AsMO
	}
	u, err := sms.Unmarshal(b, dir)
	if err != nil {
		return nil, "unmarshal"
	}
	return u, ""
}

func feed(a *rec.E2EA, r *rec.E2ER, c *sms.Collector, all [][]tpdu.TPDU, order [][2]int) {
	// what was collected, by its octets
	type key struct {
		dir tpdu.Direction
		b   string
	}
	name := map[key][2]int{}
	octets := func(t *tpdu.TPDU) key {
		b, _ := t.MarshalBinary()
		return key{t.Direction, string(b)}
	}
	for _, o := range order {
		f := rec.Fed{M: o[0] + 1, Q: o[1] + 1}
		t, err := transfer(&all[o[0]][o[1]], a.Via)
		if err != "" {
			f.Err = err
			r.Feed = append(r.Feed, f)
			continue
		}
		name[octets(t)] = [2]int{o[0] + 1, o[1] + 1}
		segs, cerr := c.Collect(*t)
		f.Err = colErr(cerr)
		for _, s := range segs {
			if s == nil {
				f.IDs = append(f.IDs, rec.Ints{0, 0})
				continue
			}
			n := name[octets(s)]
			f.IDs = append(f.IDs, rec.Ints{n[0], n[1]})
		}
		if len(segs) > 0 {
			b, derr := sms.Decode(segs)
			f.OK, f.B = derr == nil && sms.IsCompleteMessage(segs), b
		}
		r.Feed = append(r.Feed, f)
	}
}
