package drv

import (
	"errors"
	"fmt"
	"strings"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/rec"
)

// refusal is what a DecodeError tells.
func refusal(err error) *rec.RejR {
	r := &rec.RejR{OK: err == nil}
	var d tpdu.DecodeError
	if err == nil || !errors.As(err, &d) {
		return r
	}
	r.Path = strings.Split(d.Field, ".")
	r.Off = d.Offset
	switch {
	case errors.Is(d.Err, tpdu.ErrUnderflow):
		r.Why = "underflow"
	case errors.Is(d.Err, tpdu.ErrOverlength):
		r.Why = "overlength"
	case d.Err != nil:
		r.Why = "other"
	}
	m := err.Error()
	r.Txt = strings.Contains(m, d.Field) && strings.Contains(m, fmt.Sprint(d.Offset)) && d.Err != nil && strings.Contains(m, d.Err.Error())
	return r
}

func rej(a *rec.TuA) *rec.RejR {
	if a.Via == 1 {
		t := tpdu.TPDU{Direction: tpdu.Direction(a.Dir)}
		r := refusal(t.UnmarshalBinary(cp(a.B)))
		r.T = fromTPDU(&t)
		return r
	}
	_, err := sms.Unmarshal(cp(a.B), direction(a.Dir, a.Via)...)
	return refusal(err)
}

// the error of an encoding is of no exported type: its text names the field
func rejm(a *rec.TmA) *rec.RejR {
	t := toTPDU(a.T)
	_, err := t.MarshalBinary()
	r := &rec.RejR{OK: err == nil}
	if err != nil {
		for _, w := range strings.FieldsFunc(err.Error(), func(c rune) bool { return c == ' ' || c == ':' }) {
			if strings.Contains(w, ".") {
				r.Path = strings.Split(w, ".")
				break
			}
		}
	}
	return r
}

func rejp(a *rec.PduuA) *rec.RejR {
	_, err := pdumode.UnmarshalBinary(cp(a.B))
	return refusal(err)
}
