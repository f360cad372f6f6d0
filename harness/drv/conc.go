package drv

import (
	"sync"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"verif/rec"
)

// the tables in use, made once
type codecs struct {
	enc map[[3]int]*gsm7.Encoder
	dec map[[4]int]*gsm7.Decoder
}

func (c *codecs) encoder(l, s, via int) *gsm7.Encoder {
	if c == nil {
		e := encoder(l, s, via)
		return &e
	}
	return c.enc[[3]int{l, s, via}]
}

func (c *codecs) decoder(l, s int, strict bool, via int) *gsm7.Decoder {
	if c == nil {
		d := decoder(l, s, strict, via)
		return &d
	}
	return c.dec[decKey(l, s, strict, via)]
}

func decKey(l, s int, strict bool, via int) [4]int {
	n := 0
	if strict {
		n = 1
	}
	return [4]int{l, s, n, via}
}

func newCodecs(clients rec.L[rec.L[rec.Sub]]) *codecs {
	c := &codecs{enc: map[[3]int]*gsm7.Encoder{}, dec: map[[4]int]*gsm7.Decoder{}}
	dec := func(l, s int, strict bool, via int) {
		k := decKey(l, s, strict, via)
		if c.dec[k] == nil {
			d := decoder(l, s, strict, via)
			c.dec[k] = &d
		}
	}
	for _, l := range clients {
		for _, s := range l {
			switch a := s.A.(type) {
			case *rec.GEncA:
				k := [3]int{a.L, a.S, a.Via}
				if c.enc[k] == nil {
					e := encoder(a.L, a.S, a.Via)
					c.enc[k] = &e
				}
				dec(a.L, a.S, true, a.Via)
			case *rec.GDecA:
				dec(a.L, a.S, a.Strict, a.Via)
			}
		}
	}
	return c
}

func sub(s rec.Sub, c *codecs) (r rec.SubR) {
	r.R = struct{}{}
	defer func() {
		if recover() != nil {
			r = rec.SubR{X: "panic", R: struct{}{}}
		}
	}()
	switch s.K {
	case "genc":
		r.R = gencWith(s.A.(*rec.GEncA), c)
	case "gdec":
		r.R = gdecWith(s.A.(*rec.GDecA), c)
	default:
		r.R = Run(s.K, s.A)
	}
	return r
}

// all runs n goroutines from the same moment.
func all(n int, f func(i int)) {
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			f(i)
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
}

func conc(a *rec.ConcA) *rec.ConcR {
	r := &rec.ConcR{Clients: make(rec.L[rec.L[rec.SubR]], len(a.Clients))}
	var c *codecs
	if a.Share {
		c = newCodecs(a.Clients)
	}
	all(len(a.Clients), func(i int) {
		var l rec.L[rec.SubR]
		for _, s := range a.Clients[i] {
			l = append(l, sub(s, c))
		}
		r.Clients[i] = l
	})
	return r
}

func shared(a *rec.SharedA) *rec.SharedR {
	r := &rec.SharedR{Clients: make(rec.L[rec.L[rec.CallR]], len(a.Clients))}
	e := sms.NewEncoder(toOpts(a.Opts)...)
	for i := 0; i < a.MR; i++ {
		e.MsgCount.Count()
	}
	for i := 0; i < a.CR; i++ {
		e.ConcatRef.Count()
	}
	each := parts[sms.EncoderOption](sms.AsUCS2, toOpts(a.Each))[0] // with room after it
	all(len(a.Clients), func(i int) {
		var l rec.L[rec.CallR]
		for _, c := range a.Clients[i] {
			opts := each
			if len(c.Opts) > 0 {
				opts = append(append([]sms.EncoderOption(nil), each...), toOpts(c.Opts)...)
			}
			var x rec.CallR
			func() {
				defer func() {
					if recover() != nil {
						x.Err = "panic"
					}
				}()
				pdus, err := e.Encode(cp(c.Msg), opts...)
				x = rec.CallR{Err: encErr(err), PDUs: fromTPDUs(pdus)}
			}()
			l = append(l, x)
		}
		r.Clients[i] = l
	})
	r.MR, r.CR = e.MsgCount.(*sms.Counter).Read(), e.ConcatRef.(*sms.Counter).Read()
	return r
}
