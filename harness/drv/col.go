package drv

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/rec"
)

// colTPDU is the TPDU of p: what is not stated differs from one to the next.
func colTPDU(p rec.ColP) rec.TPDU {
	id := p.ID
	t := rec.TPDU{
		Dir: p.Ty % 2, FO: p.Ty/2 | 4*(id%16)<<1&0xbc, MR: id % 256, PID: id * 7 % 256, UDH: p.UDH,
		UD: rec.Bytes{byte(id), byte(id >> 8), 'x', byte(id % 100)},
	}
	if len(p.UDH) > 0 {
		t.FO |= 0x40
	}
	a := rec.Addr{TOA: p.TOA, A: p.Addr}
	b := rec.Addr{TOA: 129 + id%3, A: rec.Ints{48 + id%10, 49}}
	t.OA, t.DA, t.RA = b, b, b
	switch p.Ty {
	case 0:
		t.OA = a
		t.SCTS = rec.Ints{2020, 1 + id%12, 3, 4, 5, id % 60, 0}
	case 3:
		t.DA = a
	default:
		t.OA, t.DA, t.RA = a, a, a
	}
	return t
}

type colRun struct {
	a     *rec.ColA
	c     *sms.Collector
	mu    sync.Mutex
	ev    []*rec.ColEv
	start time.Time
	nh    atomic.Int64
	given map[int]rec.TPDU
	held  []func() bool
	shut  atomic.Bool
	busy  atomic.Int64
}

// d converts to a duration
func (r *colRun) d(n int) time.Duration {
	if r.a.Real {
		return time.Duration(n) * time.Microsecond
	}
	return time.Duration(n) * time.Millisecond
}

func (r *colRun) now() int { return int(time.Since(r.start) / r.d(1)) }

func (r *colRun) log(e *rec.ColEv) *rec.ColEv {
	r.mu.Lock()
	e.T = r.now()
	e.U = e.T
	r.ev = append(r.ev, e)
	r.mu.Unlock()
	return e
}

// ids of TPDUs: -1 if one is not as given
func (r *colRun) ids(ts []*tpdu.TPDU) rec.Ints {
	var v rec.Ints
	for _, t := range ts {
		if t == nil {
			v = append(v, 0)
			continue
		}
		id := -1
		if len(t.UD) == 4 {
			id = int(t.UD[0]) + int(t.UD[1])<<8
		}
		if g, ok := r.given[id]; !ok || !reflect.DeepEqual(fromTPDU(t), g) {
			id = -1
		}
		v = append(v, id)
	}
	return v
}

// hold keeps a result, to see that it does not change
func (r *colRun) hold(ts []*tpdu.TPDU, ids rec.Ints) {
	r.mu.Lock()
	r.held = append(r.held, func() bool { return reflect.DeepEqual(r.ids(ts), ids) })
	r.mu.Unlock()
}

func colErr(err error) string {
	var u tpdu.ErrUnsupportedSmsType
	switch {
	case err == nil:
		return ""
	case errors.Is(err, sms.ErrClosed):
		return "closed"
	case errors.Is(err, sms.ErrDuplicateSegment):
		return "dup"
	case errors.Is(err, sms.ErrReassemblyInconsistency):
		return "incons"
	case errors.As(err, &u):
		return "unsup"
	}
	return "other"
}

func (r *colRun) op(client int, o rec.ColOp) {
	e := &rec.ColEv{E: "call", C: client, Op: o.O, P: o.P}
	switch o.O {
	case "sleep":
		time.Sleep(r.d(o.N))
		return
	case "lock", "unlock":
		// the lock the Collector embeds, to order what comes after
		if l, ok := any(r.c).(sync.Locker); ok {
			if o.O == "lock" {
				l.Lock()
			} else {
				l.Unlock()
			}
		}
		return
	case "collect":
		t := toTPDU(colTPDU(r.a.Pdus[o.P-1]))
		r.log(e)
		d, err := r.c.Collect(t)
		ids := r.ids(d)
		r.hold(d, ids)
		r.ret(e, colErr(err), ids, nil)
		return
	case "close":
		r.log(e)
		r.c.Close()
		r.shut.Store(true)
		r.ret(e, "", nil, nil)
	case "pipes":
		r.log(e)
		p := r.c.Pipes()
		var l rec.L[rec.Ints]
		for _, s := range p {
			ids := r.ids(s)
			l = append(l, ids)
			r.hold(s, ids)
		}
		sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
		r.ret(e, "", nil, l)
	}
}

func (r *colRun) ret(call *rec.ColEv, err string, ids rec.Ints, pipes rec.L[rec.Ints]) {
	r.mu.Lock()
	call.Err, call.IDs, call.Pipes = err, ids, pipes
	call.U = r.now()
	r.ev = append(r.ev, &rec.ColEv{E: "ret", C: call.C, T: call.U, U: call.U})
	r.mu.Unlock()
}

func (r *colRun) handle(ts []*tpdu.TPDU) {
	r.busy.Add(1)
	defer r.busy.Add(-1)
	ids := r.ids(ts)
	r.log(&rec.ColEv{E: "expire", IDs: ids})
	r.hold(ts, ids)
	c := 100 + int(r.nh.Add(1))
	if c > 103 {
		// what a handler collects expires in turn
		return
	}
	for _, o := range r.a.HOps {
		r.op(c, o)
	}
}

func (r *colRun) settle() {
	rec.Wait()
	r.log(&rec.ColEv{E: "settle"})
}

func (r *colRun) run() {
	r.start = time.Now()
	var opts []sms.CollectorOption
	switch {
	case r.a.Handler:
		opts = append(opts, sms.WithReassemblyTimeout(r.d(r.a.D), r.handle))
	case r.a.D != 0:
		opts = append(opts, sms.WithReassemblyTimeout(r.d(r.a.D), nil))
	}
	r.c = sms.NewCollector(opts...)
	if r.a.Settle {
		for _, o := range r.a.Clients[0] {
			r.op(0, o)
			r.settle()
		}
	} else {
		var wg sync.WaitGroup
		for i, ops := range r.a.Clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range ops {
					r.op(i, o)
				}
			}()
		}
		wg.Wait()
	}
	// until everything must have expired
	time.Sleep(r.d(3*r.a.D + 1))
	if r.a.Real {
		for i := 0; i < 300 && !r.shut.Load() && len(r.c.Pipes()) > 0; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(r.d(2 * r.a.D))
		for r.busy.Load() > 0 {
			time.Sleep(time.Millisecond)
		}
		r.log(&rec.ColEv{E: "settle"})
	} else {
		// the handlers sleep
		time.Sleep(time.Hour)
		r.settle()
	}
	r.op(0, rec.ColOp{O: "pipes"})
	r.mu.Lock()
	held := r.held
	r.mu.Unlock()
	for _, same := range held {
		if !same() {
			r.log(&rec.ColEv{E: "changed"})
		}
	}
}

func col(a *rec.ColA) *rec.ColR {
	r := &colRun{a: a, given: map[int]rec.TPDU{}}
	for _, p := range a.Pdus {
		// in the form it has when read back
		t := toTPDU(colTPDU(p))
		r.given[p.ID] = fromTPDU(&t)
	}
	if a.Real {
		r.run()
	} else {
		rec.Bubble(r.run)
	}
	// a call with nothing between its start and its return is one event
	out := &rec.ColR{}
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := 0; i < len(r.ev); i++ {
		e := r.ev[i]
		if e.E == "call" && i+1 < len(r.ev) && r.ev[i+1].E == "ret" && r.ev[i+1].C == e.C {
			e.E = "do"
			i++
		}
		out.Ev = append(out.Ev, e)
		// the order of expiries at one instant means nothing
		for j := len(out.Ev) - 1; j > 0; j-- {
			x, y := out.Ev[j-1], out.Ev[j]
			if x.E != "expire" || y.E != "expire" || x.T != y.T || fmt.Sprint(x.IDs) <= fmt.Sprint(y.IDs) {
				break
			}
			out.Ev[j-1], out.Ev[j] = y, x
		}
	}
	return out
}
