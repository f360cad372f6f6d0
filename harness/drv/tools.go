package drv

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/rec"
)

const lib = "github.com/warthog618/sms"

// tool runs one of the command line tools.
func tool(name string, args ...string) (exit int, out, errs []byte) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir := filepath.Dir(self)
	if strings.HasPrefix(lib, "verif") {
		dir = filepath.Join(dir, "pin")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, filepath.Join(dir, name), args...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err = c.Run()
	if ctx.Err() != nil {
		panic(name + " did not end")
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(err)
		}
	}
	if bytes.Contains(e.Bytes(), []byte("goroutine ")) || !c.ProcessState.Exited() {
		panic(name + " crashed: " + e.String())
	}
	return c.ProcessState.ExitCode(), o.Bytes(), e.Bytes()
}

func sdecode(a *rec.SdecodeA) *rec.SdecodeR {
	var args []string
	if a.P {
		args = append(args, "-p")
	}
	if a.O {
		args = append(args, "-o")
	}
	for i := 0; i <= a.Extra; i++ {
		args = append(args, a.S.Text())
	}
	exit, out, errs := tool("smsdecode", args...)
	return &rec.SdecodeR{Exit: exit, Out: rec.Cps(string(out)), Err: len(errs) > 0}
}

func sdeliver(a *rec.SdeliverA) *rec.SdeliverR {
	var args []string
	if a.P {
		args = append(args, "-p")
	}
	for _, s := range a.Args {
		args = append(args, s.Text())
	}
	exit, out, errs := tool("smsdeliver", args...)
	p := strings.Split("\n"+string(out), "\nincomplete reassembly: ")
	r := &rec.SdeliverR{Exit: exit, Left: len(p) - 1, Err: len(errs) > 0}
	if p[0] != "" {
		r.Out = rec.Bytes(p[0][1:])
		if len(p) > 1 {
			r.Out = append(r.Out, '\n')
		}
	}
	return r
}

var (
	submitLabel = regexp.MustCompile(`^Submit TPDU(?: (\d+))?:$`)
	hexLine     = regexp.MustCompile(`^[0-9a-fA-F]+$`)
	countLine   = regexp.MustCompile(`^([^:]*): (.*)$`)
	tableTitle  = regexp.MustCompile(`^(.*) (Locking|Shift) \(NLI=(\d+)\)$`)
	tableRow    = regexp.MustCompile(`^0x_([0-9a-f]): (.*)$`)
)

func number(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

func ssubmit(a *rec.SsubmitA) *rec.SsubmitR {
	args := []string{"-number=" + a.Num.Text(), "-message=" + string(a.Msg)}
	if a.NLI != 0 {
		args = append(args, "-language="+strconv.Itoa(a.NLI))
	}
	exit, out, errs := tool("smssubmit", args...)
	r := &rec.SsubmitR{Exit: exit, Err: len(errs) > 0}
	for _, l := range strings.Split(string(out), "\n") {
		switch m := submitLabel.FindStringSubmatch(l); {
		case l == "":
		case m != nil && m[1] == "":
			r.Labels = append(r.Labels, 0)
		case m != nil:
			r.Labels = append(r.Labels, number(m[1]))
		case hexLine.MatchString(l):
			r.Hex = append(r.Hex, rec.Cps(l))
		default:
			r.Labels = append(r.Labels, -1)
		}
	}
	return r
}

func scount(a *rec.ScountA) *rec.ScountR {
	args := []string{"-message=" + string(a.Msg)}
	if a.NLI != 0 {
		args = append(args, "-language="+strconv.Itoa(a.NLI))
	}
	exit, out, _ := tool("smscounter", args...)
	r := &rec.ScountR{Exit: exit}
	for _, l := range strings.Split(string(out), "\n") {
		m := countLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		switch m[1] {
		case "encoding":
			r.Enc = m[2]
		case "messages":
			r.N = number(m[2])
		case "total length":
			r.Total = number(m[2])
		case "last PDU length":
			r.Last = number(m[2])
		case "per_message":
			r.Per = number(m[2])
		case "remaining":
			r.Left = number(m[2])
		}
	}
	return r
}

func chars(*rec.CharsA) *rec.CharsR {
	_, out, _ := tool("charsets")
	r := &rec.CharsR{}
	for _, l := range strings.Split(string(out), "\n") {
		if m := tableTitle.FindStringSubmatch(l); m != nil {
			r.Tables = append(r.Tables, rec.CharsT{Name: m[1], NLI: number(m[3]), Shift: m[2] == "Shift", Cells: make(rec.L[rec.Ints], 128)})
			continue
		}
		m := tableRow.FindStringSubmatch(l)
		if m == nil || len(r.Tables) == 0 {
			continue
		}
		row, _ := strconv.ParseInt(m[1], 16, 0)
		t := &r.Tables[len(r.Tables)-1]
		v := []rune(m[2])
		for c := 0; c < 8; c++ {
			lo, hi := min(5*c, len(v)), min(5*c+5, len(v))
			t.Cells[16*c+int(row)] = rec.Cps(strings.Trim(string(v[lo:hi]), " "))
		}
	}
	return r
}
