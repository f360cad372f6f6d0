// Package run runs generated calls on the library and writes them as records.
//
// Calls are either all recorded (the structured ones, and a sample of the
// random ones) or recorded only where the result differs from that of the
// pinned copy of the library, which serves to choose from a larger number of
// random calls those worth recording. What is recorded is judged by the
// specification alone.
package run

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	_ "time/tzdata"

	"verif/drv"
	"verif/drvpin"
	"verif/gen"
	"verif/rec"
)

var (
	mu      sync.Mutex
	out     *bufio.Writer
	file    *os.File
	nextID  int
	crumb   *os.File
	started atomic.Int64
	current atomic.Pointer[rec.Rec]
)

func write(r *rec.Rec) {
	mu.Lock()
	defer mu.Unlock()
	r.I = nextID
	nextID++
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	out.Write(b)
	out.WriteByte('\n')
}

// attempt runs a call, catching a panic
func attempt(f func(string, any) any, k string, a any) (r any, x string) {
	defer func() {
		if e := recover(); e != nil {
			r, x = struct{}{}, "panic"
			if os.Getenv("VGEN_PANIC") != "" {
				panic(e)
			}
		}
	}()
	return f(k, a), ""
}

func run(k string, a any) *rec.Rec {
	r := &rec.Rec{K: k, A: a, R: struct{}{}}
	if crumb != nil {
		b, _ := json.Marshal(r)
		crumb.Truncate(0)
		crumb.WriteAt(b, 0)
	}
	current.Store(r)
	started.Store(time.Now().UnixNano())
	r2 := &rec.Rec{K: k, A: a}
	r2.R, r2.X = attempt(drv.Run, k, a)
	started.Store(0)
	return r2
}

func agree(r *rec.Rec, k string, a any) bool {
	want, x := attempt(drvpin.Run, k, a)
	if x != r.X {
		return false
	}
	b1, _ := json.Marshal(r.R)
	b2, _ := json.Marshal(want)
	return bytes.Equal(b1, b2)
}

func parse(b []byte) (string, any) {
	var h struct {
		K string
		A json.RawMessage
	}
	if err := json.Unmarshal(b, &h); err != nil {
		panic(err)
	}
	a := rec.New(h.K)
	if err := json.Unmarshal(h.A, a); err != nil {
		panic(err)
	}
	return h.K, a
}

func watch(limit time.Duration) {
	for {
		time.Sleep(200 * time.Millisecond)
		s := started.Load()
		if s == 0 {
			continue
		}
		long := time.Since(time.Unix(0, s)) > limit
		var m runtime.MemStats
		if !long && time.Since(time.Unix(0, s)) > 500*time.Millisecond {
			runtime.ReadMemStats(&m)
		}
		if long || m.HeapAlloc > 3<<30 {
			r := current.Load()
			write(&rec.Rec{K: r.K, A: r.A, R: struct{}{}, X: "hang"})
			mu.Lock()
			out.Flush()
			os.Exit(4)
		}
	}
}

func hash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

var (
	plan   = flag.String("plan", "", "kind:random:sample,...")
	seed   = flag.Uint64("seed", 1, "")
	shard  = flag.Int("shard", 0, "")
	of     = flag.Int("of", 1, "")
	outf   = flag.String("out", "", "")
	crumbf = flag.String("crumb", "", "")
	one    = flag.String("one", "", "run the call recorded in this file")
	pin    = flag.Bool("pin", false, "run the pinned copy instead")
	limit  = flag.Duration("limit", 10*time.Second, "")
	diffs  = flag.Int("diffs", 60, "differing calls recorded, per kind")
	inf    = flag.String("in", "", "make the calls in this file")
)

// Main does what the flags say.
func Main() {
	if !flag.Parsed() {
		flag.Parse()
	}
	var err error
	file, err = os.Create(*outf)
	if err != nil {
		panic(err)
	}
	out = bufio.NewWriterSize(file, 1<<20)
	if *crumbf != "" {
		crumb, err = os.Create(*crumbf)
		if err != nil {
			panic(err)
		}
	}
	go watch(*limit)
	if *one != "" {
		b, err := os.ReadFile(*one)
		if err != nil {
			panic(err)
		}
		k, a := parse(b)
		if *pin {
			r := &rec.Rec{K: k, A: a}
			r.R, r.X = attempt(drvpin.Run, k, a)
			write(r)
		} else {
			write(run(k, a))
		}
		out.Flush()
		return
	}
	nextID = *shard * 10000000
	total, differ := 0, 0
	if *inf != "" {
		f, err := os.Open(*inf)
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<28)
		for i := 0; sc.Scan(); i++ {
			if i%*of == *shard {
				write(run(parse(sc.Bytes())))
				total++
			}
		}
		if sc.Err() != nil {
			panic(sc.Err())
		}
	}
	for _, p := range strings.Split(*plan, ",") {
		f := strings.Split(p, ":")
		if len(f) < 3 {
			continue
		}
		k := f[0]
		n, _ := strconv.Atoi(f[1])
		sample, _ := strconv.Atoi(f[2])
		if len(f) < 4 {
			for i, a := range gen.Fixed(k) {
				if i%*of == *shard {
					write(run(k, a))
					total++
				}
			}
		}
		g := gen.New(*seed*1000+uint64(*shard), hash(k))
		n /= *of
		sample /= *of
		found := 0
		for j := 0; j < n; j++ {
			a := gen.Random(k, g)
			r := run(k, a)
			total++
			if j < sample {
				write(r)
				continue
			}
			if found >= *diffs {
				continue
			}
			// a few times, as the order of some things is not determined
			same := false
			for try := 0; try < 4 && !same; try++ {
				same = agree(r, k, a)
			}
			if same {
				continue
			}
			found++
			differ++
			write(r)
		}
	}
	mu.Lock()
	out.Flush()
	fmt.Printf("{\"calls\":%d,\"recorded\":%d,\"differ\":%d}\n", total, nextID-*shard*10000000, differ)
}
