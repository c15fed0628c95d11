// Package kit is the frame of the conformance drivers.  A driver reads cases
// (one JSON object per line: {"id","op","in"}), performs each on the real code
// and writes one event per case ({"id","op","in","out"}).  The verdict is not
// taken here: the events are checked against the TLA+ specification by TLC.
package kit

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"time"
)

type J = map[string]interface{}

// An Op performs a case on the real code and returns the observation.
type Op func(in J) J

// A Gen produces random cases of a property (code -> spec direction).
type Gen func(r *rand.Rand, n int, emit func(op string, in J))

var Ops = map[string]Op{}
var Gens = map[string]Gen{}

// Batches are operations performed on many cases at once (generated code that is built and run).
var Batches = map[string]func(ins []J) []J{}

const batchSize = 250

// Trim makes a message short, printable text.
func Trim(s string) string { return trim(s) }

// guard runs an op, turning a panic into an observation.
func guard(op Op, in J) (out J) {
	defer func() {
		if r := recover(); r != nil {
			out = J{"st": "panic", "msg": trim(fmt.Sprint(r))}
		}
	}()
	return op(in)
}

func trim(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 32 && c < 127 {
			b.WriteRune(c)
		} else {
			b.WriteByte('?')
		}
		if b.Len() > 200 {
			break
		}
	}
	return b.String()
}

func Main() {
	cases := flag.String("cases", "", "cases to perform (ndjson)")
	out := flag.String("out", "", "events written (ndjson), appended")
	from := flag.Int("from", 0, "index of the first case")
	gen := flag.String("gen", "", "generate random cases of a generator")
	n := flag.Int("n", 1000, "how many")
	seed := flag.Int64("seed", 1, "seed")
	limit := flag.Duration("limit", 30*time.Second, "time limit of a case")
	flag.Parse()
	time.Local = time.FixedZone("away", 5*3600+1800) // a machine is not always in Greenwich
	f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	if *gen != "" {
		g, ok := Gens[*gen]
		if !ok {
			fmt.Fprintln(os.Stderr, "no such generator:", *gen)
			os.Exit(3)
		}
		g(rand.New(rand.NewSource(*seed)), *n, func(op string, in J) {
			if err := enc.Encode(J{"op": op, "in": in}); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		})
		w.Flush()
		f.Close()
		return
	}
	// the real code prints to stdout here and there: keep it away from ours
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	cf, err := os.Open(*cases)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rd := bufio.NewReaderSize(cf, 1<<20)
	timer := time.AfterFunc(*limit, func() { os.Exit(97) })
	type Case struct {
		Op string `json:"op"`
		In J      `json:"in"`
	}
	event := func(i int, c Case, o J) {
		if e := enc.Encode(J{"id": i, "op": c.Op, "in": c.In, "out": o}); e != nil {
			fmt.Fprintln(os.Stderr, "bad event:", e)
			os.Exit(3)
		}
		w.Flush()
		if st, err := f.Stat(); err == nil && st.Size() > 40<<20+(24<<10)*int64(i+1) {
			f.Close()
			os.Exit(98)
		}
	}
	var waiting []Case
	first := 0
	flush := func() {
		if len(waiting) == 0 {
			return
		}
		timer.Reset(20 * time.Minute)
		ins := []J{}
		for _, c := range waiting {
			ins = append(ins, c.In)
		}
		outs := func() []J {
			defer func() {
				if r := recover(); r != nil { // not the code under test: each case is guarded
					fmt.Fprintln(os.Stderr, "batch:", r)
					os.Exit(3)
				}
			}()
			return Batches[waiting[0].Op](ins)
		}()
		for k, c := range waiting {
			event(first+k, c, outs[k])
		}
		waiting = nil
	}
	for i := 0; ; i++ {
		line, err := rd.ReadString('\n')
		if line != "" && i >= *from {
			var c Case
			if e := json.Unmarshal([]byte(line), &c); e != nil {
				fmt.Fprintln(os.Stderr, "bad case:", e, line)
				os.Exit(3)
			}
			if len(waiting) > 0 && (waiting[0].Op != c.Op || len(waiting) == batchSize) {
				flush()
			}
			if _, ok := Batches[c.Op]; ok {
				if len(waiting) == 0 {
					first = i
				}
				waiting = append(waiting, c)
			} else {
				op, ok := Ops[c.Op]
				if !ok {
					fmt.Fprintln(os.Stderr, "no such op:", c.Op)
					os.Exit(3)
				}
				timer.Reset(*limit)
				event(i, c, guard(op, c.In))
			}
		}
		if err == io.EOF {
			break
		}
	}
	flush()
	f.Close()
}

// CaptureStdout runs f with os.Stdout sent to a file and returns what it wrote.
func CaptureStdout(f func()) string {
	tmp, err := os.CreateTemp("", "vfout")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	save := os.Stdout
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = save }()
		f()
	}()
	tmp.Close()
	b, _ := os.ReadFile(tmp.Name())
	return string(b)
}

func Str(in J, k string) string {
	s, _ := in[k].(string)
	return s
}

func Int(in J, k string) int {
	f, _ := in[k].(float64)
	return int(f)
}

func Bool(in J, k string) bool {
	b, _ := in[k].(bool)
	return b
}

func List(in J, k string) []interface{} {
	a, _ := in[k].([]interface{})
	return a
}

func Strs(in J, k string) []string {
	r := []string{}
	for _, x := range List(in, k) {
		r = append(r, x.(string))
	}
	return r
}

func Sub(in J, k string) J {
	m, _ := in[k].(map[string]interface{})
	return m
}

// St is the status of a call that returns an error.
func St(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}
