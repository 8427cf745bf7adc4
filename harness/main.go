package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

type family struct {
	gen func(seed int64, n int, arg string) []Script
	run func(sc *Script, out *recorder)
}

var families = map[string]family{
	"world":  {genWorld, runWorld},
	"curves": {genCurves, runCurves},
	"dyn":    {genDyn, runDyn},
	"alg":    {genAlg, runAlg},
}

func init() { families["det"] = family{genDet, runDet} }

// recorder collects the events of one scenario; after stop it ignores what a hung scenario still does.
type recorder struct {
	mu   sync.Mutex
	ev   []string
	done bool
}

func (r *recorder) add(s string) {
	r.mu.Lock()
	if !r.done {
		r.ev = append(r.ev, s)
	}
	r.mu.Unlock()
}

func (r *recorder) len() int { return len(r.ev) }

func (r *recorder) stop() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.done = true
	return append([]string(nil), r.ev...)
}

var timeout = 20 * time.Second

func runOne(sc *Script) (res []string, hung bool) {
	rec := &recorder{}
	done := make(chan string, 1)
	go func() {
		msg := ""
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprint(r)
				if os.Getenv("VERIF_STACK") != "" {
					fmt.Fprintln(os.Stderr, sc.ID, msg, string(debug.Stack()))
				}
				done <- "panic: " + msg
				return
			}
			done <- ""
		}()
		families[sc.Fam].run(sc, rec)
	}()
	select {
	case m := <-done:
		if m != "" {
			b, _ := json.Marshal(m)
			rec.add(fmt.Sprintf(`{"e":"panic","msg":%s}`, b))
		}
		return rec.stop(), false
	case <-time.After(timeout):
		if os.Getenv("VERIF_STACK") != "" {
			buf := make([]byte, 1<<16)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
		}
		return append(rec.stop(), `{"e":"hang"}`), true
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness gen FAMILY SEED N [ARG] | run < scripts")
		os.Exit(2)
	}
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_TIMEOUT"), 64); err == nil {
		timeout = time.Duration(v * float64(time.Second))
	}
	switch os.Args[1] {
	case "solo":
		soloMain()
	case "gen":
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		n, _ := strconv.Atoi(os.Args[4])
		arg := ""
		if len(os.Args) > 5 {
			arg = os.Args[5]
		}
		o := bufio.NewWriter(os.Stdout)
		for _, sc := range families[os.Args[2]].gen(seed, n, arg) {
			b, err := json.Marshal(sc)
			if err != nil {
				panic(err)
			}
			o.Write(b)
			o.WriteByte('\n')
		}
		o.Flush()
	case "run":
		o := bufio.NewWriter(os.Stdout)
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		for {
			line, err := in.ReadString('\n')
			if len(strings.TrimSpace(line)) > 0 {
				var sc Script
				if e := json.Unmarshal([]byte(line), &sc); e != nil {
					fmt.Fprintln(os.Stderr, e)
					os.Exit(2)
				}
				ev, hung := runOne(&sc)
				fmt.Fprintf(o, `{"id":"%s","ev":[%s]}`+"\n", sc.ID, strings.Join(ev, ",\n"[:1]))
				o.Flush()
				if hung {
					os.Exit(3)
				}
			}
			if err != nil {
				break
			}
		}
	}
}
