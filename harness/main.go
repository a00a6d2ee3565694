package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"github.com/zerosnake0/jzon"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A profile generates case i and runs it against the real code.  It emits
// records for TLC to judge, and reports what it can decide by itself (from
// the tables exported by the specification) with c.bad.
type profile func(c *ctx)

var profiles = map[string]profile{}

type ctx struct {
	dispFix int
	prof    string
	i       int
	seed    int64
	tier    string
	r       *rand.Rand
	w       *worker
	extra   string
	gate    func()              // called right before the library is
	near    bool                // the excerpts in error messages are recorded
	share   bool                // inputs are shared between goroutines
	dec     *jzon.DecoderConfig // to be used instead
	enc     *jzon.EncoderConfig
}

type worker struct {
	out   *bufio.Writer
	bads  []string
	stats map[string]int
	nrec  int
}

func (c *ctx) emit(rec M) {
	rec["id"] = c.i
	b, err := json.Marshal(rec)
	if err != nil {
		panic(err)
	}
	c.w.out.Write(b)
	c.w.out.WriteByte('\n')
	c.w.nrec++
}

// bad reports a disagreement with the specification
func (c *ctx) bad(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	c.w.bads = append(c.w.bads, fmt.Sprintf("%d %s", c.i, strings.ReplaceAll(s, "\n", " ")))
}

func (c *ctx) count(k string)         { c.w.stats[k]++ }
func (c *ctx) countN(k string, n int) { c.w.stats[k] += n }

func caseRand(prof string, seed int64, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prof, seed, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

type slot struct {
	cur   int64
	start int64
}

func main() {
	prof := flag.String("prof", "", "profile")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int("from", 0, "first case")
	n := flag.Int("n", 100, "number of cases")
	out := flag.String("out", "", "ndjson output prefix")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	tier := flag.String("tier", "quick", "tier")
	hang := flag.Int("hang", 30, "seconds before a case counts as hanging")
	memMB := flag.Int("mem", 6000, "heap limit (MB)")
	logcase := flag.String("logcase", "", "write the case being run to this file")
	table := flag.String("table", "", "exported machine table")
	extra := flag.String("extra", "", "extra input file")
	budget := flag.Float64("budget", 0, "stop starting cases after this many seconds (0: never)")
	flag.Parse()
	if *table != "" {
		loadTable(*table)
	}
	p := profiles[*prof]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown profile", *prof)
		os.Exit(96)
	}
	if singleThreaded[*prof] {
		*workers = 1
	}
	debug.SetGCPercent(200)
	t0 := time.Now()
	slots := make([]slot, *workers)
	next := int64(*from)
	end := int64(*from + *n)
	var wg sync.WaitGroup
	ws := make([]*worker, *workers)
	var done int64
	go func() { // watchdog
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now().UnixNano()
			for k := range slots {
				st := atomic.LoadInt64(&slots[k].start)
				if st != 0 && now-st > int64(*hang)*int64(time.Second) {
					fmt.Printf("HANG %d\n", atomic.LoadInt64(&slots[k].cur))
					os.Exit(97)
				}
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > uint64(*memMB)<<20 {
				for k := range slots {
					if atomic.LoadInt64(&slots[k].start) != 0 {
						fmt.Printf("MEM %d\n", atomic.LoadInt64(&slots[k].cur))
					}
				}
				os.Exit(98)
			}
		}
	}()
	var logf *os.File
	if *logcase != "" {
		logf, _ = os.Create(*logcase)
		*workers = 1
	}
	for k := 0; k < *workers; k++ {
		w := &worker{stats: map[string]int{}}
		ws[k] = w
		if *out != "" {
			f, err := os.Create(*out + "." + strconv.Itoa(k))
			if err != nil {
				panic(err)
			}
			defer f.Close()
			w.out = bufio.NewWriterSize(f, 1<<16)
		} else {
			w.out = bufio.NewWriter(nullWriter{})
		}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				if *budget > 0 && time.Since(t0).Seconds() > *budget {
					return
				}
				i := atomic.AddInt64(&next, 1) - 1
				if i >= end {
					return
				}
				atomic.StoreInt64(&slots[k].cur, i)
				atomic.StoreInt64(&slots[k].start, time.Now().UnixNano())
				if logf != nil {
					logf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
				}
				c := &ctx{prof: *prof, i: int(i), seed: *seed, tier: *tier, r: caseRand(*prof, *seed, int(i)), w: ws[k], extra: *extra}
				runCase(p, c)
				atomic.StoreInt64(&slots[k].start, 0)
				atomic.AddInt64(&done, 1)
			}
		}(k)
	}
	wg.Wait()
	stats := map[string]int{"cases": int(done)}
	var bads []string
	for _, w := range ws {
		if w == nil {
			continue
		}
		w.out.Flush()
		bads = append(bads, w.bads...)
		stats["records"] += w.nrec
		for k, v := range w.stats {
			stats[k] += v
		}
	}
	for i, b := range bads {
		if i < 50 {
			fmt.Println("BAD " + b)
		}
	}
	js, _ := json.Marshal(stats)
	fmt.Println("STATS " + string(js))
	fmt.Println("DONE")
}

type nullWriter struct{}

func (nullWriter) Write(p []byte) (int, error) { return len(p), nil }

var singleThreaded = map[string]bool{}

func runCase(p profile, c *ctx) {
	defer func() {
		if e := recover(); e != nil {
			if he, ok := e.(harnessError); ok {
				fmt.Println("HARNESS", c.i, string(he))
				os.Exit(96)
			}
			st := string(debug.Stack())
			if strings.Contains(st, "zerosnake0/jzon.") {
				c.bad("panic escaped: %v", e)
				return
			}
			fmt.Println("HARNESS", c.i, e, st)
			os.Exit(96)
		}
	}()
	p(c)
}

type harnessError string
