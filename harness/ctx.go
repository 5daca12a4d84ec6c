package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
)

// Ctx drives the cases of one shard and collects what the monitors observe.
type Ctx struct {
	id        string
	seed      int64
	tier      string
	shard     int
	nshards   int
	onlyCase  int
	onlyGroup string
	beat      *os.File

	res      childResult
	distinct map[uint64]bool
	sets     map[string]map[uint64]bool
	groupIdx map[string]int

	cur    Violation
	failed int
	R      *rand.Rand // generator of the current case

	fragile *int // arguments of calls fail after that many uses (C43)
}

func childMain(a []string) {
	c := &Ctx{id: a[0], distinct: map[uint64]bool{}, sets: map[string]map[uint64]bool{}, groupIdx: map[string]int{}}
	c.shard, _ = strconv.Atoi(a[1])
	c.nshards, _ = strconv.Atoi(a[2])
	c.onlyCase, _ = strconv.Atoi(a[3])
	c.onlyGroup = a[4]
	c.seed, _ = strconv.ParseInt(a[5], 10, 64)
	c.tier = a[6]
	c.res.Counters = map[string]int64{}
	c.res.Maxima = map[string]int64{}
	c.beat = os.NewFile(3, "beat")
	// The library reports on standard output; it is of no interest here
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	checks[c.id].run(c)
	c.flush(a[7], true)
}

func (c *Ctx) flush(path string, done bool) {
	c.res.Done = done
	c.res.Distinct = c.res.Distinct[:0]
	for h := range c.distinct {
		c.res.Distinct = append(c.res.Distinct, h)
	}
	c.res.Sets = map[string][]uint64{}
	for k, m := range c.sets {
		for h := range m {
			c.res.Sets[k] = append(c.res.Sets[k], h)
		}
	}
	b, err := json.Marshal(&c.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	ioutil.WriteFile(path, b, 0644)
}

// N scales the number of cases of a group: quick in the quick tier, more in the
// thorough one.
func (c *Ctx) N(quick, thorough int) int {
	m, ok := effort[c.id]
	if !ok {
		m = [2]int{1, 1}
	}
	if c.tier == "thorough" {
		return thorough * m[1]
	}
	return quick * m[0]
}

// effort multiplies the case counts of cheap checks: {quick, thorough}.
var effort = map[string][2]int{
	"C03": {5, 5}, "C04": {1, 2}, "C05": {2, 4}, "C06": {6, 10}, "C07": {1, 3}, "C08": {1, 2}, "C09": {2, 4},
	"C10": {4, 10}, "C11": {2, 5}, "C12": {4, 10},
	"C13": {4, 4}, "C14": {5, 10}, "C15": {4, 5}, "C16": {3, 4}, "C17": {8, 10}, "C18": {6, 6}, "C19": {6, 10},
	"C20": {8, 10}, "C21": {6, 10}, "C22": {6, 8}, "C23": {6, 10}, "C24": {4, 8}, "C25": {15, 40}, "C26": {15, 40},
	"C27": {3, 6}, "C28": {30, 60}, "C29": {20, 30}, "C30": {20, 30}, "C31": {4, 5}, "C32": {3, 8}, "C33": {8, 15},
	"C34": {1, 3}, "C35": {6, 60}, "C36": {20, 30}, "C37": {3, 5}, "C40": {1, 2}, "C41": {1, 3}, "C42": {2, 4}, "C43": {1, 2},
}

type stopRun struct{}

// Cases runs f for case numbers 0..n-1 of the named group (this shard's share).
// Every case has its own generator, so it can be replayed alone.
func (c *Ctx) Cases(group string, n int, f func(i int)) {
	for i := 0; i < n; i++ {
		if c.onlyCase >= 0 {
			if i != c.onlyCase || group != c.onlyGroup {
				continue
			}
		} else if i%c.nshards != c.shard {
			continue
		}
		if c.failed >= 3 { // enough witnesses
			return
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%s|%s|%d|%d", c.id, group, i, c.seed)
		s := int64(h.Sum64() & math.MaxInt64)
		c.R = rand.New(rand.NewSource(s))
		rand.Seed(s)
		c.cur = Violation{Property: c.id, Group: group, Case: i, Seed: c.seed, Tier: c.tier}
		fmt.Fprintf(c.beat, "B %s %d\n", group, i)
		if s%4 == 0 && c.id != "C34" && c.id != "C41" && c.id != "C43" {
			// a first run on other values, whose objects are used again below
			recycle.reversed, recycle.collect = true, true
			before := c.failed
			c.protect(func() { f(i) })
			recycle.reversed, recycle.collect = false, false
			c.Count("cases_repeated_on_the_same_objects", 1)
			if c.failed > before {
				continue
			}
			recycle.serve = len(libGoroutines()) == 0
			c.R = rand.New(rand.NewSource(s))
			rand.Seed(s)
		}
		c.protect(func() { f(i) })
		stopRecycling()
		fmt.Fprintf(c.beat, "E %s %d\n", group, i)
		c.Count("cases_"+group, 1)
	}
}

func (c *Ctx) protect(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); ok {
				return
			}
			st := string(debug.Stack())
			c.report("panic", fmt.Sprintf("panic: %v", r), st)
		}
	}()
	f()
}

// Try runs f and returns the value it panicked with (nil if it did not).
func Try(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// Input records what the current case does; it is stored with a violation and
// used as a sample.
func (c *Ctx) Input(v interface{}) { c.cur.Input = v }

func (c *Ctx) report(kind, msg, detail string) {
	v := c.cur
	v.Kind, v.Message, v.Detail = kind, msg, detail
	v.Input = jsonable(v.Input)
	c.res.Violations = append(c.res.Violations, v)
	c.failed++
}

// Failf reports a violation of the property and ends the current case.
func (c *Ctx) Failf(format string, a ...interface{}) {
	c.report("property", fmt.Sprintf(format, a...), "")
	panic(stopRun{})
}

// Seen records one evaluated case. key identifies it; trivial cases are counted
// as evaluations only.
func (c *Ctx) Seen(nontrivial bool, key ...interface{}) {
	c.res.Evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	for _, k := range key {
		switch v := k.(type) {
		case []float64:
			for _, x := range v {
				b := math.Float64bits(x)
				h.Write([]byte{byte(b), byte(b >> 8), byte(b >> 16), byte(b >> 24), byte(b >> 32), byte(b >> 40), byte(b >> 48), byte(b >> 56)})
			}
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{'|'})
	}
	if len(c.distinct) < 400000 {
		c.distinct[h.Sum64()] = true
	}
	if len(c.res.Samples) < 2 && c.cur.Input != nil {
		c.res.Samples = append(c.res.Samples, jsonable(c.cur.Input))
	}
}

// Count adds to a named observation counter.
func (c *Ctx) Count(name string, n int64) { c.res.Counters[name] += n }

// Max keeps the largest value of a named observation.
func (c *Ctx) Max(name string, n int64) {
	if n > c.res.Maxima[name] {
		c.res.Maxima[name] = n
	}
}

// Distinct counts distinct values of a named observation.
func (c *Ctx) Distinct(name string, v interface{}) {
	if c.sets[name] == nil {
		c.sets[name] = map[uint64]bool{}
	}
	if len(c.sets[name]) > 100000 {
		return
	}
	h := fnv.New64a()
	fmt.Fprint(h, v)
	c.sets[name][h.Sum64()] = true
}

// jsonable makes a value safe for JSON (NaN and infinities become strings) and
// keeps it short.
func jsonable(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		s := fmt.Sprintf("%+v", v)
		return clip(s, 4000)
	}
	if len(b) > 60000 {
		return clip(string(b), 4000)
	}
	return json.RawMessage(b)
}

func bits(m []bool) string {
	var b strings.Builder
	for _, v := range m {
		if v {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	}
	return b.String()
}
