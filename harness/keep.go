package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"

	fs "github.com/davidkleiven/goselect/featselect"
)

func init() {
	register("C41", &check{run: runC41, rule: "every kind of call repeated many times, each time with new arguments that are dropped afterwards: finalizers tell which argument arrays stay reachable, the live heap is measured before and after a long run of repeats, and the open files of the process are counted around every call with the collector switched off, also for damaged, missing and unwritable files; non-trivial = every series of calls"})
}

// openFiles counts the descriptors of the process.
func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(l)
}

func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// spawn runs f on a goroutine of its own, so that nothing of it stays on the
// stack of the caller.
func spawn(f func()) (r interface{}) {
	done := make(chan interface{}, 1)
	go func() { done <- Try(f) }()
	return <-done
}

// pile makes a series of calls with new arguments each time. build returns the
// calls for one set of arguments, of which number which is made.
func (c *Ctx) pile(build func() []libCall, which int) (name string) {
	rejected := 0
	idle := runtime.NumGoroutine()
	once := func() {
		var call libCall
		spawn(func() {
			calls := build()
			call = calls[which%len(calls)]
		})
		name = call.name
		old := debug.SetGCPercent(-1)
		before := openFiles()
		if r := spawn(func() { call.f(&outcome{}) }); r != nil {
			rejected++
		}
		after := openFiles()
		for k := 0; runtime.NumGoroutine() > idle && k < 200000; k++ {
			runtime.Gosched()
		}
		debug.SetGCPercent(old)
		if after > before {
			c.Failf("%s left %d file(s) open", name, after-before)
		}
		c.Count("calls", 1)
	}
	// what is still reachable
	const sets = 8
	var made, freed [sets]int64
	for k := 0; k < 5; k++ {
		once()
	}
	for k := 0; k < sets; k++ {
		k := k
		recycle.watch = func(v []float64) {
			if len(v) < 4 {
				return
			}
			made[k]++
			runtime.SetFinalizer(&v[0], func(*float64) { atomic.AddInt64(&freed[k], 1) })
		}
		once()
		recycle.watch = nil
	}
	kept, arrays := 0, int64(0)
	for try := 0; try < 120; try++ {
		runtime.GC()
		for y := 0; y < 20+try*50; y++ { // let the finalizers run
			runtime.Gosched()
		}
		kept, arrays = 0, 0
		for k := range made {
			arrays += made[k]
			if atomic.LoadInt64(&freed[k]) < made[k] {
				kept++
			}
		}
		if kept <= 1 {
			break
		}
	}
	if kept >= 3 {
		c.Failf("after %d calls of %s with different arguments, arguments of %d of them are still reachable", sets, name, kept)
	}
	c.Count("argument_arrays_watched", arrays)
	c.Max("argument_sets_still_reachable", int64(kept))
	// how much the heap grows
	const reps = 40
	grown := int64(0)
	for try := 0; try < 12; try++ {
		h := liveHeap()
		for k := 0; k < reps; k++ {
			once()
		}
		grown = liveHeap() - h
		if try == 0 {
			c.Max("first_growth_bytes", grown)
		}
		if grown < reps*64 {
			break
		}
		c.Count("growth_measured_again", 1)
	}
	c.Max("growth_bytes", grown)
	if grown >= reps*64 {
		c.Failf("the live heap grows by %d bytes with every call of %s (with new arguments each time)", grown/reps, name)
	}
	c.Count("heap_measurements", 1)
	if left := waitNoLibGoroutines(); len(left) > 0 {
		c.Failf("after %d calls of %s %d goroutines are left: %s", rejected+5+sets+reps, name, len(left), clip(left[0], 600))
	}
	c.Count("calls_rejected", int64(rejected))
	c.Distinct("kinds_of_calls", name)
	c.Count("series_"+name, 1)
	return name
}

func runC41(c *Ctx) {
	dir, err := os.MkdirTemp("", "c41-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	null := &Ctx{id: c.id, res: childResult{Counters: map[string]int64{}}}
	c.Cases("searches", c.N(63, 500), func(i int) {
		null.R = c.R
		n := c.pile(func() []libCall { return searchCalls(null).calls }, i)
		c.Seen(true, n, i)
	})
	c.Cases("lasso", c.N(39, 300), func(i int) {
		null.R = c.R
		n := c.pile(func() []libCall { return lassoCalls(null, 1).calls }, i)
		c.Seen(true, n, i)
	})
	c.Cases("results", c.N(45, 400), func(i int) {
		null.R = c.R
		n := c.pile(func() []libCall { return resultCalls(null, dir, true).calls }, i)
		c.Seen(true, n, i)
	})
	// searches and samplings with workers of their own
	c.Cases("workers", c.N(24, 200), func(i int) {
		build := func() []libCall {
			d := lassoData(c.R, between(c.R, 8, 14), between(c.R, 2, 4))
			for !variedHalves(d) {
				d = lassoData(c.R, between(c.R, 8, 14), between(c.R, 2, 4))
			}
			X := d.Dense()
			nd := normOf(d)
			var targets []fs.CohensKappaTarget
			for k := i % 4; k >= 0; k-- {
				t := fs.NewPureLassoCohen()
				t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, 0.05+0.3*float64(k), &fs.Empirical{}, 50, 1e-5, &fs.PureLasso{}
				if i%8 >= 4 {
					t.Lamb += 50 // nothing is selected
				}
				targets = append(targets, t)
			}
			return []libCall{
				{name: "L2ConsistentCovTO", f: func(o *outcome) { fs.L2ConsistentCovTO(X, 3, 1, 0.25) }},
				{name: "CalculateCohenSequence", f: func(o *outcome) { fs.CalculateCohenSequence(2, targets) }},
				{name: "NewSparseThreshold", f: func(o *outcome) { fs.NewSparseThreshold(X) }},
			}
		}
		which := 0
		if i%3 > 0 {
			which = 1
		}
		if i == 0 {
			which = 2
		}
		n := c.pile(build, which)
		c.Seen(true, n, i)
	})
	// files that cannot be read or written
	c.Cases("files", c.N(30, 400), func(i int) {
		d := genData(c.R, between(c.R, 3, 12), between(c.R, 2, 5), safeKinds)
		good := filepath.Join(dir, "good.csv")
		ds := datasetOf(d, c.R.Intn(d.P+1))
		ds.Save(good)
		b, err := os.ReadFile(good)
		if err != nil {
			panic(err)
		}
		t := string(b)
		lines := strings.Split(strings.TrimSpace(t), "\n")
		cut := c.R.Intn(len(lines[0])) + len(lines[0])
		variants := []struct{ what, text string }{
			{"good", t},
			{"ragged", lines[0] + "\n" + lines[1] + ",5\n" + strings.Join(lines[1:], "\n")},
			{"quote", lines[0] + "\n" + `1"2,` + lines[1] + "\n"},
			{"header", lines[0] + "\n"},
			{"empty", ""},
			{"cut", t[:cut]},
		}
		v := variants[i%len(variants)]
		f := filepath.Join(dir, "v.csv")
		if err := os.WriteFile(f, []byte(v.text), 0644); err != nil {
			panic(err)
		}
		c.Input(map[string]interface{}{"variant": v.what, "text": clip(v.text, 500)})
		js := filepath.Join(dir, "v.json")
		jt := `{"LassoLarsNodes":[{"Coeff":[1],"Lamb":2,"Selection":[0]}],"Aicc":[1],"Bic":[2]`
		if i%2 == 0 {
			jt += "}"
		}
		if err := os.WriteFile(js, []byte(jt), 0644); err != nil {
			panic(err)
		}
		calls := []libCall{
			{name: "ReadCSV(" + v.what + ")", f: func(o *outcome) { fs.ReadCSV(f, -1) }},
			{name: "ReadCSV(missing)", f: func(o *outcome) { fs.ReadCSV(filepath.Join(dir, "none.csv"), 0) }},
			{name: "ReadCSV(directory)", f: func(o *outcome) { fs.ReadCSV(dir, 0) }},
			{name: "ReadCSV(no such column)", f: func(o *outcome) { fs.ReadCSV(good, 99) }},
			{name: "Save(no such directory)", f: func(o *outcome) { ds.Save(filepath.Join(dir, "none", "x.csv")) }},
			{name: "Save(directory)", f: func(o *outcome) { ds.Save(dir) }},
			{name: "Save(full)", f: func(o *outcome) { ds.Save("/dev/full") }},
			{name: "LassoLarsPathFromJSON(" + fmt.Sprint(i%2 == 0) + ")", f: func(o *outcome) { fs.LassoLarsPathFromJSON(js) }},
			{name: "LassoLarsPathFromJSON(missing)", f: func(o *outcome) { fs.LassoLarsPathFromJSON(filepath.Join(dir, "none.json")) }},
		}
		for k := range calls {
			c.pile(func() []libCall { return calls }, k)
		}
		c.Seen(true, v.what, i)
	})
}
