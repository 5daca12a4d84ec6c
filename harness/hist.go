package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C43", &check{run: runC43, rule: "histories of 3-14 library calls of every kind in one process (other data, the same data, the same objects refilled with other values, calls that are rejected, calls whose matrix, callback, reader or writer fails at some point half-way), followed or interleaved with calls whose results are compared with those of the same call made as the first and only one of a new process with another number of processors, working directory, locale and time zone; non-trivial = at least one call was made before"})
}

// episode says how the arguments of a set of calls are made.
type episode struct {
	kind int
	seed int64
}

func (e episode) build(dir string, est *fs.MorsePenroseCD, fragile *int) []libCall {
	null := &Ctx{fragile: fragile, res: childResult{Counters: map[string]int64{}}, R: rand.New(rand.NewSource(e.seed))}
	rand.Seed(e.seed)
	switch e.kind {
	case 0:
		return searchCalls(null).calls
	case 1:
		calls := lassoCalls(null, 1).calls
		d := lassoData(null.R, between(null.R, 8, 20), between(null.R, 2, 5))
		nd := normOf(d)
		y := newVec(d.Y)
		act := []int{d.P - 1}
		if d.P > 3 && null.R.Intn(2) == 0 {
			act = []int{d.P - 1, 1 + null.R.Intn(d.P-2)}
		}
		// an estimator is used for one path after another
		return append(calls, libCall{name: "LassoLars(kept estimator)", f: func(o *outcome) {
			o.path(fs.LassoLars(nd, 1e-3, est))
		}}, libCall{name: "NestedLasso(kept estimator)", f: func(o *outcome) {
			for _, p := range fs.NestedLasso(datasetOf(d, 0), 1e-3, 0.5, est).Paths {
				o.path(p.Nodes)
			}
		}}, libCall{name: "C and D", f: func(o *outcome) {
			est.SetX(nd.X)
			est.SetActiveSet(act)
			o.mat(est.C(mat.NewVecDense(len(y), y)))
			o.mat(est.D(mat.NewVecDense(len(act), []float64{1, -1}[:len(act)])))
		}})
	}
	return resultCalls(null, dir, e.seed%3 == 0).calls
}

// freshResult is what the only call of a process gave.
type freshResult struct {
	Panicked bool
	S        string
	V        []uint64
}

// freshMain makes one call and writes its result to descriptor 3.
func freshMain(a []string) {
	kind, _ := strconv.Atoi(a[0])
	seed, _ := strconv.ParseInt(a[1], 10, 64)
	which, _ := strconv.Atoi(a[2])
	out := os.NewFile(3, "result")
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	dir, err := os.MkdirTemp(a[3], "f-")
	if err != nil {
		panic(err)
	}
	call := episode{kind, seed}.build(dir, &fs.MorsePenroseCD{}, nil)[which]
	var o outcome
	var r freshResult
	r.Panicked = Try(func() { call.f(&o) }) != nil
	r.S = o.s
	for _, v := range o.v {
		r.V = append(r.V, math.Float64bits(v))
	}
	b, err := json.Marshal(&r)
	if err != nil {
		panic(err)
	}
	out.Write(b)
	out.Close()
}

func (c *Ctx) fresh(e episode, which int, name, dir string) (freshResult, outcome) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	f, err := os.CreateTemp(dir, "r-")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	cmd := exec.Command(self, "fresh", i2s(e.kind), strconv.FormatInt(e.seed, 10), i2s(which), dir)
	cmd.ExtraFiles = []*os.File{f}
	cmd.Dir = pick2(c.R, dir, "/")
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+i2s(pick(c.R, 1, 2, 3, 8)), "TZ="+pick2(c.R, "UTC", "Asia/Tokyo"), "LANG="+pick2(c.R, "C", "nb_NO.UTF-8"), "LC_ALL=", "HOME="+dir)
	var msg strings.Builder
	cmd.Stderr = &msg
	if err := cmd.Run(); err != nil {
		c.Failf("%s ends the process when it is the first call: %v %s", name, err, clip(msg.String(), 500))
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	var r freshResult
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	o := outcome{s: r.S}
	for _, v := range r.V {
		o.v = append(o.v, math.Float64frombits(v))
	}
	c.Count("new_processes", 1)
	return r, o
}

func pick2(r *rand.Rand, a, b string) string {
	if r.Intn(2) == 0 {
		return a
	}
	return b
}

// brittle is a matrix whose elements cannot be read any more after some time.
type brittle struct {
	m    mat.Matrix
	left *int
}

func (b brittle) Dims() (int, int) { return b.m.Dims() }
func (b brittle) T() mat.Matrix    { return brittle{b.m.T(), b.left} }
func (b brittle) At(i, j int) float64 {
	if *b.left--; *b.left < 0 {
		panic("element lost")
	}
	return b.m.At(i, j)
}

type failCov struct {
	cov  fs.CovMat
	left *int
}

func (f *failCov) Get(X mat.Matrix) mat.Matrix { return brittle{f.cov.Get(X), f.left} }

type failCorr struct {
	fs.LassoCorrection
	left *int
}

func (f *failCorr) Deriv(b []float64, k int) float64 {
	if *f.left--; *f.left < 0 {
		panic("no derivative")
	}
	return f.LassoCorrection.Deriv(b, k)
}

type failTarget struct {
	fs.CohensKappaTarget
	left int
}

func (f *failTarget) GetSelection(idx []int) []int {
	if f.left--; f.left < 0 {
		panic("no selection")
	}
	return f.CohensKappaTarget.GetSelection(idx)
}

type failCD struct {
	fs.MorsePenroseCD
	left int
}

func (f *failCD) SetActiveSet(a []int) {
	if f.left--; f.left < 0 {
		panic("no active set")
	}
	f.MorsePenroseCD.SetActiveSet(a)
}

type failIO struct {
	text string
	left int
}

func (f *failIO) Read(b []byte) (int, error) {
	if f.left <= 0 || len(f.text) == 0 {
		return 0, errors.New("reader failed")
	}
	n := f.left
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], f.text)
	f.text = f.text[n:]
	f.left -= n
	return n, nil
}

func (f *failIO) Write(b []byte) (int, error) {
	if f.left -= len(b); f.left < 0 {
		return 0, errors.New("writer failed")
	}
	return len(b), nil
}

// failing makes a call that is rejected or fails half-way.
func (c *Ctx) failing(dir string) string {
	d := lassoData(c.R, between(c.R, 6, 16), between(c.R, 3, 6))
	dense := d.Dense()
	y := d.Ycopy()
	short := y[:c.R.Intn(len(y))]
	left := c.R.Intn(1 + c.R.Intn(4*d.N*d.P))
	lost := brittle{dense, &left}
	ds := datasetOf(d, c.R.Intn(d.P+1))
	calls := []libCall{
		{name: "Fit(short target)", f: func(*outcome) { fs.Fit(dense, short) }},
		{name: "Fit(lost)", f: func(*outcome) { fs.Fit(lost, y) }},
		{name: "GetDesignMatrix(no feature)", f: func(*outcome) { fs.GetDesignMatrix(make([]bool, d.P), dense) }},
		{name: "GetDesignMatrix(lost)", f: func(*outcome) { fs.GetDesignMatrix(allTrue(d.P), lost) }},
		{name: "Rss(lost)", f: func(*outcome) { fs.Rss(lost, y[:d.P], y) }},
		{name: "Predict(lost)", f: func(*outcome) { fs.Predict(lost, y[:d.P]) }},
		{name: "MulSlice(lost)", f: func(*outcome) { fs.MulSlice(lost, y[:d.P]) }},
		{name: "BoundsAICC(lost)", f: func(*outcome) { fs.BoundsAICC(allTrue(d.P), c.R.Intn(d.P), lost, y) }},
		{name: "CreateChild(lost)", f: func(*outcome) {
			fs.CreateChild(fs.NewNode(0, allTrue(d.P)), true, lost, y, 0, fs.NewHighscore(3))
		}},
		{name: "BruteForceSelect(short target)", f: func(*outcome) { fs.BruteForceSelect(dense, short) }},
		{name: "SelectModel(short target)", f: func(*outcome) {
			var sp fs.SearchProgress
			fs.SelectModel(dense, short, fs.NewHighscore(3), &sp, nil)
		}},
		{name: "SelectModelSA(lost)", f: func(*outcome) { left *= 30; fs.SelectModelSA(lost, y, 2, fs.Aicc) }},
		{name: "SelectModelSA(cost)", f: func(*outcome) {
			fs.SelectModelSA(dense, y, 2, func(k, n int, rss float64) float64 {
				if left--; left < 0 {
					panic("no cost")
				}
				return fs.Aicc(k, n, rss)
			})
		}},
		{name: "Omp(lost)", f: func(*outcome) { fs.Omp(lost, y, 1e-3) }},
		{name: "CovarianceMatrix(lost)", f: func(*outcome) { fs.CovarianceMatrix(lost) }},
		{name: "RandomRowSplit(lost)", f: func(*outcome) { fs.RandomRowSplit(lost, d.N/2) }},
		{name: "NewNormalizedData(constant)", f: func(*outcome) {
			for i := 0; i < d.N; i++ {
				dense.Set(i, d.P-1, 3)
			}
			fs.NewNormalizedData(dense, y)
		}},
		{name: "LassoCrdDesc(covariance)", f: func(*outcome) {
			fs.LassoCrdDesc(normOf(d), 0.05, &failCov{&fs.Empirical{}, &left}, nil, 100, 1e-8, &fs.PureLasso{})
		}},
		{name: "LassoCrdDesc(correction)", f: func(*outcome) {
			fs.LassoCrdDesc(normOf(d), 0.05, &fs.Empirical{}, nil, 100, 1e-8, &failCorr{&fs.PureLasso{}, &left})
		}},
		{name: "LassoLars(estimator)", f: func(*outcome) {
			fs.LassoLars(normOf(d), 1e-4, &failCD{left: c.R.Intn(4)})
		}},
		{name: "NestedLasso(estimator)", f: func(*outcome) {
			fs.NestedLasso(ds, 1e-4, 0.6, &failCD{left: c.R.Intn(12)})
		}},
		{name: "GetCohensKappa(target)", f: func(*outcome) {
			t := fs.NewPureLassoCohen()
			t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = normOf(d), 0.1, &fs.Empirical{}, 50, 1e-5, &fs.PureLasso{}
			fs.GetCohensKappa(3, &failTarget{t, c.R.Intn(5)})
		}},
		{name: "FeatNoByName(unknown)", f: func(*outcome) { ds.FeatNoByName("no such name") }},
		{name: "GetSubset(outside)", f: func(*outcome) { ds.GetSubset([]int{0, d.P + 3}) }},
		{name: "ParseCSV(reader)", f: func(*outcome) {
			t := strings.Repeat("1,2,3,4\n", 1+c.R.Intn(30))
			fs.ParseCSV(&failIO{"a,b,c,d\n" + t, c.R.Intn(len(t))}, -1)
		}},
		{name: "ParseCSV(ragged)", f: func(*outcome) { fs.ParseCSV(strings.NewReader("a,b,c\n1,2,3\n4,5\n"), 1) }},
		{name: "ParseCSV(column)", f: func(*outcome) { fs.ParseCSV(strings.NewReader("a,b,c\n1,2,3\n4,5,7\n"), 9) }},
		{name: "ReadCSV(missing)", f: func(*outcome) { fs.ReadCSV(filepath.Join(dir, "none.csv"), 0) }},
		{name: "SaveHandle(writer)", f: func(*outcome) { ds.SaveHandle(&failIO{left: c.R.Intn(400)}) }},
		{name: "Save(no directory)", f: func(*outcome) { ds.Save(filepath.Join(dir, "none", "x.csv")) }},
		{name: "UnmarshalJSON(cut)", f: func(*outcome) {
			b, _ := json.Marshal(ds)
			b = b[:c.R.Intn(len(b))]
			var o fs.Dataset
			if err := json.Unmarshal(b, &o); err != nil {
				panic(err)
			}
		}},
		{name: "Node.UnmarshalJSON(cut)", f: func(*outcome) {
			b, _ := json.Marshal(fs.NewNode(1, genModel(c.R, d.P, 0.5)))
			var n fs.Node
			if err := json.Unmarshal(b[:c.R.Intn(len(b))], &n); err != nil {
				panic(err)
			}
		}},
		{name: "LassoLarsPathFromBytes(cut)", f: func(*outcome) {
			fs.LassoLarsPathFromBytes([]byte(`{"LassoLarsNodes":[{"Coeff":[1],"Lamb":2,"Selection":[0]}],"Aicc":[1`))
		}},
		{name: "Highscore.MarshalJSON(not a number)", f: func(*outcome) {
			h := fs.NewHighscore(3)
			n := fs.NewNode(0, genModel(c.R, d.P, 0.5))
			n.Score = math.NaN()
			h.Insert(n)
			if _, err := json.Marshal(h); err != nil {
				panic(err)
			}
		}},
	}
	k := c.R.Intn(len(calls))
	r := Try(func() { calls[k].f(nil) })
	if r != nil {
		c.Count("failed_calls", 1)
		c.Distinct("kinds_of_failed_calls", calls[k].name)
	}
	return "failing " + calls[k].name
}

func allTrue(n int) []bool {
	m := make([]bool, n)
	for i := range m {
		m[i] = true
	}
	return m
}

func runC43(c *Ctx) {
	c.Cases("histories", c.N(2000, 40000), func(i int) {
		dir, err := os.MkdirTemp("", "c43-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		est := &fs.MorsePenroseCD{}
		target := episode{c.R.Intn(3), c.R.Int63()}
		mode := c.R.Intn(4)
		frail := c.R.Intn(2) == 0 && target.kind < 2
		if frail && c.R.Intn(2) == 0 {
			mode = 3
		}
		var names []string
		done := 0
		history := func(calls []libCall) {
			k := c.R.Intn(len(calls))
			if r := Try(func() { calls[k].f(&outcome{}) }); r != nil {
				names = append(names, calls[k].name+"!")
			} else {
				names = append(names, calls[k].name)
			}
			done++
		}
		for s := between(c.R, 0, 5); s > 0; s-- {
			switch c.R.Intn(3) {
			case 0:
				names = append(names, c.failing(dir))
				done++
			default:
				other := episode{c.R.Intn(3), c.R.Int63()}
				if c.R.Intn(2) == 0 {
					other.kind = target.kind
				}
				calls := other.build(dir, est, nil)
				for k := between(c.R, 1, 3); k > 0; k-- {
					history(calls)
				}
			}
		}
		var calls []libCall
		which := -1
		if frail {
			// the same calls with arguments that fail half-way
			left := 0
			recycle.reversed = c.R.Intn(2) == 0 // other values of the same size
			calls = target.build(dir, est, &left)
			recycle.reversed = false
			which = c.R.Intn(len(calls))
			for k := 0; k < 3; k++ {
				// a failure on another goroutine ends the process
				if n := calls[which].name; strings.HasPrefix(n, "SelectModel") && n != "SelectModelSA" || n == "LassoCrdDescPath" {
					which = -1
					break
				}
				const plenty = 1 << 40
				left = plenty
				Try(func() { calls[which].f(&outcome{}) })
				if left == plenty {
					which = -1 // nothing of it can fail
					break
				}
				left = c.R.Intn(plenty - left)
				if r := Try(func() { calls[which].f(&outcome{}) }); r != nil {
					c.Count("failed_calls", 1)
					c.Distinct("kinds_of_failed_calls", calls[which].name)
					names = append(names, calls[which].name+" failing half-way")
				}
			}
		}
		switch mode {
		case 0, 1: // the same objects held other values before
			recycle.reversed, recycle.collect = true, true
			calls = target.build(dir, est, nil)
			recycle.reversed, recycle.collect = false, false
			if which < 0 {
				which = c.R.Intn(len(calls))
			}
			for k := between(c.R, 1, 3); k > 0; k-- {
				history(calls)
			}
			calls[which].f(&outcome{})
			names = append(names, calls[which].name+" with other values in the same objects")
			done++
			recycle.serve = len(libGoroutines()) == 0
			calls = target.build(dir, est, nil)
			stopRecycling()
			c.Count("objects_refilled", 1)
		case 2: // other calls with the same arguments
			calls = target.build(dir, est, nil)
			for k := between(c.R, 1, 5); k > 0; k-- {
				history(calls)
			}
		default:
			calls = target.build(dir, est, nil)
		}
		if which < 0 {
			which = c.R.Intn(len(calls))
		}
		compared := 0
		for n := between(c.R, 2, 4); n > 0; n-- {
			call := calls[which]
			c.Input(map[string]interface{}{"history": strings.Join(names, ", "), "call": call.name, "kind": target.kind, "seed": target.seed, "number": which})
			fr, want := c.fresh(target, which, call.name, dir)
			times := between(c.R, 1, 2)
			for t := 0; t < times; t++ {
				var got outcome
				r := Try(func() { call.f(&got) })
				if (r != nil) != fr.Panicked {
					c.Failf("%s after %s: panics %v (%v), but %v as the first call of a process", call.name, clip(strings.Join(names, ", "), 400), r != nil, r, fr.Panicked)
				}
				if r == nil {
					if call.law != nil {
						if d := call.law(&got); d != "" {
							c.Failf("%s after %s: %s", call.name, clip(strings.Join(names, ", "), 400), d)
						}
						if d := call.law(&want); d != "" {
							c.Failf("%s as the first call of a process: %s", call.name, d)
						}
					} else {
						if d := got.differs(&want, call.tol); d != "" {
							c.Failf("%s after %s gives another result than as the first call of a process: %s", call.name, clip(strings.Join(names, ", "), 400), d)
						}
						compared++
					}
				}
				if len(names) > 0 {
					c.Distinct("pairs_of_consecutive_calls", names[len(names)-1]+" > "+call.name)
				}
				names = append(names, call.name)
				done++
			}
			c.Count("calls_"+call.name, 1)
			if c.R.Intn(3) == 0 {
				names = append(names, c.failing(dir))
			}
			which = c.R.Intn(len(calls))
		}
		c.Count("results_compared", int64(compared))
		c.Max("longest_history", int64(done))
		c.Seen(done > 1, target.kind, target.seed, fmt.Sprint(names))
	})
}
