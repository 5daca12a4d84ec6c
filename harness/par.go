package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C07", &check{run: runC07, race: true, rule: "the race detector watches pairs of searches, coordinate-descent paths, kappa sequences and threshold searches that share every argument, with concurrent readers of progress, best score, length, scores and JSON snapshots (each snapshot decoded and recomputed), delayed matrix reads and 1-8 processors; non-trivial = a snapshot taken while the search ran, or two operations running at once"})
	register("C08", &check{run: runC08, rule: "every parallel operation with work-item counts below, at and above its worker count (0-40), all start models, cutoffs, queue limits, delayed reads and 1-8 processors; after every return the goroutine table must become free of library frames, and the supervisor watches for deadlock and livelock; non-trivial = at least one goroutine of the library was seen running, or more than one work item"})
}

// snapshot is the decoded form of a highscore list.
type snapshot struct {
	MaxItems *int `json:"maxItems"`
	Items    []struct {
		Selected       []int     `json:"selected"`
		TotNumFeatures int       `json:"totNumFeatures"`
		Score          float64   `json:"score"`
		Coeff          []float64 `json:"coeff"`
	} `json:"items"`
}

func checkSnapshot(c *Ctx, d *Data, s string, memo map[string]float64) int {
	var sn snapshot
	if err := json.Unmarshal([]byte(s), &sn); err != nil {
		c.Failf("a snapshot taken during the search is not valid JSON: %v: %s", err, clip(s, 300))
	}
	if sn.MaxItems == nil {
		c.Failf("a snapshot taken during the search has no capacity: %s", clip(s, 300))
	}
	seen := map[string]bool{}
	for i, it := range sn.Items {
		k := fmt.Sprint(it.Selected)
		if seen[k] {
			c.Failf("snapshot lists %s twice", k)
		}
		seen[k] = true
		if i > 0 && sn.Items[i-1].Score < it.Score {
			c.Failf("snapshot is out of order: %v before %v", sn.Items[i-1].Score, it.Score)
		}
		if it.TotNumFeatures != d.P || len(it.Selected) == 0 || len(it.Coeff) != len(it.Selected) || len(it.Selected) >= d.N {
			c.Failf("snapshot entry is malformed: %+v", it)
		}
		want, ok := memo[k]
		if !ok {
			want = math.NaN()
			xs := d.Cols(it.Selected)
			_, rss, small, drop := lstsq(xs, d.Y)
			if small > 1e-4 && drop < 1e-9 && !nearFloor(rss, dot(d.Y, d.Y)) {
				want = -refAICc(len(it.Selected), d.N, rss)
			}
			memo[k] = want
		}
		if !math.IsNaN(want) && !close2(want, it.Score, scoreTol) {
			c.Failf("snapshot entry %s has score %.10g, minus its AICc is %.10g", k, it.Score, want)
		}
	}
	return len(sn.Items)
}

func runC07(c *Ctx) {
	c.Cases("search", c.N(420, 6000), func(i int) {
		p := between(c.R, 4, 8)
		d := genData(c.R, between(c.R, 6, 26), p, safeKinds)
		s := genCfg(c.R, p, genModel(c.R, p, 0.4))
		s.Cap = pick(c.R, 2, 5, 10, 1<<uint(p)+2)
		s.Slow = pick(c.R, 0, 1, 2, 3)
		s.Procs = pick(c.R, 2, 4, 8)
		if c.R.Intn(3) == 0 {
			s.Cutoff = -10 * c.R.Float64()
		}
		if c.R.Intn(4) == 0 {
			s.Queue = pick(c.R, 1, 3, 8)
		}
		mode := make([]int, between(c.R, 1, 3))
		for k := range mode {
			mode[k] = c.R.Intn(7)
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s, "readers": mode})
		old := runtime.GOMAXPROCS(s.Procs)
		defer runtime.GOMAXPROCS(old)
		X := s.matrix(d, c.R)
		y := d.Ycopy()
		par := fs.NewSelectModelOptParams()
		par.RootModel = s.root
		par.Cutoff = s.Cutoff
		if s.Queue >= 0 {
			par.MaxQueueSize = s.Queue
		}
		const nsearch = 2
		var hs [nsearch]*fs.Highscore
		var sps [nsearch]fs.SearchProgress
		var done [nsearch]chan struct{}
		for k := range hs {
			hs[k] = fs.NewHighscore(s.Cap)
			done[k] = make(chan struct{})
		}
		var wg sync.WaitGroup
		snaps := make([][]string, nsearch*len(mode))
		for k := 0; k < nsearch; k++ {
			for m := range mode {
				wg.Add(1)
				go func(h, other *fs.Highscore, sp *fs.SearchProgress, stop chan struct{}, what int, out *[]string) {
					defer wg.Done()
					last := ""
					var pace pacer
					for {
						switch what {
						case 0:
							sp.Get()
						case 1:
							h.BestScore()
						case 2:
							h.Len()
						case 3:
							h.Scores()
						case 6:
							h.Equal(h)
							h.Equal(other)
						default:
							b, err := json.Marshal(h)
							t := string(b)
							if err != nil {
								t = "error: " + err.Error()
							}
							if t != last && len(*out) < 200 {
								*out = append(*out, t)
								last = t
							}
						}
						select {
						case <-stop:
							return
						default:
						}
						if pace.yield() {
							<-stop
						}
					}
				}(hs[k], hs[1-k], &sps[k], done[k], mode[m], &snaps[k*len(mode)+m])
			}
		}
		for k := 0; k < nsearch; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				fs.SelectModel(X, y, hs[k], &sps[k], par)
				close(done[k])
			}(k)
		}
		wg.Wait()
		memo := map[string]float64{}
		ns, filled := 0, 0
		for _, l := range snaps {
			for _, t := range l {
				ns++
				if checkSnapshot(c, d, t, memo) > 0 {
					filled++
				}
				c.Distinct("snapshots", t)
			}
		}
		c.Count("snapshots_checked", int64(ns))
		c.Count("snapshots_nonempty", int64(filled))
		c.Count("concurrent_searches", nsearch)
		c.Seen(true, d.flat(), s.Model, s.Cutoff, s.Queue, fmt.Sprint(mode))
	})

	c.Cases("path", c.N(260, 3000), func(i int) {
		d := lassoData(c.R, between(c.R, 8, 30), between(c.R, 2, 8))
		nd := normOf(d)
		covKind := pick(c.R, 0, 0, 1, 2)
		if covKind == 2 && i%6 != 0 {
			covKind = 0
		}
		corrKind := c.R.Intn(3)
		nl := pick(c.R, 3, 9, 10, 11, 24)
		procs := pick(c.R, 2, 4, 8)
		c.Input(map[string]interface{}{"data": d.Brief(), "cov": covNames[covKind], "corr": corrNames[corrKind], "lambs": nl})
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
		cov := makeCov(covKind, nd.X)
		corr := makeCorr(c.R, corrKind, d.P)
		lambs := fs.Logspace(1e-3, 0.7, nl)
		var wg sync.WaitGroup
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				fs.LassoCrdDescPath(nd, cov, lambs, 200, 1e-6, corr)
			}()
		}
		wg.Wait()
		c.Count("concurrent_paths", 2)
		c.Count("path_"+covNames[covKind]+"_"+corrNames[corrKind], 1)
		c.Seen(true, d.flat(), covKind, corrKind, nl)
	})

	c.Cases("kappa", c.N(90, 1200), func(i int) {
		d := genData(c.R, between(c.R, 12, 30), between(c.R, 2, 7), []string{"gauss", "ar", "factor", "shifted"})
		for rstd(d.Y) < 1e-3 {
			d.Y = gaussMat(c.R, 1, d.N)[0]
		}
		nd := normOf(d)
		nt := pick(c.R, 2, 5, 16, 20)
		corrKind := c.R.Intn(3)
		covKind := c.R.Intn(2)
		c.Input(map[string]interface{}{"data": d.Brief(), "targets": nt, "corr": corrNames[corrKind], "cov": covNames[covKind]})
		old := runtime.GOMAXPROCS(pick(c.R, 2, 4, 8))
		defer runtime.GOMAXPROCS(old)
		cov := makeCov(covKind, nil)
		corr := makeCorr(c.R, corrKind, d.P)
		mk := func() []fs.CohensKappaTarget {
			var ts []fs.CohensKappaTarget
			for k, l := range fs.Logspace(1e-2, 0.5, nt) {
				if k%2 == 0 {
					t := fs.NewPureLassoCohen()
					t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, l, cov, 100, 1e-4, corr
					ts = append(ts, t)
				} else {
					t := fs.NewCLassoCohen()
					t.Eta = 0.1
					t.PLasso.Dset, t.PLasso.Lamb, t.PLasso.Cov, t.PLasso.MaxIter, t.PLasso.Tol, t.PLasso.Correction = nd, l, cov, 100, 1e-4, corr
					ts = append(ts, t)
				}
			}
			return ts
		}
		var wg sync.WaitGroup
		for k := 0; k < 2; k++ {
			ts := mk()
			wg.Add(1)
			go func() {
				defer wg.Done()
				fs.CalculateCohenSequence(3, ts)
			}()
		}
		wg.Wait()
		c.Count("concurrent_kappa_sequences", 2)
		c.Seen(true, d.flat(), nt, corrKind, covKind)
	})

	c.Cases("threshold", c.N(120, 1500), func(i int) {
		d := genData(c.R, between(c.R, 5, 30), between(c.R, 1, 6), []string{"gauss", "ar", "factor", "scaled"})
		X := mat.Matrix(d.Dense())
		if c.R.Intn(3) == 0 {
			X = &slowMat{m: X, seed: c.R.Uint64(), every: 31}
		}
		ns := between(c.R, 1, 8)
		step := []float64{0.5, 0.7, 1, 3, 9}[c.R.Intn(5)]
		c.Input(map[string]interface{}{"data": d.Brief(), "samples": ns, "step": step})
		old := runtime.GOMAXPROCS(pick(c.R, 2, 4, 8))
		defer runtime.GOMAXPROCS(old)
		var wg sync.WaitGroup
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				fs.L2ConsistentCovTO(X, ns, 1, step)
			}()
		}
		wg.Wait()
		c.Count("concurrent_threshold_searches", 2)
		c.Seen(true, d.flat(), ns, step)
	})

	// one list filled and read by many goroutines
	c.Cases("list", c.N(160, 2000), func(i int) {
		capa := pick(c.R, 1, 2, 5, 20)
		n := between(c.R, 5, 60)
		c.Input(map[string]interface{}{"capacity": capa, "inserts": n})
		h := fs.NewHighscore(capa)
		var sp fs.SearchProgress
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			nodes := make([]*fs.Node, n)
			for j := range nodes {
				nodes[j] = mkNode(c.R, math.Round(10*c.R.NormFloat64()))
			}
			wg.Add(2)
			go func() {
				defer wg.Done()
				for j := range nodes {
					h.Insert(nodes[j])
					sp.Set(float64(j), j, float64(j))
					if j%7 == 0 {
						runtime.Gosched()
					}
				}
			}()
			var bad string
			rk := k
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					sp.Get()
					switch rk {
					case 0:
						h.BestScore()
						h.Len()
					case 1:
						s := h.Scores()
						if !sort.IsSorted(sort.Reverse(sort.Float64Slice(s))) {
							bad = fmt.Sprint("scores read while the list is filled are unsorted: ", s)
						}
					case 2:
						json.Marshal(h)
					}
				}
			}()
			defer func() {
				if bad != "" {
					c.Failf("%s", bad)
				}
			}()
		}
		wg.Wait()
		c.Count("shared_list_operations", int64(12*n))
		c.Seen(true, capa, n, i)
	})
}

var covNames = []string{"empirical", "identity", "threshold"}
var corrNames = []string{"none", "covariance", "ridge"}

func makeCov(kind int, X mat.Matrix) fs.CovMat {
	switch kind {
	case 1:
		return &fs.Identity{}
	case 2:
		return fs.NewSparseThreshold(X)
	}
	return &fs.Empirical{}
}

func makeCorr(r *rand.Rand, kind, p int) fs.LassoCorrection {
	switch kind {
	case 1:
		return fs.NewCLasso(p, 0.05+0.2*r.Float64())
	case 2:
		return &fs.ElasticNet{Lamb: 0.5 * r.Float64()}
	}
	return &fs.PureLasso{}
}

// lassoData draws a problem whose normalisation is defined: no constant column
// except possibly an intercept in the first place, no constant target.
func lassoData(r *rand.Rand, n, p int) *Data {
	for {
		d := genData(r, n, p, []string{"gauss", "ar", "intercept", "scaled", "factor", "shifted", "integer"})
		if d.Kind[:3] == "int" && p < 2 {
			continue
		}
		if normalizable(d) {
			return d
		}
	}
}

func normalizable(d *Data) bool {
	if rstd(d.Y) < 1e-3 {
		return false
	}
	for j, col := range transposed(d.X) {
		s := rstd(col)
		if j == 0 && s == 0 {
			continue
		}
		if s < 1e-3 {
			return false
		}
	}
	return true
}

func normOf(d *Data) *fs.NormalizedData {
	return newNormalized(fs.NewNormalizedData(d.Dense(), d.Ycopy()))
}

// mockTarget is a kappa target with scripted selections and delays.
type mockTarget struct {
	id    int
	x     mat.Matrix
	sel   [][]int
	mu    sync.Mutex
	calls int
	delay time.Duration
}

func (m *mockTarget) GetX() mat.Matrix { return m.x }
func (m *mockTarget) GetSelection(ix []int) []int {
	m.mu.Lock()
	k := m.calls
	m.calls++
	m.mu.Unlock()
	if m.delay > 0 {
		time.Sleep(m.delay)
	}
	return append([]int{}, m.sel[k%len(m.sel)]...)
}
func (m *mockTarget) HyperParameters() map[string]float64 {
	return map[string]float64{"id": float64(m.id)}
}
func (m *mockTarget) StringRep() string { return fmt.Sprintf("target %d", m.id) }

func runC08(c *Ctx) {
	clean := func(what string) {
		if left := waitNoLibGoroutines(); len(left) > 0 {
			var heads []string
			for _, g := range left {
				heads = append(heads, strings.Split(g, "\n")[0]+" "+strings.TrimSpace(strings.Split(g+"\n\n", "\n")[1]))
			}
			c.Failf("%d goroutines are left after %s has returned: %s", len(left), what, strings.Join(heads, "; "))
		}
		c.Count("clean_returns", 1)
	}
	watchPeak := func(f func()) int {
		stop := make(chan int)
		res := make(chan int)
		go func() {
			peak := 0
			var pace pacer
			for {
				if n := runtime.NumGoroutine(); n > peak {
					peak = n
				}
				select {
				case <-stop:
					res <- peak
					return
				default:
					time.Sleep(20 * time.Microsecond)
					if pace.yield() {
						<-stop
						res <- peak
						return
					}
				}
			}
		}()
		f()
		close(stop)
		return <-res
	}
	procs := func() func() {
		old := runtime.GOMAXPROCS(pick(c.R, 1, 2, 4, 8))
		return func() { runtime.GOMAXPROCS(old) }
	}

	c.Cases("search", c.N(2600, 30000), func(i int) {
		defer procs()()
		p := between(c.R, 3, 8)
		n := pick(c.R, 1, 2, 3, 4, p-1, p, p+1, p+2, 2*p, 30)
		d := genData(c.R, n, p, designKinds)
		s := genCfg(c.R, p, genModel(c.R, p, 0.5))
		s.Cap = pick(c.R, 1, 2, 10, 1000)
		switch c.R.Intn(4) {
		case 0:
			s.Cutoff = 5 * c.R.NormFloat64()
		case 1:
			s.Cutoff = -math.Pow(10, 4*c.R.Float64())
		}
		if c.R.Intn(3) == 0 {
			s.Queue = pick(c.R, 1, 1, 2, 3, 7)
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s})
		var peak int
		for rep := 0; rep < 2; rep++ {
			X := s.matrix(d, c.R)
			peak = watchPeak(func() { s.run(X, d.Ycopy()) })
		}
		c.Max("goroutines", int64(peak))
		clean("branch and bound")
		c.Distinct("search_configs", fmt.Sprint(s.Root, s.Cap, s.Queue, s.Cutoff > 0, s.Cutoff < 0, n < p))
		c.Seen(true, d.flat(), s.Root, s.Model, s.Cutoff, s.Queue)
	})

	// a list that already holds entries, and a list used for two searches
	c.Cases("reuse", c.N(240, 3000), func(i int) {
		defer procs()()
		p := between(c.R, 3, 6)
		d := genData(c.R, between(c.R, 4, 20), p, safeKinds)
		s := genCfg(c.R, p, genModel(c.R, p, 0.5))
		s.Cap = pick(c.R, 2, 10, 100)
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s, "reuse": true})
		h := fs.NewHighscore(s.Cap)
		var sp fs.SearchProgress
		for rep := 0; rep < 3; rep++ {
			s.runInto(s.matrix(d, c.R), d.Ycopy(), h, &sp)
		}
		clean("branch and bound")
		c.Seen(true, d.flat(), s.Root, s.Model)
	})

	c.Cases("path", c.N(1500, 15000), func(i int) {
		defer procs()()
		d := lassoData(c.R, between(c.R, 4, 25), between(c.R, 1, 7))
		nd := normOf(d)
		nl := pick(c.R, 0, 1, 2, 5, 9, 10, 11, 12, 19, 20, 21, 25, 40)
		ck, rk := c.R.Intn(2), c.R.Intn(3)
		lo, hi := 1e-3, 0.9
		if c.R.Intn(5) == 0 {
			hi = 3
		}
		if c.R.Intn(8) == 0 {
			lo = 1.5 // nothing is selected anywhere
			hi = 3
		}
		iters := pick(c.R, 0, 1, 3, 50, 500)
		c.Input(map[string]interface{}{"data": d.Brief(), "strengths": nl, "cov": covNames[ck], "corr": corrNames[rk], "maxIter": iters})
		lambs := fs.Logspace(lo, hi, nl)
		if nl == 0 {
			lambs = []float64{}
		}
		cov, corr := makeCov(ck, nil), makeCorr(c.R, rk, d.P)
		peak := watchPeak(func() {
			path := fs.LassoCrdDescPath(nd, cov, lambs, iters, 1e-5, corr)
			if len(path) > nl {
				c.Failf("%d strengths give %d nodes", nl, len(path))
			}
		})
		c.Max("goroutines", int64(peak))
		clean("the coordinate descent path")
		c.Distinct("strength_counts", nl)
		c.Seen(true, d.flat(), nl, ck, rk)
	})

	c.Cases("kappa", c.N(900, 9000), func(i int) {
		defer procs()()
		nt := pick(c.R, 0, 1, 2, 7, 14, 15, 16, 17, 18, 31, 32, 33, 40)
		ns := between(c.R, 1, 4)
		p := between(c.R, 1, 6)
		x := mat.NewDense(between(c.R, 2, 12), p, nil)
		var ts []fs.CohensKappaTarget
		for k := 0; k < nt; k++ {
			t := &mockTarget{id: k, x: x}
			for q := 0; q < 3; q++ {
				t.sel = append(t.sel, selOf(genModel(c.R, p, 0.5)))
			}
			if c.R.Intn(3) == 0 {
				t.delay = time.Duration(c.R.Intn(150)) * time.Microsecond
			}
			ts = append(ts, t)
		}
		c.Input(map[string]interface{}{"targets": nt, "samples": ns, "features": p})
		var peak int
		peak = watchPeak(func() { fs.CalculateCohenSequence(ns, ts) })
		c.Max("goroutines", int64(peak))
		clean("the kappa sequence")
		c.Distinct("target_counts", nt)
		c.Seen(true, nt, ns, p, i)
	})

	c.Cases("threshold", c.N(900, 9000), func(i int) {
		defer procs()()
		n := pick(c.R, 4, 5, 6, 8, 15, 40)
		d := genData(c.R, n, between(c.R, 1, 6), []string{"gauss", "ar", "factor", "scaled"})
		step := []float64{0.2, 0.3, 0.45, 0.5, 0.75, 0.8, 0.82, 0.9, 1, 1.1, 2, 3, 4.5, 5, 9}[c.R.Intn(15)]
		ns := pick(c.R, 1, 1, 2, 3, 7)
		c.Input(map[string]interface{}{"data": d.Brief(), "samples": ns, "step": step})
		X := mat.Matrix(d.Dense())
		if c.R.Intn(3) == 0 {
			X = &slowMat{m: X, seed: c.R.Uint64(), every: 17}
		}
		peak := watchPeak(func() { fs.L2ConsistentCovTO(X, ns, 1, step) })
		c.Max("goroutines", int64(peak))
		clean("the threshold search")
		c.Distinct("grid_sizes", int(9/step))
		c.Seen(true, d.flat(), ns, step)
	})
}
