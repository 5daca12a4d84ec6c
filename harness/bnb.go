package main

import (
	"container/list"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C01", &check{run: runC01, rule: "seeded random regression problems (10 design kinds x 8 target kinds, 3-14 columns, 2-45 rows) plus up to 60 columns of 3-5 rows (all models enumerated) and up to 80 columns with an exact target, searched by branch and bound with 9 kinds of start model, 5 list capacities and delayed matrix reads; oracle: exhaustive AICc minimum by own orthogonalisation; non-trivial = some model was pruned or at least two models were scored"})
	register("C02", &check{run: runC02, rule: "searches as in C01 plus cutoffs, queue limits and exhaustive searches; every listed entry is recomputed (minimum-norm least squares by own Jacobi SVD, AICc, order, distinctness, bounds); non-trivial = list with at least two entries"})
	register("C03", &check{run: runC03, rule: "random (design, target, model, position): all completions enumerated and compared with the bounds of AIC and AICc; non-trivial = at least two completions"})
	register("C04", &check{run: runC04, rule: "searches with positive and negative cutoffs and start models against the exhaustive AICc table, plus direct admission decisions of CreateChild; non-trivial = the cutoff separates models (some model within the cutoff of the optimum besides it)"})
	register("C05", &check{run: runC05, rule: "random node queues (ties, round-off prone equal bounds, -1e100 bounds, lengths 0-200) cleaned with random thresholds or by mean, compared with a filter over a recorded copy; searches with queue limits; non-trivial = at least two nodes"})
	register("C09", &check{run: runC09, rule: "searches polled by concurrent readers; searches that score every model (more than 2^16 of them) with a known count: every poll is checked against the previous one and the final values against the complete list; writers/readers hammering Set/Get with recognisable triples; log-sum against big-number reference; non-trivial = at least three distinct progress values seen, or a random log-sum pair"})
	register("C37", &check{run: runC37, rule: "exhaustive search on random designs of 1-15 columns: set of listed models compared with all bit masks, every score and coefficient recomputed; non-trivial = more than one column"})
}

type entry struct {
	Model        []bool
	Coeff        []float64
	Score        float64
	Lower, Upper float64
	Level        int
}

func entriesOf(h *fs.Highscore) []entry {
	var r []entry
	for e := h.Items.Front(); e != nil; e = e.Next() {
		n := e.Value.(*fs.Node)
		r = append(r, entry{append([]bool{}, n.Model...), append([]float64{}, n.Coeff...), n.Score, n.Lower, n.Upper, n.Level})
	}
	return r
}

type searchCfg struct {
	Root   string // kind of start model
	Model  string `json:",omitempty"`
	Cap    int
	Cutoff float64
	Queue  int
	Slow   int
	Procs  int
	root   []bool
}

var rootKinds = []string{"none", "empty", "full", "sparse", "half", "most", "single", "optimal", "near"}

func genRoot(r *rand.Rand, kind string, p int, best []bool) []bool {
	switch kind {
	case "none":
		return nil
	case "empty":
		return make([]bool, p)
	case "full":
		m := make([]bool, p)
		for i := range m {
			m[i] = true
		}
		return m
	case "sparse":
		return genModel(r, p, 0.2)
	case "half":
		return genModel(r, p, 0.5)
	case "most":
		return genModel(r, p, 0.85)
	case "single":
		m := make([]bool, p)
		m[r.Intn(p)] = true
		return m
	case "optimal":
		return append([]bool{}, best...)
	}
	m := append([]bool{}, best...)
	j := r.Intn(p)
	m[j] = !m[j]
	return m
}

func genCfg(r *rand.Rand, p int, best []bool) searchCfg {
	var s searchCfg
	s.Root = rootKinds[r.Intn(len(rootKinds))]
	s.root = genRoot(r, s.Root, p, best)
	if s.root != nil {
		s.Model = bits(s.root)
	}
	s.Cap = pick(r, 1, 2, 3, 10, 1<<uint(p)+5)
	s.Queue = -1
	s.Slow = pick(r, 0, 0, 0, 1, 2, 3)
	s.Procs = pick(r, 1, 2, 4, 8)
	return s
}

func (s searchCfg) matrix(d *Data, r *rand.Rand) mat.Matrix {
	X := d.Dense()
	switch s.Slow {
	case 1:
		return &slowMat{m: X, seed: r.Uint64(), every: 64}
	case 2:
		return &slowMat{m: X, seed: r.Uint64(), every: 9}
	case 3:
		return &slowMat{m: X, seed: r.Uint64(), every: uint64(d.N*d.P) * 2, sleep: true}
	}
	return X
}

func (s searchCfg) run(X mat.Matrix, y []float64) (*fs.Highscore, *fs.SearchProgress) {
	h := fs.NewHighscore(s.Cap)
	var sp fs.SearchProgress
	s.runInto(X, y, h, &sp)
	return h, &sp
}

func (s searchCfg) runInto(X mat.Matrix, y []float64, h *fs.Highscore, sp *fs.SearchProgress) {
	old := runtime.GOMAXPROCS(s.Procs)
	defer runtime.GOMAXPROCS(old)
	if s.Root == "none" && s.Cutoff == 0 && s.Queue < 0 && s.Cap%2 == 1 {
		fs.SelectModel(X, y, h, sp, nil) // default options
		return
	}
	par := fs.NewSelectModelOptParams()
	par.RootModel = s.root
	par.Cutoff = s.Cutoff
	if s.Queue >= 0 {
		par.MaxQueueSize = s.Queue
	}
	fs.SelectModel(X, y, h, sp, par)
}

// searchData draws a problem for a search with at most maxP columns.
func searchData(r *rand.Rand, maxP int) *Data {
	for {
		p := between(r, 3, maxP)
		var n int
		switch r.Intn(5) {
		case 0:
			n = between(r, 2, p+1) // more features than rows
		case 1:
			n = p + between(r, 0, 3)
		default:
			n = between(r, p+1, 3*p+12)
		}
		if r.Intn(60) == 0 {
			n = between(r, 60, 400)
		}
		d := genData(r, n, p, designKinds)
		if r.Intn(25) == 0 { // degenerate targets
			d.Kind += "/const-target"
			v := float64(r.Intn(3))
			for i := range d.Y {
				d.Y[i] = v
			}
		}
		if wellPosed(d.X) {
			return d
		}
	}
}

// wellPosed requires all singular values to be either clearly zero or clearly
// above the absolute cut-off of Fit.
func wellPosed(x [][]float64) bool {
	_, s, _ := jacobiSVD(x)
	for _, v := range s {
		if v > 1e-10 && v < 1e-3 {
			return false
		}
	}
	return true
}

func best1(d *Data) (tab []float64, minVal float64, arg int, ok bool) {
	tab, ok = allAICc(d)
	minVal, arg = minOf(tab)
	return
}

func maskOf(m []bool) int {
	k := 0
	for i, v := range m {
		if v {
			k |= 1 << uint(i)
		}
	}
	return k
}

const scoreTol = 1e-7

func runC01(c *Ctx) {
	one := func(maxP int) {
		d := searchData(c.R, maxP)
		tab, mn, arg, ok := best1(d)
		if !ok || arg < 0 {
			c.Seen(false)
			return
		}
		for rep := 0; rep < 2; rep++ {
			s := genCfg(c.R, d.P, maskModel(arg, d.P))
			c.Input(map[string]interface{}{"data": d.Brief(), "search": s, "optimum": bits(maskModel(arg, d.P)), "aicc": mn})
			h, sp := s.run(s.matrix(d, c.R), d.Ycopy())
			es := entriesOf(h)
			if len(es) == 0 {
				c.Failf("the search listed no model although %d are possible", len(tab)-1)
			}
			m := maskOf(es[0].Model)
			if len(es[0].Model) != d.P || m == 0 || math.IsNaN(tab[m]) {
				c.Failf("best entry %s is not a model with 1..%d features", bits(es[0].Model), d.N-1)
			}
			if !close2(tab[m], mn, scoreTol) {
				c.Failf("best entry %s has AICc %.10g, but %s has %.10g", bits(es[0].Model), tab[m], bits(maskModel(arg, d.P)), mn)
			}
			if !close2(-h.BestScore(), mn, scoreTol) {
				c.Failf("the reported best score is %.10g, the optimum is %.10g", -h.BestScore(), mn)
			}
			_, expl, pr := sp.Get()
			c.Count("models_scored", int64(expl))
			c.Count("searches", 1)
			c.Count("root_"+s.Root, 1)
			if d.P >= d.N {
				c.Count("wide", 1)
			}
			c.Max("columns", int64(d.P))
			if pr > 0 {
				c.Count("searches_with_pruning", 1)
			}
			c.Distinct("explored_counts", fmt.Sprint(d.P, expl, pr))
			c.Seen(expl >= 2 || pr > 0, d.flat(), s.Root, s.Model)
		}
	}
	c.Cases("small", c.N(1500, 20000), func(i int) { one(7) })
	c.Cases("medium", c.N(240, 6000), func(i int) { one(10) })
	c.Cases("large", c.N(16, 400), func(i int) { one(13) })
	c.Cases("wide", c.N(40, 600), func(i int) {
		n, p := fewSize(c)
		d, s := wideSearch(c, n, p)
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s})
		want, arg, num := bestOfFew(d)
		h, sp := s.run(s.matrix(d, c.R), d.Ycopy())
		es := entriesOf(h)
		if len(es) == 0 {
			c.Failf("nothing is listed, %v has AICc %.10g", arg, want)
		}
		if !close2(-es[0].Score, want, 1e-5) || !close2(-h.BestScore(), want, 1e-5) {
			c.Failf("the best entry %v has AICc %.10g, the optimum %v has %.10g", selOf(es[0].Model), -es[0].Score, arg, want)
		}
		checkEntries(c, d, es, true, true)
		_, expl, _ := sp.Get()
		if expl > num {
			c.Failf("%d models were scored, there are only %d", expl, num)
		}
		c.Count("models_scored", int64(expl))
		c.Max("columns", int64(p))
		c.Seen(expl >= 2, d.flat(), s.Model)
	})
	// Many features: the target is one or two of them exactly, so that the
	// optimum is known without a table.
	c.Cases("many", c.N(8, 120), func(i int) {
		p := between(c.R, 20, 80)
		d, sup := exactData(c, p)
		s := genCfg(c.R, 3, []bool{true, false, false})
		s.Cap = pick(c.R, 1, 2, 10)
		s.Slow = 0
		best := make([]bool, p)
		for _, j := range sup {
			best[j] = true
		}
		s.root = append([]bool{}, best...)
		s.Root = "optimal"
		if c.R.Intn(3) > 0 { // reached within the first levels
			s.Root = "near"
			j := c.R.Intn(7)
			s.root[j] = !s.root[j]
			if len(selOf(s.root)) == 0 {
				s.root[c.R.Intn(7)] = true
			}
		}
		s.Model = bits(s.root)
		want := refAICc(len(sup), d.N, 0)
		c.Input(map[string]interface{}{"rows": d.N, "columns": p, "search": s, "optimum": sup, "aicc": want})
		h, sp := s.run(d.Dense(), d.Ycopy())
		es := entriesOf(h)
		if len(es) == 0 || len(es[0].Model) != p || fmt.Sprint(selOf(es[0].Model)) != fmt.Sprint(sup) {
			got := []int(nil)
			if len(es) > 0 {
				got = selOf(es[0].Model)
			}
			c.Failf("the best entry is %v, the target is given exactly by the columns %v", got, sup)
		}
		if !close2(-h.BestScore(), want, scoreTol) {
			c.Failf("the reported best score is %.10g, the optimum is %.10g", -h.BestScore(), want)
		}
		checkEntries(c, d, es, true, true)
		_, expl, _ := sp.Get()
		c.Count("models_scored", int64(expl))
		c.Max("columns", int64(p))
		c.Seen(expl >= 2, d.flat(), s.Model)
	})
}

// wideSearch draws a search over many columns of very few rows: only the models
// with fewer features than rows count, so all of them can be looked at.
func wideSearch(c *Ctx, n, p int) (*Data, searchCfg) {
	d := &Data{N: n, P: p, Kind: "gauss/few rows"}
	d.X = genX(c.R, "gauss", n, p)
	d.Y = gaussMat(c.R, 1, n)[0]
	s := genCfg(c.R, p, genModel(c.R, p, 2/float64(p)))
	s.Cap = pick(c.R, 1, 2, 10)
	s.Slow = 0
	s.Procs = pick(c.R, 4, 8)
	return d, s
}

// bestOfFew finds the smallest AICc over all models with 1..n-1 features.
func bestOfFew(d *Data) (float64, []int, int) {
	best, arg, num := math.Inf(1), []int(nil), 0
	cols := transposed(d.X)
	var walk func(from int, sel []int, use [][]float64)
	walk = func(from int, sel []int, use [][]float64) {
		if len(sel) > 0 {
			num++
			if a := refAICc(len(sel), d.N, projRSS(use, d.Y)); a < best {
				best, arg = a, append([]int{}, sel...)
			}
		}
		if len(sel) == d.N-1 {
			return
		}
		for j := from; j < d.P; j++ {
			walk(j+1, append(sel, j), append(use, cols[j]))
		}
	}
	walk(0, nil, nil)
	return best, arg, num
}

func fewSize(c *Ctx) (int, int) {
	n := between(c.R, 3, 5)
	return n, between(c.R, 15, []int{60, 34, 24}[n-3])
}

// exactData draws a well-conditioned design of p columns whose target is a
// combination of one or two of them.
func exactData(c *Ctx, p int) (*Data, []int) {
	d := &Data{N: p + between(c.R, 3, 40), P: p, Kind: "gauss/exact"}
	d.X = genX(c.R, "gauss", d.N, p)
	sup := []int{c.R.Intn(p)}
	if c.R.Intn(2) == 0 {
		sup[0] = c.R.Intn(6)
		j := sup[0] + 1 + c.R.Intn(6)
		sup = append(sup, j)
	}
	d.Y = make([]float64, d.N)
	for i := range d.Y {
		for q, j := range sup {
			d.Y[i] += float64(2*q+1) * d.X[i][j]
		}
	}
	return d, sup
}

// checkEntries verifies every entry of a list against recomputation.
func checkEntries(c *Ctx, d *Data, es []entry, bnb bool, limitK bool) {
	seen := map[string]bool{}
	for i, e := range es {
		if len(e.Model) != d.P {
			c.Failf("entry %d has a model of length %d, the design has %d columns", i, len(e.Model), d.P)
		}
		k := len(selOf(e.Model))
		b := bits(e.Model)
		if k == 0 {
			c.Failf("entry %d is the empty model", i)
		}
		if limitK && k >= d.N {
			c.Failf("entry %d (%s) has %d features for %d data points", i, b, k, d.N)
		}
		if seen[b] {
			c.Failf("model %s is listed twice", b)
		}
		seen[b] = true
		if i > 0 && es[i-1].Score < e.Score {
			c.Failf("entries %d and %d are out of order: %.12g before %.12g", i-1, i, es[i-1].Score, e.Score)
		}
		xs := d.Cols(selOf(e.Model))
		co, rss, smallest, dropped := lstsq(xs, d.Y)
		if smallest < 1e-4 || dropped > 1e-9 {
			continue // round-off decides
		}
		if len(e.Coeff) != k {
			c.Failf("entry %s has %d coefficients for %d features", b, len(e.Coeff), k)
		}
		if !closeVec(co, e.Coeff, 1e-8*(1+maxAbsM(xs)/smallest)) {
			c.Failf("entry %s has coefficients %v, the least-squares fit is %v", b, e.Coeff, co)
		}
		want := refAICc(k, d.N, rss)
		if !close2(-e.Score, want, scoreTol) {
			c.Failf("entry %s has score %.12g, minus its AICc is %.12g", b, e.Score, -want)
		}
		if bnb {
			t := scoreTol * (1 + math.Abs(want))
			if !(e.Lower <= want+t && e.Upper >= want-t) {
				c.Failf("entry %s: bounds [%.12g, %.12g] do not contain its AICc %.12g", b, e.Lower, e.Upper, want)
			}
		}
		c.Count("entries_recomputed", 1)
	}
}

func runC02(c *Ctx) {
	one := func(maxP int) {
		d := searchData(c.R, maxP)
		best := genModel(c.R, d.P, 0.4)
		for rep := 0; rep < 3; rep++ {
			s := genCfg(c.R, d.P, best)
			s.Cap = pick(c.R, 1, 2, 3, 5, 10, 10, 1<<uint(d.P)+5)
			switch c.R.Intn(4) {
			case 0:
				s.Cutoff = 10 * c.R.NormFloat64()
			case 1:
				s.Cutoff = -20 * c.R.Float64()
			}
			if c.R.Intn(3) == 0 {
				s.Queue = pick(c.R, 1, 2, 3, 5, 10)
			}
			c.Input(map[string]interface{}{"data": d.Brief(), "search": s})
			h, _ := s.run(s.matrix(d, c.R), d.Ycopy())
			es := entriesOf(h)
			if len(es) > s.Cap {
				c.Failf("the list holds %d entries, its capacity is %d", len(es), s.Cap)
			}
			checkEntries(c, d, es, true, true)
			sc := h.Scores()
			for i := range es {
				if len(sc) != len(es) || sc[i] != es[i].Score {
					c.Failf("Scores() = %v does not list the scores of the entries in order", sc)
				}
			}
			c.Max("entries", int64(len(es)))
			c.Seen(len(es) >= 2, d.flat(), s.Root, s.Model, s.Cap, s.Cutoff, s.Queue)
		}
	}
	c.Cases("small", c.N(900, 12000), func(i int) { one(7) })
	c.Cases("medium", c.N(80, 2000), func(i int) { one(10) })
	c.Cases("exhaustive", c.N(240, 2000), func(i int) {
		p := between(c.R, 1, 7)
		d := genData(c.R, between(c.R, 2, 20), p, designKinds)
		c.Input(map[string]interface{}{"data": d.Brief(), "search": "exhaustive"})
		es := entriesOf(fs.BruteForceSelect(d.Dense(), d.Ycopy()))
		checkEntries(c, d, es, false, false)
		c.Seen(len(es) >= 2, d.flat())
	})
}

func runC37(c *Ctx) {
	one := func(p int) {
		n := between(c.R, 2, 24)
		if c.R.Intn(3) == 0 {
			n = between(c.R, 2, p+2)
		}
		d := genData(c.R, n, p, designKinds)
		c.Input(map[string]interface{}{"data": d.Brief()})
		es := entriesOf(fs.BruteForceSelect(d.Dense(), d.Ycopy()))
		if len(es) != 1<<uint(p)-1 {
			c.Failf("%d models listed for %d columns, expected %d", len(es), p, 1<<uint(p)-1)
		}
		checkEntries(c, d, es, false, false)
		if wellPosed(d.X) {
			best := math.Inf(1)
			for m := 1; m < 1<<uint(p); m++ {
				sel := selOf(maskModel(m, p))
				rss := projRSS(transposed(d.Cols(sel)), d.Y)
				best = math.Min(best, refAICc(len(sel), d.N, rss))
			}
			if !close2(-es[0].Score, best, scoreTol) {
				c.Failf("first entry has AICc %.10g, the optimum is %.10g", -es[0].Score, best)
			}
		}
		c.Max("columns", int64(p))
		c.Count("models", int64(len(es)))
		c.Seen(p > 1, d.flat())
	}
	c.Cases("small", c.N(3500, 30000), func(i int) { one(1 + i%7) })
	c.Cases("large", c.N(120, 1000), func(i int) { one(between(c.R, 8, 11)) })
	c.Cases("larger", c.N(2, 12), func(i int) { one(12 + i%4) })
}

func runC03(c *Ctx) {
	type bf func([]bool, int, mat.Matrix, []float64) (float64, float64)
	c.Cases("bounds", c.N(30000, 400000), func(i int) {
		p := between(c.R, 1, 9)
		n := between(c.R, 2, 3*p+6)
		if c.R.Intn(3) == 0 {
			n = between(c.R, 2, p+2)
		}
		d := genData(c.R, n, p, designKinds)
		if !wellPosed(d.X) {
			return
		}
		model := genModel(c.R, p, []float64{0.15, 0.5, 0.85}[c.R.Intn(3)])
		start := between(c.R, 0, p)
		if c.R.Intn(4) == 0 {
			start = p
		}
		X, y := d.Dense(), d.Ycopy()
		free := p - start
		fixed := selOf(model[:start])
		if free == 0 && len(fixed) == 0 {
			return // no completion
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "model": bits(model), "position": start})
		other := append([]bool{}, model...)
		for j := start; j < p; j++ {
			other[j] = c.R.Intn(2) == 0
		}
		keep := append([]bool{}, model...)
		for ci, f := range []bf{fs.BoundsAIC, fs.BoundsAICC} {
			crit, name := refAIC, "AIC"
			if ci == 1 {
				crit, name = refAICc, "AICc"
			}
			lo, up := f(model, start, X, y)
			if bits(keep) != bits(model) {
				c.Failf("computing bounds changed the model")
			}
			lo2, up2 := f(other, start, opaque{X}, y)
			if !close2(lo, lo2, 1e-12) || !close2(up, up2, 1e-12) {
				c.Failf("%s bounds [%v, %v] depend on positions after %d (other model %s: [%v, %v])", name, lo, up, start, bits(other), lo2, up2)
			}
			if math.IsNaN(lo) || math.IsNaN(up) || math.IsInf(lo, 0) || math.IsInf(up, 0) {
				c.Failf("%s bounds are not finite: [%v, %v]", name, lo, up)
			}
			cnt := 0
			for m := 0; m < 1<<uint(free); m++ {
				sel := append([]int{}, fixed...)
				for j := 0; j < free; j++ {
					if m>>uint(j)&1 == 1 {
						sel = append(sel, start+j)
					}
				}
				if len(sel) == 0 || len(sel) >= n {
					continue
				}
				cnt++
				v := crit(len(sel), n, projRSS(transposed(d.Cols(sel)), d.Y))
				t := scoreTol * (1 + math.Abs(v))
				if !(lo <= v+t) || !(up >= v-t) {
					c.Failf("%s of completion %v is %.12g, outside the bounds [%.12g, %.12g]", name, sel, v, lo, up)
				}
				if free == 0 && math.Abs(lo-v) > t {
					c.Failf("every position is fixed: lower %s bound %.12g differs from the %s %.12g", name, lo, name, v)
				}
			}
			c.Count("completions", int64(cnt))
			c.Seen(cnt > 1, d.flat(), bits(model[:start]), start, ci)
		}
		if len(fixed) == 0 {
			c.Count("empty_prefix", 1)
		}
		if p >= n {
			c.Count("wide", 1)
		}
	})
	// Sizes at which only a sample of the completions can be looked at
	c.Cases("many", c.N(60, 1500), func(i int) {
		p := between(c.R, 10, 100)
		n := between(c.R, 2, 150)
		if c.R.Intn(3) == 0 {
			p, n = between(c.R, 1, 8), between(c.R, 60, 500)
		}
		d := &Data{N: n, P: p, Kind: "many"}
		d.X = genX(c.R, "gauss", n, p)
		d.Y = genY(c.R, []string{"sparse", "noise", "last", "first"}[c.R.Intn(4)], d.X)
		model := genModel(c.R, p, []float64{0.05, 0.15, 0.5, 0.85}[c.R.Intn(4)])
		start := between(c.R, 0, p)
		if c.R.Intn(3) == 0 {
			start = p - c.R.Intn(3)
			if start < 0 {
				start = 0
			}
		}
		fixed := selOf(model[:start])
		if len(fixed) == 0 && start == p {
			return
		}
		X, y := d.Dense(), d.Ycopy()
		c.Input(map[string]interface{}{"rows": n, "columns": p, "model": bits(model), "position": start})
		for ci, f := range []bf{fs.BoundsAIC, fs.BoundsAICC} {
			crit := refAIC
			if ci == 1 {
				crit = refAICc
			}
			lo, up := f(model, start, X, y)
			cnt := 0
			for t := 0; t < 12; t++ {
				sel := append([]int{}, fixed...)
				dens := c.R.Float64()
				if t < 2 {
					dens = float64(t)
				}
				for j := start; j < p; j++ {
					if c.R.Float64() < dens {
						sel = append(sel, j)
					}
				}
				if len(sel) == 0 || len(sel) >= n {
					continue
				}
				cnt++
				v := crit(len(sel), n, projRSS(transposed(d.Cols(sel)), d.Y))
				tt := scoreTol * (1 + math.Abs(v))
				if !(lo <= v+tt) || !(up >= v-tt) {
					c.Failf("the criterion of completion %v is %.12g, outside the bounds [%.12g, %.12g]", sel, v, lo, up)
				}
				if start == p && math.Abs(lo-v) > tt {
					c.Failf("every position is fixed: lower bound %.12g differs from the criterion %.12g", lo, v)
				}
			}
			c.Count("completions", int64(cnt))
			c.Max("columns", int64(p))
			c.Seen(cnt > 1, d.flat(), bits(model[:start]), start, ci)
		}
	})
}

func runC04(c *Ctx) {
	c.Cases("positive", c.N(700, 8000), func(i int) {
		d := searchData(c.R, 8)
		tab, mn, arg, ok := best1(d)
		if !ok || arg < 0 {
			return
		}
		s := genCfg(c.R, d.P, maskModel(arg, d.P))
		s.Cutoff = math.Exp(6*c.R.Float64() - 2)
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s, "aicc": mn})
		h, sp := s.run(s.matrix(d, c.R), d.Ycopy())
		es := entriesOf(h)
		if len(es) == 0 {
			c.Failf("nothing listed")
		}
		got := tab[maskOf(es[0].Model)]
		if !(got <= mn+s.Cutoff+scoreTol*(1+math.Abs(mn))) {
			c.Failf("best AICc %.10g is more than the cutoff %.6g above the minimum %.10g", got, s.Cutoff, mn)
		}
		// compare the amount of work with a search without cutoff
		within := 0
		for _, v := range tab {
			if v <= mn+s.Cutoff {
				within++
			}
		}
		_, ne, _ := sp.Get()
		c.Count("models_scored", int64(ne))
		c.Seen(within > 1, d.flat(), s.Model, s.Cutoff)
	})
	c.Cases("negative", c.N(800, 8000), func(i int) {
		d := searchData(c.R, 8)
		tab, mn, arg, ok := best1(d)
		if !ok || arg < 0 {
			return
		}
		s := genCfg(c.R, d.P, maskModel(arg, d.P))
		s.Cutoff = -math.Exp(5*c.R.Float64() - 1)
		var want []float64
		for m, v := range tab {
			if m > 0 && v < mn-s.Cutoff-1e-6*(1+math.Abs(mn)) {
				want = append(want, v)
			}
		}
		sort.Float64s(want)
		s.Cap = pick(c.R, len(want)+1, len(want)+3, 1<<uint(d.P)+5)
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s, "aicc": mn})
		h, _ := s.run(s.matrix(d, c.R), d.Ycopy())
		listed := map[int]bool{}
		for _, e := range entriesOf(h) {
			listed[maskOf(e.Model)] = true
		}
		for m, v := range tab {
			if m > 0 && v < mn-s.Cutoff-1e-6*(1+math.Abs(mn)) && !listed[m] {
				c.Failf("model %s with AICc %.10g lies within %.4g of the minimum %.10g but is not listed (capacity %d, %d such models)",
					bits(maskModel(m, d.P)), v, -s.Cutoff, mn, s.Cap, len(want))
			}
		}
		c.Count("models_required", int64(len(want)))
		c.Seen(len(want) > 1, d.flat(), s.Model, s.Cutoff)
	})
	// Many features: the target is one of them exactly, the search starts with
	// that one and another; the cutoff is smaller than the cost of a feature.
	c.Cases("many", c.N(8, 80), func(i int) {
		p := pick(c.R, 12, 33, 65, 66, 70, 70, 70, 70)
		d := &Data{N: p + between(c.R, 3, 12), P: p, Kind: "gauss/exact"}
		d.X = genX(c.R, "gauss", d.N, p)
		sup := c.R.Intn(p)
		if c.R.Intn(2) == 0 {
			sup = p - 1 - c.R.Intn(4)
		}
		extra := c.R.Intn(p)
		if c.R.Intn(2) == 0 {
			extra = p - 1 - c.R.Intn(4)
		}
		if p == 70 && c.R.Intn(4) > 0 {
			sup, extra = between(c.R, 64, 69), between(c.R, 64, 69)
		}
		if extra == sup {
			extra = (sup + 1) % p
		}
		d.Y = make([]float64, d.N)
		for a := range d.Y {
			d.Y[a] = 2 * d.X[a][sup]
		}
		s := genCfg(c.R, 3, []bool{true, false, false})
		s.Cap = pick(c.R, 1, 2, 10)
		s.Slow = 0
		s.Cutoff = 0.5 + c.R.Float64()
		s.Root = "near"
		s.root = make([]bool, p)
		s.root[sup], s.root[extra] = true, true
		s.Model = bits(s.root)
		want := refAICc(1, d.N, 0)
		c.Input(map[string]interface{}{"rows": d.N, "columns": p, "search": s, "optimum": sup, "aicc": want})
		h, sp := s.run(d.Dense(), d.Ycopy())
		if h.Len() == 0 || !(-h.BestScore() <= want+s.Cutoff) {
			c.Failf("best AICc %.10g is more than the cutoff %.6g above the minimum %.10g", -h.BestScore(), s.Cutoff, want)
		}
		_, ne, _ := sp.Get()
		c.Count("models_scored", int64(ne))
		c.Max("columns", int64(p))
		c.Seen(true, d.flat(), s.Model, s.Cutoff)
	})
	// A cutoff so large that no branch can stay within it: only the start model
	// is scored
	c.Cases("huge", c.N(160, 1500), func(i int) {
		d := searchData(c.R, 8)
		root := genModel(c.R, d.P, 0.4)
		k := len(selOf(root))
		if k == 0 || k >= d.N {
			return
		}
		s := genCfg(c.R, d.P, root)
		s.Root, s.root, s.Model = "given", root, bits(root)
		s.Cutoff, s.Queue, s.Cap = 1e9, -1, 100
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s})
		h, sp := s.run(s.matrix(d, c.R), d.Ycopy())
		_, ne, _ := sp.Get()
		if h.Len() != 1 || ne != 1 {
			c.Failf("with a cutoff of 1e9 %d models were scored beyond the start model", ne-1)
		}
		c.Seen(true, d.flat(), s.Model)
	})
	c.Cases("admission", c.N(1600, 20000), func(i int) {
		d := searchData(c.R, 7)
		X, y := d.Dense(), d.Ycopy()
		node := fs.NewNode(c.R.Intn(d.P), genModel(c.R, d.P, 0.4))
		flip := c.R.Intn(2) == 0
		child := append([]bool{}, node.Model...)
		if flip {
			child[node.Level] = !child[node.Level]
		}
		if len(selOf(child[:node.Level+1])) == 0 && len(selOf(child)) == 0 {
			return // the bound of the empty model is a convention
		}
		lo := 0.0
		if len(selOf(child)) > 0 {
			lo, _ = fs.BoundsAICC(child, node.Level+1, X, y)
		}
		cut := []float64{0, 1, 10, -1, -10}[c.R.Intn(5)] * (0.1 + c.R.Float64())
		h := fs.NewHighscore(10)
		best := lo + cut + []float64{-5, -0.5, -1e-3, 1e-3, 0.5, 5}[c.R.Intn(6)]
		filled := c.R.Intn(8) > 0
		if filled {
			hn := fs.NewNode(0, genModel(c.R, d.P, 0.5))
			hn.Score = -best
			h.Insert(hn)
			if c.R.Intn(2) == 0 {
				hn2 := fs.NewNode(0, genModel(c.R, d.P, 0.5))
				hn2.Score = -best - 3
				h.Insert(hn2)
			}
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "node": bits(node.Model), "level": node.Level, "flip": flip, "cutoff": cut, "lower": lo, "best": best, "filled": filled})
		got := fs.CreateChild(node, flip, X, y, cut, h)
		impossible := len(selOf(child[:node.Level+1])) >= d.N
		switch {
		case impossible:
			if got != nil {
				c.Failf("a branch whose fixed part has as many features as data points was admitted")
			}
		case !filled || lo+cut <= best:
			if got == nil {
				c.Failf("branch with lower bound %.10g rejected although the best score is %v (filled %v) and the cutoff %v", lo, best, filled, cut)
			}
			if bits(got.Model) != bits(child) || got.Level != node.Level+1 || got.WasFlipped != flip {
				c.Failf("child is %s level %d, expected %s level %d", bits(got.Model), got.Level, bits(child), node.Level+1)
			}
		default:
			if got != nil {
				c.Failf("branch with lower bound %.10g admitted although the best score is %.10g and the cutoff %v", lo, best, cut)
			}
		}
		c.Count("admission_decisions", 1)
		c.Seen(filled, d.flat(), bits(child), cut, best)
	})
}

func runC05(c *Ctx) {
	mk := func(n int) (*list.List, []*fs.Node) {
		q := list.New()
		var all []*fs.Node
		style := c.R.Intn(6)
		base := 100 * c.R.NormFloat64()
		for i := 0; i < n; i++ {
			nd := fs.NewNode(i, []bool{true, false, true})
			switch style {
			case 0:
				nd.Lower = base + 10*c.R.NormFloat64()
			case 1:
				nd.Lower = base // all equal
			case 2:
				nd.Lower = math.Floor(4 * c.R.Float64()) // many ties
			case 3:
				nd.Lower = base
				if c.R.Intn(3) == 0 {
					nd.Lower = base + 1
				}
			case 4:
				nd.Lower = base + float64(i)
			case 5:
				nd.Lower = -10 * float64(i)
				if c.R.Intn(4) == 0 {
					nd.Lower = -1e100
				}
			}
			nd.Upper = nd.Lower + 5
			nd.Score = float64(i)
			all = append(all, nd)
			q.PushBack(nd)
		}
		return q, all
	}
	compare := func(q *list.List, want []*fs.Node, what string) {
		i := 0
		for e := q.Front(); e != nil; e = e.Next() {
			if i >= len(want) || e.Value.(*fs.Node) != want[i] {
				c.Failf("%s: element %d of the queue is wrong (%d expected to remain, %d remain)", what, i, len(want), q.Len())
			}
			i++
		}
		if i != len(want) {
			c.Failf("%s: %d nodes remain, expected %d", what, i, len(want))
		}
	}
	lowers := func(a []*fs.Node) (r []float64) {
		for _, n := range a {
			r = append(r, n.Lower)
		}
		return
	}
	c.Cases("clean", c.N(20000, 200000), func(i int) {
		n, _ := c.grow(c.R.Intn(40), 3, 5000, 3, 1000)
		q, all := mk(n)
		th := 100 * c.R.NormFloat64()
		if len(all) > 0 && c.R.Intn(3) > 0 {
			th = all[c.R.Intn(len(all))].Lower
			if c.R.Intn(3) == 0 {
				th = math.Nextafter(th, math.Inf(1-2*c.R.Intn(2)))
			}
		}
		c.Input(map[string]interface{}{"lower": lowers(all), "threshold": th})
		var want []*fs.Node
		for _, n := range all {
			if !(n.Lower > th) {
				want = append(want, n)
			}
		}
		fs.CleanQueue(q, th)
		compare(q, want, "CleanQueue")
		c.Count("nodes", int64(len(all)))
		c.Seen(len(all) > 1, lowers(all), th)
	})
	c.Cases("mean", c.N(20000, 200000), func(i int) {
		n, _ := c.grow(1+c.R.Intn(pick(c.R, 3, 30, 200)), 3, 5000, 3, 1000)
		q, all := mk(n)
		lo := lowers(all)
		c.Input(map[string]interface{}{"lower": lo})
		m := rmean(lo)
		mn, mx := math.Inf(1), math.Inf(-1)
		for _, v := range lo {
			mn, mx = math.Min(mn, v), math.Max(mx, v)
		}
		tol := 1e-12 * float64(len(lo)) * (math.Abs(mn) + math.Abs(mx))
		fs.RemoveLeastPromising(q)
		left := map[*fs.Node]bool{}
		var rest []*fs.Node
		for e := q.Front(); e != nil; e = e.Next() {
			left[e.Value.(*fs.Node)] = true
			rest = append(rest, e.Value.(*fs.Node))
		}
		for _, n := range all {
			if n.Lower == mn && !left[n] {
				c.Failf("a node with the smallest lower bound %v was dropped (mean %v)", mn, m)
			}
			if n.Lower > m+tol && left[n] {
				c.Failf("node with lower bound %v above the mean %v was kept", n.Lower, m)
			}
			if n.Lower < m-tol && !left[n] {
				c.Failf("node with lower bound %v below the mean %v was dropped", n.Lower, m)
			}
		}
		k := 0
		for _, n := range all {
			if left[n] {
				if rest[k] != n {
					c.Failf("the order of the queue changed")
				}
				k++
			}
		}
		if k != len(rest) {
			c.Failf("the queue holds %d nodes, %d of them known", len(rest), k)
		}
		c.Count("nodes", int64(len(all)))
		c.Seen(len(all) > 1, lo)
	})
	c.Cases("search", c.N(600, 6000), func(i int) {
		d := searchData(c.R, 8)
		tab, _, arg, ok := best1(d)
		if !ok || arg < 0 {
			return
		}
		s := genCfg(c.R, d.P, maskModel(c.R.Intn(1<<uint(d.P)), d.P))
		s.Queue = pick(c.R, 1, 2, 3, 4, 8, 20)
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s})
		h, _ := s.run(s.matrix(d, c.R), d.Ycopy())
		c.Seen(true, d.flat(), s.Model, s.Queue)
		c.Count("limited_searches", 1)
		if s.root == nil {
			return
		}
		rm := maskOf(s.root)
		if k := len(selOf(s.root)); k == 0 || k >= d.N {
			return
		}
		es := entriesOf(h)
		if len(es) == 0 {
			c.Failf("the start model is not listed")
		}
		if got := tab[maskOf(es[0].Model)]; !(got <= tab[rm]+scoreTol*(1+math.Abs(tab[rm]))) || !(-h.BestScore() <= tab[rm]+scoreTol*(1+math.Abs(tab[rm]))) {
			c.Failf("best AICc %.10g is worse than that of the start model, %.10g", got, tab[rm])
		}
	})
}

func runC09(c *Ctx) {
	c.Cases("poll", c.N(400, 4000), func(i int) {
		d := searchData(c.R, 9)
		s := genCfg(c.R, d.P, genModel(c.R, d.P, 0.4))
		s.Cap = 1<<uint(d.P) + 5
		s.Procs = pick(c.R, 2, 4, 8)
		if c.R.Intn(4) == 0 {
			s.Cutoff = -30 * c.R.Float64()
		}
		if c.R.Intn(6) == 0 {
			s.Queue = pick(c.R, 2, 5)
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s})
		h := fs.NewHighscore(s.Cap)
		var sp fs.SearchProgress
		done := make(chan bool)
		type snap struct {
			b float64
			n int
			p float64
		}
		const readers = 2
		msgs := make(chan string, readers)
		seen := make([]map[snap]bool, readers)
		for r := 0; r < readers; r++ {
			seen[r] = map[snap]bool{}
			go func(r int) {
				var last snap
				var pace pacer
				for first := true; ; first = false {
					var x snap
					x.b, x.n, x.p = sp.Get()
					if !first {
						if x.n < last.n {
							msgs <- fmt.Sprintf("number of explored models fell from %d to %d", last.n, x.n)
							return
						}
						if x.p < last.p {
							msgs <- fmt.Sprintf("log2 pruned fell from %v to %v", last.p, x.p)
							return
						}
						if last.n > 0 && x.b < last.b {
							msgs <- fmt.Sprintf("best score fell from %v to %v", last.b, x.b)
							return
						}
					}
					seen[r][x] = true
					last = x
					select {
					case <-done:
						msgs <- ""
						return
					default:
						if pace.yield() {
							<-done
						}
					}
				}
			}(r)
		}
		s.runInto(s.matrix(d, c.R), d.Ycopy(), h, &sp)
		close(done)
		for r := 0; r < readers; r++ {
			if m := <-msgs; m != "" {
				c.Failf("while the search ran: %s", m)
			}
		}
		b, n, pr := sp.Get()
		if b != h.BestScore() {
			c.Failf("final progress reports best score %v, the list %v", b, h.BestScore())
		}
		if n != h.Len() {
			c.Failf("final progress reports %d explored models, %d were scored", n, h.Len())
		}
		for r := range seen {
			for x := range seen[r] {
				if x.n > n || x.p > pr || (x.n > 0 && x.b > b) {
					c.Failf("progress %+v was ahead of the final progress (%v %v %v)", x, b, n, pr)
				}
			}
			c.Max("distinct_snapshots_per_search", int64(len(seen[r])))
		}
		c.Count("snapshots", int64(len(seen[0])+len(seen[1])))
		c.Seen(len(seen[0]) >= 3 || len(seen[1]) >= 3, d.flat(), s.Model)
	})
	// every model is scored, so that the final count is known
	c.Cases("wide", c.N(4, 40), func(i int) {
		n, p := fewSize(c)
		if i%8 == 3 { // more than 2^16 models
			n, p = 5, between(c.R, 37, 39)
		}
		d, s := wideSearch(c, n, p)
		s.Cutoff = -1e9
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s})
		want := 0
		for k, b := 1, 1; k < n; k++ {
			b = b * (p - k + 1) / k
			want += b
		}
		h, sp := s.run(s.matrix(d, c.R), d.Ycopy())
		best, num, pr := sp.Get()
		if best != h.BestScore() {
			c.Failf("final progress reports best score %v, the list %v", best, h.BestScore())
		}
		if num != want {
			c.Failf("final progress reports %d explored models, there are %d with 1 to %d of %d features and nothing is cut off", num, want, n-1, p)
		}
		if math.IsNaN(pr) || pr < float64(p)-1 {
			c.Failf("log2 of the number of pruned models is %v for %d features and %d rows", pr, p, n)
		}
		c.Count("models_scored", int64(num))
		c.Max("models_in_one_search", int64(num))
		c.Seen(true, d.flat(), s.Model)
	})
	c.Cases("torn", c.N(64, 400), func(i int) {
		var sp fs.SearchProgress
		old := runtime.GOMAXPROCS(8)
		defer runtime.GOMAXPROCS(old)
		done := make(chan bool)
		const writers, readers = 3, 3
		wd := make(chan bool)
		for w := 0; w < writers; w++ {
			go func(w int) {
				for k := 1; k <= 4000; k++ {
					v := k*writers + w
					sp.Set(float64(v), v, float64(-v))
				}
				wd <- true
			}(w)
		}
		msgs := make(chan string, readers)
		polls := make([]int, readers)
		for r := 0; r < readers; r++ {
			go func(r int) {
				for {
					a, b, d := sp.Get()
					polls[r]++
					if a != float64(b) || d != -a {
						msgs <- fmt.Sprintf("values of different updates: %v %v %v", a, b, d)
						return
					}
					select {
					case <-done:
						msgs <- ""
						return
					default:
					}
				}
			}(r)
		}
		for w := 0; w < writers; w++ {
			<-wd
		}
		close(done)
		for r := 0; r < readers; r++ {
			if m := <-msgs; m != "" {
				c.Failf("%s", m)
			}
			c.Count("torn_polls", int64(polls[r]))
		}
		c.Seen(true, "torn", i)
	})
	c.Cases("logsum", c.N(40, 400), func(i int) {
		for k := 0; k < 500; k++ {
			a := 0.0
			b := c.R.Intn(60)
			switch c.R.Intn(5) {
			case 0:
				a = 60 * c.R.Float64()
			case 1:
				a, b = 3000*c.R.Float64(), c.R.Intn(3000)
			case 2:
				a = float64(b)
			case 3:
				a, b = 0, c.R.Intn(5000)
			case 4:
				a, b = 5*c.R.Float64(), c.R.Intn(5)
			}
			c.Input(map[string]interface{}{"current": a, "pruned": b})
			got := fs.NewLog2Pruned(a, b)
			hi, lo := math.Max(a, float64(b)), math.Min(a, float64(b))
			want := hi + math.Log1p(math.Exp2(lo-hi))/math.Ln2
			if !close2(got, want, 1e-12) || got < hi {
				c.Failf("NewLog2Pruned(%v, %v) = %v, expected %v", a, b, got, want)
			}
			c.Seen(true, a, b)
		}
	})
}

var _ = json.Marshal
