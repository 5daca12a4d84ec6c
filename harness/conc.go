package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C40", &check{run: runC40, race: true, rule: "2-8 goroutines, released together, each running one to four library calls (the same call or different ones) on shared matrices, datasets, normalised data, covariance estimates, corrections, models, paths and files, under the race detector and 1-8 processors; every result is compared with the result of the same call made alone beforehand; non-trivial = at least two goroutines"})
}

// outcome is the result of a call: text that must agree exactly and numbers that
// must agree up to rounding.
type outcome struct {
	s string
	v []float64
}

func (o *outcome) add(v ...float64) { o.v = append(o.v, v...) }
func (o *outcome) txt(a ...interface{}) {
	o.s += fmt.Sprint(a...) + "|"
}
func (o *outcome) mat(m mat.Matrix) {
	r, k := m.Dims()
	o.txt(r, k)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			o.add(m.At(i, j))
		}
	}
}
func (o *outcome) path(p []*fs.LassoLarsNode) {
	o.txt(len(p))
	for _, n := range p {
		o.txt(n.Selection)
		o.add(n.Lamb)
		o.add(n.Coeff...)
	}
}

func (o *outcome) differs(w *outcome, tol float64) string {
	if tol == 0 {
		tol = 1e-8
	}
	if o.s != w.s {
		return fmt.Sprintf("%s instead of %s", clip(o.s, 300), clip(w.s, 300))
	}
	if len(o.v) != len(w.v) {
		return fmt.Sprintf("%d numbers instead of %d", len(o.v), len(w.v))
	}
	for k := range o.v {
		a, b := o.v[k], w.v[k]
		if a == b || math.IsNaN(a) && math.IsNaN(b) {
			continue
		}
		if !(math.Abs(a-b) <= tol*(1+math.Abs(b))) {
			return fmt.Sprintf("%v instead of %v (number %d of %d)", a, b, k, len(o.v))
		}
	}
	return ""
}

// libCall is one call of the library. If it cannot give the same result twice
// (it draws random numbers), law says what is wrong with its result.
type libCall struct {
	name string
	f    func(o *outcome)
	law  func(o *outcome) string
	tol  float64 // relative tolerance (1e-8 if zero)
}

// together runs the calls on several goroutines at once and compares.
func (c *Ctx) together(calls []libCall) {
	want := make([]outcome, len(calls))
	lone := c.R.Intn(2) != 0 // otherwise nothing is prepared by a first call
	if lone {
		for k := range calls {
			calls[k].f(&want[k])
		}
	}
	ng := between(c.R, 2, 8)
	steps := between(c.R, 1, 4)
	procs := pick(c.R, 1, 2, 4, 8)
	plan := make([][]int, ng)
	same := c.R.Intn(len(calls))
	all := c.R.Intn(2) == 0
	var names []string
	for g := range plan {
		for s := 0; s < steps; s++ {
			k := c.R.Intn(len(calls))
			if all {
				k = same
			}
			plan[g] = append(plan[g], k)
			names = append(names, calls[k].name)
		}
	}
	old := runtime.GOMAXPROCS(procs)
	got := make([][]outcome, ng)
	bad := make([]string, ng)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range plan {
		wg.Add(1)
		got[g] = make([]outcome, steps)
		go func(g int) {
			defer wg.Done()
			<-start
			for s, k := range plan[g] {
				if r := Try(func() { calls[k].f(&got[g][s]) }); r != nil {
					bad[g] = fmt.Sprintf("%s panicked while other calls were running: %v", calls[k].name, r)
					return
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	runtime.GOMAXPROCS(old)
	for g := range bad {
		if bad[g] != "" {
			c.Failf("%s", bad[g])
		}
	}
	if !lone {
		for k := range calls {
			calls[k].f(&want[k])
		}
	}
	for g := range plan {
		for s, k := range plan[g] {
			if l := calls[k].law; l != nil {
				if d := l(&got[g][s]); d != "" {
					c.Failf("%s called while other calls were running (%s): %s", calls[k].name, clip(strings.Join(names, ", "), 300), d)
				}
				continue
			}
			if d := got[g][s].differs(&want[k], calls[k].tol); d != "" {
				c.Failf("%s gives another result when other calls (%s) are running: %s", calls[k].name, clip(strings.Join(names, ", "), 300), d)
			}
		}
	}
	c.Count("calls_compared", int64(ng*steps))
	for g := range plan {
		for _, k := range plan[g] {
			c.Count("calls_"+calls[k].name, 1)
			for h := range plan {
				if h != g {
					c.Distinct("pairs_of_calls_at_once", calls[k].name+"+"+calls[plan[h][0]].name)
				}
			}
		}
	}
	c.Count("goroutines", int64(ng))
}

// group is a set of calls that share arguments, with what identifies it.
type group struct {
	calls []libCall
	key   []interface{}
}

func runC40(c *Ctx) {
	c.Cases("searches", c.N(500, 6000), func(i int) {
		g := searchCalls(c)
		c.together(g.calls)
		c.Seen(true, append(g.key, i)...)
	})
	c.Cases("lasso", c.N(350, 4000), func(i int) {
		g := lassoCalls(c, i)
		c.together(g.calls)
		c.Seen(true, append(g.key, i)...)
	})
	c.Cases("results", c.N(250, 3000), func(i int) {
		dir, err := os.MkdirTemp("", "c40-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		g := resultCalls(c, dir, i%4 == 0)
		c.together(g.calls)
		c.Seen(true, append(g.key, i)...)
	})
}

func searchCalls(c *Ctx) group {
	d := genData(c.R, between(c.R, 7, 22), between(c.R, 3, 7), safeKinds)
	var X mat.Matrix = d.Dense()
	dense := denseOf(d.X)
	switch c.R.Intn(4) {
	case 0:
		X = &slowMat{m: X, seed: c.R.Uint64(), every: 40}
	case 1:
		big := mat.NewDense(d.N+2, d.P+3, nil)
		big.Slice(1, d.N+1, 2, d.P+2).(*mat.Dense).Copy(X)
		X = big.Slice(1, d.N+1, 2, d.P+2)
	case 2:
		X = opaque{X}
	}
	y := d.Ycopy()
	yy := dot(d.Y, d.Y)
	model := genModel(c.R, d.P, 0.5)
	model[c.R.Intn(d.P)] = true
	lev := between(c.R, 0, d.P)
	sel := selOf(model)
	co := gaussMat(c.R, 1, d.P)[0]
	tol := math.Sqrt(yy) * c.R.Float64()
	cutoff := -5 * c.R.Float64()
	par := fs.NewSelectModelOptParams()
	if c.R.Intn(2) == 0 {
		par.RootModel = genModel(c.R, d.P, 0.4)
	}
	c.Input(map[string]interface{}{"data": d.Brief(), "model": bits(model), "level": lev})
	nbest := pick(c.R, 1, 3, 40)
	vals, reps := []int{c.R.Intn(100), c.R.Intn(100), c.R.Intn(100)}, between(c.R, 1, 4)
	deg := between(c.R, 1, 3)
	if c.fragile != nil {
		X = brittle{X, c.fragile}
	}
	calls := []libCall{
		{name: "SelectModel", f: func(o *outcome) {
			h := fs.NewHighscore(nbest)
			var sp fs.SearchProgress
			fs.SelectModel(X, y, h, &sp, par)
			o.add(h.BestScore())
		}},
		{name: "SelectModel(cutoff)", f: func(o *outcome) {
			// with a cutoff at or below zero every model that near is listed
			h := fs.NewHighscore(1<<uint(d.P) + 5)
			var sp fs.SearchProgress
			p := fs.NewSelectModelOptParams()
			p.Cutoff = cutoff
			fs.SelectModel(X, y, h, &sp, p)
			best := h.BestScore()
			for _, s := range h.Scores() {
				// scores on the border may come out on either side
				if s > best+cutoff+1e-6*(1+math.Abs(best)) {
					o.add(s)
				}
			}
		}},
		{name: "BruteForceSelect", f: func(o *outcome) {
			h := fs.BruteForceSelect(dense, y)
			for e := h.Items.Front(); e != nil; e = e.Next() {
				n := e.Value.(*fs.Node)
				o.txt(bits(n.Model))
				o.add(n.Score)
				o.add(n.Coeff...)
			}
		}},
		{name: "SelectModelSA", f: func(o *outcome) {
			r := fs.SelectModelSA(X, y, 2, fs.Aicc)
			for _, it := range r.Scores.Items {
				o.add(float64(len(it.Selection)))
				for _, s := range it.Selection {
					o.add(float64(s))
				}
				o.add(it.Score)
			}
		}, law: func(o *outcome) string {
			for k := 0; k < len(o.v); {
				n := int(o.v[k])
				var s []int
				for _, x := range o.v[k+1 : k+1+n] {
					s = append(s, int(x))
				}
				score := o.v[k+1+n]
				k += n + 2
				if n == 0 || n >= d.N {
					continue
				}
				_, rss, small, drop := lstsq(d.Cols(s), d.Y)
				if small < 1e-4 || drop > 1e-9 || nearFloor(rss, yy) {
					continue
				}
				if w := -refAICc(n, d.N, rss); !close2(w, score, scoreTol) {
					return fmt.Sprintf("model %v has score %v, minus its AICc is %v", s, score, w)
				}
			}
			return ""
		}},
		{name: "Omp", f: func(o *outcome) {
			r := fs.Omp(X, y, tol)
			o.txt(r.Order)
			o.add(r.Coeff...)
		}},
		{name: "BoundsAICC", f: func(o *outcome) {
			lo, up := fs.BoundsAICC(model, lev, X, y)
			o.add(lo, up)
			lo, up = fs.BoundsAIC(model, lev, X, y)
			o.add(lo, up)
		}},
		{name: "CreateChild", f: func(o *outcome) {
			n := fs.NewNode(lev%d.P, model)
			h := fs.NewHighscore(3)
			for _, flip := range []bool{false, true} {
				if ch := fs.CreateChild(n, flip, X, y, 0, h); ch != nil {
					o.txt(bits(ch.Model), ch.Level, ch.WasFlipped)
					o.add(ch.Lower, ch.Upper)
				}
			}
		}},
		{name: "Gcs", f: func(o *outcome) {
			o.txt(bits(fs.Gcs(model, lev)), bits(fs.Lcs(model, lev)), fs.NumFeatures(model), fs.SelectedFeatures(model))
		}},
		{name: "GetDesignMatrix", f: func(o *outcome) {
			m := fs.GetDesignMatrix(model, X)
			o.mat(m)
			b := fs.Fit(m, y)
			o.add(b...)
			o.add(fs.Rss(m, b, y))
			o.add(fs.Predict(m, b)...)
		}},
		{name: "Fit", f: func(o *outcome) {
			o.add(fs.Fit(X, y)...)
		}},
		{name: "Rss", f: func(o *outcome) {
			o.add(fs.Rss(X, co, y))
			o.add(fs.Predict(X, co)...)
			o.add(fs.MulSlice(X, co)...)
			o.add(fs.PredictOne(d.X[0], co))
		}},
		{name: "Gcv", f: func(o *outcome) {
			h := fs.DenumMatrixGcv(dense)
			o.mat(h)
			o.add(fs.Gcv(h, y, fs.Predict(dense, co)))
		}},
		{name: "PseudoInverse", f: func(o *outcome) {
			var svd mat.SVD
			svd.Factorize(dense, mat.SVDThin)
			o.mat(fs.PseudoInverse(&svd, 1e-6))
			o.mat(fs.PseudoInverseXTX(&svd, 1e-6))
		}},
		{name: "NewLazyMatrix", f: func(o *outcome) {
			o.mat(fs.NewLazyMatrix(dense, deg).FullMatrix())
		}},
		{name: "IterProduct", f: func(o *outcome) {
			o.txt(fs.IterProduct(vals, reps))
		}},
		{name: "RearrangeDense", f: func(o *outcome) {
			o.mat(fs.RearrangeDense(dense, sel))
		}},
		{name: "IndexedColView", f: func(o *outcome) {
			v := fs.NewIndexedColView(dense, sel)
			var g mat.Dense
			g.Mul(v.T(), &v)
			o.mat(&g)
			var r mat.VecDense
			r.MulVec(dense, fs.NewSliceVec(co))
			o.mat(&r)
		}},
		{name: "CovarianceMatrix", f: func(o *outcome) {
			o.mat(fs.CovarianceMatrix(X))
		}},
		{name: "NewNormalizedData", f: func(o *outcome) {
			if !normalizable(d) {
				return
			}
			// it normalises the matrix and the target it is given
			o.mat(fs.NewNormalizedData(mat.DenseCopyOf(dense), append([]float64{}, y...)).X)
		}},
		{name: "Argsort", f: func(o *outcome) {
			o.txt(fs.Argsort(co), fs.Argmin(co), fs.Argmax(co))
			o.add(fs.Logspace(1e-3, 2, 7)...)
			o.add(fs.WeightsFromAIC(co)...)
			o.add(fs.Mean(co), fs.Std(co), fs.MinFloat(co))
			o.add(fs.FullCoeffVector(d.P, sel, co[:len(sel)])...)
			o.txt(bits(fs.Selected2Model(sel, d.P)))
			o.add(fs.CohenKappa(sel, []int{0}, d.P))
		}},
		{name: "RandomRowSplit", f: func(o *outcome) {
			a, b := fs.RandomRowSplit(dense, d.N/2)
			o.mat(a)
			o.mat(b)
		}, law: func(o *outcome) string {
			if len(o.v) != d.N*d.P {
				return fmt.Sprintf("the parts hold %d of %d numbers", len(o.v), d.N*d.P)
			}
			left := map[string]int{}
			for _, r := range d.X {
				left[fmt.Sprint(r)]++
			}
			for k := 0; k < len(o.v); k += d.P {
				r := fmt.Sprint(o.v[k : k+d.P])
				if left[r] == 0 {
					return fmt.Sprintf("row %s is in the parts more often than in the matrix", r)
				}
				left[r]--
			}
			return ""
		}},
	}
	return group{calls, []interface{}{d.flat(), bits(model), lev}}
}

func lassoCalls(c *Ctx, i int) group {
	n, p := between(c.R, 8, 26), between(c.R, 2, 7)
	if c.R.Intn(40) == 0 {
		p = between(c.R, 8, 45)
		n = p + between(c.R, 10, 100)
	}
	d := lassoData(c.R, n, p)
	nd := normOf(d)
	covKind := pick(c.R, 0, 0, 1, 2)
	if covKind == 2 && i%5 != 0 {
		covKind = 0
	}
	corrKind := c.R.Intn(3)
	cov, corr := makeCov(covKind, nd.X), makeCorr(c.R, corrKind, d.P)
	lamb := 0.02 + 0.4*c.R.Float64()
	lambs := fs.Logspace(1e-2, 0.7, between(c.R, 1, 12))
	x0 := gaussMat(c.R, 1, d.P)[0]
	keep := 0.4 + 0.5*c.R.Float64()
	dense, y := d.Dense(), d.Ycopy()
	ds := datasetOf(d, c.R.Intn(d.P+1))
	sel := c.R.Perm(d.P)[:between(c.R, 1, d.P)]
	c.Input(map[string]interface{}{"data": d.Brief(), "cov": covNames[covKind], "corr": corrNames[corrKind], "lamb": lamb, "lambs": len(lambs)})
	// which node starts the next solution depends on the order in which the
	// workers finish, so paths are only the same if their solutions are unique
	// and reached
	maxIter, tol := 200, 1e-6
	pathLaw := func(o *outcome) string { return o.s }
	x, yn, bias := normalizedCopy(d)
	g, _ := gram(x, yn)
	if bias {
		g = withoutFirst(g)
	}
	if c.fragile != nil {
		corr, cov = &failCorr{corr, c.fragile}, &failCov{cov, c.fragile}
	}
	if lo, hi := extremeEig(g); lo > 0.02*hi && covKind < 2 && corrKind != 1 {
		maxIter, tol, pathLaw = 50000, 1e-11, nil
		c.Count("paths_with_unique_solutions", 1)
	}
	calls := []libCall{
		{name: "LassoCrdDesc", f: func(o *outcome) {
			o.add(fs.LassoCrdDesc(nd, lamb, cov, x0, 300, 1e-6, corr)...)
		}},
		{name: "LassoCrdDesc(own correction)", f: func(o *outcome) {
			o.add(fs.LassoCrdDesc(nd, lamb, cov, nil, 300, 1e-6, fs.NewCLasso(d.P, 0.1))...)
		}},
		{name: "LassoCrdDescPath", tol: 1e-5, law: pathLaw, f: func(o *outcome) {
			// leading nodes without features are left out
			full := make([]float64, len(lambs)*d.P)
			p := fs.LassoCrdDescPath(nd, cov, lambs, maxIter, tol, corr)
			for k, n := range p {
				if l := lambs[len(p)-1-k]; n == nil || n.Lamb != l {
					o.txt("node ", k, " is not the one of strength ", l)
					continue
				}
				for m, s := range n.Selection {
					full[(len(p)-1-k)*d.P+s] = n.Coeff[m]
				}
			}
			o.add(full...)
		}},
		{name: "LassoLars", f: func(o *outcome) {
			p := fs.LassoLars(nd, 1e-3, &fs.MorsePenroseCD{})
			o.path(p)
			fs.Path2Unnormalized(nd, p)
			o.path(p)
		}},
		{name: "NestedLasso", f: func(o *outcome) {
			r := fs.NestedLasso(ds, 1e-3, keep, &fs.MorsePenroseCD{})
			o.txt(len(r.Paths))
			for k := range r.Paths {
				o.path(r.Paths[k].Nodes)
				o.add(r.Paths[k].Aicc...)
				o.add(r.Paths[k].Bic...)
			}
		}},
		{name: "Covariance", f: func(o *outcome) {
			o.mat(cov.Get(nd.X))
		}},
		{name: "LinearTransformationBias", f: func(o *outcome) {
			o.add(nd.LinearTransformationBias(sel, x0[:len(sel)]))
			o.add(nd.LinearNormalizationTransformation(d.P-1, 2))
		}},
		{name: "NewNormalizedData", f: func(o *outcome) {
			n := fs.NewNormalizedData(mat.DenseCopyOf(dense), append([]float64{}, y...))
			o.mat(n.X)
			o.txt(n.HasBias)
		}},
		{name: "Dataset", f: func(o *outcome) {
			s := ds.GetSubset(sel)
			o.txt(s.Names, s.TargetCol, ds.GetFeatName(0), ds.FeatNoByName(ds.GetFeatName(d.P-1)), ds.IsEqual(ds.Copy()))
			o.mat(s.X)
			o.txt(fs.MapSelectionByName(ds, s.Names, []int{0}))
		}},
		{name: "Dataset.MarshalJSON", f: func(o *outcome) {
			b, err := json.Marshal(ds)
			o.txt(string(b), err)
			var back fs.Dataset
			o.txt(json.Unmarshal(b, &back), back.IsEqual(ds))
		}},
		{name: "SaveHandle", f: func(o *outcome) {
			var b bytes.Buffer
			ds.SaveHandle(&b)
			o.txt(b.String())
			back := fs.ParseCSV(bytes.NewReader(b.Bytes()), ds.TargetCol)
			o.txt(back.IsEqual(ds))
		}},
	}
	if variedHalves(d) {
		rows := c.R.Perm(d.N)[:d.N/2]
		mk := func() fs.CohensKappaTarget {
			t := fs.NewPureLassoCohen()
			t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, lamb, makeCov(covKind%2, nil), 200, 1e-6, corr
			return t
		}
		calls = append(calls, libCall{name: "GetSelection", f: func(o *outcome) {
			o.txt(mk().GetSelection(rows))
		}}, libCall{name: "GetCohensKappa", f: func(o *outcome) {
			o.add(fs.GetCohensKappa(2, mk()))
		}, law: func(o *outcome) string {
			if !(o.v[0] <= 1+1e-9) && !math.IsNaN(o.v[0]) {
				return fmt.Sprint("kappa ", o.v[0])
			}
			return ""
		}})
	}
	c.Count("shared_"+covNames[covKind]+"_"+corrNames[corrKind], 1)
	return group{calls, []interface{}{d.flat(), lamb, keep}}
}

func resultCalls(c *Ctx, dir string, withPlots bool) group {
	d := genData(c.R, between(c.R, 6, 22), between(c.R, 3, 6), safeKinds)
	nodes := randomPath(c.R, d.P)
	for len(nodes) < 2 {
		nodes = randomPath(c.R, d.P)
	}
	path := &fs.LassoLarsPath{Dset: datasetOf(d, c.R.Intn(d.P+1)), LassoLarsNodes: nodes}
	path.Aicc = gaussMat(c.R, 1, len(nodes))[0]
	path.Bic = gaussMat(c.R, 1, len(nodes))[0]
	h := fs.BruteForceSelect(denseOf(d.X), d.Ycopy())
	h2 := fs.BruteForceSelect(denseOf(d.X), d.Ycopy())
	lazy := fs.NewLazyMatrix(denseOf(d.X), 2)
	text, _ := json.Marshal(path)
	lst, _ := json.Marshal(h)
	csv := filepath.Join(dir, "d.csv")
	js := filepath.Join(dir, "p.json")
	path.Dset.Save(csv)
	os.WriteFile(js, text, 0644)
	var mu sync.Mutex
	nfile := 0
	c.Input(map[string]interface{}{"data": d.Brief(), "nodes": len(nodes)})
	calls := []libCall{
		{name: "GetCriteria(Aicc)", f: func(o *outcome) {
			o.add(path.GetCriteria(fs.Aicc)...)
		}},
		{name: "GetCriteria(Bic)", f: func(o *outcome) {
			o.add(path.GetCriteria(fs.Bic)...)
		}},
		{name: "ExtractPath", f: func(o *outcome) {
			lo, hi := path.MaxMinFeatNo()
			o.txt(lo, hi)
			for _, p := range path.ExtractPath(nodes[0].Selection[0]) {
				o.add(p.X, p.Y)
			}
		}},
		{name: "PickMostRelevantFeatures", f: func(o *outcome) {
			o.txt(path.PickMostRelevantFeatures(2))
			for _, s := range fs.LassoNodesSlice2SparsCoeff(nodes) {
				o.txt(s.Selection)
				o.add(s.Coeff...)
			}
		}},
		{name: "LassoLarsPath JSON", f: func(o *outcome) {
			b, err := json.Marshal(path)
			o.txt(string(b), err)
		}},
		{name: "LassoLarsPathFromBytes", f: func(o *outcome) {
			p := fs.LassoLarsPathFromBytes(text)
			o.path(p.LassoLarsNodes)
			o.txt(p.Dset.IsEqual(path.Dset))
		}},
		{name: "LassoLarsPathFromJSON", f: func(o *outcome) {
			p := fs.LassoLarsPathFromJSON(js)
			o.path(p.LassoLarsNodes)
			o.txt(p.Dset.IsEqual(path.Dset))
		}},
		{name: "ReadCSV", f: func(o *outcome) {
			o.txt(fs.ReadCSV(csv, path.Dset.TargetCol).IsEqual(path.Dset))
		}},
		{name: "Save", f: func(o *outcome) {
			mu.Lock()
			nfile++
			f := filepath.Join(dir, fmt.Sprint("s", nfile, ".csv"))
			mu.Unlock()
			path.Dset.Save(f)
			b, err := os.ReadFile(f)
			o.txt(string(b), err)
		}},
		{name: "Highscore readers", f: func(o *outcome) {
			o.add(h.BestScore())
			o.add(h.Scores()...)
			o.txt(h.Len())
		}},
		{name: "Highscore.Equal", f: func(o *outcome) {
			o.txt(h.Equal(h2), h2.Equal(h), h.Equal(h))
		}},
		{name: "Highscore JSON", f: func(o *outcome) {
			b, err := json.Marshal(h)
			o.txt(string(b), err)
			var back fs.Highscore
			o.txt(json.Unmarshal(lst, &back), back.Equal(h))
		}},
		{name: "Node", f: func(o *outcome) {
			n := h.Items.Front().Value.(*fs.Node)
			s := n.ToSparseCoeff()
			o.txt(s.Selection, n.EstimateMemory(), fs.NodesEqual(n, n), bits(fs.NewNode(1, n.Model).GetChildNode(true).Model))
			o.add(s.Coeff...)
		}},
		{name: "own Highscore", f: func(o *outcome) {
			own := fs.NewHighscore(4)
			for e := h.Items.Back(); e != nil; e = e.Prev() {
				own.Insert(e.Value.(*fs.Node))
			}
			o.add(own.Scores()...)
		}},
		{name: "LazyPowerMatrix", f: func(o *outcome) {
			o.mat(lazy.FullMatrix())
			o.add(lazy.GetCol(lazy.NumCols() - 1)...)
		}},
	}
	if withPlots {
		plots := func(o *outcome) {
			for _, p := range []interface{}{path.PlotEntranceTimes(), path.PlotQualityScores(), path.PlotDeviations(), path.PlotPath(nil)} {
				o.txt(fmt.Sprintf("%T", p))
			}
			lines, dots := strokes(path.PlotPath(nil), -20, 5, -10, 10)
			o.txt(len(lines), len(dots))
		}
		calls = append(calls, libCall{name: "plots", f: plots})
	}
	return group{calls, []interface{}{d.flat(), len(nodes)}}
}
