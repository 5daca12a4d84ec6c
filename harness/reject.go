package main

import (
	"fmt"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C39", &check{run: runC39, rule: "every entry point that needs arguments of matching sizes, called with arguments that fit (must return) and then with one that does not (a target or coefficient vector that is shorter or longer by one to all of its entries, a start model of another length, one or two features, no feature, names that differ in case, blanks or length from existing ones, numbers just outside and far outside of the range), over dense, strided, transposed, opaque and column-view matrices; memory reachable from every argument hashed around each call; non-trivial = both calls were made"})
}

func runC39(c *Ctx) {
	c.Cases("calls", c.N(9000, 90000), func(i int) {
		n, p := between(c.R, 5, 18), between(c.R, 3, 7)
		if n <= p+2 {
			n = p + 3
		}
		d := genData(c.R, n, p, []string{"gauss", "ar", "shifted"})
		kind := matKinds[c.R.Intn(len(matKinds))]
		x := matAs(kind, d.X)
		wrong := func(right int) int { // another length
			switch k := c.R.Intn(5); {
			case k == 0:
				return right + 1
			case k == 1 && right > 1:
				return right - 1
			case k == 2:
				return 2 * right
			case k == 3 && right > 1:
				return c.R.Intn(right)
			}
			return right + 1 + c.R.Intn(6)
		}
		shorter := func(right int) int { return c.R.Intn(right) }
		outside := func(n int) int { // a number that is no index below n
			return []int{n, -1, n + c.R.Intn(300), -1 - c.R.Intn(300)}[c.R.Intn(4)]
		}
		above := func(n int) int { return []int{n, n + c.R.Intn(300)}[c.R.Intn(2)] }
		vec := func(n int) []float64 {
			v := make([]float64, n)
			for k := range v {
				v[k] = c.R.NormFloat64()
			}
			return v
		}
		ny := wrong(n)
		badY := vec(ny)
		copy(badY, d.Y)
		var args []interface{}
		keep := func(a ...interface{}) { args = append(args, a...) }
		what := ""
		var good, bad func()
		op := c.R.Intn(30)
		model := genModel(c.R, p, 0.5)
		model[c.R.Intn(p)] = true
		sel := selOf(model)
		ds := datasetOf(d, c.R.Intn(p+1))
		switch op {
		case 0:
			what = "Fit, target of another length"
			keep(x, badY)
			good, bad = func() { fs.Fit(x, d.Ycopy()) }, func() { fs.Fit(x, badY) }
		case 1:
			what = "Rss, data of another length"
			co := vec(p)
			keep(x, co, badY)
			good, bad = func() { fs.Rss(x, co, d.Ycopy()) }, func() { fs.Rss(x, co, badY) }
		case 2:
			what = "Rss, coefficients of another length"
			co := vec(wrong(p))
			keep(x, co, d.Y)
			good, bad = func() { fs.Rss(x, vec(p), d.Y) }, func() { fs.Rss(x, co, d.Y) }
		case 3:
			what = "Predict, coefficients of another length"
			co := vec(wrong(p))
			keep(x, co)
			good, bad = func() { fs.Predict(x, vec(p)) }, func() { fs.Predict(x, co) }
		case 4:
			what = "MulSlice, vector of another length"
			co := vec(wrong(p))
			keep(x, co)
			good, bad = func() { fs.MulSlice(x, vec(p)) }, func() { fs.MulSlice(x, co) }
		case 5, 6:
			what = "lower and upper bounds, target of another length"
			f := fs.BoundsAIC
			if op == 6 {
				f = fs.BoundsAICC
			}
			at := c.R.Intn(p + 1)
			keep(x, badY, model)
			good, bad = func() { f(model, at, x, d.Ycopy()) }, func() { f(model, at, x, badY) }
		case 7:
			what = "exhaustive search, target of another length"
			m := d.Dense()
			keep(m, badY)
			good, bad = func() { fs.BruteForceSelect(m, d.Ycopy()) }, func() { fs.BruteForceSelect(m, badY) }
		case 8:
			what = "annealing, target of another length"
			keep(x, badY)
			good, bad = func() { fs.SelectModelSA(matAs(kind, d.X), d.Ycopy(), 1, fs.Aicc) }, func() { fs.SelectModelSA(x, badY, 1, fs.Aicc) }
		case 9:
			what = "matching pursuit, target of another length"
			keep(x, badY)
			good, bad = func() { fs.Omp(x, d.Ycopy(), 0.01) }, func() { fs.Omp(x, badY, 0.01) }
		case 10, 11:
			what = "search over fewer than three features"
			m := matAs(kind, cutCols(d.X, 1+op%2))
			h, sp := fs.NewHighscore(4), &fs.SearchProgress{}
			nd := fs.NewNode(0, model)
			nd.Score = 3
			h.Insert(nd)
			var par *fs.SelectModelOptParams
			if c.R.Intn(2) == 0 {
				par = fs.NewSelectModelOptParams()
				if c.R.Intn(2) == 0 {
					par.RootModel = make([]bool, 1+op%2)
				}
			}
			keep(m, d.Y, h, sp, par)
			good = func() {
				fs.SelectModel(matAs(kind, cutCols(d.X, 3)), d.Ycopy(), fs.NewHighscore(3), &fs.SearchProgress{}, nil)
			}
			bad = func() { fs.SelectModel(m, d.Y, h, sp, par) }
		case 29:
			what = "search for a target of another length"
			h, sp := fs.NewHighscore(4), &fs.SearchProgress{}
			nd := fs.NewNode(0, model)
			nd.Score = 3
			h.Insert(nd)
			var par *fs.SelectModelOptParams
			if c.R.Intn(2) == 0 {
				par = fs.NewSelectModelOptParams()
				if c.R.Intn(2) == 0 {
					par.RootModel = model
				}
			}
			keep(x, badY, h, sp, par)
			good = func() {
				fs.SelectModel(matAs(kind, d.X), d.Ycopy(), fs.NewHighscore(3), &fs.SearchProgress{}, nil)
			}
			bad = func() { fs.SelectModel(x, badY, h, sp, par) }
		case 12, 13, 14:
			what = "search with a start model of another length"
			h, sp := fs.NewHighscore(4), &fs.SearchProgress{}
			nd := fs.NewNode(0, model)
			nd.Score = 3
			h.Insert(nd)
			ok := fs.NewSelectModelOptParams()
			ok.RootModel = model
			par := fs.NewSelectModelOptParams()
			par.RootModel = make([]bool, wrong(p))
			if op == 12 {
				par.RootModel = make([]bool, 0)
			}
			for k := range par.RootModel {
				par.RootModel[k] = c.R.Intn(2) == 0
			}
			keep(x, d.Y, h, sp, par)
			good = func() {
				fs.SelectModel(matAs(kind, d.X), d.Ycopy(), fs.NewHighscore(3), &fs.SearchProgress{}, ok)
			}
			bad = func() { fs.SelectModel(x, d.Y, h, sp, par) }
		case 15:
			what = "design matrix of a model without features"
			none := make([]bool, p)
			keep(x, none)
			good, bad = func() { fs.GetDesignMatrix(model, x) }, func() { fs.GetDesignMatrix(none, x) }
		case 16:
			what = "node whose coefficients do not match its selection"
			co := vec(wrong(len(sel)))
			keep(co, sel)
			good, bad = func() { fs.NewLassoLarsNode(vec(len(sel)), 1, sel) }, func() { fs.NewLassoLarsNode(co, 1, sel) }
		case 17:
			what = "average with another number of weights than models"
			k := between(c.R, 1, 6)
			sp := make([]fs.SparseCoeff, k)
			for q := range sp {
				sp[q] = fs.SparseCoeff{Selection: sel, Coeff: vec(len(sel))}
			}
			w := vec(wrong(k))
			keep(sp, w)
			good, bad = func() { fs.WeightedAveragedCoeff(p, vec(k), sp) }, func() { fs.WeightedAveragedCoeff(p, w, sp) }
		case 18:
			what = "average of a model with a feature that does not exist"
			f := outside(p)
			sp := []fs.SparseCoeff{{Selection: sel, Coeff: vec(len(sel))}, {Selection: []int{f}, Coeff: vec(1)}}
			w := vec(2)
			keep(sp, w)
			good, bad = func() { fs.WeightedAveragedCoeff(p, vec(1), sp[:1]) }, func() { fs.WeightedAveragedCoeff(p, w, sp) }
		case 19:
			what = "name that does not exist"
			for j := range ds.Names {
				ds.Names[j] = genName(c.R, j)
			}
			have := map[string]bool{}
			for _, s := range ds.Names {
				have[s] = true
			}
			s := ds.Names[c.R.Intn(p+1)]
			for k := 0; have[s] || k == 0; k++ {
				switch c.R.Intn(7) {
				case 0:
					s = strings.ToUpper(s)
				case 1:
					s += " "
				case 2:
					s = " " + s
				case 3:
					if len(s) > 0 {
						s = s[:len(s)-1]
					}
				case 4:
					s += "x"
				case 5:
					s = strings.Title(s)
				default:
					s = ""
				}
				if k > 50 {
					s = "no such name"
				}
			}
			keep(ds)
			what += fmt.Sprintf(" (%q among %q)", s, ds.Names)
			good, bad = func() { ds.FeatNoByName(ds.Names[0]) }, func() { ds.FeatNoByName(s) }
		case 20:
			what = "subset with a feature that does not exist"
			f := append(append([]int{}, sel...), outside(p))
			c.R.Shuffle(len(f), func(a, b int) { f[a], f[b] = f[b], f[a] })
			keep(ds, f)
			good, bad = func() { ds.GetSubset(sel) }, func() { ds.GetSubset(f) }
		case 21:
			what = "name of a feature that does not exist"
			f := outside(p)
			keep(ds)
			good, bad = func() { ds.GetFeatName(p - 1) }, func() { ds.GetFeatName(f) }
		case 22:
			what = "full vector of a model with a feature that does not exist"
			f := append(append([]int{}, sel...), outside(p))
			co := vec(len(f))
			keep(f, co)
			good, bad = func() { fs.FullCoeffVector(p, sel, vec(len(sel))) }, func() { fs.FullCoeffVector(p, f, co) }
		case 23:
			what = "full vector of too few coefficients"
			co := vec(shorter(len(sel)))
			keep(sel, co)
			good, bad = func() { fs.FullCoeffVector(p, sel, vec(len(sel))) }, func() { fs.FullCoeffVector(p, sel, co) }
		case 24:
			what = "model of a selection with a feature that does not exist"
			f := append(append([]int{}, sel...), outside(p))
			keep(f)
			good, bad = func() { fs.Selected2Model(sel, p) }, func() { fs.Selected2Model(f, p) }
		case 25:
			what = "column order with a column that does not exist"
			m := d.Dense()
			ord := c.R.Perm(p)
			f := append([]int{}, ord...)
			f[c.R.Intn(p)] = above(p)
			keep(m, f)
			good, bad = func() { fs.RearrangeDense(m, ord) }, func() { fs.RearrangeDense(m, f) }
		case 26:
			what = "element outside of a view"
			v := fs.NewIndexedColView(x, sel)
			sv := fs.NewSliceVec(d.Y)
			rows := fs.NewIndexedColVecView(mat.NewVecDense(n, d.Ycopy()), sel)
			k := c.R.Intn(4)
			f, g := outside(len(sel)), outside(n)
			lost := fs.NewIndexedColView(x, []int{outside(p)})
			keep(&v, sv, rows)
			good = func() { v.At(n-1, len(sel)-1); sv.AtVec(n - 1); rows.AtVec(len(sel) - 1) }
			bad = func() {
				switch k {
				case 0:
					v.At(c.R.Intn(n), f)
				case 1:
					sv.AtVec(g)
				case 2:
					rows.AtVec(f)
				default:
					lost.At(c.R.Intn(n), 0)
				}
			}
			what += fmt.Sprint(" ", k)
		case 27:
			what = "transformation of the intercept"
			rows := make([][]float64, n)
			for r := range rows {
				rows[r] = append([]float64{1}, d.X[r]...)
			}
			nd := fs.NewNormalizedData(denseOf(rows), d.Ycopy())
			keep(nd)
			good, bad = func() { nd.LinearNormalizationTransformation(1, 2) }, func() { nd.LinearNormalizationTransformation(0, 2) }
		case 28:
			what = "lasso, start vector that is too short"
			nd := fs.NewNormalizedData(d.Dense(), d.Ycopy())
			x0 := vec(shorter(p))
			keep(nd, x0)
			good = func() {
				fs.LassoCrdDesc(fs.NewNormalizedData(d.Dense(), d.Ycopy()), 0.1, &fs.Empirical{}, vec(p), 200, 1e-3, &fs.PureLasso{})
			}
			bad = func() { fs.LassoCrdDesc(nd, 0.1, &fs.Empirical{}, x0, 200, 1e-3, &fs.PureLasso{}) }
		}
		c.Input(map[string]interface{}{"call": what, "matrix": kind, "rows": n, "features": p, "target_length": ny, "selection": sel})
		before := make([]uint64, len(args))
		for k := range args {
			before[k] = deepHash(args[k])
		}
		good() // a panic is reported as such
		for k := range args {
			before[k] = deepHash(args[k])
		}
		if Try(bad) == nil {
			c.Failf("%s: the call returned instead of rejecting its arguments", what)
		}
		for k := range args {
			if deepHash(args[k]) != before[k] {
				c.Failf("%s: argument %d of the rejected call was changed", what, k)
			}
		}
		if left := waitNoLibGoroutines(); len(left) > 0 {
			c.Failf("%s: the rejected call left %d goroutines behind: %s", what, len(left), clip(left[0], 600))
		}
		c.Count("rejected_calls", 1)
		c.Distinct("kind_of_call", op)
		c.Seen(true, d.flat(), what, kind)
	})
}

// cutCols keeps the first k columns.
func cutCols(x [][]float64, k int) [][]float64 {
	r := make([][]float64, len(x))
	for i := range x {
		r[i] = append([]float64{}, x[i][:k]...)
	}
	return r
}
