package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C11", &check{run: runC11, rule: "annealing runs on random data (6-40 rows, 1-10 columns, 1-25 sweeps, some with up to 140 rows and 60 columns most of which are needed) under AIC, AICc, BIC and four recording cost functions: every cost evaluation is recorded, the leaderboard and the returned selection are recomputed by own least squares, the reads of the design are recorded, and with at least 20 sweeps every single flip of the result is evaluated; non-trivial = at least two columns"})
}

func runC11(c *Ctx) {
	one := func(kinds []string, minSweeps int, many bool) {
		n := pick(c.R, 6, 7, 8, 9, 10, 12, 15, 20, 30, 40)
		p := between(c.R, 1, 9)
		if c.R.Intn(6) == 0 {
			p = between(c.R, n, n+4)
			if p > 14 {
				p = 14
			}
		}
		if c.R.Intn(150) == 0 {
			p = between(c.R, 15, 75)
			n = between(c.R, 8, 24)
			if c.R.Intn(2) == 0 {
				n, p = between(c.R, 60, 200), between(c.R, 1, 6)
			}
		}
		d := genData(c.R, n, p, kinds)
		sweeps := pick(c.R, 1, 2, 5, 20, 22)
		if many {
			// most features are needed, so that large models are on the leaderboard
			p = between(c.R, 40, 60)
			n = 2*p + between(c.R, 4, 20)
			d = &Data{N: n, P: p, Kind: "gauss/most"}
			d.X = genX(c.R, "gauss", n, p)
			b := make([]float64, p)
			for j := range b {
				b[j] = 1 + c.R.Float64()
			}
			d.Y = matVec(d.X, b)
			for a := range d.Y {
				d.Y[a] += 0.3 * c.R.NormFloat64()
			}
			sweeps = 1
		}
		if sweeps < minSweeps {
			sweeps = minSweeps
		}
		if minSweeps == 1 && !many && c.R.Intn(20) == 0 {
			sweeps = -c.R.Intn(3) // taken as one
			c.Count("less_than_one_sweep", 1)
		}
		costName := []string{"aic", "aicc", "bic", "rss", "constant", "huge", "smooth"}[c.R.Intn(7)]
		base := map[string]func(int, int, float64) float64{
			"aic": fs.Aic, "aicc": fs.Aicc, "bic": fs.Bic,
			"rss":      func(k, n int, r float64) float64 { return r },
			"constant": func(k, n int, r float64) float64 { return 3 },
			"huge":     func(k, n int, r float64) float64 { return 1e6 * (float64(k) + r) },
			"smooth":   func(k, n int, r float64) float64 { return math.Sqrt(r) + 0.1*float64(k) },
		}[costName]
		c.Input(map[string]interface{}{"data": d.Brief(), "sweeps": sweeps, "cost": costName})
		evals := 0
		cheapest := math.Inf(1)
		bad := ""
		rec := func(k, nd int, r float64) float64 {
			evals++
			if k < 1 || 2*k >= n {
				bad = fmt.Sprintf("a model with %d features was evaluated for %d data points", k, n)
			}
			if nd != n {
				bad = fmt.Sprintf("the cost function was told %d data points, there are %d", nd, n)
			}
			if !(r >= 1e-12) {
				bad = fmt.Sprintf("the cost function was given the residual %v", r)
			}
			v := base(k, nd, r)
			cheapest = math.Min(cheapest, v)
			return v
		}
		X := newCountMat(d.Dense())
		res := fs.SelectModelSA(X, d.Ycopy(), sweeps, rec)
		if bad != "" {
			c.Failf("%s", bad)
		}
		// Every draw is evaluated if no model is too large (with a bound on the
		// size, a search may stay in a model that has no larger neighbours).
		for j := 0; j < p && evals >= 30*p && (p+1 < n/2 || costName == "constant"); j++ {
			if !X.cols[j] {
				c.Failf("column %d was never looked at in %d evaluations", j, evals)
			}
		}
		c.Count("evaluations_recorded", int64(evals))

		exact := func(sel []int) (co []float64, cost float64, ok bool) {
			xs := d.Cols(sel)
			co, rss, small, drop := lstsq(xs, d.Y)
			ok = small > 1e-4 && drop < 1e-9 && !nearFloor(rss, dot(d.Y, d.Y))
			return co, base(len(sel), n, math.Max(rss, rssFloor)), ok
		}
		coeffTol := func(sel []int) float64 {
			_, _, small, _ := lstsq(d.Cols(sel), d.Y)
			return 1e-8 * (1 + maxAbsM(d.Cols(sel))/small)
		}
		validSel := func(what string, sel []int) {
			if len(sel) == 0 || 2*len(sel) >= n || !sort.IntsAreSorted(sel) {
				c.Failf("%s is %v for %d data points", what, sel, n)
			}
			for i, j := range sel {
				if j < 0 || j >= p || (i > 0 && sel[i-1] == j) {
					c.Failf("%s is %v for %d columns", what, sel, p)
				}
			}
		}

		validSel("the returned selection", res.Selected)
		if len(res.Coeff) != len(res.Selected) {
			c.Failf("%d coefficients are returned for %d features", len(res.Coeff), len(res.Selected))
		}
		co, cost, ok := exact(res.Selected)
		if ok && !closeVec(co, res.Coeff, coeffTol(res.Selected)) {
			c.Failf("the returned coefficients of %v are %v, the least-squares fit is %v", res.Selected, res.Coeff, co)
		}

		if res.Scores == nil || len(res.Scores.Items) == 0 {
			c.Failf("the leaderboard is empty after %d evaluations", evals)
		}
		seen := map[string]bool{}
		best, worst := math.Inf(-1), math.Inf(1)
		found := false
		for _, it := range res.Scores.Items {
			validSel("a leaderboard entry", it.Selection)
			k := fmt.Sprint(it.Selection)
			if seen[k] {
				c.Failf("the leaderboard lists %s twice", k)
			}
			seen[k] = true
			eco, ecost, eok := exact(it.Selection)
			if len(it.Coeff) != len(it.Selection) {
				c.Failf("the leaderboard entry %s has %d coefficients", k, len(it.Coeff))
			}
			if eok {
				if !closeVec(eco, it.Coeff, coeffTol(it.Selection)) {
					c.Failf("the leaderboard entry %s has coefficients %v, the least-squares fit is %v", k, it.Coeff, eco)
				}
				if !close2(-ecost, it.Score, scoreTol) {
					c.Failf("the leaderboard entry %s has score %.10g, minus its cost is %.10g", k, it.Score, -ecost)
				}
			}
			best, worst = math.Max(best, it.Score), math.Min(worst, it.Score)
			if intsEqual(it.Selection, res.Selected) {
				found = true
			}
			c.Count("leaderboard_entries_recomputed", 1)
		}
		if best != -cheapest {
			c.Failf("the best leaderboard entry costs %.12g, the cheapest evaluated model %.12g", -best, cheapest)
		}
		for _, m := range []struct {
			name string
			it   *fs.SAItem
			want float64
		}{{"best", res.Scores.BestItem, best}, {"worst", res.Scores.WorstItem, worst}} {
			if m.it == nil || m.it.Score != m.want {
				c.Failf("the %s marker is %+v, the %s score in the list is %v", m.name, m.it, m.name, m.want)
			}
			eco, ecost, eok := exact(m.it.Selection)
			if eok && (!closeVec(eco, m.it.Coeff, coeffTol(m.it.Selection)) || !close2(-ecost, m.it.Score, scoreTol)) {
				c.Failf("the %s marker %+v does not describe its model", m.name, m.it)
			}
		}

		if found {
			c.Count("result_on_leaderboard", 1)
		}
		// the result is a local optimum
		if sweeps >= 20 && ok && minSweeps >= 20 && costName != "constant" {
			all := true
			for j := 0; j < p; j++ {
				m := modelOf(res.Selected, p)
				m[j] = !m[j]
				s := selOf(m)
				if len(s) == 0 || len(s) >= n/2 {
					continue
				}
				_, cc, fok := exact(s)
				if !fok {
					all = false
					continue
				}
				if cc < cost-1e-6*(1+math.Abs(cost)) {
					c.Failf("the returned selection %v costs %.10g, but %v costs %.10g", res.Selected, cost, s, cc)
				}
				c.Count("flips_checked", 1)
			}
			if all {
				c.Count("local_optima_confirmed", 1)
			}
		}
		c.Seen(p > 1, d.flat(), sweeps, costName)
	}
	c.Cases("generic", c.N(520, 6000), func(i int) { one(safeKinds, 20, false) })
	c.Cases("any", c.N(320, 6000), func(i int) { one(designKinds, 1, false) })
	c.Cases("many", c.N(4, 40), func(i int) { one(safeKinds, 1, true) })
	// concurrent annealing on shared data
	c.Cases("shared", c.N(24, 200), func(i int) {
		d := genData(c.R, between(c.R, 8, 20), between(c.R, 2, 6), safeKinds)
		c.Input(map[string]interface{}{"data": d.Brief(), "concurrent": true})
		X := mat.Matrix(d.Dense())
		y := d.Ycopy()
		before := runtime.NumGoroutine()
		out := make(chan *fs.SARes, 3)
		for k := 0; k < 3; k++ {
			go func() { out <- fs.SelectModelSA(X, y, 5, fs.Aicc) }()
		}
		for k := 0; k < 3; k++ {
			r := <-out
			co, _, small, drop := lstsq(d.Cols(r.Selected), d.Y)
			if small > 1e-4 && drop < 1e-9 && !closeVec(co, r.Coeff, 1e-8*(1+maxAbsM(d.X)/small)) {
				c.Failf("with concurrent runs the coefficients of %v are %v, the fit is %v", r.Selected, r.Coeff, co)
			}
		}
		c.Max("goroutines_before", int64(before))
		c.Seen(true, d.flat())
	})
}
