package main

import (
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C21", &check{run: runC21, rule: "random matrices (constant and shifted columns, dense/strided/opaque): estimators recomputed; sparse estimator called repeatedly and concurrently, compared bit by bit with the empirical one, and offered different matrices; threshold operators probed with ladders of values around the threshold; non-trivial = at least two columns"})
	register("C22", &check{run: runC22, rule: "row splits of tagged rows checked as partitions; threshold searches whose splits are reconstructed from the recorded reads of the matrix and whose grid averages are recomputed (statistically, from own splits, where the reads do not reveal the split); non-trivial = at least two grid points"})
	register("C24", &check{run: runC24, rule: "recording kappa targets with scripted selections and delays (1-40 targets, 1-9 samples, 1-8 processors): index sets checked as complementary halves, means and winner recomputed, overlapping calls detected; lasso targets compared with own lasso on the recorded half; non-trivial = at least two samples or targets"})
}

func covRef(x [][]float64, centre bool) [][]float64 {
	cols := transposed(x)
	n := float64(len(x))
	r := make([][]float64, len(cols))
	for i := range r {
		r[i] = make([]float64, len(cols))
		for j := range r[i] {
			mi, mj := 0.0, 0.0
			if centre {
				mi, mj = rmean(cols[i]), rmean(cols[j])
			}
			for k := range cols[i] {
				r[i][j] += (cols[i][k] - mi) * (cols[j][k] - mj) / n
			}
		}
	}
	return r
}

// probe finds the threshold of an operator by applying it to a ladder of values
// and verifies that it acts as a threshold. It returns an interval containing it.
func probe(c *Ctx, op *fs.ThresholdOperator) (lo, hi float64) {
	var v []float64
	for e := -24.0; e < 3; e += 0.05 {
		v = append(v, math.Exp(e), -math.Exp(e+0.01))
	}
	c.R.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] })
	check := func(v []float64) (lo, hi float64) {
		nc := 1 + c.R.Intn(7)
		for len(v)%nc != 0 {
			v = append(v, 0)
		}
		m := mat.NewDense(len(v)/nc, nc, append([]float64{}, v...))
		op.Apply(m)
		lo, hi = 0, math.Inf(1)
		for i, x := range v {
			got := m.At(i/nc, i%nc)
			switch {
			case math.Float64bits(got) == math.Float64bits(x) && x != 0:
				hi = math.Min(hi, math.Abs(x))
			case got == 0:
				lo = math.Max(lo, math.Abs(x))
			default:
				c.Failf("thresholding turned %v into %v", x, got)
			}
		}
		if lo >= hi {
			c.Failf("thresholding zeroed a value of magnitude %v and kept one of magnitude %v", lo, hi)
		}
		once := append([]float64{}, m.RawMatrix().Data...)
		op.Apply(m)
		if !bitEqual(once, m.RawMatrix().Data) {
			c.Failf("thresholding twice differs from thresholding once")
		}
		c.Count("values_probed", int64(len(v)))
		return
	}
	lo, hi = check(v)
	if math.IsInf(hi, 1) {
		c.Failf("thresholding zeroed a value of magnitude %v", lo)
	}
	for k := 0; k < 60 && hi > lo*(1+1e-14); k++ {
		t := lo + (hi-lo)/2
		l, h := check([]float64{t, -t})
		lo, hi = math.Max(lo, l), math.Min(hi, h)
	}
	return
}

func runC21(c *Ctx) {
	c.Cases("estimators", c.N(16000, 200000), func(i int) {
		n, p := c.grow(between(c.R, 1, 20), between(c.R, 1, 8), pick(c.R, 300, 300, 4000), 70, 500)
		d := genData(c.R, n, p, designKinds)
		kind := matKinds[c.R.Intn(len(matKinds))]
		c.Input(map[string]interface{}{"data": d.Brief(), "type": kind})
		sc := 1e-12 * (1 + maxAbsM(d.X)*maxAbsM(d.X))
		X := matAs(kind, d.X)
		cmp := func(what string, m mat.Matrix, want [][]float64) {
			r, q := m.Dims()
			if r != p || q != p {
				c.Failf("%s is %dx%d for %d columns", what, r, q, p)
			}
			for a := range want {
				for b := range want[a] {
					if !(math.Abs(m.At(a, b)-want[a][b]) <= sc) {
						c.Failf("%s has %v at (%d,%d), expected %v", what, m.At(a, b), a, b, want[a][b])
					}
				}
			}
		}
		var e fs.Empirical
		var id fs.Identity
		for rep := 0; rep < 2; rep++ {
			cmp("the empirical estimate", e.Get(X), covRef(d.X, false))
			cmp("the centred covariance", fs.CovarianceMatrix(X), covRef(d.X, true))
			I := id.Get(X)
			if a, b := I.Dims(); a != p || b != p {
				c.Failf("the identity estimate is %dx%d for %d columns", a, b, p)
			}
			for a := 0; a < p; a++ {
				for b := 0; b < p; b++ {
					w := 0.0
					if a == b {
						w = 1
					}
					if I.At(a, b) != w {
						c.Failf("the identity estimate has %v at (%d,%d)", I.At(a, b), a, b)
					}
				}
			}
		}
		c.Seen(p > 1, d.flat(), kind)
	})
	c.Cases("sparse", c.N(160, 1600), func(i int) {
		n, p := c.grow(between(c.R, 5, 25), between(c.R, 2, 6), 150, 30, 40)
		d := genData(c.R, n, p, []string{"gauss", "ar", "factor", "scaled", "shifted"})
		if c.R.Intn(2) == 0 {
			for a := range d.X {
				for j := range d.X[a] {
					d.X[a][j] *= 0.1
				}
			}
		}
		c.Input(d.Brief())
		X := d.Dense()
		est := fs.NewSparseThreshold(X)
		var e fs.Empirical
		full := rowsOf(e.Get(X))
		var first []float64
		look := func(m mat.Matrix) (lo, hi float64) {
			hi = math.Inf(1)
			for a := range full {
				for b := range full[a] {
					v := m.At(a, b)
					if v == 0 && full[a][b] != 0 {
						lo = math.Max(lo, math.Abs(full[a][b]))
					} else if math.Float64bits(v) == math.Float64bits(full[a][b]) {
						if v != 0 {
							hi = math.Min(hi, math.Abs(v))
						}
					} else {
						c.Failf("the sparse estimate has %v where the empirical one has %v", v, full[a][b])
					}
				}
			}
			return
		}
		for rep := 0; rep < 3; rep++ {
			m := est.Get(X)
			lo, hi := look(m)
			ok := false
			for j := 0; j < 9; j++ {
				t := math.Exp(-10 + float64(j))
				if lo < t*(1+1e-9) && t*(1-1e-9) <= hi {
					ok = true
				}
			}
			if lo >= hi || !ok {
				c.Failf("the sparse estimate drops an entry of magnitude %v, keeps one of magnitude %v, and no grid threshold separates them", lo, hi)
			}
			f := flatten(rowsOf(m))
			if rep == 0 {
				first = f
				for _, v := range f {
					if v == 0 {
						c.Count("entries_zeroed", 1)
					} else {
						c.Count("entries_kept", 1)
					}
				}
			} else if !bitEqual(first, f) {
				c.Failf("call %d of the sparse estimator returns %v, the first call %v", rep, f, first)
			}
		}
		var wg sync.WaitGroup
		out := make([][]float64, 6)
		for k := range out {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for r := 0; r < 5; r++ {
					out[k] = flatten(rowsOf(est.Get(X)))
				}
			}(k)
		}
		wg.Wait()
		for _, f := range out {
			if !bitEqual(first, f) {
				c.Failf("a concurrent call of the sparse estimator returns %v, the first call %v", f, first)
			}
			c.Count("concurrent_calls", 5)
		}
		// different matrices
		bump := func(f func(x [][]float64) [][]float64) {
			x := make([][]float64, n)
			for a := range x {
				x[a] = append([]float64{}, d.X[a]...)
			}
			x = f(x)
			if Try(func() { est.Get(denseOf(x)) }) == nil {
				c.Failf("a different matrix was accepted")
			}
			c.Count("matrices_rejected", 1)
		}
		bump(func(x [][]float64) [][]float64 {
			a, j := c.R.Intn(n), c.R.Intn(p)
			x[a][j] += 1e-6 * (1 + math.Abs(x[a][j]))
			return x
		})
		bump(func(x [][]float64) [][]float64 { return x[:n-1] })
		bump(func(x [][]float64) [][]float64 {
			for a := range x {
				x[a] = x[a][:p-1]
			}
			return x
		})
		bump(func(x [][]float64) [][]float64 { x[0], x[n-1] = x[n-1], x[0]; return x })
		c.Seen(true, d.flat())
	})
	c.Cases("operator", c.N(500, 5000), func(i int) {
		d := genData(c.R, between(c.R, 5, 25), between(c.R, 1, 6), []string{"gauss", "ar", "factor", "scaled"})
		step := []float64{0.5, 1, 1.3, 2, 4}[c.R.Intn(5)]
		c.Input(map[string]interface{}{"data": d.Brief(), "step": step})
		op := fs.L2ConsistentCovTO(d.Dense(), between(c.R, 1, 5), 1, step)
		lo, hi := probe(c, op)
		ok := false
		for j := 0; j < int(9/step); j++ {
			t := math.Exp(-10 + float64(j)*step)
			if lo < t*(1+1e-9) && t*(1-1e-9) <= hi {
				ok = true
				// at the threshold itself entries stay
				m := mat.NewDense(1, 2, []float64{t * (1 + 1e-12), -t * (1 + 1e-12)})
				op.Apply(m)
				if m.At(0, 0) == 0 || m.At(0, 1) == 0 {
					c.Failf("an entry at the threshold %v was zeroed", t)
				}
			}
		}
		if !ok {
			c.Failf("the threshold lies in [%v, %v], which contains no grid value (step %v)", lo, hi, step)
		}
		// the very threshold, read from the operator
		if f := reflect.ValueOf(op).Elem().FieldByName("threshold"); f.IsValid() && f.Kind() == reflect.Float64 {
			if t := f.Float(); math.Abs(t/hi-1) < 1e-12 {
				m := mat.NewDense(2, 2, []float64{t, -t, math.Nextafter(t, 0), -math.Nextafter(t, 0)})
				op.Apply(m)
				if m.At(0, 0) != t || m.At(0, 1) != -t {
					c.Failf("an entry equal to the threshold %v was zeroed", t)
				}
				if m.At(1, 0) != 0 || m.At(1, 1) != 0 {
					c.Failf("an entry just below the threshold %v was kept", t)
				}
				c.Count("exact_thresholds", 1)
			}
		}
		// an untouched matrix
		m := mat.NewDense(2, 2, []float64{hi, -2 * hi, 1e300, -1e300})
		w := append([]float64{}, m.RawMatrix().Data...)
		op.Apply(m)
		if !bitEqual(w, m.RawMatrix().Data) {
			c.Failf("entries at or above the threshold changed: %v to %v", w, m.RawMatrix().Data)
		}
		c.Distinct("thresholds", fmt.Sprintf("%.6g", hi))
		c.Seen(true, d.flat(), step)
	})
}

// normDiffs returns, for one split, the Frobenius distance of the thresholded
// covariance of the first part from the covariance of the second.
func normDiffs(x1, x2 [][]float64, grid int, step float64) []float64 {
	a, b := covRef(x1, true), covRef(x2, true)
	r := make([]float64, grid)
	for g := range r {
		t := math.Exp(-10 + float64(g)*step)
		s := 0.0
		for i := range a {
			for j := range a[i] {
				v := a[i][j]
				if math.Abs(v) < t {
					v = 0
				}
				s += (v - b[i][j]) * (v - b[i][j])
			}
		}
		r[g] = math.Sqrt(s)
	}
	return r
}

func runC22(c *Ctx) {
	c.Cases("split", c.N(12000, 120000), func(i int) {
		n, p := c.grow(between(c.R, 2, 40), between(c.R, 1, 5), 600, 80, 400)
		k := between(c.R, 1, n-1)
		x := gaussMat(c.R, n, p)
		for a := range x {
			x[a][0] = float64(a) + 0.25
		}
		kind := matKinds[c.R.Intn(len(matKinds))]
		c.Input(map[string]interface{}{"rows": n, "cols": p, "first": k, "type": kind})
		X := matAs(kind, x)
		reps := 1
		if n >= 6 && k >= 2 && k <= n-2 && i%10 == 0 {
			reps = 40
		}
		orders, sets := map[string]bool{}, map[string]bool{}
		for r := 0; r < reps; r++ {
			m1, m2 := fs.RandomRowSplit(X, k)
			r1, c1 := m1.Dims()
			r2, c2 := m2.Dims()
			if r1 != k || r2 != n-k || c1 != p || c2 != p {
				c.Failf("splitting %d rows at %d gives %dx%d and %dx%d", n, k, r1, c1, r2, c2)
			}
			used, used1 := make([]bool, n), make([]bool, n)
			part := ""
			for q, row := range append(rowsOf(m1), rowsOf(m2)...) {
				a := int(row[0])
				if a < 0 || a >= n || !bitEqual(row, x[a]) {
					c.Failf("a part contains the row %v, which is not a row of the matrix", row)
				}
				if used[a] {
					c.Failf("row %d appears twice", a)
				}
				used[a] = true
				if q < k {
					part += fmt.Sprint(a, " ")
					used1[a] = true
				}
			}
			orders[part] = true
			sets[bits(used1)] = true
		}
		if reps > 1 && len(sets) == 1 {
			c.Failf("%d random splits all put the same rows into the first part", reps)
		}
		if reps > 1 && len(orders) == 1 {
			c.Failf("%d random splits are all the same", reps)
		}
		c.Count("splits_checked", int64(reps))
		c.Seen(true, n, k, p, kind)
	})

	c.Cases("search", c.N(2600, 40000), func(i int) {
		n, p := c.grow(between(c.R, 4, 25), between(c.R, 1, 5), 150, 20, 200)
		d := genData(c.R, n, p, []string{"gauss", "ar", "factor", "scaled", "shifted"})
		step := []float64{0.25, 0.4, 0.5, 0.7, 0.9, 1, 1.2, 1.5, 2, 3, 4.5, 9}[c.R.Intn(12)]
		if i%200 == 9 {
			step = 0.003 + 0.1*c.R.Float64()
			if p > 4 {
				p = 4
				d = genData(c.R, n, p, []string{"gauss", "ar", "factor", "scaled", "shifted"})
			}
		}
		grid := int(9 / step)
		ns := pick(c.R, 1, 1, 2, 3, 4, 7, 12)
		if grid > 100 {
			ns = pick(c.R, 1, 2, 3)
			c.Count("fine_grids", 1)
		}
		if c.R.Intn(2) == 0 {
			s := math.Pow(10, -2+2*c.R.Float64())
			for a := range d.X {
				for j := range d.X[a] {
					d.X[a][j] *= s
				}
			}
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "samples": ns, "step": step})
		X := &traceMat{m: d.Dense(), limit: (ns + 3) * n * p}
		procs := pick(c.R, 1, 2, 4, 8)
		old := runtime.GOMAXPROCS(procs)
		op := fs.L2ConsistentCovTO(X, ns, 1, step)
		runtime.GOMAXPROCS(old)
		lo, hi := probe(c, op)
		idx := -1
		for g := 0; g < grid; g++ {
			t := math.Exp(-10 + float64(g)*step)
			if lo < t*(1+1e-9) && t*(1-1e-9) <= hi {
				idx = g
			}
		}
		if idx < 0 {
			c.Failf("the threshold lies in [%v, %v], no grid value does", lo, hi)
		}
		c.Distinct("grid_indices", fmt.Sprint(grid, idx))
		n1 := int(float64(n) * (1 - 1/math.Log(float64(n))))
		if orders := splitOrders(X.trace, n, p, ns); orders != nil {
			good := false
			var means [2][]float64
			for v := 0; v < 2; v++ {
				mean := make([]float64, grid)
				for _, o := range orders {
					a, b := o[:n1], o[n1:]
					if v == 1 { // the second part may be read first
						b, a = o[:n-n1], o[n-n1:]
					}
					for g, f := range normDiffs(takeRows(d.X, a), takeRows(d.X, b), grid, step) {
						mean[g] += f / float64(ns)
					}
				}
				mn, _ := minOf(mean)
				means[v] = mean
				if mean[idx] <= mn*(1+1e-9)+1e-12*maxAbsM(d.X)*maxAbsM(d.X) {
					good = true
				}
			}
			if !good {
				c.Failf("grid value %d was chosen, its mean norm difference over the %d observed splits is %.10g; all means: %v", idx, ns, means[0][idx], means[0])
			}
			c.Count("searches_recomputed_from_reads", 1)
			c.Seen(grid > 1, d.flat(), step, ns)
			return
		}
		c.Count("searches_without_split_trace", 1)
		c.Seen(false)
	})

	// many splits: own splits must agree with the average
	c.Cases("average", c.N(160, 2000), func(i int) {
		n, p := between(c.R, 6, 25), between(c.R, 1, 4)
		d := genData(c.R, n, p, []string{"gauss", "ar", "factor"})
		step := []float64{0.5, 0.8, 1, 1.5, 3}[c.R.Intn(5)]
		grid := int(9 / step)
		ns := 120
		c.Input(map[string]interface{}{"data": d.Brief(), "samples": ns, "step": step, "statistical": true})
		op := fs.L2ConsistentCovTO(opaque{d.Dense()}, ns, 1, step)
		lo, hi := probe(c, op)
		idx := -1
		for g := 0; g < grid; g++ {
			t := math.Exp(-10 + float64(g)*step)
			if lo < t*(1+1e-9) && t*(1-1e-9) <= hi {
				idx = g
			}
		}
		if idx < 0 {
			c.Failf("the threshold lies in [%v, %v], no grid value does", lo, hi)
		}
		n1 := int(float64(n) * (1 - 1/math.Log(float64(n))))
		const m = 3000
		all := make([][]float64, m)
		mean := make([]float64, grid)
		for k := range all {
			o := c.R.Perm(n)
			all[k] = normDiffs(takeRows(d.X, o[:n1]), takeRows(d.X, o[n1:]), grid, step)
			for g := range mean {
				mean[g] += all[k][g] / m
			}
		}
		for g := 0; g < grid; g++ {
			// paired difference between the chosen and this grid point
			diff, sq := mean[idx]-mean[g], 0.0
			for k := range all {
				t := all[k][idx] - all[k][g] - diff
				sq += t * t / m
			}
			se := math.Sqrt(sq/float64(ns)) + math.Sqrt(sq/m)
			if diff > 10*se+1e-9*mean[g] {
				c.Failf("grid value %d was chosen, but value %d has a mean norm difference that is smaller by %g (standard error %g)", idx, g, diff, se)
			}
			c.Count("grid_points_compared", 1)
		}
		c.Seen(grid > 1, d.flat(), step)
	})
}

func takeRows(x [][]float64, ix []int) [][]float64 {
	var r [][]float64
	for _, i := range ix {
		r = append(r, x[i])
	}
	return r
}

// splitOrders derives the order in which each split read the rows, nil if the
// reads do not have that form.
func splitOrders(trace [][2]int, n, p, ns int) [][]int {
	if len(trace) < ns*n*p || len(trace)%(n*p) != 0 {
		return nil
	}
	var orders [][]int
	same := true
	for s := 0; s < ns; s++ {
		blk := trace[s*n*p : (s+1)*n*p]
		var o []int
		seen := make([]bool, n)
		for k := 0; k < n; k++ {
			row := blk[k*p][0]
			for q := 0; q < p; q++ {
				if blk[k*p+q][0] != row || blk[k*p+q][1] != q {
					return nil
				}
			}
			if seen[row] {
				return nil
			}
			seen[row] = true
			o = append(o, row)
		}
		if !sort.IntsAreSorted(o) {
			same = false
		}
		orders = append(orders, o)
	}
	if same {
		return nil
	}
	return orders
}

// recTarget records how a kappa target is used.
type recTarget struct {
	label   string
	id      int
	x       mat.Matrix
	n, p    int
	density float64
	seed    int64
	noise   float64
	delay   time.Duration
	busy    int32
	mu      sync.Mutex
	overlap bool
	calls   []recCall
}

type recCall struct {
	rows []int
	sel  []int
}

func (t *recTarget) GetX() mat.Matrix { return t.x }
func (t *recTarget) GetSelection(ix []int) []int {
	if atomic.AddInt32(&t.busy, 1) != 1 {
		t.mu.Lock()
		t.overlap = true
		t.mu.Unlock()
	}
	defer atomic.AddInt32(&t.busy, -1)
	rows := append([]int{}, ix...)
	h := t.seed
	for _, i := range rows {
		h = h*31 + int64(i)
	}
	r := rand.New(rand.NewSource(h))
	base := rand.New(rand.NewSource(t.seed))
	var sel []int
	for j := 0; j < t.p; j++ {
		in := base.Float64() < t.density
		if r.Float64() < t.noise {
			in = !in
		}
		if in {
			sel = append(sel, j)
		}
	}
	r.Shuffle(len(sel), func(a, b int) { sel[a], sel[b] = sel[b], sel[a] })
	if t.delay > 0 {
		time.Sleep(t.delay)
	} else {
		runtime.Gosched()
	}
	if !intsEqual(rows, ix) {
		rows = nil // changed while in use
	}
	t.mu.Lock()
	t.calls = append(t.calls, recCall{rows, append([]int{}, sel...)})
	t.mu.Unlock()
	return sel
}
func (t *recTarget) HyperParameters() map[string]float64 {
	return map[string]float64{"id": float64(t.id), "noise": t.noise}
}

// What a target calls itself is text, whatever characters it contains.
func (t *recTarget) StringRep() string { return fmt.Sprintf("target %d%s", t.id, t.label) }

func refKappa(a, b []int, n int) float64 {
	ia, ib := modelOf(a, n), modelOf(b, n)
	both, na, nb := 0, 0, 0
	for j := 0; j < n; j++ {
		if ia[j] == ib[j] {
			both++
		}
		if ia[j] {
			na++
		}
		if ib[j] {
			nb++
		}
	}
	if both == n {
		return 1
	}
	N := float64(n)
	pa := float64(both) / N
	pe := (float64(na)*float64(nb) + (N-float64(na))*(N-float64(nb))) / (N * N)
	return (pa - pe) / (1 - pe)
}

// checkTarget verifies the recorded calls of a target and returns its mean kappa.
func (t *recTarget) check(c *Ctx, samples int) float64 {
	if t.overlap {
		c.Failf("target %d was asked for two selections at the same time", t.id)
	}
	if len(t.calls) != 2*samples {
		c.Failf("target %d was asked %d times for %d samples", t.id, len(t.calls), samples)
	}
	mean := 0.0
	for k := 0; k < len(t.calls); k += 2 {
		a, b := t.calls[k], t.calls[k+1]
		if a.rows == nil || b.rows == nil {
			c.Failf("the rows handed to target %d changed while it used them", t.id)
		}
		used := make([]bool, t.n)
		for _, i := range append(append([]int{}, a.rows...), b.rows...) {
			if i < 0 || i >= t.n || used[i] {
				c.Failf("sample %d uses the rows %v and %v of %d", k/2, a.rows, b.rows, t.n)
			}
			used[i] = true
		}
		la, lb := len(a.rows), len(b.rows)
		if la+lb != t.n || la-lb > 1 || lb-la > 1 {
			c.Failf("sample %d splits %d rows into %d and %d", k/2, t.n, la, lb)
		}
		mean += refKappa(a.sel, b.sel, t.p)
	}
	c.Count("halves_checked", int64(len(t.calls)))
	return mean / float64(samples)
}

func newRecTarget(c *Ctx, id, n, p int) *recTarget {
	t := &recTarget{id: id, x: mat.NewDense(n, p, nil), n: n, p: p, seed: c.R.Int63()}
	t.density = c.R.Float64()
	t.noise = 0.5 * c.R.Float64()
	if c.R.Intn(8) == 0 {
		t.noise = 0
	}
	if c.R.Intn(3) == 0 {
		t.delay = time.Duration(c.R.Intn(120)) * time.Microsecond
	}
	if c.R.Intn(3) == 0 {
		t.label = []string{" (50% of it)", " 5%d", " 100%", " {a: b}", " \t\"x\"", ": 0.5"}[c.R.Intn(6)]
	}
	return t
}

var kappaLine = regexp.MustCompile(`target (\d+)\b.*?(-?\d+\.\d+)\s*$`)

// captured runs f and returns what it printed.
func captured(c *Ctx, f func()) string {
	dir, clean := scratch(c)
	defer clean()
	o, err := os.Create(filepath.Join(dir, "out"))
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = o
	func() {
		defer func() { os.Stdout = old; o.Close() }()
		f()
	}()
	b, err := ioutil.ReadFile(o.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

func runC24(c *Ctx) {
	c.Cases("single", c.N(8000, 80000), func(i int) {
		n, p := c.grow(between(c.R, 2, 30), between(c.R, 1, 12), 400, 200, 400)
		ns := between(c.R, 1, 9)
		t := newRecTarget(c, 0, n, p)
		t.delay = 0
		c.Input(map[string]interface{}{"rows": n, "features": p, "samples": ns, "noise": t.noise, "density": t.density})
		k := fs.GetCohensKappa(ns, t)
		want := t.check(c, ns)
		if !close2(k, want, 1e-10) {
			c.Failf("the estimate is %v, the mean kappa of the samples is %v", k, want)
		}
		if n >= 8 && ns >= 5 {
			d := map[string]bool{}
			for q := 0; q < len(t.calls); q += 2 {
				r := append([]int{}, t.calls[q].rows...)
				sort.Ints(r)
				d[fmt.Sprint(r)] = true
			}
			if len(d) == 1 {
				c.Count("identical_splits", 1)
			}
			c.Count("varied_splits", int64(len(d)))
		}
		c.Seen(ns > 1, n, p, ns, t.seed)
	})
	// the halves of different samples differ (over many samples)
	c.Cases("variety", c.N(200, 2000), func(i int) {
		n := between(c.R, 8, 20)
		t := newRecTarget(c, 0, n, 3)
		t.delay = 0
		c.Input(map[string]interface{}{"rows": n, "samples": 30})
		fs.GetCohensKappa(30, t)
		t.check(c, 30)
		d := map[string]bool{}
		for q := 0; q < len(t.calls); q += 2 {
			r := append([]int{}, t.calls[q].rows...)
			sort.Ints(r)
			d[fmt.Sprint(r)] = true
		}
		if len(d) == 1 {
			c.Failf("all 30 samples use the same halves")
		}
		c.Seen(true, n, t.seed)
	})
	c.Cases("sequence", c.N(1600, 16000), func(i int) {
		nt := pick(c.R, 1, 2, 3, 8, 15, 16, 17, 18, 24, 32, 33, 40)
		ns := between(c.R, 1, 4)
		n, p := c.grow(between(c.R, 2, 14), between(c.R, 1, 10), 300, 150, 200)
		procs := pick(c.R, 1, 2, 4, 8)
		c.Input(map[string]interface{}{"targets": nt, "samples": ns, "rows": n, "features": p, "procs": procs})
		var ts []fs.CohensKappaTarget
		var rec []*recTarget
		for k := 0; k < nt; k++ {
			t := newRecTarget(c, k, n, p)
			rec = append(rec, t)
			ts = append(ts, t)
		}
		var hyper map[string]float64
		printed := ""
		call := func() { hyper = fs.CalculateCohenSequence(ns, ts) }
		old := runtime.GOMAXPROCS(procs)
		isCaptured := c.R.Intn(2) == 0
		if isCaptured {
			printed = captured(c, call)
		} else {
			call()
		}
		runtime.GOMAXPROCS(old)
		best := math.Inf(-1)
		mean := make([]float64, nt)
		for k, t := range rec {
			mean[k] = t.check(c, ns)
			best = math.Max(best, mean[k])
		}
		// every printed line that names a target shows that target's kappa
		shown := make([]int, nt)
		for _, l := range strings.Split(printed, "\n") {
			m := kappaLine.FindStringSubmatch(l)
			if m == nil {
				if strings.Contains(l, "target ") {
					c.Failf("the printed line %q names a target without its kappa", l)
				}
				continue
			}
			k, _ := strconv.Atoi(m[1])
			v, err := strconv.ParseFloat(m[2], 64)
			if err != nil || k >= nt {
				c.Failf("printed line %q", l)
			}
			if math.Abs(v-mean[k]) > 0.0006 {
				c.Failf("the printed line %q belongs to a target with mean kappa %v", strings.TrimSpace(l), mean[k])
			}
			if !strings.Contains(l, rec[k].StringRep()) {
				c.Failf("the printed line %q does not name target %q", strings.TrimSpace(l), rec[k].StringRep())
			}
			shown[k]++
			c.Count("printed_lines", 1)
		}
		for k := range shown {
			if isCaptured && shown[k] == 0 {
				c.Failf("nothing was printed for target %d:\n%s", k, printed)
			}
		}
		if best > 1e-9 {
			id, ok := hyper["id"]
			k := int(id)
			if !ok || k < 0 || k >= nt || hyper["noise"] != rec[k].noise {
				c.Failf("the hyper-parameters %v belong to no target", hyper)
			}
			if mean[k] < best-1e-9 {
				c.Failf("target %d (mean kappa %v) was returned, the largest mean kappa is %v: %v", k, mean[k], best, mean)
			}
			c.Count("winners_confirmed", 1)
		}
		c.Distinct("target_counts", nt)
		c.Seen(nt > 1, nt, ns, n, p, i)
	})
	// targets whose kappas are almost the same
	c.Cases("close", c.N(40, 400), func(i int) {
		nt, ns, n, p := between(c.R, 2, 6), between(c.R, 1, 3), between(c.R, 4, 10), between(c.R, 800, 4000)
		c.Input(map[string]interface{}{"targets": nt, "samples": ns, "rows": n, "features": p})
		var ts []fs.CohensKappaTarget
		var rec []*recTarget
		for k := 0; k < nt; k++ {
			t := newRecTarget(c, k, n, p)
			t.noise = (1 + c.R.Float64()) / float64(p)
			t.delay = 0
			rec, ts = append(rec, t), append(ts, t)
		}
		hyper := fs.CalculateCohenSequence(ns, ts)
		best, second := math.Inf(-1), math.Inf(-1)
		mean := make([]float64, nt)
		for k, t := range rec {
			mean[k] = t.check(c, ns)
			if mean[k] > best {
				best, second = mean[k], best
			} else {
				second = math.Max(second, mean[k])
			}
		}
		id, ok := hyper["id"]
		if best > 1e-9 && (!ok || mean[int(id)] < best-1e-9) {
			c.Failf("%v was returned, the mean kappas are %v", hyper, mean)
		}
		if d := best - second; d > 1e-9 && d < 1e-3 {
			c.Count("winners_by_less_than_0.001", 1)
		}
		c.Seen(true, nt, ns, n, p, i)
	})
	// lasso targets use exactly the rows they are given
	c.Cases("lasso", c.N(1500, 15000), func(i int) {
		_, p := c.grow(0, between(c.R, 2, 6), 0, 40, 300)
		n := between(c.R, 3*p+8, 3*p+42)
		d := genData(c.R, n, p, []string{"gauss", "ar", "factor", "shifted", "scaled"})
		for k := range d.Y {
			d.Y[k] += 0.1 * c.R.NormFloat64()
		}
		nd := normOf(d)
		xn, yn, _ := normalizedCopy(d)
		lamb := math.Pow(10, -2*c.R.Float64()-0.2)
		t := fs.NewPureLassoCohen()
		t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, lamb, &fs.Empirical{}, 50000, 1e-11, &fs.PureLasso{}
		var target fs.CohensKappaTarget = t
		if c.R.Intn(2) == 0 {
			ct := fs.NewCLassoCohen()
			ct.PLasso = t
			ct.Eta = 0.3
			target = ct
			if h := ct.HyperParameters(); h["eta"] != 0.3 || h["lamb"] != lamb {
				c.Failf("the hyper-parameters of the target are %v", h)
			}
		} else if h := t.HyperParameters(); h["lamb"] != lamb {
			c.Failf("the hyper-parameters of the target are %v", h)
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "lambda": lamb})
		for rep := 0; rep < 3; rep++ {
			rows := c.R.Perm(n)[:n/2]
			half := &Data{N: len(rows), P: p, X: takeRows(xn, rows)}
			for _, a := range rows {
				half.Y = append(half.Y, yn[a])
			}
			x, y, _ := normalizedCopy(half)
			G, xy := gram(x, y)
			if lo, hi := extremeEig(G); lo < 1e-3*hi {
				continue
			}
			sel := modelOf(target.GetSelection(rows), p)
			b := refLasso(G, xy, lamb)
			for j := range b {
				gr := math.Abs(xy[j] - dot(G[j], b))
				if math.Abs(b[j]) > 1e-5 && !sel[j] {
					c.Failf("feature %d (coefficient %v on the given rows) is not selected", j, b[j])
				}
				if b[j] == 0 && gr < lamb-1e-5 && sel[j] {
					c.Failf("feature %d is selected although its gradient on the given rows is %v (strength %v)", j, gr, lamb)
				}
			}
			c.Count("lasso_selections_checked", 1)
		}
		c.Seen(true, d.flat(), lamb)
	})
}
