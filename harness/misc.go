package main

import (
	"bytes"
	"container/list"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"sort"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/vg"
	"gonum.org/v1/plot/vg/draw"
	"gonum.org/v1/plot/vg/recorder"
)

func init() {
	register("C29", &check{run: runC29, rule: "pursuits on generated designs (tall, wide, duplicated, dependent, badly scaled columns) with targets from exact to pure noise and tolerances from 0 to above the target's size; every prefix of the reported order is refitted by an independent least-squares solver; non-trivial = at least two features selected"})
	register("C30", &check{run: runC30, rule: "expansions of matrices with 1-6 columns up to degree 6, whole and by column subsets added in several steps, and Cartesian products up to length 7; columns are compared with independently enumerated monomials; non-trivial = at least one product column / length two"})
	register("C32", &check{run: runC32, rule: "every analysis entry point called twice with arguments (dense, views into larger arrays, slices with spare capacity) whose complete reachable memory, unexported fields and spare capacity included, is hashed before and after each call; non-trivial = every call"})
	register("C36", &check{run: runC36, rule: "plots of random and computed paths drawn on a recording canvas; all strokes inside the data area are compared with the expected polylines and glyph centres in data coordinates; non-trivial = at least two nodes"})
}

func runC29(c *Ctx) {
	c.Cases("omp", c.N(8000, 80000), func(i int) {
		n, p := between(c.R, 3, 20), between(c.R, 1, 9)
		if c.R.Intn(8) == 0 {
			p = between(c.R, n, n+8)
		}
		n, _ = c.grow(n, p, 400, p, 200)
		d := genData(c.R, n, p, designKinds)
		if c.R.Intn(5) == 0 { // rescaled columns, so that normalising matters
			for j := 0; j < p; j++ {
				s := math.Pow(10, 3*c.R.Float64()-1.5)
				for r := range d.X {
					d.X[r][j] *= s
				}
			}
			d.Kind += "/rescaled"
		}
		tol := []float64{1e-8, 1e-3, 0.1, 0.5, 2, 1e-6}[c.R.Intn(6)]
		if c.R.Intn(12) == 0 {
			tol = 0
		}
		judgeOmp(c, d, tol)
	})
	// more features than any small table or word holds
	c.Cases("many", c.N(1, 3), func(i int) {
		p := between(c.R, 33, 75)
		if i%4 == 0 {
			p = between(c.R, 65, 135)
		}
		d := &Data{N: p + between(c.R, 10, 40), P: p, Kind: "many"}
		d.X = gaussMat(c.R, d.N, p)
		d.Y = make([]float64, d.N)
		for r := range d.Y {
			for j := 0; j < p; j++ {
				d.Y[r] += (1 + float64(j%7)) * d.X[r][j]
			}
		}
		judgeOmp(c, d, []float64{1e-8, 0, 1e-6}[c.R.Intn(3)])
	})
}

// judgeOmp runs one pursuit and checks its steps, its end and its coefficients.
func judgeOmp(c *Ctx, d *Data, reltol float64) {
	n, p := d.N, d.P
	cols := transposed(d.X)
	for _, col := range cols {
		if norm(col) == 0 {
			return
		}
	}
	ny := norm(d.Y)
	if ny == 0 {
		return
	}
	rms := func(r float64) float64 { return math.Sqrt(r / float64(n)) }
	tol := reltol * rms(ny*ny)
	kind := matKinds[c.R.Intn(len(matKinds))]
	c.Input(map[string]interface{}{"data": d.Brief(), "tol": tol, "matrix": kind})
	res := fs.Omp(matAs(kind, d.X), d.Ycopy(), tol)
	if len(res.Coeff) != p {
		c.Failf("%d coefficients for %d features", len(res.Coeff), p)
	}
	if len(res.Order) == 0 || len(res.Order) > p {
		c.Failf("inclusion order %v for %d features", res.Order, p)
	}
	seen := map[int]bool{}
	res0 := append([]float64{}, d.Y...)
	prev := ny * ny
	floor := 1e-9 * ny
	judged := 0
	noisy := false
	for k, f := range res.Order {
		if f < 0 || f >= p || seen[f] {
			c.Failf("inclusion order %v is not a list of distinct features", res.Order)
		}
		// the residual is at round-off level: what follows is undetermined
		if norm(res0) <= floor {
			noisy = true
		}
		if !noisy {
			if k > 0 && rms(dot(res0, res0)) < tol*(1-1e-6) {
				c.Failf("the pursuit went on after %v although the root mean square residual %v was below the tolerance %v", res.Order[:k], rms(dot(res0, res0)), tol)
			}
			best, at := -1.0, -1
			for j, col := range cols {
				if v := math.Abs(dot(col, res0)) / (norm(col) * norm(res0)); v > best {
					best, at = v, j
				}
			}
			got := math.Abs(dot(cols[f], res0)) / (norm(cols[f]) * norm(res0))
			if got < best-1e-6*math.Min(1, 1e-2*ny/norm(res0)+1) {
				c.Failf("step %d of %v includes feature %d with correlation %.9g, feature %d has %.9g", k, res.Order, f, got, at, best)
			}
			judged++
		}
		seen[f] = true
		sel := append([]int{}, res.Order[:k+1]...)
		sort.Ints(sel)
		xs := d.Cols(sel)
		b, rss, small, drop := lstsq(xs, d.Y)
		if small < 1e-4 || drop > 1e-9 {
			return // round-off decides the rank
		}
		pr := matVec(xs, b)
		for r := range res0 {
			res0[r] = d.Y[r] - pr[r]
		}
		if rss > prev*(1+1e-8)+1e-12*ny*ny {
			c.Failf("the residual grew from %v to %v when feature %d was included", prev, rss, f)
		}
		prev = rss
		if k == len(res.Order)-1 {
			for j, v := range res.Coeff {
				if !seen[j] && v != 0 {
					c.Failf("feature %d was not included (order %v), but has coefficient %v", j, res.Order, v)
				}
			}
			got := make([]float64, len(sel))
			for q, j := range sel {
				got[q] = res.Coeff[j]
			}
			if !closeVec(matVec(xs, got), pr, 1e-6) {
				c.Failf("coefficients %v of features %v are not a least-squares fit, %v is", got, sel, b)
			}
			if s1, sk := maxAbsM(xs)*math.Sqrt(float64(n*len(sel))), small; s1/sk < 1e4 && !closeVec(got, b, 1e-5) {
				c.Failf("coefficients %v of features %v differ from the least-squares fit %v", got, sel, b)
			}
		}
	}
	// why did it stop?
	if !noisy && len(res.Order) < p && norm(res0) > floor {
		if r := rms(dot(res0, res0)); r > tol*(1+1e-6) {
			best := 0.0
			for j, col := range cols {
				if !seen[j] {
					best = math.Max(best, math.Abs(dot(col, res0))/(norm(col)*norm(res0)))
				}
			}
			if best > 1e-6 {
				c.Failf("the pursuit stopped at %v with root mean square residual %v above the tolerance %v, a remaining feature has correlation %v", res.Order, r, tol, best)
			}
			c.Count("stopped_without_correlated_feature", 1)
		} else {
			c.Count("stopped_by_tolerance", 1)
		}
	}
	if len(res.Order) == p {
		c.Count("all_features", 1)
	}
	c.Count("greedy_steps_judged", int64(judged))
	c.Max("order_length", int64(len(res.Order)))
	c.Seen(len(res.Order) >= 2, d.flat(), tol)
}

// monomials lists all exponent tuples over m columns with total degree 2..deg.
func monomials(m, deg int) [][]int {
	var r [][]int
	cur := make([]int, m)
	var rec func(j, left int)
	rec = func(j, left int) {
		if j == m {
			if deg-left >= 2 {
				r = append(r, append([]int{}, cur...))
			}
			return
		}
		for e := 0; e <= left; e++ {
			cur[j] = e
			rec(j+1, left-e)
		}
		cur[j] = 0
	}
	rec(0, deg)
	return r
}

func ipow(x float64, e int) float64 {
	r := 1.0
	for ; e > 0; e-- {
		r *= x
	}
	return r
}

func relEqual(a, b []float64, tol float64) bool {
	for i := range a {
		if math.Abs(a[i]-b[i]) > tol*math.Abs(b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func runC30(c *Ctx) {
	c.Cases("expand", c.N(1200, 8000), func(i int) {
		nc := between(c.R, 1, 5)
		deg := between(c.R, 0, 4)
		switch c.R.Intn(8) {
		case 0:
			nc, deg = between(c.R, 1, 2), between(c.R, 4, 7)
		case 1:
			nc, deg = 6, between(c.R, 2, 3)
		}
		if c.R.Intn(300) == 0 {
			nc, deg = between(c.R, 7, 9), 2
			if c.R.Intn(2) == 0 {
				nc, deg = between(c.R, 8, 13), 1
			}
		}
		nr, _ := c.grow(between(c.R, 1, 5), nc, 150, nc, 100)
		x := gaussMat(c.R, nr, nc)
		ints := c.R.Intn(3) == 0
		for r := range x {
			for j := range x[r] {
				switch {
				case ints:
					x[r][j] = []float64{-3, -2, -1, 0, 1, 2, 3, 5, -7}[c.R.Intn(9)]
				default:
					x[r][j] *= 1.5
				}
			}
		}
		X := denseOf(x)
		var steps [][]int
		var degs []int
		var lz *fs.LazyPowerMatrix
		all := make([]int, nc)
		for j := range all {
			all[j] = j
		}
		if c.R.Intn(2) == 0 {
			lz = fs.NewLazyMatrix(X, deg)
			steps, degs = [][]int{all}, []int{deg}
		} else {
			lz = &fs.LazyPowerMatrix{X: X}
			perm := c.R.Perm(nc)
			for len(perm) > 0 && len(steps) < 3 {
				k := 1 + c.R.Intn(len(perm))
				g := perm[:k:k]
				perm = perm[k:]
				q := between(c.R, 0, deg)
				lz.AddPowerSequence(append([]int{}, g...), q)
				steps, degs = append(steps, g), append(degs, q)
			}
		}
		c.Input(map[string]interface{}{"x": x, "steps": steps, "degrees": degs})
		var want [][]float64
		var names []string
		for j := 0; j < nc; j++ {
			want = append(want, transposed(x)[j])
			names = append(names, fmt.Sprint("column ", j))
		}
		for s, g := range steps {
			for _, e := range monomials(len(g), degs[s]) {
				v := make([]float64, nr)
				for r := range v {
					v[r] = 1
					for k, j := range g {
						v[r] *= ipow(x[r][j], e[k])
					}
				}
				want = append(want, v)
				names = append(names, fmt.Sprintf("columns %v to the powers %v", g, e))
			}
		}
		if lz.NumCols() != len(want) {
			c.Failf("the expansion has %d columns, there are %d original columns and monomials", lz.NumCols(), len(want))
		}
		full := lz.FullMatrix()
		fr, fc := full.Dims()
		if fr != nr || fc != len(want) {
			c.Failf("the full matrix is %dx%d instead of %dx%d", fr, fc, nr, len(want))
		}
		colsGot := transposed(rowsOf(full))
		for j := 0; j < fc; j++ {
			g := lz.GetCol(j)
			if len(g) != nr || j < nc && !bitEqual(g, colsGot[j]) || !relEqual(g, colsGot[j], 1e-13) { // the order of factors may vary
				c.Failf("GetCol(%d) is %v, the full matrix has %v", j, g, colsGot[j])
			}
			for k := range g {
				g[k] = 1e77
			}
			if j < nc && !bitEqual(colsGot[j], want[j]) {
				c.Failf("column %d of the expansion is %v instead of the original %v", j, colsGot[j], want[j])
			}
		}
		if !bitEqual(flatten(rowsOf(X)), flatten(x)) || !relEqual(flatten(rowsOf(lz.FullMatrix())), flatten(rowsOf(full)), 1e-13) {
			c.Failf("reading columns changed the matrix")
		}
		// match products one to one
		used := make([]bool, len(want))
		for j := nc; j < fc; j++ {
			found := false
			for k := nc; k < len(want) && !found; k++ {
				if used[k] {
					continue
				}
				ok := true
				for r := 0; r < nr && ok; r++ {
					ok = math.Abs(colsGot[j][r]-want[k][r]) <= 1e-11*(math.Abs(want[k][r]))
				}
				if ok {
					used[k], found = true, true
				}
			}
			if !found {
				c.Failf("column %d %v is none of the (remaining) monomials", j, colsGot[j])
			}
		}
		for k := nc; k < len(want); k++ {
			if !used[k] {
				c.Failf("monomial %s is missing", names[k])
			}
		}
		c.Count("monomials_matched", int64(len(want)-nc))
		c.Distinct("shapes", fmt.Sprint(nc, degs, len(steps)))
		c.Seen(len(want) > nc, flatten(x), fmt.Sprint(steps, degs))
	})
	c.Cases("product", c.N(1200, 8000), func(i int) {
		m, rep := between(c.R, 1, 5), between(c.R, 0, 5)
		switch c.R.Intn(6) {
		case 0:
			m, rep = 2, between(c.R, 5, 11)
		case 1:
			m, rep = 3, 7
		case 2:
			m, rep = 1, between(c.R, 1, 12)
		}
		if c.R.Intn(100) == 0 {
			m, rep = between(c.R, 10, 80), 2
		}
		vals := make([]int, m)
		start := c.R.Intn(20) - 10
		for k := range vals {
			start += 1 + c.R.Intn(3)
			vals[k] = start
		}
		if c.R.Intn(2) == 0 {
			c.R.Shuffle(m, func(a, b int) { vals[a], vals[b] = vals[b], vals[a] })
		}
		v0 := append([]int{}, vals...)
		c.Input(map[string]interface{}{"values": vals, "repeat": rep})
		got := fs.IterProduct(vals, rep)
		if !intsEqual(vals, v0) {
			c.Failf("the value list was changed")
		}
		total := 1
		for k := 0; k < rep; k++ {
			total *= m
		}
		if len(got) != total {
			c.Failf("%d tuples instead of %d", len(got), total)
		}
		for k, t := range got {
			if len(t) != rep {
				c.Failf("tuple %d has length %d instead of %d", k, len(t), rep)
			}
			q := k
			for j := rep - 1; j >= 0; j-- {
				if t[j] != vals[q%m] {
					c.Failf("tuple %d is %v, position %d should be %d", k, t, j, vals[q%m])
				}
				q /= m
			}
		}
		// tuples do not share memory
		if len(got) > 1 && rep > 0 {
			a, b := c.R.Intn(total), c.R.Intn(total)
			if a != b {
				keep := append([]int{}, got[b]...)
				for j := range got[a] {
					got[a][j] = 1 << 40
				}
				_ = append(got[a], 1<<41)
				if !intsEqual(keep, got[b]) {
					c.Failf("tuples %d and %d share memory", a, b)
				}
			}
		}
		c.Count("tuples_compared", int64(total))
		c.Seen(rep >= 2, fmt.Sprint(vals, rep))
	})
}

// deepHash digests everything reachable from v: unexported fields, and slices up
// to their capacity. Locks and functions are left out.
func deepHash(v interface{}) uint64 {
	h := fnv.New64a()
	seen := map[uintptr]bool{}
	w := func(format string, a ...interface{}) { fmt.Fprintf(h, format, a...) }
	var b [8]byte
	put := func(x uint64) {
		for k := range b {
			b[k] = byte(x >> uint(8*k))
		}
		h.Write(b[:])
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			w("nil;")
			return
		}
		switch v.Kind() {
		case reflect.Float64, reflect.Float32:
			put(math.Float64bits(v.Float()))
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
			put(uint64(v.Int()))
		case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
			put(v.Uint())
		case reflect.Bool:
			w("%v;", v.Bool())
		case reflect.String:
			w("%q;", v.String())
		case reflect.Slice:
			w("[%d,%d,%v", v.Len(), v.Cap(), v.IsNil())
			full := v.Slice(0, v.Cap())
			if full.Len() > 0 {
				switch full.Index(0).Kind() {
				case reflect.Float64:
					for k := 0; k < full.Len(); k++ {
						put(math.Float64bits(full.Index(k).Float()))
					}
					return
				}
			}
			for k := 0; k < full.Len(); k++ {
				walk(full.Index(k))
			}
		case reflect.Array:
			for k := 0; k < v.Len(); k++ {
				walk(v.Index(k))
			}
		case reflect.Ptr:
			if v.IsNil() {
				w("nil;")
				return
			}
			if seen[v.Pointer()] {
				w("again;")
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			walk(v.Elem())
		case reflect.Struct:
			if v.Type().PkgPath() == "sync" {
				return
			}
			for k := 0; k < v.NumField(); k++ {
				walk(v.Field(k))
			}
		case reflect.Map:
			var ks []string
			for _, k := range v.MapKeys() {
				ks = append(ks, fmt.Sprint(k)+"="+fmt.Sprint(v.MapIndex(k)))
			}
			sort.Strings(ks)
			w("%v", ks)
		}
	}
	walk(reflect.ValueOf(v))
	return h.Sum64()
}

// spare returns a copy of v that sits inside a larger array filled with a marker.
func spare(r *rand.Rand, v []float64) []float64 {
	k, t := r.Intn(3), r.Intn(4)
	big := make([]float64, k+len(v)+t)
	for i := range big {
		big[i] = 12345.678
	}
	copy(big[k:], v)
	return big[k : k+len(v)]
}

func spareInts(r *rand.Rand, v []int) []int {
	t := r.Intn(4)
	big := make([]int, len(v)+t)
	for i := range big {
		big[i] = 424242
	}
	copy(big, v)
	return big[:len(v)]
}

func spareBools(r *rand.Rand, v []bool) []bool {
	big := make([]bool, len(v)+r.Intn(3))
	copy(big, v)
	return big[:len(v)]
}

type guarded struct {
	name string
	v    interface{}
}

func runC32(c *Ctx) {
	// guard calls f twice and compares the arguments before and after
	guard := func(op string, f func(), args ...guarded) {
		h := make([]uint64, len(args))
		for k, a := range args {
			h[k] = deepHash(a.v)
		}
		for rep := 0; rep < 2; rep++ {
			f()
			for k, a := range args {
				if deepHash(a.v) != h[k] {
					c.Failf("%s changed its argument %s (call %d)", op, a.name, rep+1)
				}
			}
		}
		c.Count("calls_"+op, 2)
		c.Distinct("operations", op)
	}
	arg := func(n string, v interface{}) guarded { return guarded{n, v} }
	// matrix gives the data as a dense matrix or a view into a larger one, and
	// the object whose memory is watched
	matrix := func(x [][]float64) (*mat.Dense, interface{}) {
		if c.R.Intn(2) == 0 {
			m := denseOf(x)
			return m, m
		}
		big := mat.NewDense(len(x)+3, len(x[0])+2, nil)
		for i := 0; i < len(x)+3; i++ {
			for j := 0; j < len(x[0])+2; j++ {
				big.Set(i, j, 777.25)
			}
		}
		for i := range x {
			for j := range x[i] {
				big.Set(i+1, j+1, x[i][j])
			}
		}
		return big.Slice(1, len(x)+1, 1, len(x[0])+1).(*mat.Dense), big
	}
	setup := func(maxN, maxP int) (d *Data, X *mat.Dense, y []float64, gx, gy guarded) {
		large := c.R.Intn(40) == 0
		for {
			n, p := between(c.R, 7, 18), between(c.R, 3, 6)
			if large && maxN > 0 {
				n, p = between(c.R, maxN/3, maxN), between(c.R, 3, maxP)
			}
			d = genData(c.R, n, p, safeKinds)
			if normalizable(d) {
				break
			}
		}
		var raw interface{}
		X, raw = matrix(d.X)
		y = spare(c.R, d.Y)
		return d, X, y, arg("design matrix", raw), arg("target", y[:cap(y)])
	}
	c.Cases("searches", c.N(400, 4000), func(i int) {
		d, X, y, gx, gy := setup(0, 0)
		s := genCfg(c.R, d.P, genModel(c.R, d.P, 0.4))
		par := fs.NewSelectModelOptParams()
		if s.root != nil {
			par.RootModel = spareBools(c.R, s.root)
		}
		par.Cutoff = s.Cutoff
		if s.Queue >= 0 {
			par.MaxQueueSize = s.Queue
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "search": s})
		var sp fs.SearchProgress
		guard("SelectModel", func() { fs.SelectModel(X, y, fs.NewHighscore(s.Cap), &sp, par) }, gx, gy, arg("options", par))
		guard("BruteForceSelect", func() { fs.BruteForceSelect(X, y) }, gx, gy)
		if c.R.Intn(3) == 0 {
			guard("SelectModelSA", func() { fs.SelectModelSA(X, y, 2, fs.Aicc) }, gx, gy)
		}
		tol := c.R.Float64()
		guard("Omp", func() { fs.Omp(X, y, tol) }, gx, gy)
		model := spareBools(c.R, genModel(c.R, d.P, 0.5))
		lev := c.R.Intn(d.P + 1)
		if len(selOf(model)) == 0 {
			lev = c.R.Intn(d.P)
		}
		guard("BoundsAIC", func() { fs.BoundsAIC(model, lev, X, y) }, gx, gy, arg("model", model))
		guard("BoundsAICC", func() { fs.BoundsAICC(model, lev, X, y) }, gx, gy, arg("model", model))
		guard("Gcs", func() { fs.Gcs(model, lev) }, arg("model", model))
		guard("Lcs", func() { fs.Lcs(model, lev) }, arg("model", model))
		guard("NumFeatures", func() { fs.NumFeatures(model); fs.SelectedFeatures(model) }, arg("model", model))
		// results handed back do not alias what went in
		g := fs.Gcs(model, lev)
		hm := deepHash(model)
		for k := range g {
			g[k] = !g[k]
		}
		g = fs.Lcs(model, lev)
		for k := range g {
			g[k] = !g[k]
		}
		if deepHash(model) != hm {
			c.Failf("writing to a least or greatest common model changed the model it was computed from")
		}
		nd := fs.NewNode(lev, model)
		if lev < d.P {
			guard("GetChildNode", func() {
				ch := nd.GetChildNode(c.R.Intn(2) == 0)
				for k := range ch.Model {
					ch.Model[k] = !ch.Model[k]
				}
			}, arg("node", nd))
		}
		guard("NewNode", func() {
			n2 := fs.NewNode(lev, model)
			for k := range n2.Model {
				n2.Model[k] = !n2.Model[k]
			}
		}, arg("model", model))
		guard("NodesEqual", func() { fs.NodesEqual(nd, nd); nd.EstimateMemory(); nd.ToSparseCoeff(); json.Marshal(nd) }, arg("node", nd))
		h := fs.NewHighscore(3)
		guard("Highscore.Insert", func() { h.Insert(nd) }, arg("node", nd))
		other := fs.NewHighscore(3)
		other.Insert(nd)
		guard("Highscore readers", func() { h.Scores(); h.BestScore(); h.Len(); json.Marshal(h); h.Equal(other) }, arg("list", other), arg("list", h))
		q := list.New()
		for k := 0; k < 5; k++ {
			n := fs.NewNode(0, model)
			n.Lower = float64(k)
			q.PushBack(n)
		}
		nodes := []*fs.Node{}
		for e := q.Front(); e != nil; e = e.Next() {
			nodes = append(nodes, e.Value.(*fs.Node))
		}
		hn := deepHash(nodes)
		fs.CleanQueue(q, 3)
		fs.RemoveLeastPromising(q)
		if deepHash(nodes) != hn {
			c.Failf("cleaning the queue changed its nodes")
		}
		c.Seen(true, d.flat(), s)
	})
	c.Cases("fits", c.N(1500, 15000), func(i int) {
		d, X, y, gx, gy := setup(300, 6)
		c.Input(map[string]interface{}{"data": d.Brief()})
		co := make([]float64, d.P)
		for k := range co {
			co[k] = c.R.NormFloat64()
		}
		co = spare(c.R, co)
		gco := arg("coefficients", co[:cap(co)])
		model := genModel(c.R, d.P, 0.5)
		model[c.R.Intn(d.P)] = true
		gm := arg("model", model)
		guard("Fit", func() { r := fs.Fit(X, y); r[0] = 99 }, gx, gy)
		guard("Predict", func() { r := fs.Predict(X, co); r[0] = 99 }, gx, gco)
		guard("PredictOne", func() { fs.PredictOne(y[:d.P], co) }, gy, gco)
		guard("Rss", func() { fs.Rss(X, co, y) }, gx, gco, gy)
		guard("MulSlice", func() { r := fs.MulSlice(X, co); r[0] = 99 }, gx, gco)
		guard("GetDesignMatrix", func() { fs.GetDesignMatrix(model, X).(*mat.Dense).Set(0, 0, 99) }, gx, gm)
		guard("DenumMatrixGcv", func() { fs.DenumMatrixGcv(X).Set(0, 0, 99) }, gx)
		hat := fs.DenumMatrixGcv(X)
		pred := spare(c.R, fs.Predict(X, co))
		guard("Gcv", func() { fs.Gcv(hat, y, pred) }, gy, arg("hat matrix", hat), arg("prediction", pred))
		var svd mat.SVD
		svd.Factorize(X, mat.SVDThin)
		guard("PseudoInverse", func() { fs.PseudoInverse(&svd, 1e-6); fs.PseudoInverseXTX(&svd, 1e-6) }, arg("decomposition", &svd), gx)
		guard("CovarianceMatrix", func() { fs.CovarianceMatrix(X).Set(0, 0, 99) }, gx)
		ns := between(c.R, 1, d.N-1)
		guard("RandomRowSplit", func() { a, b := fs.RandomRowSplit(X, ns); a.Set(0, 0, 99); b.Set(0, 0, 99) }, gx)
		guard("Empirical", func() { (&fs.Empirical{}).Get(X).(*mat.Dense).Set(0, 0, 99) }, gx)
		guard("Identity", func() { (&fs.Identity{}).Get(X) }, gx)
		deg := c.R.Intn(3)
		guard("LazyPowerMatrix", func() {
			lz := fs.NewLazyMatrix(X, deg)
			lz.FullMatrix().Set(0, 0, 99)
			lz.GetCol(0)[0] = 99
		}, gx)
		pw := map[int]int{0: 2, d.P - 1: 1}
		cols := spareInts(c.R, c.R.Perm(d.P)[:2])
		guard("AddPower", func() {
			lz := &fs.LazyPowerMatrix{X: X}
			lz.AddPower(pw)
			lz.AddPowerSequence(cols, 2)
			lz.FullMatrix()
		}, gx, arg("powers", pw), arg("columns", cols))
		order := spareInts(c.R, c.R.Perm(d.P)[:between(c.R, 0, d.P)])
		guard("RearrangeDense", func() { fs.RearrangeDense(X, order).Set(0, 0, 99) }, gx, arg("order", order))
		sel := spareInts(c.R, c.R.Perm(d.P)[:between(c.R, 1, d.P)])
		gs := arg("selection", sel[:cap(sel)])
		guard("FullCoeffVector", func() { fs.FullCoeffVector(d.P, sel, co)[0] = 99 }, gs, gco)
		guard("Selected2Model", func() { fs.Selected2Model(sel, d.P) }, gs)
		aic := spare(c.R, d.Y)
		ga := arg("values", aic[:cap(aic)])
		guard("WeightsFromAIC", func() { fs.WeightsFromAIC(aic)[0] = 99 }, ga)
		guard("Argsort", func() { fs.Argsort(aic)[0] = 99 }, ga)
		guard("Argmin", func() { fs.Argmin(aic); fs.Argmax(aic); fs.MinFloat(aic); fs.Mean(aic); fs.Std(aic) }, ga)
		guard("integer helpers", func() {
			fs.MaxInt(sel)
			fs.MinInt(sel)
			fs.Sum(sel)
			fs.All(sel, 3)
			fs.ExistInt(sel, 2)
			fs.EqualInt(sel, sel)
			fs.IterProduct(sel, 2)[0][0] = 99
		}, gs)
		s2 := spareInts(c.R, c.R.Perm(d.P)[:between(c.R, 0, d.P)])
		guard("CohenKappa", func() { fs.CohenKappa(sel, s2, d.P) }, gs, arg("second selection", s2[:cap(s2)]))
		s1 := append([]int{}, 1, 2)
		guard("UnionInt", func() { fs.UnionInt(append([]int{}, s1...), sel) }, gs)
		sps := []fs.SparseCoeff{{Coeff: co[:len(sel)], Selection: sel}, {Coeff: []float64{2}, Selection: []int{0}}}
		ws := []float64{0.25, 0.75}
		guard("WeightedAveragedCoeff", func() { fs.WeightedAveragedCoeff(d.P, ws, sps)[0] = 99 }, arg("coefficients", sps), arg("weights", ws), gco, gs)
		guard("SliceVec", func() {
			v := fs.NewSliceVec(co)
			var r mat.VecDense
			r.MulVec(X, v)
			fs.NewIndexedColVecView(v, sel).AtVec(0)
			vw := fs.NewIndexedColView(X, sel)
			var g mat.Dense
			g.Mul(vw.T(), &vw)
		}, gx, gco, gs)
		st := fs.NewSparseThreshold
		if d.N >= 6 && c.R.Intn(6) == 0 {
			guard("NewSparseThreshold", func() { st(X).Get(X) }, gx)
			guard("L2ConsistentCovTO", func() { fs.L2ConsistentCovTO(X, 3, 1, 0.5) }, gx)
		}
		c.Seen(true, d.flat())
	})
	c.Cases("lasso", c.N(500, 5000), func(i int) {
		d, _, _, _, _ := setup(200, 50)
		nd := normOf(d)
		gn := arg("normalised dataset", nd)
		c.Input(map[string]interface{}{"data": d.Brief()})
		x0 := make([]float64, d.P)
		for k := range x0 {
			x0[k] = c.R.NormFloat64()
		}
		x0 = spare(c.R, x0)
		g0 := arg("start vector", x0[:cap(x0)])
		lamb := 0.5 * c.R.Float64()
		cov := makeCov(c.R.Intn(3), nd.X)
		ck := c.R.Intn(3)
		guard("LassoCrdDesc", func() {
			r := fs.LassoCrdDesc(nd, lamb, cov, x0, 500, 1e-4, makeCorr(c.R, ck, d.P))
			r[0] = 99
		}, gn, g0)
		sc, _ := scripted(c.R, rowsOfGram(nd))
		guard("LassoCrdDesc(given covariance)", func() { fs.LassoCrdDesc(nd, lamb, sc, x0, 500, 1e-4, &fs.PureLasso{}) }, gn, g0, arg("covariance", sc))
		lambs := spare(c.R, fs.Logspace(1e-3, 0.8, between(c.R, 1, 14)))
		guard("LassoCrdDescPath", func() {
			fs.LassoCrdDescPath(nd, cov, lambs, 300, 1e-4, makeCorr(c.R, ck, d.P))
		}, gn, arg("strengths", lambs[:cap(lambs)]))
		guard("LassoLars", func() {
			for _, n := range fs.LassoLars(nd, 1e-5, &fs.MorsePenroseCD{}) {
				n.Coeff[0] = 99
				n.Selection[0] = 0
			}
		}, gn)
		sel := spareInts(c.R, c.R.Perm(d.P)[:between(c.R, 1, d.P)])
		guard("LinearTransformationBias", func() {
			nd.LinearTransformationBias(sel, x0[:len(sel)])
			nd.LinearNormalizationTransformation(d.P-1, 2)
		}, gn, arg("selection", sel[:cap(sel)]), g0)
		ds := datasetOf(d, c.R.Intn(d.P+1))
		gd := arg("dataset", ds)
		keep := 0.4 + 0.5*c.R.Float64()
		guard("NestedLasso", func() { fs.NestedLasso(ds, 1e-6, keep, &fs.MorsePenroseCD{}) }, gd)
		guard("Dataset methods", func() {
			ds.GetFeatName(0)
			ds.FeatNoByName(ds.GetFeatName(d.P - 1))
			ds.IsEqual(ds.Copy())
			ds.GetSubset(sel)
			json.Marshal(ds)
			var b bytes.Buffer
			ds.SaveHandle(&b)
			names := []string{ds.GetFeatName(0), ds.GetFeatName(1)}
			fs.MapSelectionByName(ds, names, []int{0, 1})
		}, gd, arg("selection", sel[:cap(sel)]))
		nodes := randomPath(c.R, d.P)
		ok := len(nodes) > 0
		// the nodes may be cut from common arrays
		for _, n := range nodes {
			n.Selection = spareInts(c.R, n.Selection)
			n.Coeff = spare(c.R, n.Coeff)
		}
		for _, n := range nodes {
			ok = ok && len(n.Selection) > 0 && n.Lamb > 0
		}
		if ok {
			path := &fs.LassoLarsPath{Dset: ds, LassoLarsNodes: nodes}
			path.Aicc = path.GetCriteria(fs.Aicc)
			path.Bic = path.GetCriteria(fs.Bic)
			gp := arg("path", path)
			guard("path summaries", func() {
				path.GetCriteria(fs.Aicc)
				path.MaxMinFeatNo()
				path.ExtractPath(0)
				path.PickMostRelevantFeatures(2)
				fs.PrintHighscore(path, path.Aicc, path.Bic, 20)
				fs.LassoNodesSlice2SparsCoeff(nodes)
				json.Marshal(path)
			}, gp)
			rng := &fs.AxisRange{Min: -2, Max: 3}
			guard("plots", func() {
				path.PlotEntranceTimes()
				path.PlotQualityScores()
				path.PlotDeviations()
				path.PlotPath(nil)
				path.PlotPath(rng)
			}, gp, arg("axis range", rng))
		}
		if c.R.Intn(4) == 0 && variedHalves(d) {
			t := fs.NewPureLassoCohen()
			t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, lamb, &fs.Empirical{}, 300, 1e-4, &fs.PureLasso{}
			guard("GetCohensKappa", func() { fs.GetCohensKappa(3, t) }, gn)
			rows := spareInts(c.R, c.R.Perm(d.N)[:d.N/2])
			guard("GetSelection", func() { t.GetSelection(rows) }, gn, arg("rows", rows[:cap(rows)]))
		}
		c.Seen(true, d.flat(), lamb)
	})
}

// variedHalves tells whether no half of the rows can make a column (other than
// the intercept) constant, which normalising that half would rightly reject.
func variedHalves(d *Data) bool {
	for j := 0; j < d.P; j++ {
		n := map[float64]int{}
		most := 0
		for i := range d.X {
			n[d.X[i][j]+0]++
			if n[d.X[i][j]+0] > most {
				most = n[d.X[i][j]+0]
			}
		}
		if most >= d.N/2 && (j > 0 || most < d.N) {
			return false
		}
	}
	return true
}

func rowsOfGram(nd *fs.NormalizedData) [][]float64 {
	x := rowsOf(nd.X)
	g := matMul(transposed(x), x)
	for i := range g {
		for j := range g[i] {
			g[i][j] /= float64(len(x))
		}
	}
	return g
}

// strokes draws the plot on a recording canvas with widened axes and returns the
// polylines and glyph centres inside the data area, in data coordinates.
func strokes(p *plot.Plot, x0, x1, y0, y1 float64) (lines [][][2]float64, dots [][2]float64) {
	mx, my := 0.1*(x1-x0)+0.5, 0.1*(y1-y0)+0.5
	p.X.Min, p.X.Max = x0-mx, x1+mx
	p.Y.Min, p.Y.Max = y0-my, y1+my
	var rec recorder.Canvas
	da := draw.NewCanvas(&rec, 2000, 1500)
	p.Draw(da)
	dc := p.DataCanvas(da)
	bx, by := float64(dc.Min.X), float64(dc.Min.Y)
	wx, wy := float64(dc.Max.X-dc.Min.X), float64(dc.Max.Y-dc.Min.Y)
	back := func(pt vg.Point) [2]float64 {
		return [2]float64{p.X.Min + (float64(pt.X)-bx)/wx*(p.X.Max-p.X.Min), p.Y.Min + (float64(pt.Y)-by)/wy*(p.Y.Max-p.Y.Min)}
	}
	in := func(q [2]float64) bool {
		return q[0] > x0-mx/2 && q[0] < x1+mx/2 && q[1] > y0-my/2 && q[1] < y1+my/2
	}
	for _, a := range rec.Actions {
		var path vg.Path
		switch s := a.(type) {
		case *recorder.Stroke:
			path = s.Path
		case *recorder.Fill:
			path = s.Path
			arc := false
			for _, q := range path {
				arc = arc || q.Type == vg.ArcComp
			}
			if !arc {
				continue
			}
		default:
			continue
		}
		var l [][2]float64
		inside := len(path) > 0
		for _, q := range path {
			if q.Type == vg.ArcComp {
				if pt := back(q.Pos); in(pt) {
					dots = append(dots, pt)
				}
				inside = false
				break
			}
			if q.Type == vg.CloseComp {
				continue
			}
			pt := back(q.Pos)
			inside = inside && in(pt)
			l = append(l, pt)
		}
		if inside {
			lines = append(lines, l)
		}
	}
	return
}

func near(a, b [2]float64, sx, sy float64) bool {
	return math.Abs(a[0]-b[0]) <= 1e-7*sx && math.Abs(a[1]-b[1]) <= 1e-7*sy
}

// take removes from got one polyline equal to want (in either direction).
func take(got [][][2]float64, want [][2]float64, sx, sy float64) ([][][2]float64, bool) {
	for k, l := range got {
		if len(l) != len(want) {
			continue
		}
		fw, bw := true, true
		for i := range l {
			fw = fw && near(l[i], want[i], sx, sy)
			bw = bw && near(l[len(l)-1-i], want[i], sx, sy)
		}
		if fw || bw {
			return append(append([][][2]float64{}, got[:k]...), got[k+1:]...), true
		}
	}
	return got, false
}

func rangeOf(lines ...[][2]float64) (x0, x1, y0, y1 float64) {
	x0, x1, y0, y1 = math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
	for _, l := range lines {
		for _, q := range l {
			x0, x1 = math.Min(x0, q[0]), math.Max(x1, q[0])
			y0, y1 = math.Min(y0, q[1]), math.Max(y1, q[1])
		}
	}
	return
}

func runC36(c *Ctx) {
	c.Cases("plots", c.N(1200, 12000), func(i int) {
		n, p := c.grow(between(c.R, 4, 14), between(c.R, 1, 9), 60, 80, 100)
		d := genData(c.R, n, p, []string{"gauss", "scaled", "intercept", "factor"})
		var nodes []*fs.LassoLarsNode
		if c.R.Intn(3) == 0 && d.N > d.P+2 && normalizable(d) {
			nd := normOf(d)
			if c.R.Intn(2) == 0 {
				nodes = fs.LassoLars(nd, 1e-5, &fs.MorsePenroseCD{})
			} else {
				nodes = fs.LassoCrdDescPath(nd, &fs.Empirical{}, fs.Logspace(1e-3, 0.9, 8), 2000, 1e-5, &fs.PureLasso{})
			}
			fs.Path2Unnormalized(nd, nodes)
			c.Count("computed_paths", 1)
		} else {
			lamb := math.Pow(10, 3*c.R.Float64())
			lo := c.R.Intn(p) // features below lo never occur
			if c.R.Intn(2) == 0 {
				lo = 0
			}
			empties := c.R.Intn(5) == 0
			m, _ := c.grow(between(c.R, 1, 9), p, 40, p, 60)
			for k := m; k > 0; k-- {
				sel := []int{}
				for j := lo; j < p; j++ {
					if c.R.Intn(2) == 0 {
						sel = append(sel, j)
					}
				}
				if len(sel) == 0 {
					sel = []int{lo + c.R.Intn(p-lo)}
				}
				if empties && c.R.Intn(3) == 0 {
					sel = sel[:0]
				}
				co := make([]float64, len(sel))
				for j := range co {
					co[j] = c.R.NormFloat64() * math.Pow(10, float64(c.R.Intn(3)-1))
				}
				nodes = append(nodes, fs.NewLassoLarsNode(co, lamb, sel))
				lamb *= 0.2 + 0.7*c.R.Float64()
			}
			if c.R.Intn(8) == 0 { // not ordered by strength
				c.R.Shuffle(len(nodes), func(a, b int) { nodes[a], nodes[b] = nodes[b], nodes[a] })
			}
		}
		if len(nodes) == 0 {
			return
		}
		maxF := -1
		for _, n := range nodes {
			if n.Lamb <= 0 {
				return
			}
			if len(n.Selection) == 0 {
				c.Count("nodes_that_select_nothing", 1)
			}
			for _, f := range n.Selection {
				if f > maxF {
					maxF = f
				}
			}
		}
		if maxF < 0 {
			return
		}
		path := &fs.LassoLarsPath{Dset: datasetOf(d, c.R.Intn(p+1)), LassoLarsNodes: nodes}
		c.Input(map[string]interface{}{"nodes": nodes, "data": d.Brief()})
		lg := func(n *fs.LassoLarsNode) float64 { return math.Log10(n.Lamb) }
		coef := func(n *fs.LassoLarsNode, f int) float64 {
			for k, j := range n.Selection {
				if j == f {
					return n.Coeff[k]
				}
			}
			return 0
		}
		// coefficients
		var want [][][2]float64
		for f := 0; f <= maxF; f++ {
			var l [][2]float64
			for _, n := range nodes {
				l = append(l, [2]float64{lg(n), coef(n, f)})
			}
			want = append(want, l)
			xy := path.ExtractPath(f)
			if len(xy) != len(nodes) {
				c.Failf("the path of feature %d has %d points for %d nodes", f, len(xy), len(nodes))
			}
			for k, n := range nodes {
				if xy[k].X != lg(n) || xy[k].Y != coef(n, f) {
					c.Failf("the path of feature %d has (%v, %v) at node %d instead of (%v, %v)", f, xy[k].X, xy[k].Y, k, lg(n), coef(n, f))
				}
			}
		}
		zero := [][2]float64{{lg(nodes[len(nodes)-1]), 0}, {lg(nodes[0]), 0}}
		x0, x1, y0, y1 := rangeOf(append(want, zero)...)
		for _, cr := range []*fs.AxisRange{nil, {Min: -1.5, Max: 2.5}, {Min: 0, Max: 2.5}} {
			pl := path.PlotPath(cr)
			if cr != nil && (pl.Y.Min != cr.Min || pl.Y.Max != cr.Max) {
				c.Failf("the requested range %v became %v %v", *cr, pl.Y.Min, pl.Y.Max)
			}
			if cr == nil && (pl.Y.Min > y0 || pl.Y.Max < y1 || pl.X.Min > x0 || pl.X.Max < x1) {
				c.Failf("the axes [%v %v] [%v %v] do not cover the data [%v %v] [%v %v]", pl.X.Min, pl.X.Max, pl.Y.Min, pl.Y.Max, x0, x1, y0, y1)
			}
			got, dots := strokes(pl, x0, x1, y0, y1)
			c.Count("strokes_seen", int64(len(got)))
			if len(nodes) < 2 {
				continue // a single point has no stroke
			}
			all := len(got)
			for f, l := range want {
				var ok bool
				if got, ok = take(got, l, 1+x1-x0, 1+y1-y0); !ok {
					c.Failf("no trace of feature %d of %d through %v (%d lines were drawn)", f, maxF+1, l, all)
				}
			}
			rest := 0
			for _, l := range got {
				if len(l) > 2 {
					rest++
				}
			}
			if rest > 0 || len(got) > 1 || len(dots) > 0 {
				c.Failf("%d lines were drawn for %d features", all, maxF+1)
			}
		}
		// entrance times
		var events [][2]float64
		first := map[int]float64{}
		for _, n := range nodes {
			for _, f := range n.Selection {
				events = append(events, [2]float64{float64(f), lg(n)})
				if v, ok := first[f]; !ok || lg(n) > v {
					first[f] = lg(n)
				}
			}
		}
		var line [][2]float64
		for f := 0; f <= maxF; f++ {
			if v, ok := first[f]; ok {
				line = append(line, [2]float64{float64(f), v})
			}
		}
		x0, x1, y0, y1 = rangeOf(events)
		got, dots := strokes(path.PlotEntranceTimes(), x0, x1, y0, y1)
		if len(dots) != len(events) {
			c.Failf("%d points were drawn for %d selection events", len(dots), len(events))
		}
		c.Count("glyphs_seen", int64(len(dots)))
		left := append([][2]float64{}, dots...)
		for _, e := range events {
			found := false
			for k, q := range left {
				if near(q, e, 1+x1-x0, 1+y1-y0) {
					left = append(left[:k], left[k+1:]...)
					found = true
					break
				}
			}
			if !found {
				c.Failf("selection event (feature %v, log10 strength %v) is not drawn", e[0], e[1])
			}
		}
		if len(line) >= 2 {
			if r, ok := take(got, line, 1+x1-x0, 1+y1-y0); !ok || len(r) != 0 {
				c.Failf("the line of first entrances is %v instead of %v", got, line)
			}
		}
		// quality and deviation
		var qual, dev [][2]float64
		okDev := true
		for _, n := range nodes {
			rss := 0.0
			for r := range d.X {
				e := d.Y[r]
				for k, f := range n.Selection {
					e -= n.Coeff[k] * d.X[r][f]
				}
				rss += e * e
			}
			if nearFloor(rss, dot(d.Y, d.Y)) || rss < 1e-9 {
				okDev = false
			}
			qual = append(qual, [2]float64{lg(n), refAICc(len(n.Selection), d.N, rss)})
			dev = append(dev, [2]float64{lg(n), math.Log10(math.Sqrt(rss / float64(d.N)))})
		}
		if okDev && len(nodes) >= 2 {
			x0, x1, y0, y1 = rangeOf(qual)
			got, dots = strokes(path.PlotQualityScores(), x0, x1, y0, y1)
			if r, ok := take(got, qual, 1+x1-x0, 1+y1-y0); !ok || len(r) != 0 || len(dots) != 0 {
				c.Failf("the quality plot draws %v instead of %v", got, qual)
			}
			x0, x1, y0, y1 = rangeOf(dev)
			got, dots = strokes(path.PlotDeviations(), x0, x1, y0, y1)
			if r, ok := take(got, dev, 1+x1-x0, 1+y1-y0); !ok || len(r) != 0 || len(dots) != 0 {
				c.Failf("the deviation plot draws %v instead of %v", got, dev)
			}
			c.Count("quality_and_deviation_curves", 2)
		}
		c.Max("nodes", int64(len(nodes)))
		c.Max("features", int64(maxF+1))
		c.Seen(len(nodes) >= 2, d.flat(), fmt.Sprint(len(nodes), maxF, nodes[0].Lamb))
	})
}
