package main

import (
	"fmt"
	"math"
	"math/rand"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C13", &check{run: runC13, rule: "random tall, square, wide and rank-deficient designs (1-40 rows, 1-30 columns, column scales 1e-4..1e3) fitted as dense matrices, strided views, transposed and opaque types; residual orthogonality, minimum norm by own Jacobi SVD, column permutations and target scalings; non-trivial = at least two columns"})
	register("C14", &check{run: runC14, rule: "random matrices (dense, strided, transposed, opaque), models and coefficients compared with plain loops; inconsistent lengths must panic; non-trivial = at least two columns"})
	register("C15", &check{run: runC15, rule: "random datasets with and without intercept column: means and deviations recomputed, constant columns must be rejected, hand-made and computed lasso paths mapped back and their predictions compared with the de-normalised ones; non-trivial = at least two columns"})
	register("C31", &check{run: runC31, rule: "matrices built from chosen singular values with a gap at the tolerance (tall, square, wide, rank-deficient): pseudo-inverses compared with the known inverse and the Moore-Penrose conditions, hat matrix with projection laws, cross-validation score with brute-force leave-one-out refits; non-trivial = at least two columns"})
}

func denseOf(x [][]float64) *mat.Dense {
	m := newDense(len(x), len(x[0]))
	for i := range x {
		m.SetRow(i, x[i])
	}
	return m
}

var matKinds = []string{"dense", "strided", "transposed", "opaque", "colview"}

// matAs wraps x in the named concrete matrix type.
func matAs(kind string, x [][]float64) mat.Matrix {
	n, p := len(x), len(x[0])
	switch kind {
	case "strided":
		big := newDense(n+2, p+3)
		for i := 0; i < n+2; i++ {
			for j := 0; j < p+3; j++ {
				big.Set(i, j, 1e9+float64(i*j))
			}
		}
		v := big.Slice(1, n+1, 2, p+2).(*mat.Dense)
		for i := range x {
			for j := range x[i] {
				v.Set(i, j, x[i][j])
			}
		}
		return v
	case "transposed":
		return denseOf(transposed(x)).T()
	case "opaque":
		return opaque{denseOf(x)}
	case "colview":
		// the columns in reverse order with unrelated ones between them
		big := newDense(n, 2*p+1)
		ix := make([]int, p)
		for j := 0; j < p; j++ {
			ix[j] = 2*(p-1-j) + 1
			for i := 0; i < n; i++ {
				big.Set(i, ix[j], x[i][j])
				big.Set(i, 2*j, 77)
			}
		}
		v := fs.NewIndexedColView(big, ix)
		return &v
	}
	return denseOf(x)
}

func rowsOf(m mat.Matrix) [][]float64 {
	n, p := m.Dims()
	r := make([][]float64, n)
	for i := range r {
		r[i] = make([]float64, p)
		for j := range r[i] {
			r[i][j] = m.At(i, j)
		}
	}
	return r
}

func runC13(c *Ctx) {
	c.Cases("fit", c.N(60000, 900000), func(i int) {
		p := between(c.R, 1, 8)
		n := pick(c.R, 1, 2, 3, p, p+1, p+2, 2*p+3, 20, 40)
		if i%40 == 0 {
			p = between(c.R, 10, 30)
			n = between(c.R, 5, 60)
		}
		n, p = c.grow(n, p, 250, 80, 800)
		d := genData(c.R, n, p, designKinds)
		if c.R.Intn(4) == 0 {
			s := math.Pow(10, 7*c.R.Float64()-4)
			all := c.R.Intn(2) == 0
			j0 := c.R.Intn(p)
			for a := range d.X {
				for j := range d.X[a] {
					if all || j == j0 {
						d.X[a][j] *= s
					}
				}
			}
			d.Kind += fmt.Sprintf("/x%.1g", s)
		}
		c.Input(d.Brief())
		b, _, small, drop := lstsq(d.X, d.Y)
		if small < 1e-5 || drop > 1e-11*(1+maxAbsM(d.X)*float64(n*p)) || math.IsInf(small, 1) {
			c.Seen(false)
			return
		}
		big := maxAbsM(d.X) * math.Sqrt(float64(n*p))
		cond := big / small
		tol := 1e-12 * (1 + cond) * (1 + cond/100)
		if tol > 1e-4 {
			c.Seen(false)
			return
		}
		kind := matKinds[c.R.Intn(len(matKinds))]
		got := fs.Fit(matAs(kind, d.X), d.Ycopy())
		if len(got) != p {
			c.Failf("%d coefficients for %d columns", len(got), p)
		}
		scale := maxAbs(b) + norm(d.Y)/big
		for j := range b {
			if !(math.Abs(got[j]-b[j]) <= tol*scale+1e-300) {
				c.Failf("coefficients %v, the minimum-norm least-squares solution is %v (%s)", got, b, kind)
			}
		}
		// residual orthogonal to every column
		pr := matVec(d.X, got)
		res := make([]float64, n)
		for k := range res {
			res[k] = d.Y[k] - pr[k]
		}
		for j, g := range tmatVec(d.X, res) {
			lim := tol * (big*big*maxAbs(got) + big*norm(d.Y) + 1e-300)
			if !(math.Abs(g) <= lim) {
				c.Failf("the residual is not orthogonal to column %d: product %g", j, g)
			}
		}
		c.Max("columns", int64(p))
		c.Count("fits_as_"+kind, 1)
		if drop > 0 || p > n {
			c.Count("rank_deficient", 1)
		}
		// permuted columns, scaled target
		perm := c.R.Perm(p)
		xp := make([][]float64, n)
		for a := range xp {
			xp[a] = make([]float64, p)
			for j := range perm {
				xp[a][j] = d.X[a][perm[j]]
			}
		}
		f := math.Pow(10, 6*c.R.Float64()-3) * float64(1-2*c.R.Intn(2))
		y2 := d.Ycopy()
		for k := range y2 {
			y2[k] *= f
		}
		g2 := fs.Fit(denseOf(xp), y2)
		for j := range perm {
			if !(math.Abs(g2[j]-f*got[perm[j]]) <= 2*tol*scale*math.Abs(f)+1e-300) {
				c.Failf("permuting columns by %v and scaling the target by %g gives %v instead of a permutation of %v", perm, f, g2, got)
			}
		}
		c.Seen(p > 1, d.flat(), kind)
	})
}

func init() { // columns of very different scales, as physical quantities in fixed units have
	old := checks["C13"].run
	checks["C13"].run = func(c *Ctx) { old(c); runC13scales(c); runC13tall(c) }
}

func runC13scales(c *Ctx) {
	c.Cases("scales", c.N(6000, 60000), func(i int) {
		p := between(c.R, 2, 6)
		n := p + between(c.R, 0, 12)
		q := randOrtho(c.R, n, p)
		// scales from 1e-4 up to 1e6; every column matters for the target
		sc := make([]float64, p)
		for j := range sc {
			sc[j] = math.Pow(10, 10*c.R.Float64()-4)
		}
		if c.R.Intn(2) == 0 {
			sc[0], sc[p-1] = 1e-4*(1+c.R.Float64()), 3e5*(1+c.R.Float64())
		}
		c.R.Shuffle(p, func(a, b int) { sc[a], sc[b] = sc[b], sc[a] })
		x := make([][]float64, n)
		y := make([]float64, n)
		for a := range x {
			x[a] = make([]float64, p)
			y[a] = 0.3 * c.R.NormFloat64()
		}
		for j := range sc {
			w := (1 + c.R.Float64()) * float64(1-2*c.R.Intn(2))
			for a := range x {
				x[a][j] = q[a][j] * sc[j]
				y[a] += w * q[a][j]
			}
		}
		c.Input(map[string]interface{}{"x": x, "y": y, "scales": sc})
		got := fs.Fit(matAs(matKinds[c.R.Intn(len(matKinds))], x), append([]float64{}, y...))
		pr := matVec(x, got)
		res := make([]float64, n)
		for a := range res {
			res[a] = y[a] - pr[a]
		}
		for j, g := range tmatVec(x, res) {
			if !(math.Abs(g) <= 1e-3*sc[j]*norm(y)) {
				c.Failf("columns of scales %v: the residual is not orthogonal to column %d (cosine with it %g of the target norm), coefficients %v", sc, j, g/sc[j]/norm(y), got)
			}
		}
		lo, hi := sc[0], sc[0]
		for _, v := range sc {
			lo, hi = math.Min(lo, v), math.Max(hi, v)
		}
		c.Max("scale_ratio", int64(hi/lo))
		c.Seen(true, y, sc)
	})
}

// runC13tall fits designs of every shape with prescribed singular values down to
// 1e-5 and known coefficients.
func runC13tall(c *Ctx) {
	c.Cases("shapes", c.N(1500, 20000), func(i int) {
		p := between(c.R, 1, 6)
		n := p + pick(c.R, 0, 1, 2, 5, 20, 60, 100, 150, 300)
		dup := p < n && c.R.Intn(3) == 0
		q, v := randOrtho(c.R, n, p), randOrtho(c.R, p, p)
		s := make([]float64, p)
		lo, hi := math.Inf(1), 0.0
		for k := range s {
			s[k] = math.Pow(10, 7*c.R.Float64()-5)
			lo, hi = math.Min(lo, s[k]), math.Max(hi, s[k])
		}
		x := make([][]float64, n)
		for a := range x {
			x[a] = make([]float64, p)
			for j := range x[a] {
				for k := range s {
					x[a][j] += q[a][k] * s[k] * v[j][k]
				}
			}
		}
		want := make([]float64, p)
		for j := range want {
			want[j] = c.R.NormFloat64()
		}
		y := matVec(x, want)
		size := norm(want)
		if dup { // the minimum-norm solution shares the coefficient
			j := c.R.Intn(p)
			for a := range x {
				x[a] = append(x[a], x[a][j])
			}
			want[j] /= 2
			want = append(want, want[j])
		}
		kind := matKinds[c.R.Intn(len(matKinds))]
		c.Input(map[string]interface{}{"rows": n, "cols": len(want), "singular": s, "duplicate": dup, "coeff": want, "matrix": kind})
		got := fs.Fit(matAs(kind, x), append([]float64{}, y...))
		if len(got) != len(want) {
			c.Failf("%d coefficients for %d columns", len(got), len(want))
		}
		tol := 1e-15 * float64(20+p*p) * (hi / lo) * size
		worst := 0.0
		for j := range want {
			worst = math.Max(worst, math.Abs(got[j]-want[j]))
		}
		if !(worst <= tol) {
			c.Failf("coefficients %v, expected %v (singular values %v, %d rows)", got, want, s, n)
		}
		c.Max("rows", int64(n))
		c.Max("condition", int64(hi/lo))
		c.Max("error_per_mille_of_limit", int64(1000*worst/tol))
		c.Seen(p > 1, want, s)
	})
}

func runC14(c *Ctx) {
	c.Cases("design", c.N(30000, 300000), func(i int) {
		n, p := c.grow(between(c.R, 1, 12), between(c.R, 1, 12), 300, 200, 100)
		if i%50 == 0 {
			p = between(c.R, 20, 80)
		}
		x := gaussMat(c.R, n, p)
		if c.R.Intn(5) == 0 {
			x[c.R.Intn(n)][c.R.Intn(p)] = []float64{0, math.Copysign(0, -1), 1e300, -1e-300}[c.R.Intn(4)]
		}
		kind := matKinds[c.R.Intn(len(matKinds))]
		m := genModel(c.R, p, []float64{0.1, 0.5, 0.9, 1}[c.R.Intn(4)])
		sel := selOf(m)
		c.Input(map[string]interface{}{"rows": n, "cols": p, "model": bits(m), "type": kind})
		X := matAs(kind, x)
		if len(sel) == 0 {
			if Try(func() { fs.GetDesignMatrix(m, X) }) == nil {
				c.Failf("a design matrix without columns was returned for the empty model")
			}
			c.Seen(false)
			return
		}
		D := fs.GetDesignMatrix(m, X)
		nr, nc := D.Dims()
		if nr != n || nc != len(sel) {
			c.Failf("the design matrix is %dx%d for %d rows and %d selected columns", nr, nc, n, len(sel))
		}
		for a := 0; a < n; a++ {
			for k, j := range sel {
				if math.Float64bits(D.At(a, k)) != math.Float64bits(x[a][j]) {
					c.Failf("element (%d,%d) of the design matrix is %v, column %d has %v", a, k, D.At(a, k), j, x[a][j])
				}
			}
		}
		c.Seen(p > 1, fmt.Sprint(n, p, bits(m), kind), x[0])
	})
	c.Cases("predict", c.N(30000, 300000), func(i int) {
		n, p := c.grow(between(c.R, 1, 15), between(c.R, 1, 10), 300, 200, 100)
		if i%5000 == 21 {
			n = between(c.R, 1000, 70000/p)
		}
		x := gaussMat(c.R, n, p)
		b := gaussMat(c.R, 1, p)[0]
		if c.R.Intn(3) == 0 {
			for j := range b {
				if c.R.Intn(2) == 0 {
					b[j] = 0
				} else {
					b[j] *= math.Pow(10, 8*c.R.Float64()-4)
				}
			}
		}
		y := gaussMat(c.R, 1, n)[0]
		kind := matKinds[c.R.Intn(len(matKinds))]
		c.Input(map[string]interface{}{"x": x, "coeff": b, "y": y, "type": kind})
		want := matVec(x, b)
		got := fs.Predict(matAs(kind, x), b)
		sc := 1e-12 * (1 + maxAbs(b)) * (1 + maxAbsM(x)) * float64(p)
		if len(got) != n {
			c.Failf("%d predictions for %d rows", len(got), n)
		}
		rss := 0.0
		for a := range want {
			if math.Abs(got[a]-want[a]) > sc {
				c.Failf("prediction %d is %v, the product is %v", a, got[a], want[a])
			}
			if o := fs.PredictOne(x[a], b); math.Abs(o-want[a]) > sc {
				c.Failf("prediction of point %d is %v, the product is %v", a, o, want[a])
			}
			rss += (want[a] - y[a]) * (want[a] - y[a])
		}
		if r := fs.Rss(matAs(kind, x), b, y); !(math.Abs(r-rss) <= 1e-9*(rss+sc)) {
			c.Failf("the residual sum of squares is %v, the sum of squared differences %v", r, rss)
		}
		// perfect data
		if r := fs.Rss(matAs(kind, x), b, got); r != 0 {
			if !(r <= sc*sc*float64(n)) {
				c.Failf("the residual of the predictions themselves is %v", r)
			}
		}
		// inconsistent lengths
		X := matAs(kind, x)
		longer := append(append([]float64{}, b...), 1)
		ylong := append(append([]float64{}, y...), 1)
		for _, t := range []struct {
			name string
			f    func()
		}{
			{"predicting with one coefficient too many", func() { fs.Predict(X, longer) }},
			{"predicting with one coefficient too few", func() { fs.Predict(X, b[:p-1]) }},
			{"the residual with one coefficient too many", func() { fs.Rss(X, longer, y) }},
			{"the residual with one target value too many", func() { fs.Rss(X, b, ylong) }},
			{"the residual with one target value too few", func() { fs.Rss(X, b, y[:n-1]) }},
			{"fitting with one target value too many", func() { fs.Fit(X, ylong) }},
			{"fitting with one target value too few", func() { fs.Fit(X, y[:n-1]) }},
			{"predicting a point with one coefficient too few", func() { fs.PredictOne(x[0], b[:p-1]) }},
		} {
			if Try(t.f) == nil {
				c.Failf("%s is not rejected", t.name)
			}
			c.Count("rejections", 1)
		}
		c.Seen(p > 1, x[0], b, y)
	})
}

func runC15(c *Ctx) {
	c.Cases("normalise", c.N(40000, 500000), func(i int) {
		n, p := c.grow(between(c.R, 2, 25), between(c.R, 1, 8), 500, 150, 150)
		d := genData(c.R, n, p, []string{"gauss", "ar", "intercept", "scaled", "factor", "shifted", "integer"})
		if !normalizable(d) {
			c.Seen(false)
			return
		}
		if c.R.Intn(6) == 0 && p > 1 {
			// a constant column that is not the first one
			j := between(c.R, 1, p-1)
			v := []float64{0, 1, -3.25, 1e3, 0.1, -1.0 / 3, 700.0 / 3}[c.R.Intn(7)]
			for a := range d.X {
				d.X[a][j] = v
			}
			c.Input(d.Brief())
			if Try(func() { fs.NewNormalizedData(d.Dense(), d.Ycopy()) }) == nil {
				c.Failf("a constant column %d was accepted", j)
			}
			c.Count("constant_columns_rejected", 1)
			c.Seen(true, d.flat())
			return
		}
		if rstd(transposed(d.X)[0]) == 0 && c.R.Intn(3) == 0 {
			v := []float64{0, 2, -7}[c.R.Intn(3)]
			for a := range d.X {
				d.X[a][0] = v
			}
		}
		c.Input(d.Brief())
		want, wy, bias := normalizedCopy(d)
		var X *mat.Dense
		if c.R.Intn(3) == 0 {
			X = matAs("strided", d.X).(*mat.Dense)
		} else {
			X = d.Dense()
		}
		y := d.Ycopy()
		nd := fs.NewNormalizedData(X, y)
		if nd.HasBias != bias {
			c.Failf("HasBias is %v, first column constant: %v", nd.HasBias, bias)
		}
		if nd.X != X {
			c.Count("normalised_into_a_copy", 1)
		}
		for a := 0; a < n; a++ {
			for j := 0; j < p; j++ {
				if math.Abs(nd.X.At(a, j)-want[a][j]) > 1e-9 {
					c.Failf("element (%d,%d) is %v, expected %v", a, j, nd.X.At(a, j), want[a][j])
				}
			}
			if math.Abs(y[a]-wy[a]) > 1e-9 {
				c.Failf("target %d is %v, expected %v", a, y[a], wy[a])
			}
		}
		for j, col := range transposed(rowsOf(nd.X)) {
			if j == 0 && bias {
				if maxAbs(col) > 1e-12 {
					c.Failf("the constant first column became %v", col)
				}
				continue
			}
			if math.Abs(rmean(col)) > 1e-9 || math.Abs(rstd(col)-1) > 1e-9 {
				c.Failf("column %d has mean %v and deviation %v", j, rmean(col), rstd(col))
			}
		}
		if math.Abs(rmean(y)) > 1e-9 || math.Abs(rstd(y)-1) > 1e-9 {
			c.Failf("the target has mean %v and deviation %v", rmean(y), rstd(y))
		}

		// coefficients of a few random nodes mapped back
		checkUnnormalized(c, d, nd, randomNodes(c.R, p, bias))
		c.Seen(p > 1, d.flat())
	})
	// units in which the columns and the target are tiny or huge
	c.Cases("units", c.N(6000, 60000), func(i int) {
		n, p := between(c.R, 3, 25), between(c.R, 1, 6)
		x := gaussMat(c.R, n, p)
		y := gaussMat(c.R, 1, n)[0]
		sc := make([]float64, p)
		for j := range sc {
			s := rstd(transposed(x)[j])
			sc[j] = math.Pow(10, 18*c.R.Float64()-9.6) // 2.5e-10 .. 2.5e8
			if c.R.Intn(2) == 0 {
				sc[j] = math.Pow(10, 3*c.R.Float64()-9.6)
			}
			off := 3 * c.R.NormFloat64()
			for a := range x {
				x[a][j] = (x[a][j]/s + off) * sc[j]
			}
		}
		bias := c.R.Intn(3) == 0
		if bias {
			for a := range x {
				x[a][0] = 1
			}
		}
		ys := math.Pow(10, 12*c.R.Float64()-6)
		for a := range y {
			y[a] *= ys
		}
		d := &Data{N: n, P: p, X: x, Y: y, Kind: "units"}
		want, wy, _ := normalizedCopy(d)
		c.Input(d.Brief())
		X, yy := d.Dense(), d.Ycopy()
		nd := fs.NewNormalizedData(X, yy)
		if nd.HasBias != bias {
			c.Failf("HasBias is %v, first column constant: %v (deviations %v)", nd.HasBias, bias, sc)
		}
		for a := 0; a < n; a++ {
			for j := 0; j < p; j++ {
				if !(math.Abs(nd.X.At(a, j)-want[a][j]) <= 1e-9) {
					c.Failf("element (%d,%d) is %v, expected %v (deviations %v)", a, j, nd.X.At(a, j), want[a][j], sc)
				}
			}
			if !(math.Abs(yy[a]-wy[a]) <= 1e-9) {
				c.Failf("target %d is %v, expected %v", a, yy[a], wy[a])
			}
		}
		c.Seen(p > 1, d.flat())
	})
	c.Cases("arrays", c.N(8000, 50000), func(i int) {
		n, p := c.grow(between(c.R, 2, 12), between(c.R, 2, 12), 300, 150, 100)
		x := gaussMat(c.R, n, p)
		for a := range x {
			for j := range x[a] {
				x[a][j] = x[a][j]*math.Pow(10, float64(c.R.Intn(3))) + 3
			}
		}
		c.Input(map[string]interface{}{"x": x})
		norml := func(v []float64) []float64 {
			r := append([]float64{}, v...)
			m, s := rmean(v), rstd(v)
			for k := range r {
				r[k] = (r[k] - m) / s
			}
			return r
		}
		v := append([]float64{}, x[0]...)
		fs.NormalizeArray(v)
		if !closeVec(v, norml(x[0]), 1e-10) {
			c.Failf("normalising %v gives %v", x[0], v)
		}
		kind := []string{"dense", "strided"}[c.R.Intn(2)]
		R := matAs(kind, x).(*mat.Dense)
		fs.NormalizeRows(R)
		for a, r := range rowsOf(R) {
			if !closeVec(r, norml(x[a]), 1e-10) {
				c.Failf("normalised row %d is %v, expected %v", a, r, norml(x[a]))
			}
		}
		C := matAs(kind, x).(*mat.Dense)
		fs.NormalizeCols(C)
		xt := transposed(x)
		for j, r := range transposed(rowsOf(C)) {
			if !closeVec(r, norml(xt[j]), 1e-10) {
				c.Failf("normalised column %d is %v, expected %v", j, r, norml(xt[j]))
			}
		}
		c.Seen(true, x[0])
	})
	c.Cases("paths", c.N(3000, 40000), func(i int) {
		d := lassoData(c.R, between(c.R, 6, 30), between(c.R, 2, 7))
		nd := normOf(d)
		c.Input(map[string]interface{}{"data": d.Brief(), "path": "coordinate descent"})
		var nodes []*fs.LassoLarsNode
		for _, nodeP := range fs.LassoCrdDescPath(nd, &fs.Empirical{}, fs.Logspace(1e-3, 0.6, 6), 300, 1e-6, &fs.PureLasso{}) {
			nodes = append(nodes, nodeP)
		}
		checkUnnormalized(c, d, nd, nodes)
		c.Seen(true, d.flat())
	})
}

func randomNodes(r *rand.Rand, p int, bias bool) []*fs.LassoLarsNode {
	var nodes []*fs.LassoLarsNode
	for k := 0; k < 1+r.Intn(5); k++ {
		m := genModel(r, p, []float64{0.2, 0.6, 1}[r.Intn(3)])
		if bias {
			m[0] = false
		}
		s := selOf(m)
		co := make([]float64, len(s))
		for j := range co {
			co[j] = r.NormFloat64() * math.Pow(10, 4*r.Float64()-2)
		}
		nodes = append(nodes, fs.NewLassoLarsNode(co, math.Exp(-float64(k)), s))
	}
	if r.Intn(3) == 0 { // lists cut from one array
		var sel []int
		var co []float64
		for _, n := range nodes {
			sel, co = append(sel, n.Selection...), append(co, n.Coeff...)
		}
		sel, co = append(sel, -7), append(co, -7)
		at := 0
		for _, n := range nodes {
			k := len(n.Selection)
			n.Selection, n.Coeff = sel[at:at+k], co[at:at+k]
			at += k
		}
	}
	return nodes
}

// checkUnnormalized maps a path of normalised coefficients back and compares
// the predictions on the original data.
func checkUnnormalized(c *Ctx, d *Data, nd *fs.NormalizedData, nodes []*fs.LassoLarsNode) {
	xn, _, bias := normalizedCopy(d)
	my, sy := rmean(d.Y), rstd(d.Y)
	off := make([]float64, d.P)
	for j, col := range transposed(d.X) {
		off[j] = math.Abs(rmean(col) / rstd(col))
	}
	type rec struct {
		sel []int
		co  []float64
		l   float64
		add float64
	}
	var before []rec
	for _, nn := range nodes {
		r := rec{append([]int{}, nn.Selection...), append([]float64{}, nn.Coeff...), nn.Lamb, 0}
		r.add = nd.LinearTransformationBias(r.sel, r.co)
		before = append(before, r)
	}
	fs.Path2Unnormalized(nd, nodes)
	if len(nodes) != len(before) {
		c.Failf("mapping changed the number of nodes")
	}
	one := 0.0 // value of the intercept column
	if bias {
		one = d.X[0][0]
	}
	for k, nn := range nodes {
		r := before[k]
		want := append([]int{}, r.sel...)
		if bias {
			want = append([]int{0}, r.sel...)
		}
		if !intsEqual(nn.Selection, want) || len(nn.Coeff) != len(want) {
			c.Failf("node with selection %v becomes selection %v with %d coefficients", r.sel, nn.Selection, len(nn.Coeff))
		}
		if nn.Lamb != r.l {
			c.Failf("the strength of a node changed from %v to %v", r.l, nn.Lamb)
		}
		for a := 0; a < d.N; a++ {
			pn := 0.0
			mag := math.Abs(my)
			for q, j := range r.sel {
				pn += xn[a][j] * r.co[q]
				mag += sy * math.Abs(r.co[q]) * (math.Abs(xn[a][j]) + off[j])
			}
			truth := my + sy*pn
			got := 0.0
			if bias {
				// the coefficient at index 0 is the intercept
				got = nn.Coeff[0]
				for q := range r.sel {
					got += nn.Coeff[q+1] * d.X[a][r.sel[q]]
				}
				if one == 1 {
					full := 0.0
					for q, j := range nn.Selection {
						full += nn.Coeff[q] * d.X[a][j]
					}
					if math.Abs(full-truth) > 1e-9*(1+mag) {
						c.Failf("evaluating the mapped node %v on row %d of the original data gives %v, the de-normalised prediction is %v", nn, a, full, truth)
					}
				}
			} else {
				got = r.add
				for q := range r.sel {
					got += nn.Coeff[q] * d.X[a][r.sel[q]]
				}
			}
			if math.Abs(got-truth) > 1e-9*(1+mag) {
				c.Failf("node %v: prediction for row %d is %v, the de-normalised prediction is %v (intercept %v)", nn, a, got, truth, r.add)
			}
		}
		c.Count("nodes_mapped_back", 1)
	}
}

func randOrtho(r *rand.Rand, n, k int) [][]float64 { // n x k with orthonormal columns, k <= n
	var q [][]float64
	for len(q) < k {
		v := gaussMat(r, 1, n)[0]
		for pass := 0; pass < 3; pass++ {
			for _, u := range q {
				t := dot(u, v)
				for i := range v {
					v[i] -= t * u[i]
				}
			}
		}
		s := norm(v)
		if s < 1e-3 {
			continue
		}
		for i := range v {
			v[i] /= s
		}
		q = append(q, v)
	}
	return transposed(q)
}

func runC31(c *Ctx) {
	maxDiff := func(a, b [][]float64) float64 {
		m := 0.0
		for i := range a {
			for j := range a[i] {
				d := math.Abs(a[i][j] - b[i][j])
				if !(d <= m) {
					m = d
				}
			}
		}
		return m
	}
	c.Cases("inverse", c.N(60000, 900000), func(i int) {
		n, p := between(c.R, 1, 9), between(c.R, 1, 9)
		if i%60 == 0 {
			n, p = between(c.R, 10, 30), between(c.R, 5, 25)
		}
		n, p = c.grow(n, p, 150, 80, 1500)
		k := n
		if p < n {
			k = p
		}
		u, v := randOrtho(c.R, n, k), randOrtho(c.R, p, k)
		tol := []float64{1e-6, 1e-6, 1e-3, 1e-2, 1e-9}[c.R.Intn(5)]
		build := func(cut float64) (x [][]float64, s []float64, below float64) {
			s = make([]float64, k)
			small := make([]float64, k)
			for j := range s {
				s[j] = 50 * cut * math.Pow(10, 3*c.R.Float64())
				if cut < 1e-4 {
					s[j] = math.Pow(10, 3*c.R.Float64()-1.5)
				}
				if c.R.Intn(4) == 0 {
					s[j] = 0
					if c.R.Intn(2) == 0 { // not zero, but negligible
						small[j] = cut * math.Pow(10, -1.5-2*c.R.Float64())
						below = math.Max(below, small[j])
					}
				}
			}
			x = make([][]float64, n)
			for a := range x {
				x[a] = make([]float64, p)
				for b := range x[a] {
					for j := range s {
						x[a][b] += u[a][j] * (s[j] + small[j]) * v[b][j]
					}
				}
			}
			return
		}
		thin := func(x [][]float64) *mat.SVD {
			var svd mat.SVD
			kind := mat.SVDThin
			svd.Factorize(denseOf(x), kind)
			return &svd
		}
		// pseudo-inverse
		x, s, below := build(tol)
		c.Input(map[string]interface{}{"x": x, "singular": s, "tol": tol})
		A := rowsOf(fs.PseudoInverse(thin(x), tol))
		if len(A) != p || len(A[0]) != n {
			c.Failf("the pseudo-inverse of a %dx%d matrix is %dx%d", n, p, len(A), len(A[0]))
		}
		want := make([][]float64, p)
		lo, hi := math.Inf(1), 0.0
		rank := 0
		for a := range want {
			want[a] = make([]float64, n)
			for b := range want[a] {
				for j := range s {
					if s[j] > 0 {
						want[a][b] += v[a][j] / s[j] * u[b][j]
					}
				}
			}
		}
		for _, t := range s {
			if t > 0 {
				lo, hi = math.Min(lo, t), math.Max(hi, t)
				rank++
			}
		}
		if rank == 0 {
			lo, hi = 1, 1
		}
		e := 1e-11 * (hi / lo) * (hi / lo)
		if d := maxDiff(A, want); !(d <= e/lo) {
			c.Failf("the pseudo-inverse is off by %g: %v instead of %v", d, A, want)
		}
		xa, ax := matMul(x, A), matMul(A, x)
		if d := maxDiff(matMul(xa, x), x); !(d <= e*hi+float64(k)*below) {
			c.Failf("X A X differs from X by %g", d)
		}
		if d := maxDiff(matMul(ax, A), A); !(d <= e/lo) {
			c.Failf("A X A differs from A by %g", d)
		}
		if d := maxDiff(xa, transposed(xa)); !(d <= e) {
			c.Failf("X A is not symmetric: %g", d)
		}
		if d := maxDiff(ax, transposed(ax)); !(d <= e) {
			c.Failf("A X is not symmetric: %g", d)
		}
		c.Distinct("shapes", fmt.Sprint(n, p, rank))
		if rank < k {
			c.Count("rank_deficient", 1)
		}
		// pseudo-inverse of X'X: the tolerance applies to the squares
		x2, s2, _ := build(math.Sqrt(tol))
		c.Input(map[string]interface{}{"x": x2, "singular": s2, "tol": tol, "of": "X'X"})
		B := rowsOf(fs.PseudoInverseXTX(thin(x2), tol))
		w2 := make([][]float64, p)
		lo, hi = math.Inf(1), 0.0
		for a := range w2 {
			w2[a] = make([]float64, p)
			for b := range w2[a] {
				for j := range s2 {
					if s2[j] > 0 {
						w2[a][b] += v[a][j] / (s2[j] * s2[j]) * v[b][j]
					}
				}
			}
		}
		for _, t := range s2 {
			if t > 0 {
				lo, hi = math.Min(lo, t), math.Max(hi, t)
			}
		}
		if hi == 0 {
			lo, hi = 1, 1
		}
		if len(B) != p || len(B[0]) != p {
			c.Failf("the pseudo-inverse of X'X has the wrong shape %dx%d", len(B), len(B[0]))
		}
		if d := maxDiff(B, w2); !(d <= 1e-11*(hi/lo)*(hi/lo)/(lo*lo)) {
			c.Failf("the pseudo-inverse of X'X is off by %g: %v instead of %v", d, B, w2)
		}
		c.Seen(p > 1, x[0], x2[0], tol)
	})
	c.Cases("hat", c.N(30000, 400000), func(i int) {
		n, p := c.grow(between(c.R, 1, 14), between(c.R, 1, 7), 120, 70, 1200)
		d := genData(c.R, n, p, designKinds)
		if c.R.Intn(5) == 0 { // a row of its own weight
			r, w := c.R.Intn(n), math.Pow(10, 1+2*c.R.Float64())
			for j := range d.X[r] {
				d.X[r][j] *= w
			}
			d.Y[r] *= w * (0.5 + c.R.Float64())
			d.Kind += "/heavy row"
		}
		c.Input(d.Brief())
		_, s, _ := jacobiSVD(d.X)
		lo, hi, rank := math.Inf(1), 0.0, 0
		for _, t := range s {
			if t > 1e-9 {
				lo, hi = math.Min(lo, t), math.Max(hi, t)
				rank++
			}
		}
		if rank == 0 || lo < 1e-2 || hi/lo > 1e4 {
			c.Seen(false)
			return
		}
		kind := matKinds[c.R.Intn(len(matKinds))]
		H := rowsOf(fs.DenumMatrixGcv(matAs(kind, d.X)))
		if len(H) != n || len(H[0]) != n {
			c.Failf("the hat matrix of %d rows is %dx%d", n, len(H), len(H[0]))
		}
		e := 1e-10 * (hi / lo) * (hi / lo)
		if df := maxDiff(matMul(H, H), H); !(df <= e) {
			c.Failf("the hat matrix is not idempotent: %g", df)
		}
		if df := maxDiff(H, transposed(H)); !(df <= e) {
			c.Failf("the hat matrix is not symmetric: %g", df)
		}
		if df := maxDiff(matMul(H, d.X), d.X); !(df <= e*hi) {
			c.Failf("the hat matrix does not reproduce the columns: %g", df)
		}
		tr := 0.0
		for a := range H {
			tr += H[a][a]
		}
		if math.Abs(tr-float64(rank)) > e*float64(n) {
			c.Failf("the trace of the hat matrix is %v, the rank %d", tr, rank)
		}
		c.Count("hat_matrices", 1)
		// leave-one-out
		if n > p+1 && rank == p {
			co := fs.Fit(d.Dense(), d.Ycopy())
			pred := fs.Predict(d.Dense(), co)
			loo, ok, rel := 0.0, true, 0.0
			for a := 0; a < n; a++ {
				rel = math.Max(rel, 1e-12*(hi/lo)*(hi/lo)/(1-H[a][a]))
				if !(rel < 1e-4) || H[a][a] >= 1 {
					ok = false
					break
				}
				xr := append(append([][]float64{}, d.X[:a]...), d.X[a+1:]...)
				yr := append(append([]float64{}, d.Y[:a]...), d.Y[a+1:]...)
				b, _, small, _ := lstsq(xr, yr)
				if small < 1e-3 {
					ok = false
					break
				}
				t := d.Y[a] - dot(d.X[a], b)
				loo += t * t
			}
			if ok {
				loo = math.Sqrt(loo / float64(n))
				g := fs.Gcv(fs.DenumMatrixGcv(d.Dense()), d.Ycopy(), pred)
				if !(math.Abs(g-loo) <= 1e-7*(hi/lo)*(norm(d.Y)/math.Sqrt(float64(n))+loo)+rel*loo) {
					c.Failf("the cross validation score is %.12g, the leave-one-out error is %.12g", g, loo)
				}
				c.Count("leave_one_out_scores", 1)
				if rel > 1e-7 {
					c.Count("leave_one_out_scores_with_high_leverage", 1)
				}
			}
		}
		c.Seen(p > 1, d.flat(), kind)
	})
	// so many rows that only the score is compared
	c.Cases("tall", c.N(4, 30), func(i int) {
		n, p := between(c.R, 500, 1500), between(c.R, 1, 4)
		d := genData(c.R, n, p, []string{"gauss"})
		c.Input(d.Brief())
		_, s, _ := jacobiSVD(d.X)
		lo, hi := math.Inf(1), 0.0
		for _, t := range s {
			lo, hi = math.Min(lo, t), math.Max(hi, t)
		}
		if lo < 1 || hi/lo > 10 {
			c.Seen(false)
			return
		}
		pi, _ := pinv(d.X, 1e-9)
		v := matMul(pi, transposed(pi))
		co := fs.Fit(d.Dense(), d.Ycopy())
		pred := fs.Predict(d.Dense(), co)
		H := fs.DenumMatrixGcv(d.Dense())
		want := 0.0
		for a := 0; a < n; a++ {
			h := dot(d.X[a], matVec(v, d.X[a]))
			if !(math.Abs(H.At(a, a)-h) <= 1e-9) {
				c.Failf("the hat matrix has %v at (%d,%d), expected %v", H.At(a, a), a, a, h)
			}
			t := (d.Y[a] - pred[a]) / (1 - h)
			want += t * t
		}
		want = math.Sqrt(want / float64(n))
		if g := fs.Gcv(H, d.Ycopy(), pred); !close2(g, want, 1e-8) {
			c.Failf("the cross validation score of %d rows is %.12g, expected %.12g", n, g, want)
		}
		c.Max("rows", int64(n))
		c.Seen(true, d.flat())
	})
}
