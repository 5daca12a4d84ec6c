package main

import (
	"math"
	"sort"
)

// Reference computations, written independently of the library.

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

func norm(a []float64) float64 { return math.Sqrt(dot(a, a)) }

func maxAbs(a []float64) float64 {
	m := 0.0
	for _, v := range a {
		if math.Abs(v) > m {
			m = math.Abs(v)
		}
	}
	return m
}

func maxAbsM(x [][]float64) float64 {
	m := 0.0
	for _, r := range x {
		if v := maxAbs(r); v > m {
			m = v
		}
	}
	return m
}

func matVec(x [][]float64, b []float64) []float64 {
	r := make([]float64, len(x))
	for i := range x {
		r[i] = dot(x[i], b)
	}
	return r
}

// tmatVec returns X^T v.
func tmatVec(x [][]float64, v []float64) []float64 {
	if len(x) == 0 {
		return nil
	}
	r := make([]float64, len(x[0]))
	for i := range x {
		for j := range r {
			r[j] += x[i][j] * v[i]
		}
	}
	return r
}

func transposed(x [][]float64) [][]float64 {
	if len(x) == 0 {
		return nil
	}
	r := make([][]float64, len(x[0]))
	for j := range r {
		r[j] = make([]float64, len(x))
		for i := range x {
			r[j][i] = x[i][j]
		}
	}
	return r
}

func matMul(a, b [][]float64) [][]float64 {
	bt := transposed(b)
	r := make([][]float64, len(a))
	for i := range a {
		r[i] = make([]float64, len(bt))
		for j := range bt {
			r[i][j] = dot(a[i], bt[j])
		}
	}
	return r
}

// projRSS returns the residual of y after projection on the columns of x
// (Gram-Schmidt with reorthogonalisation; dependent columns are skipped).
func projRSS(cols [][]float64, y []float64) float64 {
	res := append([]float64{}, y...)
	var q [][]float64
	for _, c := range cols {
		v := append([]float64{}, c...)
		n0 := norm(v)
		for pass := 0; pass < 3; pass++ {
			for _, u := range q {
				t := dot(u, v)
				for i := range v {
					v[i] -= t * u[i]
				}
			}
		}
		n1 := norm(v)
		if n1 <= 1e-9*n0 || n1 == 0 {
			continue
		}
		for i := range v {
			v[i] /= n1
		}
		q = append(q, v)
		for pass := 0; pass < 2; pass++ {
			t := dot(v, res)
			for i := range res {
				res[i] -= t * v[i]
			}
		}
	}
	return dot(res, res)
}

// jacobiSVD computes the thin SVD of x (rows) by one-sided Jacobi rotations:
// x = U diag(s) V^T with s descending.
func jacobiSVD(x [][]float64) (u [][]float64, s []float64, v [][]float64) {
	n := len(x)
	p := len(x[0])
	if p > n {
		v, s, u = jacobiSVD(transposed(x))
		return u, s, v
	}
	a := transposed(x) // a[j] = column j
	vt := make([][]float64, p)
	for j := range vt {
		vt[j] = make([]float64, p)
		vt[j][j] = 1
	}
	for sweep := 0; sweep < 80; sweep++ {
		rot := false
		for i := 0; i < p; i++ {
			for j := i + 1; j < p; j++ {
				al, be, ga := dot(a[i], a[i]), dot(a[j], a[j]), dot(a[i], a[j])
				if math.Abs(ga) <= 1e-16*math.Sqrt(al*be) || ga == 0 {
					continue
				}
				rot = true
				ze := (be - al) / (2 * ga)
				t := 1 / (math.Abs(ze) + math.Sqrt(1+ze*ze))
				if ze < 0 {
					t = -t
				}
				c := 1 / math.Sqrt(1+t*t)
				sn := c * t
				for k := 0; k < n; k++ {
					x1, x2 := a[i][k], a[j][k]
					a[i][k], a[j][k] = c*x1-sn*x2, sn*x1+c*x2
				}
				for k := 0; k < p; k++ {
					x1, x2 := vt[i][k], vt[j][k]
					vt[i][k], vt[j][k] = c*x1-sn*x2, sn*x1+c*x2
				}
			}
		}
		if !rot {
			break
		}
	}
	type col struct {
		s float64
		j int
	}
	cs := make([]col, p)
	for j := range cs {
		cs[j] = col{norm(a[j]), j}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].s > cs[j].s })
	ut := make([][]float64, p)
	vs := make([][]float64, p)
	s = make([]float64, p)
	for k, c := range cs {
		s[k] = c.s
		ut[k] = make([]float64, n)
		if c.s > 0 {
			for i := range ut[k] {
				ut[k][i] = a[c.j][i] / c.s
			}
		}
		vs[k] = vt[c.j]
	}
	return transposed(ut), s, transposed(vs)
}

// pinv returns the pseudo-inverse with singular values at or below cut dropped,
// and the singular values.
func pinv(x [][]float64, cut float64) ([][]float64, []float64) {
	u, s, v := jacobiSVD(x)
	n, p := len(x), len(x[0])
	r := make([][]float64, p)
	for i := range r {
		r[i] = make([]float64, n)
		for j := range r[i] {
			for k := range s {
				if s[k] > cut {
					r[i][j] += v[i][k] * u[j][k] / s[k]
				}
			}
		}
	}
	return r, s
}

// lstsq returns the minimum-norm least-squares coefficients, the residual sum of
// squares and the smallest singular value above / largest below the cut-off.
func lstsq(x [][]float64, y []float64) (b []float64, rss, smallest, dropped float64) {
	p, s := pinv(x, 1e-6)
	b = matVec(p, y)
	smallest = math.Inf(1)
	for _, v := range s {
		if v > 1e-6 && v < smallest {
			smallest = v
		}
		if v <= 1e-6 && v > dropped {
			dropped = v
		}
	}
	pr := matVec(x, b)
	for i := range y {
		rss += (y[i] - pr[i]) * (y[i] - pr[i])
	}
	return b, rss, smallest, dropped
}

const rssFloor = 1e-12

func refAIC(k, n int, rss float64) float64 {
	return 2*float64(k) + float64(n)*math.Log(math.Max(rss, rssFloor))
}

func refAICc(k, n int, rss float64) float64 {
	den := float64(n - k - 1)
	if k >= n-1 {
		den = 1
	}
	return refAIC(k, n, rss) + 2*float64(k)*float64(k+1)/den
}

func refBIC(k, n int, rss float64) float64 {
	return float64(k)*math.Log(float64(n)) + float64(n)*math.Log(math.Max(rss, rssFloor))
}

// nearFloor tells that a residual is neither clearly above the floor nor
// clearly an exact fit, so that round-off decides the score.
func nearFloor(rss, yy float64) bool {
	return rss > rssFloor/100 && rss < 1e-8*(1+yy)
}

// allAICc returns the AICc of every non-empty model with fewer than n features
// (indexed by bit mask, NaN elsewhere). ok is false if any residual is in the
// range where round-off decides.
func allAICc(d *Data) (v []float64, ok bool) {
	cols := transposed(d.X)
	yy := dot(d.Y, d.Y)
	v = make([]float64, 1<<uint(d.P))
	ok = true
	// depth-first over columns, carrying an orthonormal basis and the residual
	type frame struct {
		q   [][]float64
		res []float64
	}
	var rec func(j, mask, k int, f frame)
	rec = func(j, mask, k int, f frame) {
		if j == d.P {
			if k == 0 || k >= d.N {
				v[mask] = math.NaN()
				return
			}
			rss := dot(f.res, f.res)
			if rss < 1e-20*(1+yy) {
				rss = 0
			}
			if nearFloor(rss, yy) {
				ok = false
			}
			v[mask] = refAICc(k, d.N, rss)
			return
		}
		rec(j+1, mask, k, f)
		w := append([]float64{}, cols[j]...)
		n0 := norm(w)
		for pass := 0; pass < 3; pass++ {
			for _, u := range f.q {
				t := dot(u, w)
				for i := range w {
					w[i] -= t * u[i]
				}
			}
		}
		n1 := norm(w)
		g := f
		if n1 > 1e-9*n0 && n1 > 0 {
			for i := range w {
				w[i] /= n1
			}
			res := append([]float64{}, f.res...)
			for pass := 0; pass < 2; pass++ {
				t := dot(w, res)
				for i := range res {
					res[i] -= t * w[i]
				}
			}
			q := make([][]float64, len(f.q), len(f.q)+1)
			copy(q, f.q)
			g = frame{append(q, w), res}
		}
		rec(j+1, mask|1<<uint(j), k+1, g)
	}
	rec(0, 0, 0, frame{nil, append([]float64{}, d.Y...)})
	return v, ok
}

func minOf(v []float64) (m float64, arg int) {
	m, arg = math.Inf(1), -1
	for i, x := range v {
		if !math.IsNaN(x) && x < m {
			m, arg = x, i
		}
	}
	return
}

func close2(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func closeVec(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	sc := 1 + math.Max(maxAbs(a), maxAbs(b))
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= tol*sc) {
			return false
		}
	}
	return true
}

func bitEqual(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func intsEqual(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func rmean(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s / float64(len(v))
}

func rstd(v []float64) float64 {
	m := rmean(v)
	s := 0.0
	for _, x := range v {
		s += (x - m) * (x - m)
	}
	return math.Sqrt(s / float64(len(v)-1))
}

// normalizedCopy returns the columns and the target of d with zero mean and unit
// sample deviation (a constant first column becomes zero).
func normalizedCopy(d *Data) (x [][]float64, y []float64, hasBias bool) {
	cols := transposed(d.X)
	for j, c := range cols {
		m, s := rmean(c), rstd(c)
		if s < 1e-10 {
			s = 1
			if j == 0 {
				hasBias = true
			}
		}
		for i := range c {
			c[i] = (c[i] - m) / s
		}
	}
	x = transposed(cols)
	y = append([]float64{}, d.Y...)
	m, s := rmean(y), rstd(y)
	for i := range y {
		y[i] = (y[i] - m) / s
	}
	return
}

// condOf is the ratio of the extreme singular values (columns in sel).
func condOf(x [][]float64) float64 {
	_, s, _ := jacobiSVD(x)
	if len(s) == 0 || s[len(s)-1] == 0 {
		return math.Inf(1)
	}
	return s[0] / s[len(s)-1]
}
