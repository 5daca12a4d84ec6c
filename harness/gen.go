package main

import (
	"fmt"
	"math"
	"math/rand"
	"sync"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

// Data is a generated regression problem.
type Data struct {
	N, P int
	X    [][]float64 // rows
	Y    []float64
	Kind string
}

func (d *Data) Dense() *mat.Dense {
	m := newDense(d.N, d.P)
	for i := range d.X {
		m.SetRow(i, d.X[i])
	}
	return m
}

func (d *Data) Ycopy() []float64 { return newVec(d.Y) }

// recycle lets a case be run twice on the same objects: the first run works on
// other values (the rows of the designs are reversed and every other column has
// the opposite sign), the second one gets the matrices, vectors and datasets of
// the first one with their contents overwritten. Results
// that were remembered for an object rather than for its values are wrong then.
var recycle struct {
	sync.Mutex
	reversed, collect, serve bool
	ms                       []*mat.Dense
	vs                       [][]float64
	ds                       []*fs.Dataset
	ns                       []*fs.NormalizedData
	watch                    func(v []float64) // is told every array that is handed out
}

func newDense(n, p int) *mat.Dense {
	recycle.Lock()
	defer recycle.Unlock()
	if recycle.serve && len(recycle.ms) > 0 {
		m := recycle.ms[0]
		recycle.ms = recycle.ms[1:]
		if a, b := m.Dims(); a == n && b == p {
			m.Zero()
		} else {
			*m = *mat.NewDense(n, p, nil)
		}
		return m
	}
	m := mat.NewDense(n, p, nil)
	if recycle.watch != nil {
		recycle.watch(m.RawMatrix().Data)
	}
	if recycle.collect && len(recycle.ms) < 1000 {
		recycle.ms = append(recycle.ms, m)
	}
	return m
}

func newVec(v []float64) []float64 {
	recycle.Lock()
	defer recycle.Unlock()
	if recycle.serve && len(recycle.vs) > 0 {
		o := recycle.vs[0]
		recycle.vs = recycle.vs[1:]
		if len(o) == len(v) {
			copy(o, v)
			return o
		}
	}
	o := append([]float64{}, v...)
	if recycle.watch != nil {
		recycle.watch(o)
	}
	if recycle.collect && len(recycle.vs) < 1000 {
		recycle.vs = append(recycle.vs, o)
	}
	return o
}

func stopRecycling() {
	recycle.serve, recycle.ms, recycle.vs, recycle.ds, recycle.ns = false, nil, nil, nil, nil
}

func newDataset(v fs.Dataset) *fs.Dataset {
	recycle.Lock()
	defer recycle.Unlock()
	if recycle.serve && len(recycle.ds) > 0 {
		o := recycle.ds[0]
		recycle.ds = recycle.ds[1:]
		o.X, o.Y, o.Names, o.TargetCol = v.X, v.Y, v.Names, v.TargetCol
		return o
	}
	o := &v
	if recycle.collect && len(recycle.ds) < 1000 {
		recycle.ds = append(recycle.ds, o)
	}
	return o
}

func newNormalized(v *fs.NormalizedData) *fs.NormalizedData {
	recycle.Lock()
	defer recycle.Unlock()
	if recycle.serve && len(recycle.ns) > 0 {
		o := recycle.ns[0]
		recycle.ns = recycle.ns[1:]
		*o = *v
		return o
	}
	if recycle.collect && len(recycle.ns) < 1000 {
		recycle.ns = append(recycle.ns, v)
	}
	return v
}

func reverseRows(m [][]float64) [][]float64 {
	if recycle.reversed {
		for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
			m[i], m[j] = m[j], m[i]
		}
		for i := range m {
			for j := 1; j < len(m[i]); j += 2 {
				m[i][j] = -m[i][j]
			}
		}
	}
	return m
}

// Cols returns the columns listed in sel as a row-major matrix.
func (d *Data) Cols(sel []int) [][]float64 {
	r := make([][]float64, d.N)
	for i := range r {
		r[i] = make([]float64, len(sel))
		for k, j := range sel {
			r[i][k] = d.X[i][j]
		}
	}
	return r
}

func (d *Data) flat() []float64 {
	var f []float64
	for _, r := range d.X {
		f = append(f, r...)
	}
	return append(f, d.Y...)
}

// brief is the form in which a dataset is stored with a violation.
type brief struct {
	N, P int
	Kind string
	X    [][]float64 `json:",omitempty"`
	Y    []float64   `json:",omitempty"`
}

func (d *Data) Brief() brief {
	b := brief{N: d.N, P: d.P, Kind: d.Kind}
	if d.N*d.P <= 2000 {
		b.X, b.Y = d.X, d.Y
	}
	return b
}

func gaussMat(r *rand.Rand, n, p int) [][]float64 { return reverseRows(gaussRows(r, n, p)) }

func gaussRows(r *rand.Rand, n, p int) [][]float64 {
	m := make([][]float64, n)
	for i := range m {
		m[i] = make([]float64, p)
		for j := range m[i] {
			m[i][j] = r.NormFloat64()
		}
	}
	return m
}

// designKinds are the shapes of design matrices; all of them have singular
// values (of any column subset) that are either zero or well above the absolute
// cut-off of Fit.
var designKinds = []string{"gauss", "ar", "intercept", "binary", "integer", "scaled", "duplicate", "dependent", "factor", "shifted"}

// safeKinds never produce linearly dependent columns (apart from p > n).
var safeKinds = []string{"gauss", "ar", "intercept", "integer", "scaled", "factor", "shifted"}

func genX(r *rand.Rand, kind string, n, p int) [][]float64 {
	x := gaussRows(r, n, p)
	defer func() { reverseRows(x) }()
	switch kind {
	case "ar":
		rho := []float64{0.3, 0.6, 0.9}[r.Intn(3)]
		for i := range x {
			for j := 1; j < p; j++ {
				x[i][j] = rho*x[i][j-1] + math.Sqrt(1-rho*rho)*x[i][j]
			}
		}
	case "intercept":
		for i := range x {
			x[i][0] = 1
		}
	case "binary":
		for i := range x {
			for j := range x[i] {
				x[i][j] = float64(r.Intn(2))
			}
		}
	case "integer":
		for i := range x {
			for j := range x[i] {
				x[i][j] = math.Round(3 * x[i][j])
			}
		}
	case "scaled":
		for j := 0; j < p; j++ {
			s := math.Pow(10, 4*r.Float64()-2)
			for i := range x {
				x[i][j] *= s
			}
		}
	case "duplicate":
		if p > 1 {
			for k := 0; k < 1+r.Intn(2); k++ {
				a, b := r.Intn(p), r.Intn(p)
				for i := range x {
					x[i][a] = x[i][b]
				}
			}
		}
	case "dependent":
		if p > 2 {
			perm := r.Perm(p)
			for i := range x {
				x[i][perm[0]] = x[i][perm[1]] - x[i][perm[2]]
			}
		}
	case "factor":
		for i := range x {
			f := r.NormFloat64()
			for j := range x[i] {
				x[i][j] = 0.6*f + 0.8*x[i][j]
			}
		}
	case "shifted":
		for j := 0; j < p; j++ {
			s := 5 * r.NormFloat64()
			for i := range x {
				x[i][j] += s
			}
		}
	}
	return x
}

// targetKinds are the relations between target and design.
var targetKinds = []string{"sparse", "dense", "noise", "exact", "last", "weak", "first", "large"}

func genY(r *rand.Rand, kind string, x [][]float64) []float64 {
	n, p := len(x), len(x[0])
	y := make([]float64, n)
	coef := make([]float64, p)
	noise := 0.3
	switch kind {
	case "sparse", "exact":
		k := 1 + r.Intn(3)
		for i := 0; i < k; i++ {
			coef[r.Intn(p)] = 1 + 2*r.NormFloat64()
		}
		if kind == "exact" {
			noise = 0
		}
	case "dense":
		for j := range coef {
			coef[j] = r.NormFloat64()
		}
	case "noise":
		noise = 1
	case "last":
		coef[p-1] = 2
		if p > 1 {
			coef[p-2] = -1.5
		}
	case "first":
		coef[0] = -2
		coef[p/2] = 1
	case "weak":
		for j := range coef {
			coef[j] = 0.15 * r.NormFloat64()
		}
	case "large":
		coef[r.Intn(p)] = 300
		coef[r.Intn(p)] = -0.5
	}
	for i := range y {
		for j := range coef {
			y[i] += coef[j] * x[i][j]
		}
		y[i] += noise * r.NormFloat64()
	}
	return y
}

func genData(r *rand.Rand, n, p int, kinds []string) *Data {
	kind := kinds[r.Intn(len(kinds))]
	tk := targetKinds[r.Intn(len(targetKinds))]
	d := &Data{N: n, P: p, Kind: kind + "/" + tk}
	d.X = genX(r, kind, n, p)
	d.Y = genY(r, tk, d.X)
	return d
}

// genModel draws a random model; mode 0..: nil-like variety
func genModel(r *rand.Rand, p int, density float64) []bool {
	m := make([]bool, p)
	for i := range m {
		m[i] = r.Float64() < density
	}
	return m
}

func selOf(m []bool) []int {
	s := []int{}
	for i, v := range m {
		if v {
			s = append(s, i)
		}
	}
	return s
}

func modelOf(sel []int, p int) []bool {
	m := make([]bool, p)
	for _, j := range sel {
		m[j] = true
	}
	return m
}

func maskModel(mask, p int) []bool {
	m := make([]bool, p)
	for j := range m {
		m[j] = mask>>uint(j)&1 == 1
	}
	return m
}

func pick(r *rand.Rand, v ...int) int { return v[r.Intn(len(v))] }

func between(r *rand.Rand, lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func desc(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }

// grow makes one in so many cases large: more rows, more columns or both, so
// that nothing depends on the sizes staying within a machine word or a block.
func (c *Ctx) grow(n, p, maxN, maxP, oneIn int) (int, int) {
	if c.R.Intn(oneIn) == 0 {
		k := c.R.Intn(3)
		if k != 1 && maxN > n {
			n += c.R.Intn(maxN - n + 1)
		}
		if k != 0 && maxP > p {
			p += c.R.Intn(maxP - p + 1)
		}
		c.Count("large_cases", 1)
	}
	c.Max("rows", int64(n))
	c.Max("columns", int64(p))
	return n, p
}
