package main

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C16", &check{run: runC16, rule: "coordinate descent on random normalised data (with, without and with varying first column; 4-40 rows, 1-10 columns) for strengths from 0 to above the largest correlation, four covariance estimates (one scripted positive definite), pure lasso and ridge correction, five kinds of start vector, tolerances 1e-4..1e-13: optimality conditions recomputed from own normalisation; non-trivial = at least one non-zero coefficient"})
	register("C17", &check{run: runC17, rule: "paths with 1-40 strengths over shared covariances and corrections on 1-8 processors compared node by node with single solves using fresh corrections; non-trivial = at least two nodes"})
	register("C18", &check{run: runC18, rule: "LARS paths on random well-conditioned data (with and without intercept, wide): strengths, optimality of every node and of the midpoints between consecutive nodes and towards an own solution at the requested minimum, comparison with own and library coordinate descent; non-trivial = at least three nodes"})
	register("C19", &check{run: runC19, rule: "random and computed paths with their datasets: criteria, traces, relevance lists, extreme features recomputed; non-trivial = at least two nodes"})
	register("C20", &check{run: runC20, rule: "nested lasso on random datasets with every target position and keep fraction: survivors replayed round by round from the observed paths, every node checked against the lasso optimality conditions of the surviving columns in original units; non-trivial = at least two paths"})
}

// gram returns X'X/n and X'y/n.
func gram(x [][]float64, y []float64) (g [][]float64, xy []float64) {
	n := float64(len(x))
	cols := transposed(x)
	p := len(cols)
	g = make([][]float64, p)
	xy = make([]float64, p)
	for i := range g {
		g[i] = make([]float64, p)
		for j := range g[i] {
			g[i][j] = dot(cols[i], cols[j]) / n
		}
		xy[i] = dot(cols[i], y) / n
	}
	return
}

// refLasso minimises b'Gb/2 - xy'b + lamb*|b| over the columns with a positive
// diagonal by coordinate descent.
func refLasso(g [][]float64, xy []float64, lamb float64) []float64 {
	p := len(xy)
	b := make([]float64, p)
	for it := 0; it < 200000; it++ {
		ch := 0.0
		for j := 0; j < p; j++ {
			if g[j][j] < 1e-12 {
				continue
			}
			t := xy[j] - dot(g[j], b) + g[j][j]*b[j]
			v := 0.0
			if t > lamb {
				v = (t - lamb) / g[j][j]
			} else if t < -lamb {
				v = (t + lamb) / g[j][j]
			}
			ch = math.Max(ch, math.Abs(v-b[j]))
			b[j] = v
		}
		if ch <= 1e-15*(1+maxAbs(b)) {
			break
		}
	}
	return b
}

// kktGap returns the largest violation of the optimality conditions of
// b'Gb/2 + ridge*b'b/2 - xy'b + lamb*|b|. Coefficients at most zero count as zero.
func kktGap(g [][]float64, xy, b []float64, lamb, ridge, zero float64, skip func(j int) bool) (worst float64, at int) {
	at = -1
	for j := range b {
		if skip != nil && skip(j) {
			continue
		}
		gr := xy[j] - dot(g[j], b) - ridge*b[j]
		v := 0.0
		if math.Abs(b[j]) > zero {
			v = math.Abs(gr - lamb*math.Copysign(1, b[j]))
		} else {
			v = math.Max(0, math.Abs(gr)-lamb)
		}
		if !(v <= worst) {
			worst, at = v, j
		}
	}
	return
}

// scriptedCov is an arbitrary positive definite estimate.
type scriptedCov struct{ m *mat.SymDense }

func (s *scriptedCov) Get(x mat.Matrix) mat.Matrix { return s.m }

func scripted(r *rand.Rand, g [][]float64) (*scriptedCov, [][]float64) {
	p := len(g)
	sc := make([]float64, p)
	for i := range sc {
		sc[i] = math.Sqrt(math.Pow(10, r.Float64()-0.5))
	}
	a := 0.1 + 0.8*r.Float64()
	m := mat.NewSymDense(p, nil)
	for i := 0; i < p; i++ {
		for j := i; j < p; j++ {
			v := (1 - a) * g[i][j]
			if i == j {
				v += a
			}
			m.SetSym(i, j, v*sc[i]*sc[j])
		}
	}
	return &scriptedCov{m}, rowsOf(m)
}

func extremeEig(g [][]float64) (lo, hi float64) {
	_, s, _ := jacobiSVD(g) // symmetric positive semi-definite: singular values = eigenvalues
	return s[len(s)-1], s[0]
}

// active removes the intercept column from a Gram matrix for spectral purposes.
func withoutFirst(g [][]float64) [][]float64 {
	var r [][]float64
	for _, row := range g[1:] {
		r = append(r, row[1:])
	}
	return r
}

func runC16(c *Ctx) {
	c.Cases("kkt", c.N(60000, 800000), func(i int) {
		p := between(c.R, 1, 10)
		n := pick(c.R, 4, 6, p+2, p+5, 2*p+4, 25, 40)
		if n, p = c.grow(n, p, 250, 75, 3000); p > 10 {
			n = p + between(c.R, 8, 150)
		}
		d := lassoData(c.R, n, p)
		x, y, bias := normalizedCopy(d)
		g, xy := gram(x, y)
		nd := normOf(d)
		covKind := []string{"empirical", "empirical", "empirical", "identity", "scripted", "scripted"}[c.R.Intn(6)]
		if i%600 == 0 && n >= 6 {
			covKind = "threshold"
		}
		var cov fs.CovMat
		G := g
		switch covKind {
		case "empirical":
			cov = &fs.Empirical{}
		case "identity":
			cov = &fs.Identity{}
			G = make([][]float64, p)
			for a := range G {
				G[a] = make([]float64, p)
				G[a][a] = 1
			}
		case "scripted":
			cov, G = scripted(c.R, g)
		case "threshold":
			cov = fs.NewSparseThreshold(nd.X)
			G = rowsOf(cov.Get(nd.X))
		}
		spec := G
		if bias {
			if p == 1 {
				c.Seen(false)
				return
			}
			spec = withoutFirst(G)
		}
		lo, hi := extremeEig(spec)
		if covKind == "threshold" {
			// may have lost positive definiteness: check by Cholesky
			var ch mat.Cholesky
			s := mat.NewSymDense(len(spec), nil)
			for a := range spec {
				for b := a; b < len(spec); b++ {
					s.SetSym(a, b, spec[a][b])
				}
			}
			if !ch.Factorize(s) {
				c.Seen(false)
				return
			}
		}
		if lo < 1e-3*hi || lo < 1e-3 {
			c.Seen(false)
			return
		}
		minDiag := math.Inf(1)
		for a := range spec {
			minDiag = math.Min(minDiag, spec[a][a])
		}
		lmax := maxAbs(xy)
		lamb := lmax * math.Pow(10, -4*c.R.Float64())
		switch c.R.Intn(12) {
		case 0:
			lamb = lmax * (1 + c.R.Float64())
		case 1:
			lamb = 0
		case 2:
			lamb = lmax * 0.999999
		}
		ridge := 0.0
		var corr fs.LassoCorrection = &fs.PureLasso{}
		if c.R.Intn(3) == 0 {
			ridge = 0.7 * minDiag * c.R.Float64()
			corr = &fs.ElasticNet{Lamb: ridge}
		}
		tol := []float64{1e-4, 1e-6, 1e-9, 1e-11, 1e-13}[c.R.Intn(5)]
		start := []string{"nil", "zero", "random", "huge", "partial"}[c.R.Intn(5)]
		var x0 []float64
		if start != "nil" {
			x0 = make([]float64, p)
			for j := range x0 {
				switch start {
				case "random":
					x0[j] = c.R.NormFloat64()
				case "huge":
					x0[j] = 1e3 * c.R.NormFloat64()
				case "partial":
					x0[j] = c.R.NormFloat64() * float64(c.R.Intn(2))
				}
			}
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "lambda": lamb, "cov": covKind, "ridge": ridge, "tol": tol, "start": x0})
		b := fs.LassoCrdDesc(nd, lamb, cov, x0, 200000, tol, corr)
		if len(b) != p {
			c.Failf("%d coefficients for %d columns", len(b), p)
		}
		skip := func(j int) bool { return bias && j == 0 }
		if bias && b[0] != 0 {
			c.Failf("the intercept column has the coefficient %v", b[0])
		}
		row := 0.0
		for a := range G {
			s := ridge
			for _, v := range G[a] {
				s += math.Abs(v)
			}
			row = math.Max(row, s)
		}
		lim := 3*tol*maxAbs(b)*row + 1e-8*(1+lamb)
		if start == "huge" {
			lim += 1e-8
		}
		gap, at := kktGap(G, xy, b, lamb, ridge, 1e-16, skip)
		if !(gap <= lim) {
			c.Failf("the optimality condition of column %d is violated by %g (allowed %g) for coefficients %v", at, gap, lim, b)
		}
		nz := 0
		for _, v := range b {
			if v != 0 {
				nz++
			}
		}
		c.Count("cov_"+covKind, 1)
		if bias {
			c.Count("with_intercept", 1)
		}
		if ridge > 0 {
			c.Count("with_ridge", 1)
		}
		c.Distinct("supports", fmt.Sprint(p, nz))
		c.Max("nonzero", int64(nz))
		c.Seen(nz > 0, d.flat(), lamb, covKind, ridge, start)
	})
	c.Cases("slow", c.N(400, 4000), func(i int) { runSlowDescent(c) })
}

// runSlowDescent solves problems that take many thousand passes.
func runSlowDescent(c *Ctx) {
	n, p := between(c.R, 10, 40), between(c.R, 2, 4)
	d := &Data{N: n, P: p, Kind: "gauss/slow"}
	d.X = genX(c.R, "gauss", n, p)
	apart := math.Pow(10, -1.6-0.7*c.R.Float64())
	for r := range d.X {
		d.X[r][p-1] = d.X[r][0] + apart*d.X[r][p-1]
	}
	b := make([]float64, p)
	for j := range b {
		b[j] = c.R.NormFloat64()
	}
	b[0], b[p-1] = 3+c.R.Float64(), -2-c.R.Float64()
	d.Y = matVec(d.X, b)
	for r := range d.Y {
		d.Y[r] += 0.01 * c.R.NormFloat64()
	}
	x, y, _ := normalizedCopy(d)
	g, xy := gram(x, y)
	if lo, hi := extremeEig(g); lo < 2e-5*hi {
		return
	}
	lamb := maxAbs(xy) * math.Pow(10, -5-3*c.R.Float64())
	tol := math.Pow(10, -11-2*c.R.Float64())
	path := c.R.Intn(3) == 0
	c.Input(map[string]interface{}{"data": d.Brief(), "lambda": lamb, "tol": tol, "path": path})
	nd := normOf(d)
	co := make([]float64, p)
	if path {
		nodes := fs.LassoCrdDescPath(nd, &fs.Empirical{}, []float64{lamb}, 10000000, tol, &fs.PureLasso{})
		if len(nodes) != 1 {
			c.Failf("%d nodes for one strength", len(nodes))
		}
		for k, j := range nodes[0].Selection {
			co[j] = nodes[0].Coeff[k]
		}
	} else {
		co = fs.LassoCrdDesc(nd, lamb, &fs.Empirical{}, nil, 10000000, tol, &fs.PureLasso{})
	}
	gap, at := kktGap(g, xy, co, lamb, 0, 1e-16, func(int) bool { return false })
	if !(gap <= 1e-8+float64(3*p)*tol*maxAbs(co)) {
		c.Failf("the optimality condition of column %d is violated by %g for coefficients %v", at, gap, co)
	}
	c.Count("slow_problems", 1)
	c.Seen(true, d.flat(), lamb)
}

func runC17(c *Ctx) {
	c.Cases("path", c.N(12000, 150000), func(i int) {
		p := between(c.R, 2, 8)
		n := between(c.R, p+4, 40)
		if n, p = c.grow(n, p, 250, 75, 1500); p > 8 {
			n = p + between(c.R, 8, 150)
		}
		d := lassoData(c.R, n, p)
		x, y, bias := normalizedCopy(d)
		g, xy := gram(x, y)
		spec := g
		if bias {
			spec = withoutFirst(g)
		}
		lo, hi := extremeEig(spec)
		if lo < 3e-3*hi {
			c.Seen(false)
			return
		}
		nd := normOf(d)
		covKind := c.R.Intn(4)
		if covKind == 2 && i%300 != 2 {
			covKind = 0
		}
		var cov fs.CovMat
		G := g
		switch covKind {
		case 3:
			cov, G = scripted(c.R, g)
		case 2:
			cov = fs.NewSparseThreshold(nd.X)
			G = rowsOf(cov.Get(nd.X))
			var ch mat.Cholesky
			s := mat.NewSymDense(p, nil)
			for a := range G {
				for b := a; b < p; b++ {
					s.SetSym(a, b, G[a][b])
				}
				if bias && a == 0 {
					s.SetSym(0, 0, 1)
				}
			}
			if !ch.Factorize(s) || ch.Cond() > 1e3 {
				c.Seen(false)
				return
			}
		default:
			cov = makeCov(covKind, nil)
			if covKind == 1 {
				G = rowsOf(cov.Get(nd.X))
			}
		}
		corrKind := c.R.Intn(3)
		minDiag := math.Inf(1)
		for j := range G {
			if !(bias && j == 0) {
				minDiag = math.Min(minDiag, G[j][j])
			}
		}
		eta := 0.6 * minDiag * c.R.Float64()
		fresh := func() fs.LassoCorrection {
			switch corrKind {
			case 1:
				return fs.NewCLasso(p, eta)
			case 2:
				return &fs.ElasticNet{Lamb: eta}
			}
			return &fs.PureLasso{}
		}
		nl := pick(c.R, 1, 2, 3, 8, 9, 10, 11, 12, 15, 20, 21, 30, 40)
		if c.R.Intn(300) == 0 && p <= 8 {
			nl = between(c.R, 41, 300)
		}
		lmax := maxAbs(xy)
		from, to := 1e-3*lmax, lmax*[]float64{0.5, 0.95, 1.5, 3}[c.R.Intn(4)]
		lambs := fs.Logspace(from, to, nl)
		if c.R.Intn(3) == 0 { // irregular, with repeated strengths
			for k := range lambs {
				lambs[k] = from + (to-from)*c.R.Float64()
			}
			if nl > 3 {
				lambs[1] = lambs[2]
			}
			sort.Float64s(lambs)
		}
		procs := pick(c.R, 1, 2, 4, 8)
		c.Input(map[string]interface{}{"data": d.Brief(), "lambdas": lambs, "cov": append(covNames, "scripted")[covKind], "corr": corrNames[corrKind], "eta": eta, "procs": procs})
		corr := fresh()
		old := runtime.GOMAXPROCS(procs)
		path := fs.LassoCrdDescPath(nd, cov, lambs, 50000, 1e-11, corr)
		runtime.GOMAXPROCS(old)
		m := len(path)
		if m > nl || m == 0 {
			c.Failf("%d strengths give %d nodes", nl, m)
		}
		for k, n := range path {
			if k > 0 && n != nil && path[0] != nil && len(path[0].Selection) == 0 && len(n.Selection) > 0 {
				c.Failf("the path starts with a node that selects nothing, node %d of %d selects %v", k, m, n.Selection)
			}
		}
		if m < nl {
			c.Count("empty_leading_nodes", int64(nl-m))
		}
		for k := 0; k < nl; k++ {
			lamb := lambs[nl-1-k]
			single := fs.LassoCrdDesc(nd, lamb, cov, nil, 50000, 1e-11, fresh())
			at := k - (nl - m)
			if at < 0 {
				if maxAbs(single) > 1e-7 {
					c.Failf("the node of strength %v was dropped, its solution is %v", lamb, single)
				}
				continue
			}
			nn := path[at]
			if nn == nil {
				c.Failf("node %d is missing", at)
			}
			if nn.Lamb != lamb {
				c.Failf("node %d has strength %v, expected %v", at, nn.Lamb, lamb)
			}
			if len(nn.Coeff) != len(nn.Selection) {
				c.Failf("node %d has %d coefficients for %d features", at, len(nn.Coeff), len(nn.Selection))
			}
			b := make([]float64, p)
			for q, j := range nn.Selection {
				if j < 0 || j >= p || (q > 0 && nn.Selection[q-1] >= j) {
					c.Failf("node %d has the selection %v", at, nn.Selection)
				}
				if nn.Coeff[q] == 0 {
					c.Failf("node %d lists feature %d with a zero coefficient", at, j)
				}
				b[j] = nn.Coeff[q]
			}
			// the covariance correction switches off for tiny coefficients
			if corrKind == 1 && norm(single) < 1e-3 {
				continue
			}
			if !closeVec(b, single, 2e-7) {
				c.Failf("strength %v: the path has %v, solving alone gives %v", lamb, b, single)
			}
			c.Count("nodes_compared", 1)
		}
		c.Count("corr_"+corrNames[corrKind], 1)
		c.Count("cov_"+append(covNames, "scripted")[covKind], 1)
		c.Distinct("strength_counts", nl)
		c.Seen(m > 1, d.flat(), lambs, covKind, corrKind)
	})
}

// larsData draws a well-conditioned problem in general position.
func larsData(c *Ctx, wide bool) *Data {
	p := between(c.R, 2, 9)
	n := between(c.R, p+4, 3*p+20)
	if n, p = c.grow(n, p, 250, 70, 3000); p > 9 {
		n = p + between(c.R, 10, 150)
	}
	if wide {
		p = between(c.R, 8, 16)
		n = between(c.R, 6, p-1)
	}
	d := &Data{N: n, P: p}
	k := []string{"gauss", "ar", "factor", "intercept", "shifted", "scaled"}[c.R.Intn(6)]
	t := []string{"sparse", "dense", "noise", "last", "weak", "first"}[c.R.Intn(6)]
	d.Kind = k + "/" + t
	d.X = genX(c.R, k, n, p)
	if k == "ar" || k == "gauss" {
		// suppressor structure makes features leave the path again
		if c.R.Intn(2) == 0 && p > 2 {
			for i := range d.X {
				d.X[i][p-1] = 0.7*d.X[i][0] + 0.7*d.X[i][1] + 0.35*d.X[i][p-1]
			}
			d.Kind += "/mixed"
		}
		if c.R.Intn(3) == 0 {
			for i := range d.X {
				d.X[i][0] = 1
			}
			d.Kind += "/intercept"
		}
	}
	d.Y = genY(c.R, t, d.X)
	for i := range d.Y {
		d.Y[i] += 0.2 * c.R.NormFloat64()
	}
	return d
}

// estimatorFor returns an estimator for the path of the dataset. Half of the time it
// has worked on another dataset before and stopped with the feature active
// with which the path begins.
func estimatorFor(c *Ctx, d *Data) *fs.MorsePenroseCD {
	est := &fs.MorsePenroseCD{}
	if c.R.Intn(2) == 0 {
		return est
	}
	_, xy := gram(normalizedXY(d))
	j := argmaxAbs(xy)
	o := &Data{N: d.N, P: d.P, Kind: d.Kind, X: make([][]float64, d.N), Y: make([]float64, d.N)}
	for r := range o.X {
		o.X[r] = append([]float64{}, d.X[d.N-1-r]...)
		o.X[r][j] += c.R.NormFloat64() * (1 + math.Abs(o.X[r][j]))
		o.Y[r] = 3*o.X[r][j] - 1
	}
	if !normalizable(o) {
		return est
	}
	nd := normOf(o)
	fs.LassoLars(nd, []float64{0.999, 0.9, 0.5}[c.R.Intn(3)]*float64(d.N-1), est)
	c.Count("estimators_used_before", 1)
	return est
}

func argmaxAbs(v []float64) int {
	k := 0
	for j := range v {
		if math.Abs(v[j]) > math.Abs(v[k]) {
			k = j
		}
	}
	return k
}

func normalizedXY(d *Data) ([][]float64, []float64) {
	x, y, _ := normalizedCopy(d)
	return x, y
}

func runC18(c *Ctx) {
	one := func(wide bool) {
		d := larsData(c, wide)
		if !normalizable(d) {
			c.Seen(false)
			return
		}
		x, y, bias := normalizedCopy(d)
		G, xy := gram(x, y)
		nf := float64(d.N)
		if !wide {
			spec := G
			if bias {
				spec = withoutFirst(G)
			}
			lo, hi := extremeEig(spec)
			if lo < 1e-3*hi {
				c.Seen(false)
				return
			}
		}
		lmax := maxAbs(xy) * nf
		lmin := lmax * math.Pow(10, -0.3-2.7*c.R.Float64())
		if wide {
			lmin = lmax * (0.15 + 0.5*c.R.Float64())
			b := refLasso(G, xy, 0.9*lmin/nf)
			act := []int{}
			for j, v := range b {
				if v != 0 {
					act = append(act, j)
				}
			}
			if len(act) >= d.N-2 {
				c.Seen(false)
				return
			}
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "min": lmin})
		nd := normOf(d)
		path := fs.LassoLars(nd, lmin, estimatorFor(c, d))
		if len(path) == 0 {
			c.Failf("the path is empty")
		}
		if !close2(path[0].Lamb, lmax, 1e-10) {
			c.Failf("the path starts at %v, the largest feature-target product is %v", path[0].Lamb, lmax)
		}
		skip := func(j int) bool { return bias && j == 0 }
		eps := 1e-7 * (1 + lmax) / nf
		full := func(k int) []float64 {
			b := make([]float64, d.P)
			nn := path[k]
			if len(nn.Coeff) != len(nn.Selection) || len(nn.Selection) == 0 {
				c.Failf("node %d has %d coefficients for the selection %v", k, len(nn.Coeff), nn.Selection)
			}
			for q, j := range nn.Selection {
				if j < 0 || j >= d.P || (q > 0 && nn.Selection[q-1] >= j) || skip(j) {
					c.Failf("node %d has the selection %v", k, nn.Selection)
				}
				b[j] = nn.Coeff[q]
			}
			return b
		}
		check := func(what string, b []float64, lamb float64, zero float64) {
			gap, at := kktGap(G, xy, b, lamb/nf, 0, zero, skip)
			if !(gap <= eps) {
				c.Failf("%s (strength %v): the optimality condition of column %d is violated by %g: %v", what, lamb, at, gap*nf, b)
			}
		}
		// checkSegment verifies that the straight line between two solutions consists of solutions
		segment := func(what string, b0, b1 []float64, l0, l1 float64) {
			for _, t := range []float64{0.5, 0.1, 0.9} {
				b := make([]float64, d.P)
				for j := range b {
					b[j] = (1-t)*b0[j] + t*b1[j]
				}
				check(what, b, (1-t)*l0+t*l1, 1e-9*(1+maxAbs(b)))
			}
			c.Count("segments_checked", 1)
		}
		joins, leaves := 0, 0
		var prev []float64
		for k := range path {
			if k > 0 && !(path[k].Lamb < path[k-1].Lamb) {
				c.Failf("strength %v does not decrease to %v", path[k-1].Lamb, path[k].Lamb)
			}
			if !(path[k].Lamb > lmin) {
				c.Failf("node %d has strength %v below the minimum %v", k, path[k].Lamb, lmin)
			}
			b := full(k)
			check(fmt.Sprint("node ", k), b, path[k].Lamb, 1e-8*(1+maxAbs(b)))
			if prev != nil {
				if path[k-1].Lamb-path[k].Lamb > 1e-5*(1+lmax) {
					segment(fmt.Sprintf("between nodes %d and %d", k-1, k), prev, b, path[k-1].Lamb, path[k].Lamb)
				}
				if len(path[k].Selection) > len(path[k-1].Selection) {
					joins++
				} else {
					leaves++
				}
			}
			ref := refLasso(G, xy, path[k].Lamb/nf)
			if !wide && !closeVec(b, ref, 1e-5) {
				c.Failf("node %d (strength %v) is %v, the lasso solution is %v", k, path[k].Lamb, b, ref)
			}
			if !wide && k%3 == 1 {
				cd := fs.LassoCrdDesc(nd, path[k].Lamb/nf, &fs.Empirical{}, nil, 100000, 1e-12, &fs.PureLasso{})
				if !closeVec(b, cd, 1e-5) {
					c.Failf("node %d (strength %v) is %v, coordinate descent finds %v", k, path[k].Lamb, b, cd)
				}
				c.Count("nodes_compared_with_descent", 1)
			}
			prev = b
		}
		// no knot is missing between the last node and the requested minimum
		last := path[len(path)-1].Lamb
		if last-lmin > 1e-4*(1+lmax) {
			ref := refLasso(G, xy, lmin/nf)
			segment("between the last node and the requested minimum", prev, ref, last, lmin)
		}
		c.Count("nodes_checked", int64(len(path)))
		c.Count("joins", int64(joins))
		c.Count("leaves", int64(leaves))
		if bias {
			c.Count("with_intercept", 1)
		}
		if wide {
			c.Count("wide", 1)
		}
		c.Seen(len(path) > 2, d.flat(), lmin)
	}
	c.Cases("tall", c.N(24000, 400000), func(i int) { one(false) })
	c.Cases("wide", c.N(6000, 80000), func(i int) { one(true) })
}

// randomPath draws a path with ascending selections.
func randomPath(r *rand.Rand, p int) []*fs.LassoLarsNode {
	n := between(r, 1, 12)
	if r.Intn(300) == 0 {
		n = between(r, 13, 200)
	}
	var nodes []*fs.LassoLarsNode
	lamb := 10 * r.Float64()
	for k := 0; k < n; k++ {
		m := genModel(r, p, []float64{0.15, 0.4, 0.8}[r.Intn(3)])
		if len(selOf(m)) == 0 {
			m[r.Intn(p)] = true
		}
		s := selOf(m)
		co := make([]float64, len(s))
		for j := range co {
			co[j] = r.NormFloat64()
		}
		nodes = append(nodes, fs.NewLassoLarsNode(co, lamb, s))
		lamb *= 0.2 + 0.8*r.Float64()
	}
	return nodes
}

func datasetOf(d *Data, target int) *fs.Dataset {
	var names []string
	for j := 0; j <= d.P; j++ {
		names = append(names, fmt.Sprintf("n%d", j))
	}
	return newDataset(fs.Dataset{X: d.Dense(), Y: d.Ycopy(), Names: names, TargetCol: target})
}

func runC19(c *Ctx) {
	// sorted: the selections are in ascending order, as all fits return them; the
	// criterion of others is not specified
	one := func(d *Data, nodes []*fs.LassoLarsNode, sorted bool) {
		path := &fs.LassoLarsPath{Dset: datasetOf(d, d.P), LassoLarsNodes: nodes}
		type call struct {
			k, n int
			rss  float64
		}
		var calls []call
		var vals, aicc, aic, bic []float64
		if sorted {
			aicc, aic, bic = path.GetCriteria(fs.Aicc), path.GetCriteria(fs.Aic), path.GetCriteria(fs.Bic)
		}
		critNodes := nodes
		if !sorted {
			critNodes = nil
		}
		vals = (&fs.LassoLarsPath{Dset: path.Dset, LassoLarsNodes: critNodes}).GetCriteria(func(k, n int, r float64) float64 {
			calls = append(calls, call{k, n, r})
			return float64(len(calls)) * 1.5
		})
		if len(vals) != len(critNodes) || len(calls) != len(critNodes) {
			c.Failf("%d criterion values (%d evaluations) for %d nodes", len(vals), len(calls), len(nodes))
		}
		for i, nn := range critNodes {
			pr := matVec(d.Cols(nn.Selection), nn.Coeff)
			rss := 0.0
			for a := range pr {
				rss += (pr[a] - d.Y[a]) * (pr[a] - d.Y[a])
			}
			k := len(nn.Selection)
			if calls[i].k != k || calls[i].n != d.N || !(math.Abs(calls[i].rss-rss) <= 1e-9*(rss+1e-9*dot(d.Y, d.Y))) {
				c.Failf("node %d: criterion evaluated at %+v, the node has %d features, %d rows and residual %v", i, calls[i], k, d.N, rss)
			}
			if vals[i] != float64(i+1)*1.5 {
				c.Failf("criterion value %d belongs to another node", i)
			}
			if !nearFloor(rss, dot(d.Y, d.Y)) {
				if !close2(aicc[i], refAICc(k, d.N, rss), 1e-8) || !close2(aic[i], refAIC(k, d.N, rss), 1e-8) || !close2(bic[i], refBIC(k, d.N, rss), 1e-8) {
					c.Failf("node %d: AIC, AICc, BIC are %v, %v, %v, expected %v, %v, %v", i, aic[i], aicc[i], bic[i], refAIC(k, d.N, rss), refAICc(k, d.N, rss), refBIC(k, d.N, rss))
				}
			}
		}
		lo, hi := 1<<30, -1
		for _, nn := range nodes {
			for _, j := range nn.Selection {
				if j < lo {
					lo = j
				}
				if j > hi {
					hi = j
				}
			}
		}
		if a, b := path.MaxMinFeatNo(); a != lo || b != hi {
			c.Failf("smallest and largest feature are %d and %d, reported %d and %d", lo, hi, a, b)
		}
		for j := 0; j < d.P; j++ {
			tr := path.ExtractPath(j)
			if len(tr) != len(nodes) {
				c.Failf("the trace of feature %d has %d points for %d nodes", j, len(tr), len(nodes))
			}
			for i, nn := range nodes {
				v := 0.0
				for q, s := range nn.Selection {
					if s == j {
						v = nn.Coeff[q]
					}
				}
				if tr[i].Y != v || !close2(tr[i].X, math.Log10(nn.Lamb), 1e-12) {
					c.Failf("point %d of the trace of feature %d is %v, expected (%v, %v)", i, j, tr[i], math.Log10(nn.Lamb), v)
				}
			}
		}
		for want := 0; want <= d.P+1; want++ {
			var ref []int
			seen := map[int]bool{}
			for _, nn := range nodes {
				for _, j := range nn.Selection {
					if !seen[j] {
						seen[j] = true
						ref = append(ref, j)
					}
				}
				if len(ref) >= want {
					break
				}
			}
			if got := path.PickMostRelevantFeatures(want); !intsEqual(got, ref) {
				c.Failf("the %d most relevant features are %v, expected %v", want, got, ref)
			}
		}
		sp := fs.LassoNodesSlice2SparsCoeff(nodes)
		if len(sp) != len(nodes) {
			c.Failf("%d sparse models for %d nodes", len(sp), len(nodes))
		}
		for i := range sp {
			if !intsEqual(sp[i].Selection, nodes[i].Selection) || !bitEqual(sp[i].Coeff, nodes[i].Coeff) {
				c.Failf("sparse model %d is %v, the node %v", i, sp[i], nodes[i])
			}
		}
		c.Count("nodes_summarised", int64(len(nodes)))
		c.Seen(len(nodes) > 1, d.flat(), fmt.Sprint(nodes[0].Selection, len(nodes)))
	}
	c.Cases("random", c.N(40000, 400000), func(i int) {
		n, p := c.grow(between(c.R, 2, 25), between(c.R, 1, 9), 300, 130, 1000)
		d := genData(c.R, n, p, designKinds)
		nodes := randomPath(c.R, d.P)
		if len(nodes) > 1 && c.R.Intn(4) == 0 {
			for _, k := range c.R.Perm(len(nodes))[:between(c.R, 1, len(nodes)-1)] {
				nodes[k].Selection, nodes[k].Coeff = []int{}, []float64{}
				c.Count("nodes_that_select_nothing", 1)
			}
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "nodes": nodes})
		one(d, nodes, true)
	})
	c.Cases("order", c.N(8000, 80000), func(i int) {
		n, p := c.grow(between(c.R, 2, 10), between(c.R, 1, 12), 60, 130, 500)
		d := genData(c.R, n, p, designKinds)
		nodes := randomPath(c.R, d.P)
		for _, n := range nodes {
			c.R.Shuffle(len(n.Selection), func(a, b int) {
				n.Selection[a], n.Selection[b] = n.Selection[b], n.Selection[a]
				n.Coeff[a], n.Coeff[b] = n.Coeff[b], n.Coeff[a]
			})
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "nodes": nodes})
		one(d, nodes, false)
	})
	c.Cases("computed", c.N(3000, 30000), func(i int) {
		d := lassoData(c.R, between(c.R, 8, 30), between(c.R, 2, 8))
		nd := normOf(d)
		nodes := fs.LassoCrdDescPath(nd, &fs.Empirical{}, fs.Logspace(1e-3, 0.5, 8), 500, 1e-7, &fs.PureLasso{})
		fs.Path2Unnormalized(nd, nodes)
		if len(nodes[0].Selection) == 0 {
			c.Seen(false)
			return
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "nodes": nodes})
		one(d, nodes, true)
	})
}

func runC20(c *Ctx) {
	c.Cases("nested", c.N(9000, 120000), func(i int) {
		d := larsData(c, false)
		if !normalizable(d) {
			c.Seen(false)
			return
		}
		x, y, bias := normalizedCopy(d)
		G, xy := gram(x, y)
		spec := G
		if bias {
			spec = withoutFirst(G)
		}
		if lo, hi := extremeEig(spec); lo < 1e-3*hi {
			c.Seen(false)
			return
		}
		nf := float64(d.N)
		lmax := maxAbs(xy) * nf
		keep := []float64{0.3, 0.5, 0.6, 0.75, 0.9, 0.99}[c.R.Intn(6)]
		if c.R.Intn(12) == 0 {
			keep = []float64{1, 1 + c.R.Float64(), 1e9}[c.R.Intn(3)] // nothing that was selected is removed
			c.Count("keep_all", 1)
		}
		lmin := lmax * math.Pow(10, -0.5-2.5*c.R.Float64())
		switch c.R.Intn(24) {
		case 0, 1, 2:
			lmin = lmax * (0.8 + 0.199*c.R.Float64()) // paths of one or two nodes
		case 3:
			lmin = lmax * (1.0001 + c.R.Float64()) // nothing is ever selected
			c.Count("nothing_selected", 1)
		}
		target := c.R.Intn(d.P + 1)
		set := datasetOf(d, target)
		// names in arbitrary order, so that they say nothing about the position
		perm := c.R.Perm(d.P + 1)
		for k := range set.Names {
			set.Names[k] = fmt.Sprintf("x%d", perm[k])
		}
		names := append([]string{}, set.Names...)
		c.Input(map[string]interface{}{"data": d.Brief(), "keep": keep, "min": lmin, "target": target, "names": names})
		res := fs.NestedLasso(set, lmin, keep, estimatorFor(c, d))
		if !bitEqual(set.Y, d.Y) || !bitEqual(flatten(rowsOf(set.X)), flatten(d.X)) || set.TargetCol != target || fmt.Sprint(set.Names) != fmt.Sprint(names) {
			c.Failf("the dataset was modified")
		}
		if res.Dset == nil || !bitEqual(res.Dset.Y, d.Y) || !bitEqual(flatten(rowsOf(res.Dset.X)), flatten(d.X)) || res.Dset.TargetCol != target {
			c.Failf("the result does not carry the original dataset")
		}
		sx := make([]float64, d.P)
		mx := make([]float64, d.P)
		for j, col := range transposed(d.X) {
			sx[j], mx[j] = rstd(col), rmean(col)
		}
		my, sy := rmean(d.Y), rstd(d.Y)

		surv := make([]int, d.P) // columns of the current round
		for j := range surv {
			surv[j] = j
		}
		allowed := map[int]bool{}
		plain := fs.LassoLars(normOf(d), lmin, &fs.MorsePenroseCD{})
		eps := 1e-7 * (1 + lmax) / nf
		for round := 0; ; round++ {
			if round >= len(res.Paths) {
				c.Failf("%d paths are returned, round %d with the columns %v is missing", len(res.Paths), round, surv)
			}
			path := res.Paths[round]
			for j := range allowed {
				delete(allowed, j)
			}
			for _, j := range surv {
				allowed[j] = true
			}
			if (len(path.Nodes) == 0 && lmin < lmax) || len(path.Aicc) != len(path.Nodes) || len(path.Bic) != len(path.Nodes) {
				c.Failf("round %d has %d nodes, %d and %d criterion values", round, len(path.Nodes), len(path.Aicc), len(path.Bic))
			}
			if round == 0 && len(path.Nodes) != len(plain) {
				c.Failf("the first path has %d nodes, the plain path %d", len(path.Nodes), len(plain))
			}
			var order []int
			seen := map[int]bool{}
			want := int(keep * float64(len(surv)))
			var relevant []int
			for k, nn := range path.Nodes {
				sel, co := nn.Selection, nn.Coeff
				if len(sel) != len(co) {
					c.Failf("round %d node %d: %d coefficients for the selection %v", round, k, len(co), sel)
				}
				icpt := 0.0
				if bias {
					if len(sel) == 0 || sel[0] != 0 {
						c.Failf("round %d node %d has no intercept first: %v", round, k, sel)
					}
					icpt = co[0]
					sel, co = sel[1:], co[1:]
				}
				b := make([]float64, d.P)
				dup := map[int]bool{}
				for q, j := range sel {
					if j < 0 || j >= d.P || !allowed[j] || dup[j] {
						c.Failf("round %d node %d selects %v, the surviving columns are %v", round, k, sel, surv)
					}
					dup[j] = true
					b[j] = co[q] * sx[j] / sy
					if !seen[j] {
						seen[j] = true
						order = append(order, j)
					}
				}
				if relevant == nil && len(order) >= want {
					relevant = append([]int{}, order...)
				}
				gap, at := kktGap(G, xy, b, nn.Lamb/nf, 0, 1e-8*(1+maxAbs(b)), func(j int) bool { return !allowed[j] || (bias && j == 0) })
				if !(gap <= eps) {
					c.Failf("round %d node %d (strength %v): the optimality condition of column %d among the surviving columns %v is violated by %g", round, k, nn.Lamb, at, surv, gap*nf)
				}
				// predictions on the original data
				if bias {
					w := my
					for _, j := range sel {
						w -= sy * b[j] * mx[j] / sx[j]
					}
					if !close2(w, icpt, 1e-8) {
						c.Failf("round %d node %d has the intercept %v, expected %v", round, k, icpt, w)
					}
				}
				rss := 0.0
				for a := range y {
					t := y[a]
					for _, j := range sel {
						t -= x[a][j] * b[j]
					}
					rss += t * t
				}
				if rss > 1e-6 {
					if !close2(path.Aicc[k], refAICc(len(sel), d.N, rss), 1e-7) || !close2(path.Bic[k], refBIC(len(sel), d.N, rss), 1e-7) {
						c.Failf("round %d node %d has AICc %v and BIC %v, expected %v and %v", round, k, path.Aicc[k], path.Bic[k], refAICc(len(sel), d.N, rss), refBIC(len(sel), d.N, rss))
					}
				}
				if round == 0 {
					pb := fs.FullCoeffVector(d.P, plain[k].Selection, plain[k].Coeff)
					if !closeVec(pb, b, 1e-8) || !close2(plain[k].Lamb, nn.Lamb, 1e-10) {
						c.Failf("node %d of the first path is %v at %v, the plain path has %v at %v", k, b, nn.Lamb, pb, plain[k].Lamb)
					}
				}
				if k > 0 && !(nn.Lamb < path.Nodes[k-1].Lamb) {
					c.Failf("round %d: strength %v follows %v", round, nn.Lamb, path.Nodes[k-1].Lamb)
				}
				c.Count("nodes_checked", 1)
			}
			if relevant == nil {
				relevant = order
			}
			if want <= 2 || len(relevant) == 0 || len(relevant) == len(surv) {
				if len(res.Paths) != round+1 {
					c.Failf("%d paths are returned, the rounds end after %d", len(res.Paths), round+1)
				}
				break
			}
			surv = relevant
		}
		c.Count("paths_checked", int64(len(res.Paths)))
		if target != d.P {
			c.Count("target_not_last", 1)
		}
		c.Max("rounds", int64(len(res.Paths)))
		c.Seen(len(res.Paths) > 1, d.flat(), keep, target, lmin)
	})
}

func flatten(x [][]float64) []float64 {
	var f []float64
	for _, r := range x {
		f = append(f, r...)
	}
	return f
}

var rankLine = regexp.MustCompile(`^\|\s*(\d+)\s*\|\s*(\S+)\s*\|\s*(\d+)\s*\|\s*(\S+)\s*\|\s*(\S+)\s*\|\s*$`)

func init() {
	old := checks["C19"].run
	checks["C19"].run = func(c *Ctx) { old(c); runC19printed(c) }
}

// runC19printed reads the ranking that is printed for a path.
func runC19printed(c *Ctx) {
	c.Cases("printed", c.N(150, 2000), func(i int) {
		m := between(c.R, 1, 14)
		path := &fs.LassoLarsPath{}
		aicc, bic := make([]float64, m), make([]float64, m)
		lamb := 1 + 9*c.R.Float64()
		for k := 0; k < m; k++ {
			sel := c.R.Perm(9)[:between(c.R, 1, 9)]
			sort.Ints(sel)
			path.LassoLarsNodes = append(path.LassoLarsNodes, fs.NewLassoLarsNode(make([]float64, len(sel)), lamb, sel))
			lamb *= 0.3 + 0.5*c.R.Float64()
			aicc[k], bic[k] = 50*c.R.NormFloat64(), 50*c.R.NormFloat64()
			if k > 0 && c.R.Intn(8) == 0 {
				aicc[k] = aicc[k-1]
			}
		}
		num := between(c.R, 0, m+3)
		c.Input(map[string]interface{}{"nodes": path.LassoLarsNodes, "aicc": aicc, "bic": bic, "number": num})
		out := captured(c, func() { fs.PrintHighscore(path, aicc, bic, num) })
		lines := judgeRanking(c, out, path.LassoLarsNodes, aicc, bic, num)
		c.Count("ranking_lines", int64(lines))
		c.Seen(lines > 1, aicc, num)
	})
}

// judgeRanking compares the printed lines with the nodes and returns their number.
func judgeRanking(c *Ctx, out string, nodes []*fs.LassoLarsNode, aicc, bic []float64, num int) int {
	m := len(nodes)
	near := func(s string, v float64, rel float64) bool {
		f, err := strconv.ParseFloat(s, 64)
		return err == nil && (f == v || math.Abs(f-v) <= rel*math.Abs(v)+1e-12)
	}
	order := append([]float64{}, aicc...)
	sort.Float64s(order)
	lines := 0
	used := map[int]bool{}
	for _, l := range strings.Split(out, "\n") {
		f := rankLine.FindStringSubmatch(l)
		if f == nil {
			continue
		}
		rank, _ := strconv.Atoi(f[1])
		lines++
		if rank != lines || rank > num || rank > m {
			c.Failf("line %d of the ranking of the best %d of %d nodes has rank %d", lines, num, m, rank)
		}
		if !near(f[4], order[rank-1], 1e-4) {
			c.Failf("rank %d has the criterion %s, the smallest values are %v", rank, f[4], order)
		}
		found := false
		for k, n := range nodes {
			if !used[k] && near(f[2], n.Lamb, 0.02) && f[3] == fmt.Sprint(len(n.Selection)) && near(f[4], aicc[k], 1e-4) && near(f[5], bic[k], 1e-4) {
				found, used[k] = true, true
				break
			}
		}
		if !found {
			c.Failf("the line %q describes no node of the path that was not printed before: %s", l, rankNodes(nodes, aicc, bic))
		}
	}
	if want := num; lines > 0 || want == 0 {
		if want > m {
			want = m
		}
		if lines != want {
			c.Failf("%d nodes are printed as the best %d of %d", lines, num, m)
		}
	}
	return lines
}

func init() {
	old := checks["C20"].run
	checks["C20"].run = func(c *Ctx) { old(c); runC20printed(c) }
}

// runC20printed reads the rankings a nested lasso prints for its rounds.
func runC20printed(c *Ctx) {
	c.Cases("printed", c.N(300, 3000), func(i int) {
		d := larsData(c, false)
		if !normalizable(d) {
			c.Seen(false)
			return
		}
		x, y, bias := normalizedCopy(d)
		_, xy := gram(x, y)
		lmin := maxAbs(xy) * float64(d.N) * math.Pow(10, -0.5-2.5*c.R.Float64())
		keep := []float64{0.5, 0.6, 0.75, 0.9}[c.R.Intn(4)]
		target := c.R.Intn(d.P + 1)
		c.Input(map[string]interface{}{"data": d.Brief(), "keep": keep, "min": lmin, "target": target})
		var res fs.NestedLassoLars
		out := captured(c, func() { res = fs.NestedLasso(datasetOf(d, target), lmin, keep, &fs.MorsePenroseCD{}) })
		var blocks []string
		var sizes []int
		for _, l := range strings.Split(out, "\n") {
			f := rankLine.FindStringSubmatch(l)
			if f == nil {
				continue
			}
			if f[1] == "1" {
				blocks = append(blocks, "")
				sizes = append(sizes, 0)
			}
			if len(blocks) == 0 {
				c.Failf("the first ranking starts with rank %s", f[1])
			}
			blocks[len(blocks)-1] += l + "\n"
			sizes[len(blocks)-1]++
		}
		if len(blocks) > 0 && len(blocks) != len(res.Paths) {
			c.Failf("%d rankings are printed for %d rounds", len(blocks), len(res.Paths))
		}
		for r, b := range blocks {
			p := res.Paths[r]
			if bias {
				// the solver's nodes, without the intercept that is added at the end
				for _, n := range p.Nodes {
					n.Selection = n.Selection[1:]
				}
			}
			judgeRanking(c, b, p.Nodes, p.Aicc, p.Bic, sizes[r])
			c.Count("ranking_lines", int64(sizes[r]))
		}
		c.Seen(len(blocks) > 0 && len(res.Paths) > 1, len(blocks), keep, lmin)
	})
}

func rankNodes(nodes []*fs.LassoLarsNode, aicc, bic []float64) string {
	s := ""
	for k, n := range nodes {
		s += fmt.Sprintf("(%.3g, %d columns, %.6g, %.6g) ", n.Lamb, len(n.Selection), aicc[k], bic[k])
	}
	return s
}
