package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C42", &check{run: runC42, rule: "every call that returns slices, matrices, nodes, lists, datasets or paths is made twice with the same arguments; the memory reachable from the results (unexported fields and spare capacity included) must be disjoint from that of the arguments, from that of the other result and from that of a third call made after the first result was overwritten, the parts of one result from each other, and the third result equal to the second; non-trivial = a result with memory of its own"})
}

// region is a range of memory that can be written through a value.
type region struct {
	lo, hi uintptr
	slice  bool
	path   string
}

// regions lists the memory that is reachable from v.
func regions(v interface{}) []region {
	var out []region
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Slice:
			n := v.Cap()
			sz := v.Type().Elem().Size()
			if n == 0 || sz == 0 {
				return
			}
			out = append(out, region{v.Pointer(), v.Pointer() + uintptr(n)*sz, true, path})
			switch v.Type().Elem().Kind() {
			case reflect.Slice, reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Map, reflect.Array:
				for k := 0; k < v.Len(); k++ {
					walk(v.Index(k), fmt.Sprintf("%s[%d]", path, k))
				}
			}
		case reflect.Array:
			for k := 0; k < v.Len(); k++ {
				walk(v.Index(k), fmt.Sprintf("%s[%d]", path, k))
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if sz := v.Type().Elem().Size(); sz > 0 {
				out = append(out, region{v.Pointer(), v.Pointer() + sz, false, path})
			}
			walk(v.Elem(), path)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path)
			}
		case reflect.Struct:
			if v.Type().PkgPath() == "sync" {
				return
			}
			for k := 0; k < v.NumField(); k++ {
				walk(v.Field(k), path+"."+v.Type().Field(k).Name)
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			out = append(out, region{v.Pointer(), v.Pointer() + 1, false, path})
			it := v.MapRange()
			for it.Next() {
				walk(it.Value(), path+"[...]")
			}
		}
	}
	walk(reflect.ValueOf(v), "")
	sort.Slice(out, func(a, b int) bool { return out[a].lo < out[b].lo })
	return out
}

// common returns a pair of regions of a and b that overlap.
func common(a, b []region) (string, bool) {
	for i, j := 0, 0; i < len(a) && j < len(b); {
		if a[i].lo < b[j].hi && b[j].lo < a[i].hi {
			return fmt.Sprintf("%q and %q", a[i].path, b[j].path), true
		}
		if a[i].hi <= b[j].hi {
			i++
		} else {
			j++
		}
	}
	return "", false
}

// inner returns two slices of one result that overlap.
func inner(a []region) (string, bool) {
	var s []region
	for _, r := range a {
		if r.slice {
			s = append(s, r)
		}
	}
	for i := 1; i < len(s); i++ {
		if s[i].lo < s[i-1].hi {
			return fmt.Sprintf("%q and %q", s[i-1].path, s[i].path), true
		}
	}
	return "", false
}

// scribble overwrites the numbers and truth values that are reachable from v.
func scribble(v interface{}) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Slice:
			full := v.Slice(0, v.Cap())
			for k := 0; k < full.Len(); k++ {
				e := full.Index(k)
				switch e.Kind() {
				case reflect.Float64:
					if e.CanSet() {
						e.SetFloat(7.25e11)
					}
				case reflect.Int:
					if e.CanSet() {
						e.SetInt(1 << 40)
					}
				case reflect.Bool:
					if e.CanSet() {
						e.SetBool(!e.Bool())
					}
				case reflect.String:
					if e.CanSet() {
						e.SetString("overwritten")
					}
				default:
					if k < v.Len() {
						walk(e)
					}
				}
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if v.CanInterface() {
				if m, ok := v.Interface().(*mat.Dense); ok && !m.IsEmpty() {
					walk(reflect.ValueOf(m.RawMatrix().Data))
					return
				}
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for k := 0; k < v.NumField(); k++ {
				if f := v.Field(k); f.CanInterface() {
					walk(f)
				}
			}
		}
	}
	walk(reflect.ValueOf(v))
}

var jsonNumber = regexp.MustCompile(`-?[0-9][-+.eE0-9]*`)

// sameJSON compares two encodings up to rounding of the numbers.
func sameJSON(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	x, y := jsonNumber.FindAll(a, -1), jsonNumber.FindAll(b, -1)
	if len(x) != len(y) || !bytes.Equal(jsonNumber.ReplaceAll(a, nil), jsonNumber.ReplaceAll(b, nil)) {
		return false
	}
	for k := range x {
		u, err1 := strconv.ParseFloat(string(x[k]), 64)
		v, err2 := strconv.ParseFloat(string(y[k]), 64)
		if err1 != nil || err2 != nil || !(math.Abs(u-v) <= 1e-8*(1+math.Abs(v))) {
			return false
		}
	}
	return true
}

type ownCall struct {
	name  string
	f     func() interface{}
	args  []interface{}
	parts bool // slices of one result may not overlap either
	loose bool // the result depends on chance or schedule
}

func (c *Ctx) own(calls []ownCall) {
	own := 0
	for _, k := range calls {
		h := make([]uint64, len(k.args))
		for i, a := range k.args {
			h[i] = deepHash(a)
		}
		r1 := k.f()
		r2 := k.f()
		g1, g2 := regions(r1), regions(r2)
		check := func(what string, a, b []region) {
			if w, bad := common(a, b); bad {
				c.Failf("%s: %s share memory (%s)", k.name, what, w)
			}
		}
		check("the results of two calls", g1, g2)
		for i, a := range k.args {
			check(fmt.Sprintf("the result and argument %d", i), g1, regions(a))
			check(fmt.Sprintf("the result and argument %d", i), g2, regions(a))
		}
		if k.parts {
			if w, bad := inner(g1); bad {
				c.Failf("%s: parts of the result share memory (%s)", k.name, w)
			}
		}
		d2 := deepHash(r2)
		j2, _ := json.Marshal(r2)
		scribble(r1)
		if deepHash(r2) != d2 {
			c.Failf("%s: writing to a result changed that of another call", k.name)
		}
		for i, a := range k.args {
			if deepHash(a) != h[i] {
				c.Failf("%s: writing to the result changed argument %d", k.name, i)
			}
		}
		r3 := k.f()
		g3 := regions(r3)
		check("the results of two calls", g1, g3)
		check("the results of two calls", g2, g3)
		if j3, _ := json.Marshal(r3); !k.loose && !sameJSON(j2, j3) {
			c.Failf("%s: after the result of another call was overwritten the same call gives %s instead of %s", k.name, clip(string(j3), 300), clip(string(j2), 300))
		}
		runtime.KeepAlive(r1) // its memory must not be used again before this point
		runtime.KeepAlive(r2)
		runtime.KeepAlive(r3)
		if len(g1) > 0 {
			own++
		}
		c.Count("regions_compared", int64(len(g1)+len(g2)+len(g3)))
		c.Distinct("kinds_of_results", k.name)
	}
	c.Count("results_with_memory", int64(own))
}

func runC42(c *Ctx) {
	c.Cases("searches", c.N(700, 7000), func(i int) {
		d := genData(c.R, between(c.R, 7, 18), between(c.R, 3, 6), safeKinds)
		X, y := d.Dense(), d.Ycopy()
		model := genModel(c.R, d.P, 0.5)
		model[c.R.Intn(d.P)] = true
		lev := between(c.R, 0, d.P-1)
		par := fs.NewSelectModelOptParams()
		if c.R.Intn(2) == 0 {
			par.RootModel = genModel(c.R, d.P, 0.5)
		}
		capa := pick(c.R, 2, 5, 1<<uint(d.P)+2)
		tol := c.R.Float64()
		co := gaussMat(c.R, 1, d.P)[0]
		sel := c.R.Perm(d.P)[:between(c.R, 1, d.P)]
		node := fs.NewNode(lev, model)
		c.Input(map[string]interface{}{"data": d.Brief(), "model": bits(model), "level": lev})
		nodeText, _ := json.Marshal(node)
		full := fs.BruteForceSelect(X, y)
		listText, _ := json.Marshal(full)
		c.own([]ownCall{
			{name: "SelectModel", loose: true, parts: true, args: []interface{}{X, y, par}, f: func() interface{} {
				h := fs.NewHighscore(capa)
				var sp fs.SearchProgress
				fs.SelectModel(X, y, h, &sp, par)
				return h
			}},
			{name: "BruteForceSelect", parts: true, args: []interface{}{X, y}, f: func() interface{} { return fs.BruteForceSelect(X, y) }},
			{name: "SelectModelSA", loose: true, args: []interface{}{X, y}, f: func() interface{} { return fs.SelectModelSA(X, y, 2, fs.Aicc) }},
			{name: "Omp", parts: true, args: []interface{}{X, y}, f: func() interface{} { return fs.Omp(X, y, tol) }},
			{name: "Gcs", args: []interface{}{model}, f: func() interface{} { return fs.Gcs(model, lev) }},
			{name: "Lcs", args: []interface{}{model}, f: func() interface{} { return fs.Lcs(model, lev) }},
			{name: "NewNode", args: []interface{}{model}, f: func() interface{} { return fs.NewNode(lev, model) }},
			{name: "GetChildNode", args: []interface{}{node}, f: func() interface{} { return node.GetChildNode(true) }},
			{name: "GetChildNode(unchanged)", args: []interface{}{node}, f: func() interface{} { return node.GetChildNode(false) }},
			{name: "CreateChild", args: []interface{}{node, X, y}, f: func() interface{} {
				return fs.CreateChild(node, true, X, y, -1e300, fs.NewHighscore(2))
			}},
			{name: "Node.UnmarshalJSON", parts: true, args: []interface{}{nodeText}, f: func() interface{} {
				var n fs.Node
				json.Unmarshal(nodeText, &n)
				return &n
			}},
			{name: "Highscore.UnmarshalJSON", parts: true, args: []interface{}{listText}, f: func() interface{} {
				h := fs.NewHighscore(2)
				json.Unmarshal(listText, h)
				return h
			}},
			{name: "Highscore.Scores", args: []interface{}{full}, f: func() interface{} { return full.Scores() }},
			{name: "Highscore.MarshalJSON", args: []interface{}{full}, f: func() interface{} { b, _ := full.MarshalJSON(); return b }},
			{name: "SelectedFeatures", args: []interface{}{model}, f: func() interface{} { return fs.SelectedFeatures(model) }},
			{name: "GetDesignMatrix", args: []interface{}{model, X}, f: func() interface{} { return fs.GetDesignMatrix(model, X) }},
			{name: "Fit", args: []interface{}{X, y}, f: func() interface{} { return fs.Fit(X, y) }},
			{name: "Predict", args: []interface{}{X, co}, f: func() interface{} { return fs.Predict(X, co) }},
			{name: "MulSlice", args: []interface{}{X, co}, f: func() interface{} { return fs.MulSlice(X, co) }},
			{name: "DenumMatrixGcv", args: []interface{}{X}, f: func() interface{} { return fs.DenumMatrixGcv(X) }},
			{name: "PseudoInverse", args: []interface{}{X}, f: func() interface{} {
				var svd mat.SVD
				svd.Factorize(X, mat.SVDThin)
				return []*mat.Dense{fs.PseudoInverse(&svd, 1e-6), fs.PseudoInverseXTX(&svd, 1e-6)}
			}, parts: true},
			{name: "CovarianceMatrix", args: []interface{}{X}, f: func() interface{} { return fs.CovarianceMatrix(X) }},
			{name: "Empirical", args: []interface{}{X}, f: func() interface{} { return (&fs.Empirical{}).Get(X) }},
			{name: "Identity", args: []interface{}{X}, loose: true, f: func() interface{} { return (&fs.Identity{}).Get(X) }},
			{name: "RandomRowSplit", loose: true, parts: true, args: []interface{}{X}, f: func() interface{} {
				a, b := fs.RandomRowSplit(X, d.N/2)
				return []*mat.Dense{a, b}
			}},
			{name: "LazyPowerMatrix", args: []interface{}{X}, f: func() interface{} {
				l := fs.NewLazyMatrix(X, 2)
				return []interface{}{l.FullMatrix(), l.GetCol(0), l.GetCol(l.NumCols() - 1)}
			}, parts: true},
			{name: "RearrangeDense", args: []interface{}{X, sel}, f: func() interface{} { return fs.RearrangeDense(X, sel) }},
			{name: "IterProduct", parts: true, args: []interface{}{sel}, f: func() interface{} { return fs.IterProduct(sel, 2) }},
			{name: "FullCoeffVector", args: []interface{}{sel, co}, f: func() interface{} { return fs.FullCoeffVector(d.P, sel, co[:len(sel)]) }},
			{name: "Selected2Model", args: []interface{}{sel}, f: func() interface{} { return fs.Selected2Model(sel, d.P) }},
			{name: "WeightsFromAIC", args: []interface{}{co}, f: func() interface{} { return fs.WeightsFromAIC(co) }},
			{name: "WeightedAveragedCoeff", args: []interface{}{co, sel}, f: func() interface{} {
				return fs.WeightedAveragedCoeff(d.P, []float64{1}, []fs.SparseCoeff{{Coeff: co[:len(sel)], Selection: sel}})
			}},
			{name: "Argsort", args: []interface{}{co}, f: func() interface{} { return fs.Argsort(co) }},
			{name: "Logspace", f: func() interface{} { return fs.Logspace(0.1, 3, d.P) }},
			{name: "ToBools", f: func() interface{} {
				m := fs.NewModel(d.P)
				m.Set(lev)
				return m.ToBools()
			}},
			{name: "ToSparseCoeff", args: []interface{}{node.Model}, f: func() interface{} { return node.ToSparseCoeff().Selection }},
		})
		c.Seen(true, d.flat(), bits(model), lev)
	})
	c.Cases("lasso", c.N(500, 5000), func(i int) {
		n, p := between(c.R, 8, 24), between(c.R, 2, 7)
		if c.R.Intn(40) == 0 {
			p = between(c.R, 8, 45)
			n = p + between(c.R, 10, 100)
		}
		d := lassoData(c.R, n, p)
		nd := normOf(d)
		cov := makeCov(c.R.Intn(2), nd.X)
		corr := makeCorr(c.R, c.R.Intn(3), d.P)
		lamb := 0.02 + 0.4*c.R.Float64()
		lambs := fs.Logspace(1e-2, 0.7, between(c.R, 1, 12))
		x0 := gaussMat(c.R, 1, d.P)[0]
		keep := 0.4 + 0.5*c.R.Float64()
		ds := datasetOf(d, c.R.Intn(d.P+1))
		sel := c.R.Perm(d.P)[:between(c.R, 1, d.P)]
		maxIter := pick(c.R, 0, 1, 300)
		nodes := randomPath(c.R, d.P)
		path := &fs.LassoLarsPath{Dset: ds, LassoLarsNodes: nodes}
		path.Aicc, path.Bic = path.GetCriteria(fs.Aicc), path.GetCriteria(fs.Bic)
		text, _ := json.Marshal(path)
		dsText, _ := json.Marshal(ds)
		dir, err := os.MkdirTemp("", "c42-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		csv, js := filepath.Join(dir, "a.csv"), filepath.Join(dir, "a.json")
		ds.Save(csv)
		os.WriteFile(js, text, 0644)
		raw, _ := os.ReadFile(csv)
		c.Input(map[string]interface{}{"data": d.Brief(), "lamb": lamb, "lambs": len(lambs), "maxIter": maxIter})
		shared := &fs.MorsePenroseCD{}
		zeros := make([]float64, d.P)
		est := append([]int{}, sel...)
		if nd.HasBias { // a column of zeros cannot be active
			est = nil
			for _, s := range sel {
				if s != 0 {
					est = append(est, s)
				}
			}
			if est == nil {
				est = []int{d.P - 1}
			}
		}
		target, signs := mat.NewVecDense(d.N, d.Ycopy()), mat.NewVecDense(len(est), nil)
		for k := range est {
			signs.SetVec(k, float64(2*c.R.Intn(2)-1))
		}
		calls := []ownCall{
			{name: "LassoCrdDesc", args: []interface{}{nd, x0, corr}, f: func() interface{} {
				return fs.LassoCrdDesc(nd, lamb, cov, x0, maxIter, 1e-6, corr)
			}},
			{name: "LassoCrdDescPath", loose: true, parts: true, args: []interface{}{nd, lambs, corr}, f: func() interface{} {
				return fs.LassoCrdDescPath(nd, cov, lambs, maxIter, 1e-6, corr)
			}},
			{name: "LassoLars", parts: true, args: []interface{}{nd}, f: func() interface{} {
				return fs.LassoLars(nd, 1e-3, &fs.MorsePenroseCD{})
			}},
			{name: "C and D", parts: true, args: []interface{}{nd, sel}, f: func() interface{} {
				shared.SetX(nd.X)
				shared.SetActiveSet(est)
				return []*mat.VecDense{shared.C(target), shared.D(signs)}
			}},
			{name: "UnsatisfiedKKTConditions", args: []interface{}{x0}, f: func() interface{} {
				return fs.UnsatisfiedKKTConditions(fs.NewSliceVec(x0), zeros, zeros, 0.01, &fs.PureLasso{})
			}},
			{name: "LassoLars(same estimator)", parts: true, args: []interface{}{nd}, f: func() interface{} {
				return fs.LassoLars(nd, 1e-3, shared)
			}},
			{name: "Path2Unnormalized", parts: true, args: []interface{}{nd}, f: func() interface{} {
				p := fs.LassoLars(nd, 1e-3, &fs.MorsePenroseCD{})
				fs.Path2Unnormalized(nd, p)
				return p
			}},
			{name: "NestedLasso", parts: true, args: []interface{}{ds}, f: func() interface{} {
				return fs.NestedLasso(ds, 1e-3, keep, &fs.MorsePenroseCD{}).Paths
			}},
			{name: "NewLassoLarsNode", parts: true, args: []interface{}{x0, sel}, f: func() interface{} {
				return fs.NewLassoLarsNode(x0[:len(sel)], lamb, sel)
			}},
			{name: "GetSubset", parts: true, args: []interface{}{ds, sel}, f: func() interface{} { return ds.GetSubset(sel) }},
			{name: "Copy", parts: true, args: []interface{}{ds}, f: func() interface{} { return ds.Copy() }},
			{name: "ParseCSV", parts: true, args: []interface{}{raw}, f: func() interface{} { return fs.ParseCSV(bytes.NewReader(raw), 0) }},
			{name: "ReadCSV", parts: true, f: func() interface{} { return fs.ReadCSV(csv, 0) }},
			{name: "Dataset.MarshalJSON", args: []interface{}{ds}, f: func() interface{} { b, _ := ds.MarshalJSON(); return b }},
			{name: "Dataset.UnmarshalJSON", parts: true, args: []interface{}{dsText}, f: func() interface{} {
				var o fs.Dataset
				json.Unmarshal(dsText, &o)
				return &o
			}},
			{name: "LassoLarsPathFromBytes", parts: true, args: []interface{}{text}, f: func() interface{} { return fs.LassoLarsPathFromBytes(text) }},
			{name: "LassoLarsPathFromJSON", parts: true, f: func() interface{} { return fs.LassoLarsPathFromJSON(js) }},
			{name: "GetCriteria", args: []interface{}{path}, f: func() interface{} { return path.GetCriteria(fs.Aicc) }},
			{name: "ExtractPath", args: []interface{}{path}, f: func() interface{} { return path.ExtractPath(nodes[0].Selection[0]) }},
			{name: "PickMostRelevantFeatures", args: []interface{}{path}, f: func() interface{} { return path.PickMostRelevantFeatures(2) }},
		}
		if variedHalves(d) {
			rows := c.R.Perm(d.N)[:d.N/2]
			t := fs.NewPureLassoCohen()
			t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = nd, lamb, cov, 100, 1e-6, corr
			calls = append(calls, ownCall{name: "GetSelection", loose: true, args: []interface{}{rows, nd}, f: func() interface{} { return t.GetSelection(rows) }},
				ownCall{name: "HyperParameters", f: func() interface{} { return t.HyperParameters() }})
		}
		c.own(calls)
		c.Seen(true, d.flat(), lamb, keep)
	})
}
