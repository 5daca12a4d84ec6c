package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image/png"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/vg"
)

func init() {
	register("C34", &check{run: runC34, rule: "the command line tools built from the working tree and run as processes on generated CSV files (blanks, quotes, CRLF, every target position and sign, with and without intercept column) with varied options, into fresh files and over longer existing files; result files are decoded strictly and everything in them recomputed from the CSV values; non-trivial = a result file with at least one model"})
}

// tool runs one of the binaries that run.sh has built, in the scratch directory.
func tool(c *Ctx, dir, name string, args ...string) string {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		c.Failf("%s %v: %v: %s", name, args, err, clip(tail(out.String(), 1500), 1500))
	}
	c.Count("runs_"+name, 1)
	return out.String()
}

// pausedTool runs a tool and stops its process for a while once it has printed the
// given text.
func pausedTool(c *Ctx, dir, text string, pause time.Duration, name string, args ...string) bool {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir, "GOMAXPROCS=1")
	out := &watchedOutput{text: text, seen: make(chan bool, 1)}
	cmd.Stdout, cmd.Stderr = out, out
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	paused := false
	var err error
	select {
	case err = <-done:
	case <-out.seen:
		paused = cmd.Process.Signal(syscall.SIGSTOP) == nil
		if paused {
			// stay visibly alive: a process without any work counts as hung
			for end := time.Now().Add(pause); time.Now().Before(end); time.Sleep(400 * time.Millisecond) {
				for spin := time.Now(); time.Since(spin) < 40*time.Millisecond; {
				}
			}
			cmd.Process.Signal(syscall.SIGCONT)
		}
		err = <-done
	}
	if err != nil {
		c.Failf("%s %v: %v: %s", name, args, err, clip(tail(out.String(), 1500), 1500))
	}
	return paused && strings.Contains(out.String(), "Num. checked")
}

type watchedOutput struct {
	mu   sync.Mutex
	buf  bytes.Buffer
	text string
	seen chan bool
}

func (w *watchedOutput) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	had := strings.Contains(w.buf.String(), w.text)
	w.buf.Write(b)
	if !had && strings.Contains(w.buf.String(), w.text) {
		w.seen <- true
	}
	return len(b), nil
}

func (w *watchedOutput) String() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.buf.String()
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// csvFile writes the data with exact numbers and returns the dataset a correct
// reader obtains.
func csvFile(c *Ctx, d *Data, path string, target int) *fs.Dataset {
	ds := datasetOf(d, target)
	for j := range ds.Names {
		ds.Names[j] = genName(c.R, j)
	}
	relateNames(c.R, ds.Names)
	blanks, quotes := c.R.Intn(2) == 0, c.R.Intn(3) == 0
	eol := []string{"\n", "\r\n"}[c.R.Intn(2)]
	var sb strings.Builder
	for j, n := range ds.Names {
		if j > 0 {
			sb.WriteString(",")
		}
		if quotes {
			n = quoteCSV(n)
		}
		sb.WriteString(n)
	}
	sb.WriteString(eol)
	for r := range d.X {
		k := 0
		for j := 0; j <= d.P; j++ {
			if j > 0 {
				sb.WriteString(",")
				if blanks {
					sb.WriteString(strings.Repeat(" ", c.R.Intn(3)))
				}
			}
			v := d.Y[r]
			if j != target {
				v = d.X[r][k]
				k++
			}
			sb.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
		}
		sb.WriteString(eol)
	}
	if err := ioutil.WriteFile(path, []byte(sb.String()), 0644); err != nil {
		panic(err)
	}
	return ds
}

func runC34(c *Ctx) {
	if os.Getenv("VERIF_BIN") == "" {
		panic("VERIF_BIN is not set")
	}
	// prepare makes a scratch directory with a CSV file; the output file may
	// exist already and be longer than the result.
	prepare := func(d *Data) (dir, csv, out string, target string, ds *fs.Dataset, clean func()) {
		dir, clean = scratch(c)
		t := c.R.Intn(d.P + 1)
		csv, out = "data.csv", "result.json"
		if c.R.Intn(2) == 0 {
			csv, out = filepath.Join(dir, csv), filepath.Join(dir, out)
		}
		ds = csvFile(c, d, filepath.Join(dir, "data.csv"), t)
		target = strconv.Itoa(t)
		if c.R.Intn(2) == 0 {
			target = strconv.Itoa(t - d.P - 1)
		}
		switch c.R.Intn(3) {
		case 0:
			ioutil.WriteFile(filepath.Join(dir, "result.json"), bytes.Repeat([]byte(`{"items":[1,2,3]} `), 4000), 0644)
			c.Count("longer_file_replaced", 1)
		case 1:
			ioutil.WriteFile(filepath.Join(dir, "result.json"), []byte("{}"), 0644)
		}
		return
	}
	result := func(dir string, v interface{}) []byte {
		b, err := ioutil.ReadFile(filepath.Join(dir, "result.json"))
		if err != nil {
			c.Failf("no result file: %v", err)
		}
		dec := json.NewDecoder(bytes.NewReader(b))
		if v != nil {
			if err := dec.Decode(v); err != nil {
				c.Failf("the result file is not complete JSON: %v: %s", err, clip(string(b), 300))
			}
			if strings.TrimSpace(string(b[dec.InputOffset():])) != "" {
				c.Failf("the result file has text behind the result: %s", clip(string(b[dec.InputOffset():]), 200))
			}
		}
		return b
	}
	searchable := func() *Data {
		for {
			d := genData(c.R, between(c.R, 6, 24), between(c.R, 3, 7), safeKinds)
			if len(d.X) > 0 && wellPosed(d.X) {
				return d
			}
		}
	}

	judgeBnb := func(d *Data, dir string, tab []float64, best float64, arg, queue int, cutoff float64) {
		var raw json.RawMessage
		b := result(dir, &raw)
		n := checkSnapshot(c, d, string(b), map[string]float64{})
		if n == 0 {
			c.Failf("the result lists no model")
		}
		h := &fs.Highscore{}
		decode(c, "result", b, h)
		if h.Len() != n {
			c.Failf("the result decodes to %d entries instead of %d", h.Len(), n)
		}
		for _, nd := range listOf(h) {
			sel := selOf(nd.Model)
			want, _, small, drop := lstsq(d.Cols(sel), d.Y)
			if small > 1e-3 && drop < 1e-9 && len(sel) < d.N && !closeVec(nd.Coeff, want, 1e-5) {
				c.Failf("model %v has coefficients %v, the least-squares fit is %v", sel, nd.Coeff, want)
			}
		}
		if queue < 0 {
			if got := -h.BestScore(); got > best+math.Max(0, cutoff)+scoreTol*(1+math.Abs(best)) {
				c.Failf("the first entry has AICc %v, the smallest is %v (model %v), cutoff %v", got, best, selOf(maskModel(arg, d.P)), cutoff)
			}
		}
		if queue < 0 && cutoff < 0 {
			// a negative cutoff asks for all models that close to the optimum
			listed := map[int]bool{}
			for _, nd := range listOf(h) {
				listed[maskOf(nd.Model)] = true
			}
			var close []float64
			for m, v := range tab {
				if m > 0 && v < best-cutoff-1e-6*(1+math.Abs(best)) {
					close = append(close, v)
				}
			}
			sort.Float64s(close)
			for m, v := range tab {
				if m > 0 && !listed[m] && len(close) > 0 && v < close[0]-cutoff-1e-6*(1+math.Abs(best)) && (len(close) < 10 || v < close[9]-1e-6*(1+math.Abs(best))) {
					c.Failf("model %v with AICc %v is not listed; the smallest is %v and the cutoff %v", selOf(maskModel(m, d.P)), v, best, cutoff)
				}
			}
			c.Count("models_required_by_a_negative_cutoff", int64(len(close)))
		}
	}

	// The search saves what it has every minute. The process is stopped for a
	// minute in the middle of its search, so that it does.
	c.Cases("paused", c.N(8, 24), func(i int) {
		p := between(c.R, 11, 12)
		d := genData(c.R, 3*p+c.R.Intn(10), p, []string{"gauss"})
		tab, best, arg, ok := best1(d)
		if !ok {
			return
		}
		dir, csv, out, target, _, clean := prepare(d)
		defer clean()
		cutoff := -8 - 20*c.R.Float64()
		args := []string{"bnb", "--csv", csv, "--target", target, "--out", out, "--cutoff", strconv.FormatFloat(cutoff, 'g', -1, 64)}
		c.Input(map[string]interface{}{"data": d.Brief(), "args": args, "stopped": "61 s"})
		if pausedTool(c, dir, "Saving highscore", 61*time.Second, "goselect", args...) {
			c.Count("searches_stopped_for_a_minute", 1)
		}
		judgeBnb(d, dir, tab, best, arg, -1, cutoff)
		c.Seen(true, d.flat(), fmt.Sprint(args))
	})

	c.Cases("bnb", c.N(160, 1600), func(i int) {
		d := searchable()
		tab, best, arg, ok := best1(d)
		if !ok {
			return
		}
		dir, csv, out, target, ds, clean := prepare(d)
		defer clean()
		args := []string{"bnb", "--csv", csv, "--target", target, "--out", out}
		cutoff := 0.0
		if c.R.Intn(3) == 0 {
			cutoff = 6*c.R.Float64() - 3
			if c.R.Intn(2) == 0 {
				cutoff = -math.Exp(4 * c.R.Float64())
			}
			args = append(args, "--cutoff", strconv.FormatFloat(cutoff, 'g', -1, 64))
		}
		queue := -1
		if c.R.Intn(5) == 0 {
			queue = pick(c.R, 1, 4, 50)
			args = append(args, "--maxqueue", strconv.Itoa(queue))
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "args": args})
		tool(c, dir, "goselect", args...)
		judgeBnb(d, dir, tab, best, arg, queue, cutoff)
		_ = ds
		c.Seen(true, d.flat(), fmt.Sprint(args))
	})

	c.Cases("sasearch", c.N(80, 800), func(i int) {
		d := searchable()
		dir, csv, out, target, _, clean := prepare(d)
		defer clean()
		args := []string{"sasearch", "--csv", csv, "--target", target, "--out", out, "--sweeps", strconv.Itoa(pick(c.R, 1, 2, 5, 20))}
		c.Input(map[string]interface{}{"data": d.Brief(), "args": args})
		tool(c, dir, "goselect", args...)
		type item struct {
			Selection []int
			Coeff     []float64
			Score     float64
		}
		var res struct {
			Cap                 int
			Items               []item
			BestItem, WorstItem *item
		}
		result(dir, &res)
		if len(res.Items) == 0 || len(res.Items) > res.Cap || res.BestItem == nil || res.WorstItem == nil {
			c.Failf("the result lists %d models (capacity %d)", len(res.Items), res.Cap)
		}
		seen := map[string]bool{}
		top, low := math.Inf(-1), math.Inf(1)
		for _, it := range res.Items {
			k := fmt.Sprint(it.Selection)
			if seen[k] || len(it.Selection) == 0 {
				c.Failf("selection %s is empty or listed twice", k)
			}
			seen[k] = true
			last := -1
			for _, f := range it.Selection {
				if f <= last || f >= d.P {
					c.Failf("selection %s is not an ascending list of features", k)
				}
				last = f
			}
			want, rss, small, drop := lstsq(d.Cols(it.Selection), d.Y)
			if small < 1e-4 || drop > 1e-9 || nearFloor(rss, dot(d.Y, d.Y)) {
				top, low = math.NaN(), math.NaN()
				continue
			}
			if !closeVec(it.Coeff, want, 1e-5) {
				c.Failf("selection %s has coefficients %v, the least-squares fit is %v", k, it.Coeff, want)
			}
			if s := -refAICc(len(it.Selection), d.N, rss); !close2(s, it.Score, scoreTol) {
				c.Failf("selection %s has score %v, minus its AICc is %v", k, it.Score, s)
			}
			top, low = math.Max(top, it.Score), math.Min(low, it.Score)
		}
		if !math.IsNaN(top) && (res.BestItem.Score != top || res.WorstItem.Score != low || !seen[fmt.Sprint(res.BestItem.Selection)]) {
			c.Failf("best %v and worst %v do not match the listed models", res.BestItem, res.WorstItem)
		}
		c.Seen(true, d.flat(), fmt.Sprint(args))
	})

	c.Cases("kappa", c.N(60, 600), func(i int) { runKappaTool(c, prepare) })

	// the queue size tool: that many nodes fit into the given memory, one more does not
	c.Cases("memory", c.N(40, 200), func(i int) {
		dir, clean := scratch(c)
		defer clean()
		gb, n := pick(c.R, 0, 1, 2, 3, 7, 16, 100, 900), pick(c.R, 1, 2, 3, 10, 37, 100, 1000, 5000)
		args := []string{"-mem", strconv.Itoa(gb), "-nfeat", strconv.Itoa(n)}
		c.Input(map[string]interface{}{"args": args})
		out := tool(c, dir, "goselect-mem", args...)
		w := strings.Fields(out)
		num, err := -1, error(nil)
		if len(w) > 0 {
			num, err = strconv.Atoi(w[len(w)-1])
		}
		full := make([]bool, n) // the largest node
		for k := range full {
			full[k] = true
		}
		size := fs.NewNode(0, full).EstimateMemory()
		if size < 9*n {
			c.Failf("a node with %d features is estimated at %d bytes", n, size)
		}
		if err != nil || num < 0 || num*size > gb*1000000000 || (num+1)*size <= gb*1000000000 {
			c.Failf("the tool prints %q; a node takes %d bytes", clip(out, 200), size)
		}
		c.Count("queue_sizes_checked", 1)
		c.Seen(gb > 0, fmt.Sprint(args))
	})

	// Options left out take the values the help text gives; options that
	// cannot be understood are reported and nothing is written.
	c.Cases("options", c.N(60, 400), func(i int) { runOptions(c) })

	c.Cases("lasso", c.N(320, 3200), func(i int) {
		d := larsData(c, false)
		if c.R.Intn(2) == 0 && !strings.Contains(d.Kind, "intercept") {
			for r := range d.X {
				d.X[r][0] = 1
			}
			d.Kind += "/intercept"
		}
		if !normalizable(d) || d.N < 6 || d.P < 2 {
			return
		}
		x, y, bias := normalizedCopy(d)
		G, xy := gram(x, y)
		spec := G
		if bias {
			spec = withoutFirst(G)
		}
		if lo, hi := extremeEig(spec); lo < 1e-2*hi {
			return
		}
		dir, csv, out, target, ds, clean := prepare(d)
		defer clean()
		nested := c.R.Intn(6) == 0
		kind := []string{"lars", "cd", "cd"}[c.R.Intn(3)]
		cov := []string{"empirical", "identity", "threshold", ""}[c.R.Intn(4)]
		lmax := maxAbs(xy)
		lmin := lmax * math.Pow(10, -1-2*c.R.Float64())
		top := lmax * (0.5 + 0.7*c.R.Float64())
		num := pick(c.R, 1, 2, 5, 13, 30)
		tol := math.Pow(10, -4-5*c.R.Float64())
		f := func(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }
		args := []string{"lasso", "--csv", csv, "--target", target, "--out", out}
		if kind == "lars" {
			lmin *= float64(d.N)
			if c.R.Intn(4) > 0 {
				args = append(args, "--lmin", f(lmin))
			} else {
				lmin = 1e-10
			}
			if c.R.Intn(2) == 0 {
				args = append(args, "--type", "lars")
			}
		} else {
			args = append(args, "--type", "cd", "--lmin", f(lmin), "--lmax", f(top), "--num", strconv.Itoa(num), "--tol", f(tol))
			if cov != "" {
				args = append(args, "--cov", cov)
			}
		}
		want := func() []*fs.LassoLarsNode {
			nd := fs.NewNormalizedData(d.Dense(), d.Ycopy())
			nodes := fs.LassoLars(nd, lmin, &fs.MorsePenroseCD{})
			fs.Path2Unnormalized(nd, nodes)
			return nodes
		}
		if nested {
			keep := 0.5 + 0.4*c.R.Float64()
			lmin = lmax * float64(d.N) * 0.05
			args = []string{"-csvfile", csv, "-target", target, "-out", out, "-lambMin", f(lmin), "-keep", f(keep)}
			c.Input(map[string]interface{}{"data": d.Brief(), "args": args})
			tool(c, dir, "goselect-nestedlasso", args...)
			var res fs.NestedLassoLars
			result(dir, &res)
			exp := fs.NestedLasso(datasetOf(d, ds.TargetCol), lmin, keep, &fs.MorsePenroseCD{})
			if m := snapDset(ds).diff(res.Dset); m != "" {
				c.Failf("the dataset in the result: %s", m)
			}
			if len(res.Paths) != len(exp.Paths) {
				c.Failf("%d paths in the result, %d computed from the data", len(res.Paths), len(exp.Paths))
			}
			for k := range res.Paths {
				a, b := exp.Paths[k], res.Paths[k]
				if !closeVec(a.Aicc, b.Aicc, 1e-9) || !closeVec(a.Bic, b.Bic, 1e-9) {
					c.Failf("criteria of path %d: %v %v instead of %v %v", k, b.Aicc, b.Bic, a.Aicc, a.Bic)
				}
				samePath(c, a.Nodes, b.Nodes)
			}
			c.Seen(true, d.flat(), fmt.Sprint(args))
			return
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "args": args})
		tool(c, dir, "goselect", args...)
		var res fs.LassoLarsPath
		b := result(dir, &res)
		if res.Dset == nil {
			c.Failf("the result holds no dataset")
		}
		if m := snapDset(ds).diff(res.Dset); m != "" {
			c.Failf("the dataset in the result is not the one in the file: %s", m)
		}
		nodes := res.LassoLarsNodes
		if len(res.Aicc) != len(nodes) || len(res.Bic) != len(nodes) {
			c.Failf("%d nodes, %d AICc and %d BIC values", len(nodes), len(res.Aicc), len(res.Bic))
		}
		sx, mx := make([]float64, d.P), make([]float64, d.P)
		for j, col := range transposed(d.X) {
			sx[j], mx[j] = rstd(col), rmean(col)
		}
		my, sy := rmean(d.Y), rstd(d.Y)
		for k, n := range nodes {
			last := -1
			if len(n.Selection) == 0 || len(n.Coeff) != len(n.Selection) {
				c.Failf("node %d is malformed: %+v", k, n)
			}
			for _, j := range n.Selection {
				if j <= last || j >= d.P {
					c.Failf("node %d selects %v", k, n.Selection)
				}
				last = j
			}
			if k > 0 && nodes[k-1].Lamb < n.Lamb {
				c.Failf("the strengths are not in descending order: %v before %v", nodes[k-1].Lamb, n.Lamb)
			}
			rss := 0.0
			for r := range d.X {
				e := d.Y[r]
				for q, j := range n.Selection {
					e -= n.Coeff[q] * d.X[r][j]
				}
				rss += e * e
			}
			if !nearFloor(rss, dot(d.Y, d.Y)) {
				if a, bi := refAICc(len(n.Selection), d.N, rss), refBIC(len(n.Selection), d.N, rss); !close2(a, res.Aicc[k], scoreTol) || !close2(bi, res.Bic[k], scoreTol) {
					c.Failf("node %d has AICc %v and BIC %v, its coefficients give %v and %v", k, res.Aicc[k], res.Bic[k], a, bi)
				}
			}
			if bias {
				if n.Selection[0] != 0 {
					c.Failf("node %d has no intercept: %v", k, n.Selection)
				}
				b0 := my
				for q, j := range n.Selection[1:] {
					b0 -= n.Coeff[q+1] * mx[j]
				}
				if math.Abs(b0-n.Coeff[0]) > 1e-8*(1+math.Abs(b0)+maxAbs(n.Coeff)*maxAbs(mx)) {
					c.Failf("node %d has the intercept %v instead of %v", k, n.Coeff[0], b0)
				}
			}
		}
		if kind == "lars" {
			samePath(c, want(), nodes)
		} else if cov != "threshold" {
			// every strength of the grid is there, except those that select nothing
			C := G
			if cov == "identity" {
				C = make([][]float64, d.P)
				for a := range C {
					C[a] = make([]float64, d.P)
					C[a][a] = 1
				}
			}
			at := 0
			for g := num - 1; g >= 0; g-- {
				lamb := lmin
				if num > 1 {
					lamb = math.Exp(math.Log(lmin) + (math.Log(top)-math.Log(lmin))/float64(num-1)*float64(g))
				}
				if at < len(nodes) && close2(nodes[at].Lamb, lamb, 1e-9) {
					n := nodes[at]
					at++
					bn := make([]float64, d.P)
					for q, j := range n.Selection {
						if !bias || j != 0 {
							bn[j] = n.Coeff[q] * sx[j] / sy
						}
					}
					row := 0.0
					for a := range C {
						s := 0.0
						for _, v := range C[a] {
							s += math.Abs(v)
						}
						row = math.Max(row, s)
					}
					gap, j := kktGap(C, xy, bn, lamb, 0, 1e-16, func(j int) bool { return bias && j == 0 })
					if lim := 3*tol*maxAbs(bn)*row + 1e-8; gap > lim {
						c.Failf("strength %v: the optimality condition of column %d is violated by %v (allowed %v)", lamb, j, gap, lim)
					}
					c.Count("optimality_conditions_checked", 1)
				} else if lmax > lamb*(1+1e-9) {
					c.Failf("strength %v is missing in the result (strengths %v)", lamb, strengths(nodes))
				}
			}
			if at != len(nodes) {
				c.Failf("unexpected strengths in the result: %v", strengths(nodes))
			}
		}
		// the plotting tool draws the path from the file
		if len(nodes) >= 2 && c.R.Intn(4) == 0 {
			ok := true
			for _, n := range nodes {
				ok = ok && n.Lamb > 0
			}
			if ok {
				plotTool(c, dir, b)
			}
		}
		c.Distinct("lasso_settings", fmt.Sprint(kind, cov, bias))
		c.Max("path_length", int64(len(nodes)))
		c.Seen(len(nodes) > 0, d.flat(), fmt.Sprint(args))
	})
}

// runKappaTool checks what the kappa tool prints: every requested strength once as
// it finishes and once in the summary, the summary ordered by kappa and holding
// the same numbers.
func runKappaTool(c *Ctx, prepare func(*Data) (string, string, string, string, *fs.Dataset, func())) {
	p := between(c.R, 2, 6)
	d := genData(c.R, between(c.R, 3*p+8, 40), p, []string{"gauss", "ar", "factor", "shifted", "scaled"})
	for k := range d.Y {
		d.Y[k] += 0.1 * c.R.NormFloat64()
	}
	x, y, _ := normalizedCopy(d)
	_, xy := gram(x, y)
	dir, csv, _, target, _, clean := prepare(d)
	defer clean()
	lmax := maxAbs(xy)
	lo, hi, num := lmax*math.Pow(10, -1-2*c.R.Float64()), lmax*(0.2+0.8*c.R.Float64()), pick(c.R, 1, 2, 5, 16, 17, 20, 40)
	f := func(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }
	args := []string{"-csvfile", csv, "-target", target, "-lambMin", f(lo), "-lambMax", f(hi), "-numLamb", strconv.Itoa(num), "-numSamp", strconv.Itoa(pick(c.R, 1, 3, 10))}
	c.Input(map[string]interface{}{"data": d.Brief(), "args": args})
	out := tool(c, dir, "goselect-cohenlasso", args...)
	want := map[string]int{}
	for g := 0; g < num; g++ {
		lamb := lo
		if num > 1 {
			lamb = math.Exp(math.Log(lo) + (math.Log(hi)-math.Log(lo))/float64(num-1)*float64(g))
		}
		want[fmt.Sprintf("%.2e", lamb)]++
	}
	part := strings.SplitN(out, "SUMMARY", 2)
	if len(part) != 2 {
		c.Failf("no summary is printed: %s", clip(out, 500))
	}
	read := func(s string) (rows []string, kappas []float64) {
		for _, l := range strings.Split(s, "\n") {
			at := strings.Index(l, "Lambda:")
			if at < 0 {
				continue
			}
			w := strings.Fields(l[at:])
			if len(w) < 4 {
				c.Failf("line %q", l)
			}
			a, err1 := strconv.ParseFloat(w[1], 64)
			k, err2 := strconv.ParseFloat(w[3], 64)
			if err1 != nil || err2 != nil || !(k >= -1 && k <= 1) {
				c.Failf("line %q of the output does not hold a strength and a kappa value", l)
			}
			rows = append(rows, fmt.Sprintf("%.2e %.3f", a, k))
			kappas = append(kappas, k)
		}
		return
	}
	first, _ := read(part[0])
	sum, ks := read(part[1])
	if len(first) != num || len(sum) != num {
		c.Failf("%d strengths requested, %d reported and %d in the summary", num, len(first), len(sum))
	}
	if !sort.Float64sAreSorted(ks) {
		c.Failf("the summary is not ordered by kappa: %v", ks)
	}
	got := map[string]int{}
	for _, r := range sum {
		got[strings.Fields(r)[0]]++
	}
	// the third digit of a strength can be rounded either way
	for k, n := range got {
		v, _ := strconv.ParseFloat(k, 64)
		m := 0
		for w, q := range want {
			if u, _ := strconv.ParseFloat(w, 64); close2(u, v, 2e-3) {
				m += q
			}
		}
		if m < n {
			c.Failf("strength %s appears %d times in the summary, the requested grid is %v", k, n, want)
		}
	}
	sort.Strings(first)
	sort.Strings(sum)
	for k := range sum {
		if first[k] != sum[k] {
			c.Failf("the summary %v differs from the values reported before %v", sum, first)
		}
	}
	c.Count("kappa_lines_checked", int64(num))
	c.Seen(true, d.flat(), fmt.Sprint(args))
}

func strengths(nodes []*fs.LassoLarsNode) (r []float64) {
	for _, n := range nodes {
		r = append(r, n.Lamb)
	}
	return
}

func samePath(c *Ctx, want, got []*fs.LassoLarsNode) {
	if len(want) != len(got) {
		c.Failf("the result has %d nodes, the path of the data has %d", len(got), len(want))
	}
	for k := range want {
		a, b := want[k], got[k]
		if !close2(a.Lamb, b.Lamb, 1e-8) || !intsEqual(a.Selection, b.Selection) || !closeVec(a.Coeff, b.Coeff, 1e-7) {
			c.Failf("node %d of the result is %+v, the path of the data has %+v", k, *b, *a)
		}
	}
}

func plotTool(c *Ctx, dir string, js []byte) {
	args := []string{"-json", "result.json", "-prefix", "fig"}
	ext := []string{"png", "svg", "svg"}[c.R.Intn(3)]
	args = append(args, "-ext", ext)
	var rng *fs.AxisRange
	if c.R.Intn(2) == 0 {
		rng = &fs.AxisRange{Min: -1 - c.R.Float64(), Max: 3 + c.R.Float64()}
		switch c.R.Intn(4) {
		case 0:
			rng.Min = 0
		case 1:
			rng.Max = 0
		}
		args = append(args, "-coeffmin", strconv.FormatFloat(rng.Min, 'g', -1, 64), "-coeffmax", strconv.FormatFloat(rng.Max, 'g', -1, 64))
	}
	tool(c, dir, "goselect-plotlasso", args...)
	path := fs.LassoLarsPathFromBytes(js)
	for name, p := range map[string]*plot.Plot{"entrance": path.PlotEntranceTimes(), "quality": path.PlotQualityScores(), "dev": path.PlotDeviations(), "path": path.PlotPath(rng)} {
		b, err := ioutil.ReadFile(filepath.Join(dir, "fig_"+name+"."+ext))
		if err != nil {
			c.Failf("no %s figure: %v", name, err)
		}
		if ext == "png" {
			if _, err := png.Decode(bytes.NewReader(b)); err != nil {
				c.Failf("%s figure: %v", name, err)
			}
			continue
		}
		w, err := p.WriterTo(4*vg.Inch, 4*vg.Inch, ext)
		if err != nil {
			panic(err)
		}
		var exp bytes.Buffer
		w.WriteTo(&exp)
		if !bytes.Equal(b, exp.Bytes()) {
			c.Failf("the %s figure differs from the plot of the path in the result file", name)
		}
		c.Count("figures_compared", 1)
	}
}

// runOptions calls the tools without the options that have a default and with
// options that mean nothing.
func runOptions(c *Ctx) {
	d := genData(c.R, between(c.R, 12, 24), between(c.R, 3, 6), []string{"gauss"})
	if !wellPosed(d.X) || !normalizable(d) {
		return
	}
	dir, clean := scratch(c)
	defer clean()
	csv := []string{"data.csv", "in/data.csv"}[c.R.Intn(2)]
	if err := os.MkdirAll(filepath.Join(dir, "in"), 0755); err != nil {
		panic(err)
	}
	csvFile(c, d, filepath.Join(dir, csv), d.P)
	t := strconv.Itoa(pick(c.R, -1, d.P))
	files := func() map[string]string {
		m := map[string]string{}
		err := filepath.Walk(dir, func(name string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				if err == nil && strings.HasPrefix(fi.Name(), ".") { // HOME is set to this directory
					return filepath.SkipDir
				}
				return err
			}
			b, err := ioutil.ReadFile(name)
			rel, _ := filepath.Rel(dir, name)
			m[rel] = string(b)
			return err
		})
		if err != nil {
			panic(err)
		}
		return m
	}
	changed := func(before map[string]string) (names []string) {
		after := files()
		for k, v := range after {
			if old, ok := before[k]; !ok || old != v {
				names = append(names, k)
			}
		}
		for k := range before {
			if _, ok := after[k]; !ok {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		return
	}

	// defaults
	def := []struct {
		name, file string
		short      []string
		full       []string
		same       bool
	}{
		{"goselect", "lasso.json", []string{"lasso", "--csv", csv}, []string{"lasso", "--csv=" + csv, "--target=" + t, "--out=full.json", "--lmin=1e-10", "--type=lars"}, true},
		{"goselect", "lasso.json", []string{"lasso", "--csv", csv, "--type", "cd"}, []string{"lasso", "--csv=" + csv, "--target=" + t, "--out=full.json", "--lmin=1e-10", "--lmax=1", "--num=50", "--tol=1e-4", "--type=cd", "--cov=empirical"}, false},
		{"goselect", "bnbSearch.json", []string{"bnb", "--csv", csv}, []string{"bnb", "--csv=" + csv, "--target=" + t, "--out=full.json", "--cutoff=0", "--maxqueue=10000000"}, false},
		{"goselect", "saSearch.json", []string{"sasearch", "--csv", csv}, []string{"sasearch", "--csv=" + csv, "--target=" + t, "--out=full.json", "--sweeps=100"}, false},
		{"goselect-nestedlasso", "nesteLasso.json", []string{"-csvfile", csv}, []string{"-csvfile=" + csv, "-target=" + t, "-out=full.json", "-lambMin=1e-10", "-keep=0.8"}, true},
	}
	k := c.R.Intn(len(def))
	x := def[k]
	before := files()
	c.Input(map[string]interface{}{"data": d.Brief(), "args": x.short, "explicit": x.full})
	tool(c, dir, x.name, x.short...)
	if got := changed(before); len(got) != 1 || got[0] != x.file {
		c.Failf("%s %v wrote the files %v instead of %s", x.name, x.short, got, x.file)
	}
	before = files()
	tool(c, dir, x.name, x.full...)
	if got := changed(before); len(got) != 1 || got[0] != "full.json" {
		c.Failf("%s %v wrote the files %v instead of full.json", x.name, x.full, got)
	}
	m := files()
	a, b := m[x.file], m["full.json"]
	if !json.Valid([]byte(a)) || !json.Valid([]byte(b)) {
		c.Failf("%s %v: the result is not JSON: %s", x.name, x.short, clip(a, 200))
	}
	if x.same && !alikeJSON(c, a, b) {
		c.Failf("%s %v gives %s, with the defaults written out %s", x.name, x.short, clip(a, 300), clip(b, 300))
	}
	if x.file == "bnbSearch.json" {
		ha, hb := &fs.Highscore{}, &fs.Highscore{}
		decode(c, x.file, []byte(a), ha)
		decode(c, "full.json", []byte(b), hb)
		if ha.Len() == 0 || hb.Len() == 0 || !close2(ha.BestScore(), hb.BestScore(), scoreTol) {
			c.Failf("the search finds %v, with the defaults written out %v", ha.BestScore(), hb.BestScore())
		}
	}
	if x.file == "lasso.json" && !x.same {
		// coordinate descent visits the features in random order
		var pa, pb fs.LassoLarsPath
		decode(c, x.file, []byte(a), &pa)
		decode(c, "full.json", []byte(b), &pb)
		na, nb := pa.LassoLarsNodes, pb.LassoLarsNodes
		grid := fs.Logspace(1e-10, 1, 50)
		for _, l := range [][]*fs.LassoLarsNode{na, nb} {
			if len(l) == 0 || math.Abs(l[len(l)-1].Lamb-1e-10) > 1e-16 {
				c.Failf("the path with default strengths has %d nodes and does not end at 1e-10", len(l))
			}
			for _, n := range l {
				on := false
				for _, g := range grid {
					on = on || math.Abs(g-n.Lamb) < 1e-9*g
				}
				if !on {
					c.Failf("the path with default strengths has a node at %v", n.Lamb)
				}
			}
		}
		if math.Abs(float64(len(na)-len(nb))) > 1 {
			c.Failf("the path has %d nodes, with the defaults written out %d", len(na), len(nb))
		}
	}
	c.Count("defaults_compared", 1)

	// strengths above the whole path: nothing is selected, and the result says so
	none := []string{"lasso", "--csv", csv, "--target", t, "--out", "full.json", "--lmin", "2e3", "--lmax", "9e3"}
	if c.R.Intn(2) == 0 {
		none = append(none, "--type", "cd", "--num", strconv.Itoa(between(c.R, 1, 12)))
	} else {
		none[8] = "1e9"
	}
	c.Input(map[string]interface{}{"data": d.Brief(), "args": none})
	tool(c, dir, "goselect", none...)
	var empty fs.LassoLarsPath
	decode(c, "full.json", []byte(files()["full.json"]), &empty)
	if len(empty.Aicc) != len(empty.LassoLarsNodes) || len(empty.Bic) != len(empty.LassoLarsNodes) {
		c.Failf("%d nodes, %d AICc and %d BIC values", len(empty.LassoLarsNodes), len(empty.Aicc), len(empty.Bic))
	}
	for q, n := range empty.LassoLarsNodes {
		if len(n.Selection) != 0 || !close2(empty.Aicc[q], refAICc(0, d.N, dot(d.Y, d.Y)), scoreTol) {
			c.Failf("node %d of a path of large strengths is %+v with AICc %v", q, *n, empty.Aicc[q])
		}
	}
	c.Count("paths_without_selection", 1)

	// nothing that can be run
	out := []string{"full.json", "new.json"}[c.R.Intn(2)]
	odd := []string{"lar", "LARS", "cd ", "", "crd", "lasso"}[c.R.Intn(6)]
	oddCov := []string{"emp", "Identity", "thresh", "", "sparse", "id"}[c.R.Intn(6)]
	bad := []struct {
		name string
		args []string
		must string
		zero bool
	}{
		{"goselect", []string{"lasso", "--csv", csv, "--out", out, "--type", odd}, odd, true},
		{"goselect", []string{"lasso", "--csv", csv, "--out", out, "--type", "cd", "--cov", oddCov}, oddCov, true},
		{"goselect", []string{"lasso", "--out", out}, "", true},
		{"goselect", []string{"lasso", "--csv", csv, "--out", out, "--keep", "1"}, "keep", false},
		{"goselect", []string{"lasso", "--csv", csv, "--out", out, "--lmin", "small"}, "small", false},
		{"goselect", []string{"lasso", "--csv", csv, "--out", out, "--num", "2.5"}, "2.5", false},
		{"goselect", []string{"bnb", "--csv", csv, "--out", out, "--target", "last"}, "last", false},
		{"goselect", []string{"bnb", "--csv", csv, "--out", out, "--cutoff", "1,5"}, "1,5", false},
		{"goselect", []string{"bnb", "--csv", csv, "--out", out, "--sweeps", "3"}, "sweeps", false},
		{"goselect", []string{"sasearch", "--csv", csv, "--out", out, "--sweeps", "1.5"}, "1.5", false},
		{"goselect", []string{"sasearch", "--csv", csv, "--out"}, "out", false},
		{"goselect", []string{"search", "--csv", csv, "--out", out}, "search", false},
		{"goselect-nestedlasso", []string{"-csvfile", csv, "-out", out, "-keep", "most"}, "most", false},
		{"goselect-nestedlasso", []string{"-csv", csv, "-out", out}, "csv", false},
	}
	for _, j := range c.R.Perm(len(bad))[:5] {
		y := bad[j]
		before = files()
		c.Input(map[string]interface{}{"data": d.Brief(), "args": y.args})
		rc, text := toolRC(c, dir, y.name, y.args...)
		if got := changed(before); len(got) > 0 {
			c.Failf("%s %q changed %v: %s", y.name, y.args, got, clip(text, 300))
		}
		if rc == 0 && !y.zero {
			c.Failf("%s %q exits with status 0: %s", y.name, y.args, clip(text, 300))
		}
		if strings.TrimSpace(text) == "" || !strings.Contains(text, y.must) || strings.Contains(text, "goroutine ") {
			c.Failf("%s %q does not say what is wrong: %s", y.name, y.args, clip(text, 300))
		}
		c.Count("meaningless_options", 1)
	}
	c.Seen(true, d.flat(), fmt.Sprint(x.short), out)
}

// alikeJSON compares two JSON texts up to rounding.
func alikeJSON(c *Ctx, a, b string) bool {
	var x, y interface{}
	decode(c, "result", []byte(a), &x)
	decode(c, "result", []byte(b), &y)
	return sameTree(x, y)
}

func sameTree(x, y interface{}) bool {
	switch u := x.(type) {
	case map[string]interface{}:
		v, ok := y.(map[string]interface{})
		if !ok || len(u) != len(v) {
			return false
		}
		for k := range u {
			if _, has := v[k]; !has || !sameTree(u[k], v[k]) {
				return false
			}
		}
		return true
	case []interface{}:
		v, ok := y.([]interface{})
		if !ok || len(u) != len(v) {
			return false
		}
		for k := range u {
			if !sameTree(u[k], v[k]) {
				return false
			}
		}
		return true
	case float64:
		v, ok := y.(float64)
		return ok && close2(u, v, 1e-9)
	}
	return x == y
}
