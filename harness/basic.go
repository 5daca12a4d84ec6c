package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"sync"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C06", &check{run: runC06, rule: "random insertion histories (1-400 insertions, capacities 1-64, up to 4000 insertions into 5000 places, 7 score patterns with ties) checked after every insertion against the multiset of everything inserted; concurrent inserters with unique nodes checked at the end; non-trivial = more insertions than capacity or ties"})
	register("C10", &check{run: runC10, rule: "random histories of leaderboard insertions (capacity 1-12, unique coefficients per selection, repeats, ties) checked after every insertion against the sorted set of everything inserted; non-trivial = an insertion into a full board"})
	register("C12", &check{run: runC12, rule: "random (k, n, r) incl. 0, subnormal, floor-adjacent and huge residuals: definition, finiteness, monotonicity in k and r; scores of exact fits produced by searches; non-trivial = distinct triple"})
	register("C23", &check{run: runC23, rule: "all pairs of subsets for N <= 5 and random pairs up to N = 60 in random order: definition from the two rating vectors, symmetry, order independence, 1 iff equal; non-trivial = both selections non-empty"})
	register("C33", &check{run: runC33, rule: "random criterion lists (offsets to 1e8), random sparse models; recomputed weights, averages, full vectors, node conversion; non-trivial = at least two models"})
	register("C35", &check{run: runC35, rule: "random operation sequences on bit sets of 1-400 positions against []bool, views against direct indexing (transposed, in products), and helper functions against plain definitions; non-trivial = size above 1"})
}

func mkNode(r *rand.Rand, score float64) *fs.Node {
	n := fs.NewNode(r.Intn(5), genModel(r, 6, 0.5))
	n.Score = score
	return n
}

func genScores(r *rand.Rand, n int) []float64 {
	s := make([]float64, n)
	style := r.Intn(8)
	for i := range s {
		switch style {
		case 0:
			s[i] = 100 * r.NormFloat64()
		case 1:
			s[i] = float64(r.Intn(4))
		case 2:
			s[i] = float64(i)
		case 3:
			s[i] = -float64(i)
		case 4:
			s[i] = 7
		case 5:
			s[i] = -float64(i / 3)
		case 6:
			s[i] = float64(i / 3)
		case 7:
			s[i] = []float64{-math.MaxFloat64, -1e100, 0, 1e-300, math.MaxFloat64, -5, 5}[r.Intn(7)]
		}
	}
	return s
}

func listOf(h *fs.Highscore) (r []*fs.Node) {
	for e := h.Items.Front(); e != nil; e = e.Next() {
		r = append(r, e.Value.(*fs.Node))
	}
	return
}

func checkHighscore(c *Ctx, h *fs.Highscore, capa int, inserted map[*fs.Node]int, scores []float64) {
	items := listOf(h)
	if len(items) > capa || h.Len() != len(items) {
		c.Failf("the list holds %d entries (Len %d), its capacity is %d", len(items), h.Len(), capa)
	}
	all := append([]float64{}, scores...)
	sort.Sort(sort.Reverse(sort.Float64Slice(all)))
	need := capa - 1
	if need < 1 {
		need = 1
	}
	if need > len(all) {
		need = len(all)
	}
	if len(items) < need {
		c.Failf("the list holds %d entries after %d insertions with capacity %d", len(items), len(all), capa)
	}
	times := map[*fs.Node]int{}
	for i, n := range items {
		if i > 0 && items[i-1].Score < n.Score {
			c.Failf("out of order: %v before %v", items[i-1].Score, n.Score)
		}
		if inserted[n] == 0 {
			c.Failf("the list contains a node that was never inserted")
		}
		times[n]++
		if times[n] > inserted[n] {
			c.Failf("a node inserted %d times is listed %d times", inserted[n], times[n])
		}
		if n.Score != all[i] {
			c.Failf("score number %d is %v, the best inserted scores are %v (capacity %d)", i, n.Score, all[:len(items)], capa)
		}
	}
	if h.BestScore() != all[0] {
		c.Failf("best score is %v, the maximum inserted is %v", h.BestScore(), all[0])
	}
	sc := h.Scores()
	if len(sc) != len(items) {
		c.Failf("Scores() has length %d, the list %d", len(sc), len(items))
	}
	for i := range sc {
		if sc[i] != items[i].Score {
			c.Failf("Scores() = %v", sc)
		}
	}
}

func runC06(c *Ctx) {
	c.Cases("history", c.N(40000, 400000), func(i int) {
		capa := pick(c.R, 1, 1, 2, 2, 3, 4, 5, 10, 64)
		n := 1 + c.R.Intn(pick(c.R, 4, 20, 80))
		sc := genScores(c.R, n)
		c.Input(map[string]interface{}{"capacity": capa, "scores": fmt.Sprint(sc)})
		h := fs.NewHighscore(capa)
		ins := map[*fs.Node]int{}
		var nodes []*fs.Node
		var done []float64
		best := math.Inf(-1)
		full := false
		for k, s := range sc {
			nd := mkNode(c.R, s)
			if k > 0 && c.R.Intn(10) == 0 {
				nd = nodes[c.R.Intn(k)]
			}
			nodes = append(nodes, nd)
			full = full || h.Len() >= capa-1
			ins[nd]++
			done = append(done, nd.Score)
			h.Insert(nd)
			if h.BestScore() < best {
				c.Failf("best score fell from %v to %v", best, h.BestScore())
			}
			best = h.BestScore()
			checkHighscore(c, h, capa, ins, done)
			c.Count("insertions", 1)
		}
		c.Seen(full || n > 3, sc, capa)
	})
	c.Cases("long", c.N(400, 4000), func(i int) {
		capa, num := pick(c.R, 2, 10, 50, 300), 2000
		if i%100 == 17 {
			capa, num = pick(c.R, 1500, 5000), 4000
		}
		sc := genScores(c.R, num)
		h := fs.NewHighscore(capa)
		ins := map[*fs.Node]int{}
		for _, s := range sc {
			nd := mkNode(c.R, s)
			ins[nd]++
			h.Insert(nd)
		}
		c.Input(map[string]interface{}{"capacity": capa, "first_scores": fmt.Sprint(sc[:10]), "insertions": len(sc)})
		checkHighscore(c, h, capa, ins, sc)
		c.Count("insertions", int64(len(sc)))
		c.Seen(true, sc, capa)
	})
	c.Cases("concurrent", c.N(600, 2000), func(i int) {
		capa := pick(c.R, 1, 2, 5, 20)
		h := fs.NewHighscore(capa)
		ins := map[*fs.Node]int{}
		var all []float64
		var parts [][]*fs.Node
		for w := 0; w < 4; w++ {
			var p []*fs.Node
			for _, s := range genScores(c.R, 40) {
				nd := mkNode(c.R, s)
				ins[nd]++
				all = append(all, s)
				p = append(p, nd)
			}
			parts = append(parts, p)
		}
		var wg sync.WaitGroup
		msg := make(chan string, 8)
		stop := make(chan bool)
		rd := make(chan bool)
		go func() {
			defer close(rd)
			last := math.Inf(-1)
			var pace pacer
			for {
				if h.Len() > 0 {
					if b := h.BestScore(); b < last {
						msg <- fmt.Sprintf("best score fell from %v to %v", last, b)
						return
					} else {
						last = b
					}
				}
				select {
				case <-stop:
					return
				default:
					if pace.yield() {
						<-stop
						return
					}
				}
			}
		}()
		for _, p := range parts {
			wg.Add(1)
			go func(p []*fs.Node) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						msg <- fmt.Sprint("panic: ", r)
					}
				}()
				for _, nd := range p {
					h.Insert(nd)
				}
			}(p)
		}
		wg.Wait()
		close(stop)
		<-rd
		select {
		case m := <-msg:
			c.Failf("concurrent insertions: %s", m)
		default:
		}
		c.Input(map[string]interface{}{"capacity": capa, "concurrent_scores": fmt.Sprint(all)})
		checkHighscore(c, h, capa, ins, all)
		c.Count("insertions", int64(len(all)))
		c.Seen(true, all, capa)
	})
}

type saRec struct {
	sel   []int
	coeff []float64
	score float64
}

func runC10(c *Ctx) {
	c.Cases("history", c.N(40000, 400000), func(i int) {
		capa := pick(c.R, 1, 1, 2, 3, 4, 10, 12)
		n := 1 + c.R.Intn(pick(c.R, 6, 30, 80))
		p := between(c.R, 2, 9)
		if c.R.Intn(2500) == 0 {
			p = between(c.R, 10, 140)
			capa = pick(c.R, 10, 40, 200)
			n = between(c.R, 50, 300)
		}
		sc := genScores(c.R, n)
		if c.R.Intn(3) == 0 {
			for k := range sc {
				sc[k] = 10 * c.R.NormFloat64()
			}
		}
		board := fs.NewSAScore(capa)
		known := map[string]saRec{}
		var hist, keys []string
		insFull := false
		for k := 0; k < n; k++ {
			m := genModel(c.R, p, 0.5)
			if k > 0 && c.R.Intn(5) == 0 { // repeat an earlier one
				b := keys[c.R.Intn(len(keys))]
				for j := range m {
					m[j] = b[j] == '1'
				}
				if c.R.Intn(2) == 0 { // one feature exchanged for another
					a, b := c.R.Intn(p), c.R.Intn(p)
					m[a], m[b] = m[b], m[a]
				}
			}
			key := bits(m)
			keys = append(keys, key)
			rec, rep := known[key]
			if !rep {
				rec.sel = selOf(m)
				rec.coeff = make([]float64, len(rec.sel))
				for j := range rec.coeff {
					rec.coeff[j] = c.R.NormFloat64()
				}
				rec.score = sc[k]
			}
			it := fs.NewSAItem(m)
			if len(it.Coeff) != len(rec.sel) || !intsEqual(it.Selection, rec.sel) {
				c.Failf("NewSAItem(%s) selects %v with %d coefficients", key, it.Selection, len(it.Coeff))
			}
			copy(it.Coeff, rec.coeff)
			it.Score = rec.score
			listed := false
			var before []saRec
			for _, x := range board.Items {
				if intsEqual(x.Selection, rec.sel) {
					listed = true
				}
				before = append(before, saRec{append([]int{}, x.Selection...), append([]float64{}, x.Coeff...), x.Score})
			}
			if board.Exists(it) != listed {
				c.Failf("Exists = %v for %v, listed = %v", board.Exists(it), rec.sel, listed)
			}
			known[key] = rec
			hist = append(hist, fmt.Sprintf("%s:%g", key, rec.score))
			insFull = insFull || len(board.Items) >= capa
			c.Input(map[string]interface{}{"capacity": capa, "insertions": hist})
			board.Insert(it)
			if listed {
				if len(before) != len(board.Items) {
					c.Failf("re-inserting %v changed the number of items from %d to %d", rec.sel, len(before), len(board.Items))
				}
				for j, x := range board.Items {
					if !intsEqual(x.Selection, before[j].sel) || !bitEqual(x.Coeff, before[j].coeff) || x.Score != before[j].score {
						c.Failf("re-inserting %v changed item %d", rec.sel, j)
					}
				}
			}
			checkBoard(c, board, capa, known)
			c.Count("insertions", 1)
		}
		c.Seen(insFull, fmt.Sprint(hist), capa)
	})
}

func checkBoard(c *Ctx, board *fs.SAScore, capa int, known map[string]saRec) {
	var all []float64
	for _, r := range known {
		all = append(all, r.score)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(all)))
	want := len(all)
	if want > capa {
		want = capa
	}
	if len(board.Items) != want {
		c.Failf("the board lists %d items, expected %d (capacity %d, %d distinct selections)", len(board.Items), want, capa, len(all))
	}
	var got []float64
	seen := map[string]bool{}
	key := func(sel []int) (string, bool) {
		for k, r := range known {
			if intsEqual(r.sel, sel) {
				return k, true
			}
		}
		return "", false
	}
	same := func(it *fs.SAItem, what string) float64 {
		if it == nil {
			c.Failf("%s is not set", what)
		}
		k, ok := key(it.Selection)
		if !ok {
			c.Failf("%s has selection %v, which was never inserted", what, it.Selection)
		}
		r := known[k]
		if it.Score != r.score {
			c.Failf("%s %v has score %v, it was inserted with %v", what, it.Selection, it.Score, r.score)
		}
		if !bitEqual(it.Coeff, r.coeff) {
			c.Failf("%s %v has coefficients %v, it was inserted with %v", what, it.Selection, it.Coeff, r.coeff)
		}
		return it.Score
	}
	for i, it := range board.Items {
		got = append(got, same(it, fmt.Sprintf("item %d", i)))
		k := fmt.Sprint(it.Selection)
		if seen[k] {
			c.Failf("selection %v is listed twice", it.Selection)
		}
		seen[k] = true
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(got)))
	for i := range got {
		if got[i] != all[i] {
			c.Failf("listed scores %v, the best distinct scores inserted are %v", got, all[:want])
		}
	}
	if s := same(board.BestItem, "the best marker"); s != got[0] {
		c.Failf("the best marker has score %v, the best listed is %v", s, got[0])
	}
	if s := same(board.WorstItem, "the worst marker"); s != got[len(got)-1] {
		c.Failf("the worst marker has score %v, the worst listed is %v", s, got[len(got)-1])
	}
	if !seen[fmt.Sprint(board.WorstItem.Selection)] || !seen[fmt.Sprint(board.BestItem.Selection)] {
		c.Failf("a marker points to a selection that is not listed")
	}
}

func runC12(c *Ctx) {
	genR := func() float64 {
		switch c.R.Intn(8) {
		case 0:
			return 0
		case 1:
			return math.SmallestNonzeroFloat64
		case 2:
			return 1e-12 * math.Exp(c.R.NormFloat64()*1e-3)
		case 3:
			return 1e-12
		case 4:
			return math.MaxFloat64
		case 5:
			return math.Pow(10, 600*c.R.Float64()-300)
		}
		return math.Exp(6 * c.R.NormFloat64())
	}
	fin := func(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }
	c.Cases("values", c.N(2000, 20000), func(i int) {
		for rep := 0; rep < 200; rep++ {
			n := between(c.R, 2, pick(c.R, 5, 30, 1000, 100000))
			k := c.R.Intn(n + 3)
			if c.R.Intn(3) == 0 {
				k = n - 3 + c.R.Intn(6)
				if k < 0 {
					k = 0
				}
			}
			r := genR()
			c.Input(map[string]interface{}{"k": k, "n": n, "r": fmt.Sprint(r)})
			a, ac, b := fs.Aic(k, n, r), fs.Aicc(k, n, r), fs.Bic(k, n, r)
			for j, p := range [][2]float64{{a, refAIC(k, n, r)}, {ac, refAICc(k, n, r)}, {b, refBIC(k, n, r)}} {
				if !close2(p[0], p[1], 1e-12) || !fin(p[0]) {
					c.Failf("%s(k=%d, n=%d, r=%v) = %v, expected %v", []string{"AIC", "AICc", "BIC"}[j], k, n, r, p[0], p[1])
				}
			}
			if !(fs.Aic(k+1, n, r) > a) || !(fs.Aicc(k+1, n, r) > ac) || !(fs.Bic(k+1, n, r) > b) {
				c.Failf("a criterion does not increase from k=%d to k=%d (n=%d, r=%v)", k, k+1, n, r)
			}
			r2 := r * (1 + 1e-3*(1+c.R.Float64()))
			if r >= 1e-12 && fin(r2) {
				if !(fs.Aic(k, n, r2) > a) || !(fs.Aicc(k, n, r2) > ac) || !(fs.Bic(k, n, r2) > b) {
					c.Failf("a criterion does not increase from r=%v to r=%v (k=%d, n=%d)", r, r2, k, n)
				}
			}
			c.Seen(true, k, n, r)
		}
	})
	// Exactly fitting models must not produce infinite scores in any search
	c.Cases("exactfit", c.N(240, 2400), func(i int) {
		p := between(c.R, 3, 6)
		n := between(c.R, 6, 16)
		d := &Data{N: n, P: p, Kind: "exact"}
		d.X = genX(c.R, []string{"integer", "binary", "gauss", "intercept"}[c.R.Intn(4)], n, p)
		d.Y = make([]float64, n)
		j, f := c.R.Intn(p), float64(1+c.R.Intn(3))
		if c.R.Intn(4) == 0 {
			f = 0
		}
		for r := range d.Y {
			d.Y[r] = f * d.X[r][j]
		}
		c.Input(map[string]interface{}{"data": d.Brief()})
		checkFinite := func(what string, v float64) {
			if !fin(v) {
				c.Failf("%s produced the score %v", what, v)
			}
		}
		h := fs.NewHighscore(50)
		var sp fs.SearchProgress
		fs.SelectModel(d.Dense(), d.Ycopy(), h, &sp, nil)
		for _, e := range entriesOf(h) {
			checkFinite("branch and bound", e.Score)
			checkFinite("branch and bound (lower bound)", e.Lower)
			checkFinite("branch and bound (upper bound)", e.Upper)
		}
		for _, e := range entriesOf(fs.BruteForceSelect(d.Dense(), d.Ycopy())) {
			checkFinite("exhaustive search", e.Score)
		}
		for k, cr := range []func(int, int, float64) float64{fs.Aic, fs.Aicc, fs.Bic} {
			if i%8 == k {
				res := fs.SelectModelSA(d.Dense(), d.Ycopy(), 5, cr)
				for _, it := range res.Scores.Items {
					checkFinite("annealing", it.Score)
				}
			}
			var path fs.LassoLarsPath
			path.Dset = &fs.Dataset{X: d.Dense(), Y: d.Ycopy()}
			path.LassoLarsNodes = []*fs.LassoLarsNode{fs.NewLassoLarsNode([]float64{f}, 1, []int{j})}
			checkFinite("path criterion", path.GetCriteria(cr)[0])
		}
		c.Seen(true, d.flat())
	})
}

func runC23(c *Ctx) {
	ref := func(a, b []bool) float64 {
		n := float64(len(a))
		var yy, y1, y2, nn float64
		for i := range a {
			if a[i] && b[i] {
				yy++
			}
			if !a[i] && !b[i] {
				nn++
			}
			if a[i] {
				y1++
			}
			if b[i] {
				y2++
			}
		}
		po := (yy + nn) / n
		pe := (y1/n)*(y2/n) + (1-y1/n)*(1-y2/n)
		if yy+nn == n {
			return 1
		}
		return (po - pe) / (1 - pe)
	}
	shuf := func(s []int) []int {
		r := append([]int{}, s...)
		c.R.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
		return r
	}
	one := func(a, b []bool) {
		n := len(a)
		s1, s2 := shuf(selOf(a)), shuf(selOf(b))
		k1, k2 := append([]int{}, s1...), append([]int{}, s2...)
		c.Input(map[string]interface{}{"N": n, "s1": s1, "s2": s2})
		got := fs.CohenKappa(s1, s2, n)
		want := ref(a, b)
		if math.IsNaN(got) || math.IsInf(got, 0) || !close2(got, want, 1e-12) {
			c.Failf("kappa(%v, %v, %d) = %v, expected %v", s1, s2, n, got, want)
		}
		if got > 1 || (bits(a) == bits(b)) != (got == 1) {
			c.Failf("kappa(%v, %v, %d) = %v: exactly 1 must mean equal selections", s1, s2, n, got)
		}
		if g2 := fs.CohenKappa(s2, s1, n); !close2(g2, got, 1e-13) {
			c.Failf("kappa is not symmetric: %v and %v", got, g2)
		}
		if g3 := fs.CohenKappa(shuf(s1), shuf(s2), n); !close2(g3, got, 1e-13) {
			c.Failf("kappa depends on the order: %v and %v", got, g3)
		}
		if !intsEqual(s1, k1) || !intsEqual(s2, k2) {
			c.Failf("computing kappa changed a selection")
		}
		c.Seen(len(s1) > 0 && len(s2) > 0, n, bits(a), bits(b))
	}
	c.Cases("all", 5, func(i int) {
		n := i + 1
		for a := 0; a < 1<<uint(n); a++ {
			for b := 0; b < 1<<uint(n); b++ {
				one(maskModel(a, n), maskModel(b, n))
			}
		}
	})
	c.Cases("random", c.N(4000, 40000), func(i int) {
		for k := 0; k < 60; k++ {
			n := between(c.R, 1, pick(c.R, 8, 60))
			da, db := c.R.Float64(), c.R.Float64()
			if i%400 == 7 && k < 4 { // almost all or almost none of many features
				n = between(c.R, 300, 6000)
				da, db = 3*da/float64(n), 3*db/float64(n)
				if c.R.Intn(2) == 0 {
					da, db = 1-da, 1-db
				}
			}
			a := genModel(c.R, n, da)
			b := genModel(c.R, n, db)
			switch c.R.Intn(8) {
			case 0:
				copy(b, a)
			case 1:
				for j := range b {
					b[j] = !a[j]
				}
			case 2:
				for j := range a {
					a[j] = true
				}
			case 3:
				copy(b, a)
				j := c.R.Intn(n)
				b[j] = !b[j]
			}
			one(a, b)
		}
	})
}

func runC33(c *Ctx) {
	c.Cases("weights", c.N(4000, 40000), func(i int) {
		for rep := 0; rep < 30; rep++ {
			n := 1 + c.R.Intn(pick(c.R, 4, 40))
			if c.R.Intn(400) == 0 {
				n = between(c.R, 41, 3000)
			}
			a := make([]float64, n)
			off := 0.0
			if c.R.Intn(2) == 0 {
				off = math.Pow(10, 13*c.R.Float64()) * float64(1-2*c.R.Intn(2))
			}
			sc := pickF(c.R, 0.1, 1, 10, 2000)
			for j := range a {
				a[j] = sc * c.R.NormFloat64()
				if j > 0 && c.R.Intn(6) == 0 {
					a[j] = a[j-1]
				}
			}
			shifted := make([]float64, n)
			for j := range a {
				shifted[j] = a[j] + off
			}
			keep := append([]float64{}, shifted...)
			c.Input(map[string]interface{}{"criterion": shifted})
			w := fs.WeightsFromAIC(shifted)
			if !bitEqual(keep, shifted) {
				c.Failf("the criterion values were modified")
			}
			mn := math.Inf(1)
			for _, v := range shifted {
				mn = math.Min(mn, v)
			}
			sum, tot := 0.0, 0.0
			for _, v := range shifted {
				tot += math.Exp(-(v - mn))
			}
			for j := range w {
				if !(w[j] >= 0) || !close2(w[j], math.Exp(-(shifted[j]-mn))/tot, 1e-12) {
					c.Failf("weight %d is %v, expected %v", j, w[j], math.Exp(-(shifted[j]-mn))/tot)
				}
				sum += w[j]
			}
			if !close2(sum, 1, 1e-10) || len(w) != n {
				c.Failf("%d weights sum to %v", len(w), sum)
			}
			w0 := fs.WeightsFromAIC(append([]float64{}, a...))
			if !closeVec(w, w0, 1e-9+1e-14*math.Abs(off)*sc+1e-15*math.Abs(off)*10) {
				c.Failf("adding %v to all values changed the weights from %v to %v", off, w0, w)
			}
			c.Seen(n > 1, shifted)
		}
	})
	c.Cases("average", c.N(4000, 40000), func(i int) {
		for rep := 0; rep < 30; rep++ {
			p := between(c.R, 1, 12)
			m := c.R.Intn(8)
			m, p = c.grow(m, p, 300, 300, 500)
			w := make([]float64, m)
			sp := make([]fs.SparseCoeff, m)
			want := make([]float64, p)
			for j := range w {
				w[j] = c.R.Float64()
				sel := selOf(genModel(c.R, p, c.R.Float64()))
				c.R.Shuffle(len(sel), func(a, b int) { sel[a], sel[b] = sel[b], sel[a] })
				co := make([]float64, len(sel))
				for k := range co {
					co[k] = 10 * c.R.NormFloat64()
					want[sel[k]] += w[j] * co[k]
				}
				sp[j] = fs.SparseCoeff{Coeff: co, Selection: sel}
				full := fs.FullCoeffVector(p, sel, co)
				fw := make([]float64, p)
				for k := range co {
					fw[sel[k]] = co[k]
				}
				c.Input(map[string]interface{}{"p": p, "selection": sel, "coeff": co})
				if !bitEqual(full, fw) {
					c.Failf("full coefficient vector %v, expected %v", full, fw)
				}
			}
			c.Input(map[string]interface{}{"p": p, "weights": w, "models": sp})
			got := fs.WeightedAveragedCoeff(p, w, sp)
			if !closeVec(got, want, 1e-12) {
				c.Failf("averaged coefficients %v, expected %v", got, want)
			}
			if m > 0 && Try(func() { fs.WeightedAveragedCoeff(p, w[:m-1], sp) }) == nil {
				c.Failf("%d weights for %d models were accepted", m-1, m)
			}
			model := genModel(c.R, p, 0.5)
			nd := fs.NewNode(c.R.Intn(p+1), model)
			sel := selOf(model)
			if len(nd.Coeff) != len(sel) || bits(nd.Model) != bits(model) {
				c.Failf("new node has %d coefficients for model %s", len(nd.Coeff), bits(model))
			}
			for k := range nd.Coeff {
				nd.Coeff[k] = c.R.NormFloat64()
			}
			s := nd.ToSparseCoeff()
			if !intsEqual(s.Selection, sel) || !bitEqual(s.Coeff, nd.Coeff) {
				c.Failf("sparse form of %s is %v %v", bits(model), s.Selection, s.Coeff)
			}
			c.Seen(m > 1, want)
		}
	})
}

func pickF(r *rand.Rand, v ...float64) float64 { return v[r.Intn(len(v))] }

func runC35(c *Ctx) {
	c.Cases("bitset", c.N(8000, 12000), func(i int) {
		size := between(c.R, 1, pick(c.R, 4, 9, 20, 70, 400))
		if c.R.Intn(3) == 0 {
			size = pick(c.R, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 256)
		}
		m := fs.NewModel(size)
		ref := make([]bool, size)
		c.Input(map[string]interface{}{"size": size})
		for k := 0; k < 200; k++ {
			j := c.R.Intn(size)
			if c.R.Intn(4) == 0 {
				j = size - 1
			}
			switch c.R.Intn(3) {
			case 0:
				m.Set(j)
				ref[j] = true
			case 1:
				m.Flip(j)
				ref[j] = !ref[j]
			case 2:
				if m.Get(j) != ref[j] {
					c.Failf("bit %d of %d is %v, expected %v", j, size, m.Get(j), ref[j])
				}
			}
			if k%20 == 19 {
				if b := m.ToBools(); bits(b) != bits(ref) {
					c.Failf("set is %s, expected %s", bits(b), bits(ref))
				}
			}
			c.Count("operations", 1)
		}
		for j := range ref {
			if m.Get(j) != ref[j] {
				c.Failf("bit %d of %d is %v, expected %v", j, size, m.Get(j), ref[j])
			}
		}
		c.Seen(size > 1, size, bits(ref))
	})
	c.Cases("views", c.N(15000, 25000), func(i int) {
		n, p := c.grow(between(c.R, 1, 9), between(c.R, 1, 9), 200, 100, 200)
		x := gaussMat(c.R, n, p)
		d := &Data{N: n, P: p, X: x}
		X := d.Dense()
		k := between(c.R, 1, 8)
		idx := make([]int, k)
		for j := range idx {
			idx[j] = c.R.Intn(p)
		}
		c.Input(map[string]interface{}{"n": n, "p": p, "columns": idx})
		var base mat.Matrix = X
		if c.R.Intn(2) == 0 {
			base = opaque{X}
		}
		v := fs.NewIndexedColView(base, idx)
		want := make([][]float64, n)
		for a := range want {
			want[a] = make([]float64, k)
			for b := range idx {
				want[a][b] = x[a][idx[b]]
			}
		}
		chk := func(what string, m mat.Matrix, w [][]float64) {
			r, cc := m.Dims()
			if r != len(w) || cc != len(w[0]) {
				c.Failf("%s has dimension %dx%d, expected %dx%d", what, r, cc, len(w), len(w[0]))
			}
			for a := range w {
				for b := range w[a] {
					if m.At(a, b) != w[a][b] {
						c.Failf("%s: element (%d,%d) is %v, expected %v", what, a, b, m.At(a, b), w[a][b])
					}
				}
			}
		}
		chk("column view", &v, want)
		chk("transposed column view", v.T(), transposed(want))
		chk("twice transposed column view", v.T().T(), want)
		right := gaussMat(c.R, k, 3)
		var prod mat.Dense
		prod.Mul(&v, (&Data{N: k, P: 3, X: right}).Dense())
		wp := matMul(want, right)
		for a := range wp {
			if !closeVec(prod.RawRowView(a), wp[a], 1e-12) {
				c.Failf("product with a column view is wrong in row %d", a)
			}
		}
		left := gaussMat(c.R, 2, n)
		var gram mat.Dense
		gram.Mul(v.T(), (&Data{N: 2, P: n, X: left}).Dense().T())
		wg := matMul(transposed(want), transposed(left))
		for a := range wg {
			if !closeVec(gram.RawRowView(a), wg[a], 1e-12) {
				c.Failf("product with a transposed column view is wrong in row %d", a)
			}
		}
		// vector view
		rows := make([]int, between(c.R, 1, 8))
		vec := make([]float64, n)
		for a := range vec {
			vec[a] = c.R.NormFloat64()
		}
		wv := make([][]float64, len(rows))
		flat := make([]float64, len(rows))
		for a := range rows {
			rows[a] = c.R.Intn(n)
			flat[a] = vec[rows[a]]
			wv[a] = []float64{flat[a]}
		}
		vv := fs.NewIndexedColVecView(mat.NewVecDense(n, append([]float64{}, vec...)), rows)
		chk("vector view", vv, wv)
		chk("transposed vector view", vv.T(), transposed(wv))
		if vv.Len() != len(rows) {
			c.Failf("vector view has length %d, expected %d", vv.Len(), len(rows))
		}
		for a := range rows {
			if vv.AtVec(a) != flat[a] {
				c.Failf("vector view element %d is %v, expected %v", a, vv.AtVec(a), flat[a])
			}
		}
		A := gaussMat(c.R, 3, len(rows))
		res := mat.NewVecDense(3, nil)
		res.MulVec((&Data{N: 3, P: len(rows), X: A}).Dense(), vv)
		if !closeVec(res.RawVector().Data, matVec(A, flat), 1e-12) {
			c.Failf("product with a vector view is wrong")
		}
		sv := fs.NewSliceVec(flat)
		chk("slice vector", sv, wv)
		chk("transposed slice vector", sv.T(), transposed(wv))
		if sv.Len() != len(flat) {
			c.Failf("slice vector has length %d", sv.Len())
		}
		for a := range flat {
			if sv.AtVec(a) != flat[a] {
				c.Failf("slice vector element %d is %v", a, sv.AtVec(a))
			}
		}
		res.MulVec((&Data{N: 3, P: len(rows), X: A}).Dense(), sv)
		if !closeVec(res.RawVector().Data, matVec(A, flat), 1e-12) {
			c.Failf("product with a slice vector is wrong")
		}
		c.Seen(n > 1 && p > 1, x[0], idx, rows)
	})
	c.Cases("helpers", c.N(20000, 30000), func(i int) {
		n := between(c.R, 1, pick(c.R, 3, 12, 60))
		n, _ = c.grow(n, 1, 3000, 1, 300)
		if i%10000 == 11 {
			n = between(c.R, 66000, 80000)
		}
		f := make([]float64, n)
		ints := make([]int, n)
		for j := range f {
			f[j] = 10 * c.R.NormFloat64()
			ints[j] = c.R.Intn(20) - 10
			if c.R.Intn(3) == 0 {
				f[j] = float64(c.R.Intn(4) - 2)
			}
		}
		if c.R.Intn(6) == 0 {
			for j := range f {
				f[j] = -math.Abs(f[j]) - 1
				ints[j] = -5 - c.R.Intn(1000000)
			}
		}
		if c.R.Intn(8) == 0 {
			for j := range f {
				f[j] = 3
			}
		}
		keepF, keepI := append([]float64{}, f...), append([]int{}, ints...)
		c.Input(map[string]interface{}{"floats": f, "ints": ints})
		fmin, fmax := math.Inf(1), math.Inf(-1)
		imin, imax := math.MaxInt32, math.MinInt32
		isum := 0
		for j := range f {
			fmin, fmax = math.Min(fmin, f[j]), math.Max(fmax, f[j])
			if ints[j] < imin {
				imin = ints[j]
			}
			if ints[j] > imax {
				imax = ints[j]
			}
			isum += ints[j]
		}
		if a := fs.Argmin(f); f[a] != fmin {
			c.Failf("Argmin = %d", a)
		}
		if a := fs.Argmax(f); f[a] != fmax {
			c.Failf("Argmax = %d", a)
		}
		if fs.MinFloat(f) != fmin || fs.MaxInt(ints) != imax || fs.MinInt(ints) != imin || fs.Sum(ints) != isum {
			c.Failf("MinFloat %v MaxInt %v MinInt %v Sum %v, expected %v %v %v %v", fs.MinFloat(f), fs.MaxInt(ints), fs.MinInt(ints), fs.Sum(ints), fmin, imax, imin, isum)
		}
		srt := fs.Argsort(f)
		used := make([]bool, n)
		for j, v := range srt {
			if v < 0 || v >= n || used[v] {
				c.Failf("Argsort is not a permutation: %v", srt)
			}
			used[v] = true
			if j > 0 && f[srt[j-1]] > f[v] {
				c.Failf("Argsort does not sort: %v", srt)
			}
		}
		if len(srt) != n {
			c.Failf("Argsort has length %d", len(srt))
		}
		val := ints[c.R.Intn(n)] + c.R.Intn(2)*c.R.Intn(5)
		ex, al := false, true
		for _, v := range ints {
			ex = ex || v == val
			al = al && v == val
		}
		if fs.ExistInt(ints, val) != ex || fs.All(ints, val) != al {
			c.Failf("ExistInt/All(%d) = %v/%v, expected %v/%v", val, fs.ExistInt(ints, val), fs.All(ints, val), ex, al)
		}
		same := make([]int, n)
		for j := range same {
			same[j] = val
		}
		if !fs.All(same, val) {
			c.Failf("All is false for equal elements")
		}
		oth := append([]int{}, ints...)
		if !fs.EqualInt(ints, oth) {
			c.Failf("EqualInt is false for equal slices")
		}
		oth[c.R.Intn(n)]++
		if fs.EqualInt(ints, oth) || fs.EqualInt(ints, append(append([]int{}, ints...), 1)) || fs.EqualInt(ints, ints[:n-1]) {
			c.Failf("EqualInt is true for different slices")
		}
		// union
		b := make([]int, c.R.Intn(15))
		for j := range b {
			b[j] = c.R.Intn(25) - 10
		}
		a0 := c.R.Perm(12)[:c.R.Intn(12)]
		want := append([]int{}, a0...)
		for _, v := range b {
			f := false
			for _, w := range want {
				f = f || w == v
			}
			if !f {
				want = append(want, v)
			}
		}
		bk := append([]int{}, b...)
		if got := fs.UnionInt(append([]int{}, a0...), b); !intsEqual(got, want) || !intsEqual(b, bk) {
			c.Failf("UnionInt(%v, %v) = %v, expected %v", a0, bk, got, want)
		}
		// selections
		p := between(c.R, 1, 40)
		_, p = c.grow(n, p, n, 700, 60)
		model := genModel(c.R, p, c.R.Float64())
		sel := selOf(model)
		if got := fs.SelectedFeatures(model); !intsEqual(got, sel) {
			c.Failf("SelectedFeatures(%s) = %v", bits(model), got)
		}
		if fs.NumFeatures(model) != len(sel) {
			c.Failf("NumFeatures(%s) = %d", bits(model), fs.NumFeatures(model))
		}
		c.R.Shuffle(len(sel), func(i, j int) { sel[i], sel[j] = sel[j], sel[i] })
		if got := fs.Selected2Model(sel, p); bits(got) != bits(model) {
			c.Failf("Selected2Model(%v, %d) = %s", sel, p, bits(got))
		}
		st := c.R.Intn(p + 1)
		g, l := fs.Gcs(model, st), fs.Lcs(model, st)
		for j := range model {
			wg, wl := model[j], model[j]
			if j >= st {
				wg, wl = true, false
			}
			if g[j] != wg || l[j] != wl || len(g) != p || len(l) != p {
				c.Failf("Gcs/Lcs(%s, %d) = %s/%s", bits(model), st, bits(g), bits(l))
			}
		}
		// grids
		lo, num := math.Exp(4*c.R.NormFloat64()), c.R.Intn(30)
		if c.R.Intn(8) == 0 {
			lo = math.Pow(10, -300*c.R.Float64())
		}
		hi := lo * math.Exp(5*c.R.Float64())
		if c.R.Intn(8) == 0 {
			hi = math.Pow(10, 300*c.R.Float64())
		}
		ls := fs.Logspace(lo, hi, num)
		if len(ls) != num {
			c.Failf("Logspace has length %d, expected %d", len(ls), num)
		}
		for j, v := range ls {
			w := lo
			if num > 1 {
				w = math.Exp(math.Log(lo) + (math.Log(hi)-math.Log(lo))*float64(j)/float64(num-1))
			}
			if !(math.Abs(v-w) <= 1e-10*w) && !(v < 1e-290 && w < 1e-290) {
				c.Failf("Logspace(%v, %v, %d)[%d] = %v, expected %v", lo, hi, num, j, v, w)
			}
		}
		// statistics
		if !close2(fs.Mean(f), rmean(f), 1e-12) || (n > 1 && !close2(fs.Std(f), rstd(f), 1e-10)) || (n == 1 && fs.Std(f) != 0) {
			c.Failf("Mean %v Std %v, expected %v %v", fs.Mean(f), fs.Std(f), rmean(f), rstd(f))
		}
		ab := fs.Abs(append([]float64{}, f...))
		for j := range ab {
			if ab[j] != math.Abs(f[j]) || len(ab) != n {
				c.Failf("Abs(%v) = %v", f, ab)
			}
		}
		if !bitEqual(keepF, f) || !intsEqual(keepI, ints) {
			c.Failf("a helper modified its argument")
		}
		c.Seen(n > 1, f, ints)
	})
	c.Cases("rearrange", c.N(10000, 15000), func(i int) {
		n, p := between(c.R, 1, 6), between(c.R, 1, 9)
		x := gaussMat(c.R, n, p)
		k := c.R.Intn(p + 1)
		order := c.R.Perm(p)[:k]
		in := append([]int{}, order...)
		for len(in) < p && c.R.Intn(2) == 0 {
			in = append(in, -1) // unused positions at the end
		}
		full := append([]int{}, order...)
		for j := 0; j < p; j++ {
			f := false
			for _, v := range order {
				f = f || v == j
			}
			if !f {
				full = append(full, j)
			}
		}
		X := (&Data{N: n, P: p, X: x}).Dense()
		c.Input(map[string]interface{}{"order": in, "p": p})
		R := fs.RearrangeDense(X, in)
		for a := 0; a < n; a++ {
			for b := 0; b < p; b++ {
				if R.At(a, b) != x[a][full[b]] {
					c.Failf("column %d of the rearranged matrix is not column %d of the original (order %v)", b, full[b], in)
				}
				if X.At(a, b) != x[a][b] {
					c.Failf("rearranging modified the matrix")
				}
			}
		}
		if r, cc := R.Dims(); r != n || cc != p {
			c.Failf("rearranged matrix is %dx%d", r, cc)
		}
		c.Seen(p > 1, x[0], in)
	})
	// node helpers
	c.Cases("nodes", c.N(12000, 20000), func(i int) {
		p := between(c.R, 1, 20)
		_, p = c.grow(1, p, 1, 700, 60)
		model := genModel(c.R, p, 0.5)
		lev := c.R.Intn(p)
		nd := fs.NewNode(lev, model)
		c.Input(map[string]interface{}{"model": bits(model), "level": lev})
		for _, flip := range []bool{false, true} {
			ch := nd.GetChildNode(flip)
			want := append([]bool{}, model...)
			if flip {
				want[lev] = !want[lev]
			}
			if bits(ch.Model) != bits(want) || ch.Level != lev+1 || ch.WasFlipped != flip {
				c.Failf("child (flip %v) is %s level %d flipped %v", flip, bits(ch.Model), ch.Level, ch.WasFlipped)
			}
			ch.Model[0] = !ch.Model[0]
			if bits(nd.Model) != bits(model) {
				c.Failf("the child shares memory with its parent")
			}
		}
		a, b := fs.NewNode(lev, model), fs.NewNode(lev, model)
		a.Score, b.Score = 3, 3
		if !fs.NodesEqual(a, b) {
			c.Failf("equal nodes are reported as different")
		}
		switch c.R.Intn(6) {
		case 0:
			b.Score++
		case 1:
			b.Lower--
		case 2:
			b.Upper++
		case 3:
			b.Level++
		case 4:
			b.Model[c.R.Intn(p)] = !b.Model[0]
			if bits(a.Model) == bits(b.Model) {
				b.Level++
			}
		case 5:
			if len(b.Coeff) == 0 {
				b.Score++
			} else {
				b.Coeff[c.R.Intn(len(b.Coeff))] += 0.5
			}
		}
		if fs.NodesEqual(a, b) || fs.NodesEqual(b, a) {
			c.Failf("different nodes are reported as equal")
		}
		c.Seen(p > 1, bits(model), lev)
	})
}

var _ = json.Marshal
