package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C25", &check{run: runC25, rule: "CSV texts built from known values (blanks and tabs around numbers, quoted fields, CRLF, blank lines, every decimal notation, 2-3000 columns, up to several hundred rows and well past 4096 bytes), every target column from -ncol to ncol-1, read through readers that return 1 byte, random chunks, data together with EOF, or from a file; non-trivial = at least two rows"})
	register("C26", &check{run: runC26, rule: "datasets of 1-400 rows (rarely 70000) with negative, large, tiny and integer values, names with commas, quotes, blanks and line feeds, every target position, written to a file, a buffer and writers that take short pieces or fail, then read back; the bytes handed over at the moment of return are counted and the dataset is compared bit by bit; non-trivial = more than one row"})
	register("C27", &check{run: runC27, rule: "nodes, highscore lists (built by insertion, by exhaustive and branch-and-bound search including exact fits), datasets and lasso paths from LARS, coordinate descent and random generation with extreme floats, encoded alone, nested and as values, decoded into fresh and used objects and compared bit by bit; non-trivial = something to encode"})
	register("C28", &check{run: runC28, rule: "datasets parsed from text, decoded from JSON or built directly with every target position; names, lookups, subsets (any order, repeated use, subsets of subsets), copies and equality with single perturbed fields; non-trivial = at least two features"})
}

// chunkReader hands out the text in pieces.
type chunkReader struct {
	data []byte
	mode int // 0 one byte, 1 random, 2 everything together with EOF, 3 empty reads in between
	r    *rand.Rand
	last bool
}

func (k *chunkReader) Read(p []byte) (int, error) {
	if len(k.data) == 0 {
		return 0, io.EOF
	}
	n := len(k.data)
	switch k.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + k.r.Intn(700)
	case 3:
		if k.last = !k.last; k.last {
			return 0, nil
		}
		n = 1 + k.r.Intn(50)
	}
	if n > len(k.data) {
		n = len(k.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, k.data[:n])
	k.data = k.data[n:]
	if len(k.data) == 0 && k.mode == 2 {
		return n, io.EOF
	}
	return n, nil
}

func genName(r *rand.Rand, i int) string {
	base := []string{"Age", "Height", "x", "feature name", "größe", "a-b", "p.1", "col_", "#", "# ", ";", "//", "%d", "x'"}[r.Intn(14)]
	return base + strconv.Itoa(i)
}

// relateNames makes some names alike: differing in case only, in a blank, or one
// being the beginning or the end of the other.
func relateNames(r *rand.Rand, names []string) {
	used := map[string]bool{}
	for _, n := range names {
		used[n] = true
	}
	for k := r.Intn(3); k > 0; k-- {
		a, b := r.Intn(len(names)), r.Intn(len(names))
		n := names[a]
		if n == "" {
			continue
		}
		switch r.Intn(5) {
		case 0:
			n = strings.ToUpper(n)
		case 1:
			n = strings.ToLower(n)
		case 2:
			n = n[:len(n)-1]
		case 3:
			n += "_"
		case 4:
			n = "z" + n
		}
		if a != b && n != "" && !used[n] {
			used[n] = true
			names[b] = n
		}
	}
}

// genNumber returns a decimal text and the value it denotes.
func genNumber(r *rand.Rand) (string, float64) {
	var s string
	switch r.Intn(11) {
	case 0:
		s = strconv.Itoa(r.Intn(2000) - 1000)
	case 1:
		s = strconv.FormatFloat(r.NormFloat64(), 'g', -1, 64)
	case 2:
		s = strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(40)-20)), 'e', -1, 64)
	case 3:
		s = fmt.Sprintf("%f", 100*r.NormFloat64())
	case 4:
		s = "+" + strconv.FormatFloat(math.Abs(r.NormFloat64()), 'f', 3, 64)
	case 5:
		s = strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(40)-20)), 'E', 4, 64)
	case 6:
		s = "0"
	case 7:
		s = "." + strconv.Itoa(1+r.Intn(999))
	case 8:
		s = strconv.Itoa(r.Intn(99)) + "."
	case 9:
		s = "-0." + strings.Repeat("0", r.Intn(8)) + strconv.Itoa(1+r.Intn(99))
	default:
		s = "00" + strconv.Itoa(r.Intn(99)) + ".50"
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return s, v
}

func quoteCSV(s string) string { return `"` + strings.Replace(s, `"`, `""`, -1) + `"` }

// scratch makes a directory for files of this case.
func scratch(c *Ctx) (string, func()) {
	dir, err := ioutil.TempDir("", "verif-files-")
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func runC25(c *Ctx) {
	c.Cases("parse", c.N(6000, 60000), func(i int) {
		nc := between(c.R, 2, 9)
		nr := between(c.R, 1, 12)
		switch c.R.Intn(12) {
		case 0:
			nc = between(c.R, 10, 40)
		case 1:
			nr = between(c.R, 60, 400)
		}
		if i%3000 == 7 { // several megabytes
			nc, nr = between(c.R, 20, 40), between(c.R, 8000, 14000)
		}
		if i%1000 == 8 {
			nc, nr = between(c.R, 200, 3000), between(c.R, 1, 4)
		}
		blanks := c.R.Intn(3) // none, some, always
		quoted := c.R.Intn(3)
		eol := []string{"\n", "\r\n"}[c.R.Intn(2)]
		lastEOL := c.R.Intn(3) != 0
		emptyLines := c.R.Intn(6) == 0
		names := make([]string, nc)
		var sb strings.Builder
		for j := range names {
			names[j] = genName(c.R, j)
			if c.R.Intn(12) == 0 {
				names[j] = "a,b\"" + strconv.Itoa(j)
			}
		}
		if c.R.Intn(4) == 0 {
			relateNames(c.R, names)
		}
		for j := range names {
			t := names[j]
			if quoted > 0 && c.R.Intn(2) == 0 || strings.ContainsAny(t, ",\"") {
				t = quoteCSV(t)
			}
			if j > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(t)
		}
		sb.WriteString(eol)
		vals := make([][]float64, nr)
		for r := range vals {
			vals[r] = make([]float64, nc)
			if emptyLines && c.R.Intn(3) == 0 {
				sb.WriteString(eol)
			}
			for j := range vals[r] {
				t, v := genNumber(c.R)
				vals[r][j] = v
				if blanks == 2 || blanks == 1 && c.R.Intn(2) == 0 {
					t = strings.Repeat(" ", c.R.Intn(4)) + t + strings.Repeat(" ", c.R.Intn(4))
					if c.R.Intn(5) == 0 {
						t = "\t" + t + "\t"
					}
				}
				if quoted == 2 && c.R.Intn(3) == 0 {
					t = quoteCSV(t)
				}
				if j > 0 {
					sb.WriteString(",")
				}
				sb.WriteString(t)
			}
			if r+1 < nr || lastEOL {
				sb.WriteString(eol)
			}
		}
		text := sb.String()
		target := between(c.R, -nc, nc-1)
		how := c.R.Intn(6)
		c.Input(map[string]interface{}{"text": clip(text, 1500), "bytes": len(text), "target": target, "reader": how})
		var d *fs.Dataset
		switch how {
		case 4:
			d = fs.ParseCSV(strings.NewReader(text), target)
		case 5:
			dir, clean := scratch(c)
			defer clean()
			f := filepath.Join(dir, "in.csv")
			ioutil.WriteFile(f, []byte(text), 0644)
			d = fs.ReadCSV(f, target)
			if b, _ := ioutil.ReadFile(f); string(b) != text {
				c.Failf("reading changed the file")
			}
		default:
			d = fs.ParseCSV(&chunkReader{data: []byte(text), mode: how, r: c.R}, target)
		}
		if d == nil {
			c.Failf("no dataset was returned")
		}
		t := target
		if t < 0 {
			t += nc
		}
		if d.TargetCol != t {
			c.Failf("target column %d of %d columns became %d", target, nc, d.TargetCol)
		}
		if len(d.Names) != nc {
			c.Failf("%d names for %d columns", len(d.Names), nc)
		}
		for j := range names {
			if d.Names[j] != names[j] {
				c.Failf("name %d is %q, the header says %q", j, d.Names[j], names[j])
			}
		}
		gr, gc := d.X.Dims()
		if gr != nr || gc != nc-1 || len(d.Y) != nr {
			c.Failf("the text has %d rows and %d columns, the dataset is %dx%d with %d targets", nr, nc, gr, gc, len(d.Y))
		}
		for r := range vals {
			k := 0
			for j, v := range vals[r] {
				var got float64
				if j == t {
					got = d.Y[r]
				} else {
					got = d.X.At(r, k)
					k++
				}
				if got != v {
					c.Failf("row %d column %d: read %v, the text says %v", r, j, got, v)
				}
			}
		}
		if target < 0 {
			c.Count("negative_targets", 1)
		}
		if len(text) > 4096 {
			c.Count("texts_beyond_4096_bytes", 1)
		}
		c.Max("bytes", int64(len(text)))
		c.Count("fields_compared", int64(nr*nc))
		c.Distinct("reader_and_format", fmt.Sprint(how, blanks, quoted, eol, lastEOL, emptyLines))
		c.Seen(nr >= 2, text, target, how)
	})
}

// countWriter takes at most max bytes per write (as a correct writer it reports
// what it took), and may fail once a number of bytes has been taken.
type countWriter struct {
	buf   bytes.Buffer
	calls int
}

func (w *countWriter) Write(p []byte) (int, error) {
	w.calls++
	return w.buf.Write(p)
}

type failWriter struct{ left int }

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("full")
	}
	w.left -= len(p)
	return len(p), nil
}

type dsetCopy struct {
	x      []float64
	nr, nc int
	y      []float64
	names  []string
	target int
}

func snapDset(d *fs.Dataset) dsetCopy {
	s := dsetCopy{y: append([]float64{}, d.Y...), names: append([]string{}, d.Names...), target: d.TargetCol}
	s.nr, s.nc = d.X.Dims()
	s.x = flatten(rowsOf(d.X))
	return s
}

func (s dsetCopy) diff(d *fs.Dataset) string {
	nr, nc := d.X.Dims()
	switch {
	case nr != s.nr || nc != s.nc:
		return fmt.Sprintf("shape %dx%d instead of %dx%d", nr, nc, s.nr, s.nc)
	case !bitEqual(s.x, flatten(rowsOf(d.X))):
		return "features differ"
	case !bitEqual(s.y, d.Y):
		return "target differs"
	case d.TargetCol != s.target:
		return fmt.Sprintf("target column %d instead of %d", d.TargetCol, s.target)
	case len(d.Names) != len(s.names):
		return "number of names differs"
	}
	for i := range s.names {
		if s.names[i] != d.Names[i] {
			return fmt.Sprintf("name %d is %q instead of %q", i, d.Names[i], s.names[i])
		}
	}
	return ""
}

// genDset builds a dataset directly; simple names are unique and plain.
func genDset(c *Ctx, maxRows int, plain bool) *fs.Dataset {
	nr, p := between(c.R, 1, 9), between(c.R, 1, 7)
	if c.R.Intn(10) == 0 {
		nr = between(c.R, 1, maxRows)
	}
	if c.R.Intn(20) == 0 {
		p = between(c.R, 8, 40)
	}
	if c.R.Intn(150) == 0 {
		p = between(c.R, 41, 150)
	}
	switch c.R.Intn(3000) {
	case 0:
		p, nr = between(c.R, 151, 2000), between(c.R, 1, 4)
	case 1:
		if maxRows > 100 {
			p, nr = between(c.R, 1, 3), between(c.R, 4000, 70000)
		}
	}
	d := &fs.Dataset{Y: make([]float64, nr), TargetCol: c.R.Intn(p + 1), Names: make([]string, p+1)}
	val := func() float64 {
		switch c.R.Intn(8) {
		case 0:
			return float64(c.R.Intn(21) - 10)
		case 1:
			return c.R.NormFloat64() * 1e-6
		case 2:
			return c.R.NormFloat64() * 1e9
		case 3:
			return 0
		case 4:
			return float64(c.R.Intn(2001)-1000) * 0.5e-6
		}
		return c.R.NormFloat64()
	}
	x := make([][]float64, nr)
	for i := range x {
		x[i] = make([]float64, p)
		for j := range x[i] {
			x[i][j] = val()
		}
		d.Y[i] = val()
	}
	if c.R.Intn(4) == 0 { // a view into a larger matrix
		big := mat.NewDense(nr+2, p+3, nil)
		for i := range x {
			for j := range x[i] {
				big.Set(i+1, j+2, x[i][j])
			}
		}
		d.X = big.Slice(1, nr+1, 2, p+2).(*mat.Dense)
	} else {
		d.X = denseOf(x)
	}
	for j := range d.Names {
		d.Names[j] = genName(c.R, j)
		if !plain && c.R.Intn(4) == 0 {
			d.Names[j] = []string{"a,b", "say \"hi\"", " lead", "trail ", "two\nlines", "# hash", "", "tab\there", "\"", "1.5"}[c.R.Intn(10)]
		}
	}
	if c.R.Intn(2) == 0 {
		relateNames(c.R, d.Names)
	}
	return d
}

func runC26(c *Ctx) {
	c.Cases("roundtrip", c.N(6000, 60000), func(i int) {
		d := genDset(c, 400, false)
		s := snapDset(d)
		how := c.R.Intn(4)
		c.Input(map[string]interface{}{"rows": s.nr, "features": s.nc, "target": s.target, "names": s.names, "x": clipF(s.x, 60), "y": clipF(s.y, 20), "writer": how})
		var text []byte
		switch how {
		case 0:
			var b bytes.Buffer
			d.SaveHandle(&b)
			text = append(text, b.Bytes()...)
		case 1:
			w := &countWriter{}
			d.SaveHandle(w)
			text = append(text, w.buf.Bytes()...)
		case 2:
			dir, clean := scratch(c)
			defer clean()
			f := filepath.Join(dir, "out.csv")
			if c.R.Intn(2) == 0 { // an existing longer file is replaced
				ioutil.WriteFile(f, bytes.Repeat([]byte("9,9,9\n"), 20000), 0644)
			}
			d.Save(f)
			text, _ = ioutil.ReadFile(f)
			back := fs.ReadCSV(f, s.target)
			checkRead(c, s, back)
		case 3: // twice into one writer of a failing kind, then for real
			d.SaveHandle(&failWriter{left: c.R.Intn(50)})
			if m := s.diff(d); m != "" {
				c.Failf("saving to a failing writer changed the dataset: %s", m)
			}
			var b bytes.Buffer
			d.SaveHandle(&b)
			text = append(text, b.Bytes()...)
		}
		if m := s.diff(d); m != "" {
			c.Failf("saving changed the dataset: %s", m)
		}
		t := s.target
		if c.R.Intn(2) == 0 {
			t -= s.nc + 1
		}
		back := fs.ParseCSV(&chunkReader{data: text, mode: 1 + c.R.Intn(2), r: c.R}, t)
		checkRead(c, s, back)
		c.Count("values_compared", int64(s.nr*(s.nc+1)))
		c.Max("bytes", int64(len(text)))
		if len(text) > 4096 {
			c.Count("texts_beyond_4096_bytes", 1)
		}
		c.Distinct("target_positions", fmt.Sprint(s.target, s.nc))
		c.Seen(s.nr > 1, s.x, s.y, s.target, how)
	})
}

func clipF(v []float64, n int) []float64 {
	if len(v) > n {
		return v[:n]
	}
	return v
}

func checkRead(c *Ctx, s dsetCopy, back *fs.Dataset) {
	if back == nil {
		c.Failf("nothing could be read back")
	}
	nr, nc := back.X.Dims()
	if nr != s.nr || nc != s.nc || len(back.Y) != s.nr {
		c.Failf("saved %dx%d, read back %dx%d with %d targets", s.nr, s.nc, nr, nc, len(back.Y))
	}
	if back.TargetCol != s.target {
		c.Failf("target column %d read back as %d", s.target, back.TargetCol)
	}
	if len(back.Names) != len(s.names) {
		c.Failf("%d names saved, %d read back", len(s.names), len(back.Names))
	}
	for j := range s.names {
		if back.Names[j] != s.names[j] {
			c.Failf("name %d %q read back as %q", j, s.names[j], back.Names[j])
		}
	}
	for i := 0; i < nr; i++ {
		if !six(back.Y[i], s.y[i]) {
			c.Failf("target of row %d: %v saved, %v read back", i, s.y[i], back.Y[i])
		}
		for j := 0; j < nc; j++ {
			if !six(back.X.At(i, j), s.x[i*nc+j]) {
				c.Failf("row %d feature %d: %v saved, %v read back", i, j, s.x[i*nc+j], back.X.At(i, j))
			}
		}
	}
}

// six tells that got is v to the six decimals written.
func six(got, v float64) bool {
	return math.Abs(got-v) <= 0.5000001e-6+math.Abs(v)*1e-15
}

func sameModel(a, b []bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func bitF(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func nodeDiff(a, b *fs.Node) string {
	switch {
	case b == nil:
		return "node is missing"
	case !sameModel(a.Model, b.Model):
		return fmt.Sprintf("model %v became %v", selOf(a.Model), selOf(b.Model))
	case !bitEqual(a.Coeff, b.Coeff):
		return fmt.Sprintf("coefficients %v became %v", a.Coeff, b.Coeff)
	case a.Level != b.Level:
		return fmt.Sprintf("level %d became %d", a.Level, b.Level)
	case !bitF(a.Score, b.Score) || !bitF(a.Lower, b.Lower) || !bitF(a.Upper, b.Upper):
		return fmt.Sprintf("score, lower, upper %v %v %v became %v %v %v", a.Score, a.Lower, a.Upper, b.Score, b.Lower, b.Upper)
	}
	return ""
}

// wildFloat covers the range of finite numbers, including signed zero and
// subnormals.
func wildFloat(r *rand.Rand) float64 {
	switch r.Intn(9) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return math.MaxFloat64 * (2*r.Float64() - 1)
	case 3:
		return math.SmallestNonzeroFloat64 * float64(1+r.Intn(1000))
	case 4:
		return float64(r.Intn(200) - 100)
	case 5:
		return 1.0 / 3 * float64(r.Intn(100))
	case 6:
		for {
			if v := math.Float64frombits(r.Uint64()); !math.IsNaN(v) && !math.IsInf(v, 0) {
				return v
			}
		}
	}
	return r.NormFloat64()
}

func wildNode(r *rand.Rand, p int) *fs.Node {
	n := fs.NewNode(r.Intn(p+1), genModel(r, p, r.Float64()))
	for j := range n.Coeff {
		n.Coeff[j] = wildFloat(r)
	}
	n.Lower, n.Upper, n.Score = wildFloat(r), wildFloat(r), wildFloat(r)
	n.WasFlipped = r.Intn(2) == 0
	return n
}

func mustJSON(c *Ctx, what string, v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		c.Failf("%s cannot be encoded: %v", what, err)
	}
	if !json.Valid(b) {
		c.Failf("%s: the encoding is not valid JSON", what)
	}
	return b
}

func decode(c *Ctx, what string, b []byte, v interface{}) {
	if err := json.Unmarshal(b, v); err != nil {
		c.Failf("%s cannot be decoded: %v: %s", what, err, clip(string(b), 300))
	}
}

func checkListJSON(c *Ctx, h *fs.Highscore) {
	before := listOf(h)
	b := mustJSON(c, "highscore list", h)
	var g *fs.Highscore
	switch c.R.Intn(3) {
	case 0:
		g = &fs.Highscore{}
	case 1:
		g = fs.NewHighscore(3)
		g.Insert(wildNode(c.R, 4))
		g.Insert(wildNode(c.R, 4))
	default:
		g = fs.NewHighscore(h.MaxItems)
	}
	decode(c, "highscore list", b, g)
	if g.MaxItems != h.MaxItems {
		c.Failf("capacity %d became %d", h.MaxItems, g.MaxItems)
	}
	after := listOf(g)
	if len(after) != len(before) || h.Len() != len(before) || g.Len() != len(after) {
		c.Failf("a list of %d entries (capacity %d) became one of %d", len(before), h.MaxItems, len(after))
	}
	for k := range before {
		if m := nodeDiff(before[k], after[k]); m != "" {
			c.Failf("entry %d of %d: %s", k, len(before), m)
		}
	}
	if !h.Equal(g) || !g.Equal(h) {
		big := false
		for _, n := range before {
			if maxAbs([]float64{n.Lower, n.Upper, n.Score}) > 1e300 {
				big = true
			}
		}
		if !big {
			c.Failf("the decoded list is not Equal to the original")
		}
	}
	if !bitF(h.BestScore(), g.BestScore()) || !bitEqual(h.Scores(), g.Scores()) {
		c.Failf("scores differ after decoding")
	}
	// the decoded list still works as a list
	if len(before) > 0 {
		n := wildNode(c.R, 3)
		n.Score = math.Inf(1)
		g.Insert(n)
		if g.BestScore() != n.Score || g.Len() > g.MaxItems {
			c.Failf("the decoded list does not accept a better entry")
		}
	}
	if len(before) == h.MaxItems {
		c.Count("full_lists", 1)
	}
	c.Max("list_length", int64(len(before)))
}

func pathDiff(a, b *fs.LassoLarsPath) string {
	if b.Dset == nil {
		return "dataset is missing"
	}
	if m := snapDset(a.Dset).diff(b.Dset); m != "" {
		return m
	}
	if len(a.LassoLarsNodes) != len(b.LassoLarsNodes) {
		return fmt.Sprintf("%d nodes became %d", len(a.LassoLarsNodes), len(b.LassoLarsNodes))
	}
	for i, n := range a.LassoLarsNodes {
		m := b.LassoLarsNodes[i]
		if m == nil || !bitF(n.Lamb, m.Lamb) || !bitEqual(n.Coeff, m.Coeff) || !intsEqual(n.Selection, m.Selection) {
			return fmt.Sprintf("node %d %+v became %+v", i, n, m)
		}
	}
	if !bitEqual(a.Aicc, b.Aicc) || !bitEqual(a.Bic, b.Bic) {
		return fmt.Sprintf("criteria %v %v became %v %v", a.Aicc, a.Bic, b.Aicc, b.Bic)
	}
	return ""
}

func runC27(c *Ctx) {
	c.Cases("node", c.N(6000, 60000), func(i int) {
		_, p := c.grow(0, between(c.R, 0, 20), 0, 600, 300)
		n := wildNode(c.R, p)
		c.Input(map[string]interface{}{"model": selOf(n.Model), "p": p, "coeff": n.Coeff, "score": n.Score})
		b := mustJSON(c, "node", n)
		m := &fs.Node{}
		if c.R.Intn(2) == 0 {
			_, q := c.grow(0, between(c.R, 0, 25), 0, 600, 300)
			m = wildNode(c.R, q)
		}
		decode(c, "node", b, m)
		if s := nodeDiff(n, m); s != "" {
			c.Failf("%s (JSON %s)", s, clip(string(b), 300))
		}
		if b2 := mustJSON(c, "node", m); !bytes.Equal(b, b2) {
			c.Failf("encoding again gives something else: %s, %s", b, b2)
		}
		c.Seen(p > 0, string(b))
	})
	c.Cases("list", c.N(3000, 30000), func(i int) {
		capa := between(c.R, 1, 9)
		if c.R.Intn(6) == 0 {
			capa, _ = c.grow(between(c.R, 10, 60), 0, 1200, 0, 20)
		}
		h := fs.NewHighscore(capa)
		n := between(c.R, 0, 2*capa+2)
		sc := genScores(c.R, n)
		_, p := c.grow(0, between(c.R, 1, 10), 0, 150, 200)
		for k := 0; k < n; k++ {
			nd := wildNode(c.R, p)
			if c.R.Intn(2) == 0 {
				nd.Score = sc[k]
			}
			h.Insert(nd)
		}
		c.Input(map[string]interface{}{"capacity": capa, "inserted": n, "scores": h.Scores()})
		checkListJSON(c, h)
		c.Distinct("fill_levels", fmt.Sprint(h.Len(), capa))
		c.Seen(n > 0, capa, h.Scores(), n)
	})
	c.Cases("equality", c.N(4000, 40000), func(i int) {
		// nodes and lists that differ in one field only
		_, p := c.grow(0, between(c.R, 1, 12), 0, 300, 300)
		tame := func() *fs.Node {
			n := fs.NewNode(c.R.Intn(p+1), genModel(c.R, p, c.R.Float64()))
			for j := range n.Coeff {
				n.Coeff[j] = c.R.NormFloat64()
			}
			n.Lower, n.Upper, n.Score = c.R.NormFloat64(), c.R.NormFloat64(), c.R.NormFloat64()
			return n
		}
		clone := func(n *fs.Node) *fs.Node {
			m := fs.NewNode(n.Level, n.Model)
			copy(m.Coeff, n.Coeff)
			m.Lower, m.Upper, m.Score = n.Lower, n.Upper, n.Score
			return m
		}
		change := func(n *fs.Node) string {
			by := math.Pow(10, -6+6*c.R.Float64())
			if c.R.Intn(2) == 0 {
				by = -by
			}
			switch c.R.Intn(7) {
			case 0:
				n.Score += by
				return "score"
			case 1:
				n.Lower += by
				return "lower bound"
			case 2:
				n.Upper += by
				return "upper bound"
			case 3:
				if len(n.Coeff) > 0 {
					n.Coeff[c.R.Intn(len(n.Coeff))] += by
					return "coefficient"
				}
			case 4: // same number of features
				a, b := c.R.Intn(p), c.R.Intn(p)
				if n.Model[a] != n.Model[b] {
					n.Model[a], n.Model[b] = n.Model[b], n.Model[a]
					return "model"
				}
			case 5:
				m := fs.NewNode(n.Level, append(append([]bool{}, n.Model...), false))
				copy(m.Coeff, n.Coeff)
				m.Lower, m.Upper, m.Score = n.Lower, n.Upper, n.Score
				*n = *m
				return "number of features"
			}
			n.Level++
			return "level"
		}
		capa := between(c.R, 1, 8)
		h, g := fs.NewHighscore(capa), fs.NewHighscore(capa)
		for k := between(c.R, 0, capa); k > 0; k-- {
			n := tame()
			h.Items.PushBack(n)
			g.Items.PushBack(clone(n))
		}
		c.Input(map[string]interface{}{"p": p, "entries": h.Len()})
		if !h.Equal(g) || !g.Equal(h) {
			c.Failf("two lists with the same %d entries are reported as different", h.Len())
		}
		n := tame()
		m := clone(n)
		if !fs.NodesEqual(n, m) || !fs.NodesEqual(m, n) {
			c.Failf("two nodes with the same content are reported as different")
		}
		if what := change(m); fs.NodesEqual(n, m) || fs.NodesEqual(m, n) {
			c.Failf("nodes that differ in their %s are reported as equal", what)
		}
		what := ""
		switch k := c.R.Intn(4); {
		case k == 0:
			g.MaxItems++
			what = "capacity"
		case k == 1 || h.Len() == 0:
			g.Items.PushBack(tame())
			what = "length"
		case k == 2 && h.Len() > 1:
			g.Items.MoveToBack(g.Items.Front())
			what = "order"
		default:
			e := g.Items.Front()
			for k := c.R.Intn(g.Len()); k > 0; k-- {
				e = e.Next()
			}
			what = "entry's " + change(e.Value.(*fs.Node))
		}
		if h.Equal(g) || g.Equal(h) {
			c.Failf("lists that differ in their %s are reported as equal", what)
		}
		c.Distinct("differences", what)
		c.Seen(true, n.Score, what)
	})
	c.Cases("search", c.N(500, 6000), func(i int) {
		d := genData(c.R, between(c.R, 3, 14), between(c.R, 3, 6), designKinds)
		if c.R.Intn(3) == 0 { // exact fits
			j := c.R.Intn(d.P)
			for r := range d.Y {
				d.Y[r] = 2 * d.X[r][j]
			}
			d.Kind += "/exactcol"
		}
		var h *fs.Highscore
		if c.R.Intn(3) == 0 {
			h = fs.BruteForceSelect(d.Dense(), d.Ycopy())
		} else {
			h = fs.NewHighscore(between(c.R, 1, 40))
			s := genCfg(c.R, d.P, genModel(c.R, d.P, 0.4))
			s.Slow = 0
			var sp fs.SearchProgress
			s.runInto(d.Dense(), d.Ycopy(), h, &sp)
		}
		c.Input(map[string]interface{}{"data": d.Brief(), "scores": h.Scores()})
		checkListJSON(c, h)
		if d.N >= 6 {
			res := fs.SelectModelSA(d.Dense(), d.Ycopy(), 3, fs.Aicc)
			b := mustJSON(c, "annealing leaderboard", res.Scores)
			var back fs.SAScore
			decode(c, "annealing leaderboard", b, &back)
			if back.Cap != res.Scores.Cap || len(back.Items) != len(res.Scores.Items) {
				c.Failf("annealing leaderboard of %d entries became one of %d", len(res.Scores.Items), len(back.Items))
			}
			for k, it := range res.Scores.Items {
				o := back.Items[k]
				if !intsEqual(it.Selection, o.Selection) || !bitEqual(it.Coeff, o.Coeff) || !bitF(it.Score, o.Score) {
					c.Failf("annealing entry %+v became %+v", it, o)
				}
			}
			c.Count("annealing_boards", 1)
		}
		c.Seen(h.Len() > 0, d.flat())
	})
	c.Cases("dataset", c.N(3000, 30000), func(i int) {
		d := genDset(c, 60, false)
		if c.R.Intn(3) != 0 {
			nr, nc := d.X.Dims()
			for r := 0; r < nr; r++ {
				for k := 0; k < nc; k++ {
					d.X.Set(r, k, wildFloat(c.R))
				}
				d.Y[r] = wildFloat(c.R)
			}
		}
		s := snapDset(d)
		c.Input(map[string]interface{}{"rows": s.nr, "features": s.nc, "target": s.target, "names": s.names, "x": clipF(s.x, 60)})
		b := mustJSON(c, "dataset", d)
		if m := s.diff(d); m != "" {
			c.Failf("encoding changed the dataset: %s", m)
		}
		back := &fs.Dataset{}
		if c.R.Intn(2) == 0 {
			back = genDset(c, 10, true)
		}
		decode(c, "dataset", b, back)
		if m := s.diff(back); m != "" {
			c.Failf("decoded dataset: %s", m)
		}
		c.Seen(true, s.x, s.y, s.target)
	})
	c.Cases("path", c.N(1500, 15000), func(i int) {
		p := &fs.LassoLarsPath{Dset: genDset(c, 30, false)}
		_, nc := p.Dset.X.Dims()
		p.LassoLarsNodes = []*fs.LassoLarsNode{}
		m, _ := c.grow(between(c.R, 0, 8), 0, 200, 0, 100)
		for k := m; k > 0; k-- {
			sel := c.R.Perm(nc)[:c.R.Intn(nc+1)]
			co := make([]float64, len(sel))
			for j := range co {
				co[j] = wildFloat(c.R)
			}
			p.LassoLarsNodes = append(p.LassoLarsNodes, fs.NewLassoLarsNode(co, wildFloat(c.R), sel))
			p.Aicc = append(p.Aicc, wildFloat(c.R))
			p.Bic = append(p.Bic, wildFloat(c.R))
		}
		if c.R.Intn(3) == 0 { // a computed path
			d := larsData(c, c.R.Intn(4) == 0)
			nd := normOf(d)
			var est fs.MorsePenroseCD
			var nodes []*fs.LassoLarsNode
			if c.R.Intn(2) == 0 {
				nodes = fs.LassoLars(nd, 1e-6, &est)
			} else {
				nodes = fs.LassoCrdDescPath(nd, &fs.Empirical{}, fs.Logspace(1e-3, 0.5, 6), 2000, 1e-4, &fs.PureLasso{})
			}
			fs.Path2Unnormalized(nd, nodes)
			p = &fs.LassoLarsPath{Dset: datasetOf(d, c.R.Intn(d.P+1)), LassoLarsNodes: nodes}
			ok := true
			for _, n := range nodes {
				ok = ok && len(n.Selection) > 0
			}
			if ok {
				p.Aicc, p.Bic = p.GetCriteria(fs.Aicc), p.GetCriteria(fs.Bic)
			}
			c.Count("computed_paths", 1)
		}
		c.Input(map[string]interface{}{"nodes": p.LassoLarsNodes, "aicc": p.Aicc})
		var b []byte
		if c.R.Intn(2) == 0 {
			b = mustJSON(c, "path", p)
		} else {
			b = mustJSON(c, "path", *p)
		}
		if m := pathDiff(p, fs.LassoLarsPathFromBytes(b)); m != "" {
			c.Failf("path from bytes: %s", m)
		}
		if c.R.Intn(3) == 0 {
			dir, clean := scratch(c)
			defer clean()
			f := filepath.Join(dir, "p.json")
			ioutil.WriteFile(f, b, 0644)
			if m := pathDiff(p, fs.LassoLarsPathFromJSON(f)); m != "" {
				c.Failf("path from file: %s", m)
			}
			c.Count("paths_from_files", 1)
		}
		c.Seen(len(p.LassoLarsNodes) > 0, string(b))
	})
}

func runC28(c *Ctx) {
	c.Cases("align", c.N(6000, 60000), func(i int) {
		d := genDset(c, 30, true)
		s := snapDset(d)
		switch c.R.Intn(3) { // other ways of getting the same dataset
		case 0:
			var sb strings.Builder
			for j, n := range s.names {
				if j > 0 {
					sb.WriteString(",")
				}
				sb.WriteString(quoteCSV(n))
			}
			sb.WriteString("\n")
			for r := 0; r < s.nr; r++ {
				k := 0
				for j := 0; j <= s.nc; j++ {
					if j > 0 {
						sb.WriteString(",")
					}
					v := s.y[r]
					if j != s.target {
						v = s.x[r*s.nc+k]
						k++
					}
					sb.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
				}
				sb.WriteString("\n")
			}
			t := s.target
			if c.R.Intn(2) == 0 {
				t -= s.nc + 1
			}
			d = fs.ParseCSV(strings.NewReader(sb.String()), t)
		case 1:
			b := mustJSON(c, "dataset", d)
			d = &fs.Dataset{}
			decode(c, "dataset", b, d)
		}
		c.Input(map[string]interface{}{"rows": s.nr, "features": s.nc, "target": s.target, "names": s.names})
		if m := s.diff(d); m != "" {
			c.Failf("constructed dataset: %s", m)
		}
		featNames := []string{}
		for j, n := range s.names {
			if j != s.target {
				featNames = append(featNames, n)
			}
		}
		checkNames := func(d *fs.Dataset, names []string) {
			for j, n := range names {
				if g := d.GetFeatName(j); g != n {
					c.Failf("feature %d is named %q, its column is headed %q (target column %d)", j, g, n, d.TargetCol)
				}
				if g := d.FeatNoByName(n); g != j {
					c.Failf("feature %q is column %d, lookup says %d (target column %d)", n, j, g, d.TargetCol)
				}
			}
		}
		checkNames(d, featNames)
		// subsets, also of subsets
		cur, cn := d, featNames
		curS := s
		for depth := 0; depth < 3 && len(cn) > 0; depth++ {
			sel := c.R.Perm(len(cn))[:1+c.R.Intn(len(cn))]
			req := append([]int{}, sel...)
			sub := cur.GetSubset(req)
			if !intsEqual(req, sel) {
				c.Failf("taking a subset changed the feature list")
			}
			if m := curS.diff(cur); m != "" {
				c.Failf("taking a subset changed the dataset: %s", m)
			}
			nr, nc := sub.X.Dims()
			if nr != curS.nr || nc != len(sel) || sub.TargetCol != len(sel) || len(sub.Names) != len(sel)+1 {
				c.Failf("subset of %d features is %dx%d with target column %d and %d names", len(sel), nr, nc, sub.TargetCol, len(sub.Names))
			}
			for k, j := range sel {
				if sub.Names[k] != cn[j] {
					c.Failf("subset name %d is %q, requested feature %d is %q", k, sub.Names[k], j, cn[j])
				}
				for r := 0; r < nr; r++ {
					if !bitF(sub.X.At(r, k), curS.x[r*curS.nc+j]) {
						c.Failf("subset column %d row %d is %v instead of %v (feature %d)", k, r, sub.X.At(r, k), curS.x[r*curS.nc+j], j)
					}
				}
			}
			if sub.Names[len(sel)] != s.names[s.target] {
				c.Failf("target of the subset is named %q instead of %q", sub.Names[len(sel)], s.names[s.target])
			}
			if !bitEqual(sub.Y, s.y) {
				c.Failf("target of the subset differs")
			}
			names := append([]string{}, sub.Names[:len(sel)]...)
			checkNames(sub, names)
			c.Count("subsets", 1)
			c.Max("subset_depth", int64(depth+1))
			// writing into the subset does not reach the dataset
			probe := cur.GetSubset(sel)
			probe.X.Set(0, 0, 1e77)
			probe.Y[0] = 1e77
			probe.Names[0] = "changed"
			if m := curS.diff(cur); m != "" {
				c.Failf("writing into a subset changed the dataset: %s", m)
			}
			cur, cn, curS = sub, names, snapDset(sub)
		}
		// copies
		cp := d.Copy()
		if m := s.diff(cp); m != "" {
			c.Failf("copy: %s", m)
		}
		if !d.IsEqual(cp) || !cp.IsEqual(d) || !d.IsEqual(d) {
			c.Failf("a copy is not equal to the original")
		}
		r0, c0 := c.R.Intn(s.nr), c.R.Intn(s.nc)
		cp.X.Set(r0, c0, 1e77)
		cp.Y[r0] = -1e77
		cp.Names[c.R.Intn(len(cp.Names))] = "changed"
		cp.TargetCol++
		if m := s.diff(d); m != "" {
			c.Failf("writing into a copy changed the original: %s", m)
		}
		cp = d.Copy()
		ox, oy := d.X.At(r0, c0), d.Y[r0]
		on := d.Names[0]
		d.X.Set(r0, c0, 1e77)
		d.Y[r0], d.Names[0] = 1e77, "changed"
		if m := s.diff(cp); m != "" {
			c.Failf("writing into the original changed a copy: %s", m)
		}
		d.X.Set(r0, c0, ox)
		d.Y[r0], d.Names[0] = oy, on
		// equality
		bump := func(v float64) float64 {
			return v + (1e-6+1e-6*math.Abs(v))*[]float64{1, -1, 1e3, 1e7, 2e-3, -2e-3}[c.R.Intn(6)]
		}
		for k := 0; k < 4; k++ {
			o := d.Copy()
			what := ""
			switch c.R.Intn(8) {
			case 6:
				o.Names = o.Names[:len(o.Names)-1]
				what = "number of names"
			case 7:
				if o.Y = o.Y[:len(o.Y)-1]; c.R.Intn(2) == 0 {
					o.Y = append(o.Y, d.Y[len(o.Y)], 0)
				}
				what = "number of target values"
			case 0:
				o.X.Set(r0, c0, bump(o.X.At(r0, c0)))
				what = fmt.Sprintf("feature value %d,%d", r0, c0)
			case 1:
				o.Y[r0] = bump(o.Y[r0])
				what = fmt.Sprintf("target value %d", r0)
			case 2:
				o.TargetCol = (o.TargetCol + 1 + c.R.Intn(s.nc)) % (s.nc + 1)
				what = "target column"
			case 3:
				x := mat.NewDense(s.nr+1, s.nc, nil)
				for r := 0; r < s.nr; r++ {
					x.SetRow(r, s.x[r*s.nc:(r+1)*s.nc])
				}
				o.X = x
				o.Y = append(o.Y, 0)
				what = "number of rows"
			case 4:
				x := mat.NewDense(s.nr, s.nc+1, nil)
				for r := 0; r < s.nr; r++ {
					for j := 0; j < s.nc; j++ {
						x.Set(r, j, s.x[r*s.nc+j])
					}
				}
				o.X = x
				o.Names = append(o.Names, "more")
				what = "number of features"
			case 5:
				j := c.R.Intn(s.nc)
				o.X.Set(s.nr-1, j, bump(o.X.At(s.nr-1, j)))
				what = fmt.Sprintf("last row, feature %d", j)
			}
			if d.IsEqual(o) || o.IsEqual(d) {
				c.Failf("datasets that differ in the %s are called equal", what)
			}
			c.Count("unequal_pairs", 1)
		}
		c.Distinct("target_positions", fmt.Sprint(s.target, s.nc))
		c.Seen(s.nc >= 2, s.x, s.names[0], s.target)
	})
}
