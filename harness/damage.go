package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
)

func init() {
	register("C38", &check{run: runC38, rule: "intact CSV texts and JSON encodings (which must be read without complaint first) and their damaged variants: a field too many or too few in any row, cuts inside a row, stray and unterminated quotes, no data, target columns that do not exist, readers that fail after any number of bytes, missing files and directories; JSON cut at any byte, followed by more text, one value of another type, numbers that contradict each other; the tools on such files and with places they cannot write to; non-trivial = the intact variant was accepted and the damaged one judged"})
}

// brokenReader hands out the text in pieces and fails instead of reporting its end.
type brokenReader struct {
	chunkReader
	err error
}

func (b *brokenReader) Read(p []byte) (int, error) {
	n, err := b.chunkReader.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return n, err
}

// plainCSV is a text with one row per line.
func plainCSV(r *rand.Rand, nr, nc int) (lines [][]string) {
	for i := 0; i <= nr; i++ {
		row := make([]string, nc)
		for j := range row {
			if i == 0 {
				row[j] = genName(r, j)
			} else {
				row[j] = strconv.FormatFloat(r.NormFloat64(), 'g', 1+r.Intn(12), 64)
			}
		}
		lines = append(lines, row)
	}
	return
}

func joinCSV(lines [][]string, eol string) string {
	var sb strings.Builder
	for _, l := range lines {
		sb.WriteString(strings.Join(l, ","))
		sb.WriteString(eol)
	}
	return sb.String()
}

// damageCSV returns a damaged variant of the text; what it does is named.
func damageCSV(r *rand.Rand, lines [][]string, eol string) (string, string) {
	nr, nc := len(lines)-1, len(lines[0])
	cpy := make([][]string, len(lines))
	for i := range lines {
		cpy[i] = append([]string{}, lines[i]...)
	}
	at := 1 + r.Intn(nr)
	switch k := r.Intn(3); k {
	case 0:
		at = nr // the last row is what a cut or an appended line damages
	case 1:
		at = 1
	}
	col := r.Intn(nc)
	switch kind := r.Intn(8); kind {
	case 0: // a field is missing
		if nc > 2 || len(lines) > 2 {
			cpy[at] = append(cpy[at][:col], cpy[at][col+1:]...)
			return joinCSV(cpy, eol), fmt.Sprintf("row %d has a field less", at)
		}
		fallthrough
	case 1: // a field too many
		cpy[at] = append(cpy[at], "1.5")
		return joinCSV(cpy, eol), fmt.Sprintf("row %d has a field more", at)
	case 2: // empty field at the end
		cpy[at][nc-1] += ","
		return joinCSV(cpy, eol), fmt.Sprintf("row %d has an empty field more", at)
	case 3: // a quote that is not closed
		cpy[at][col] = `"` + cpy[at][col]
		return joinCSV(cpy, eol), fmt.Sprintf("row %d has an unterminated quote", at)
	case 4: // a quote in the middle of a field
		cpy[at][col] = cpy[at][col] + `"`
		return joinCSV(cpy, eol), fmt.Sprintf("row %d has a stray quote", at)
	case 5: // text behind a quoted field
		cpy[at][col] = `"` + cpy[at][col] + `"0`
		return joinCSV(cpy, eol), fmt.Sprintf("row %d has text behind a quoted field", at)
	case 6: // the file ends inside a row
		text := joinCSV(cpy[:at+1], eol)
		row := strings.Join(cpy[at], ",")
		keep := 1 + r.Intn(strings.LastIndex(row, ","))
		return text[:len(text)-len(row)-len(eol)+keep], fmt.Sprintf("the text ends %d bytes into row %d", keep, at)
	default: // the header has a name less or more
		if r.Intn(2) == 0 || nc == 2 {
			cpy[0] = append(cpy[0], "extra")
		} else {
			cpy[0] = cpy[0][:nc-1]
		}
		return joinCSV(cpy, eol), "the header does not fit the rows"
	}
}

// damageValue replaces one value below v by one of another type.
func damageValue(r *rand.Rand, v interface{}) (interface{}, string) {
	var slots []func() string
	other := func(v interface{}) (interface{}, string) {
		for {
			var n interface{}
			switch r.Intn(5) {
			case 0:
				n = "text"
			case 1:
				n = true
			case 2:
				n = []interface{}{"a", "b"}
			case 3:
				n = map[string]interface{}{"a": "b"}
			default:
				n = 12.5
			}
			if fmt.Sprintf("%T", n) != fmt.Sprintf("%T", v) {
				return n, fmt.Sprintf("%s became %s", kindOf(v), kindOf(n))
			}
		}
	}
	var walk func(v interface{}, path string)
	walk = func(v interface{}, path string) {
		switch t := v.(type) {
		case map[string]interface{}:
			keys := make([]string, 0, len(t))
			for k := range t {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				k := k
				if t[k] == nil {
					continue
				}
				slots = append(slots, func() string {
					var m string
					t[k], m = other(t[k])
					return path + "." + k + ": " + m
				})
				walk(t[k], path+"."+k)
			}
		case []interface{}:
			for i := range t {
				i := i
				if t[i] == nil || i >= 40 && i < len(t)-3 {
					continue
				}
				slots = append(slots, func() string {
					var m string
					t[i], m = other(t[i])
					return fmt.Sprintf("%s[%d]: %s", path, i, m)
				})
				walk(t[i], fmt.Sprintf("%s[%d]", path, i))
			}
		}
	}
	walk(v, "")
	if len(slots) == 0 {
		return nil, ""
	}
	return v, slots[r.Intn(len(slots))]()
}

// noDigits leaves the wording without its numbers.
func noDigits(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

func kindOf(v interface{}) string {
	switch v.(type) {
	case string:
		return "a text"
	case bool:
		return "a boolean"
	case float64:
		return "a number"
	case []interface{}:
		return "a list"
	}
	return "an object"
}

// accepts tells whether f returns without an error or a panic.
func accepts(f func() error) (ok bool) {
	var err error
	if r := Try(func() { err = f() }); r != nil {
		return false
	}
	return err == nil
}

func runC38(c *Ctx) {
	c.Cases("csv", c.N(4000, 40000), func(i int) {
		nr, nc := between(c.R, 1, 9), between(c.R, 2, 7)
		if c.R.Intn(15) == 0 {
			nr = between(c.R, 50, 600)
		}
		lines := plainCSV(c.R, nr, nc)
		eol := []string{"\n", "\r\n"}[c.R.Intn(2)]
		text := joinCSV(lines, eol)
		target := between(c.R, -nc, nc-1)
		how := c.R.Intn(5)
		dir := ""
		if how == 4 {
			d, clean := scratch(c)
			defer clean()
			dir = d
		}
		read := func(text string, target int) (d *fs.Dataset) {
			if how == 4 {
				f := filepath.Join(dir, "in.csv")
				ioutil.WriteFile(f, []byte(text), 0644)
				return fs.ReadCSV(f, target)
			}
			return fs.ParseCSV(&chunkReader{data: []byte(text), mode: how, r: c.R}, target)
		}
		c.Input(map[string]interface{}{"text": clip(text, 1200), "target": target})
		if d := read(text, target); d == nil || len(d.Y) != nr {
			c.Failf("the intact text was not read")
		}
		var d *fs.Dataset
		what := ""
		judge := func(f func()) {
			d = nil
			if r := Try(f); r == nil && d != nil {
				rr, cc := d.X.Dims()
				c.Failf("%s: a dataset of %d rows and %d columns was returned; the intact text has %d and %d", what, rr, cc+1, nr, nc)
			}
			c.Count("damaged_texts_rejected", 1)
		}
		for k := 0; k < 4; k++ {
			var bad string
			bad, what = damageCSV(c.R, lines, eol)
			c.Input(map[string]interface{}{"text": clip(bad, 1200), "damage": what, "target": target, "reader": how})
			c.Distinct("kind_of_damage", noDigits(what))
			judge(func() { d = read(bad, target) })
		}
		// a reader that fails after some bytes
		for k := 0; k < 3; k++ {
			n := c.R.Intn(len(text) + 1)
			switch k {
			case 0:
				n = len(text) // everything was handed over
			case 1: // between two rows
				n = len(joinCSV(lines[:1+c.R.Intn(nr+1)], eol))
			}
			e := []error{errors.New("input/output error"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrPermission, io.ErrNoProgress}[c.R.Intn(5)]
			mode := c.R.Intn(4)
			what = fmt.Sprintf("the reader fails with %q after %d of %d bytes", e, n, len(text))
			c.Input(map[string]interface{}{"text": clip(text, 1200), "damage": what, "target": target, "reader": mode})
			judge(func() {
				d = fs.ParseCSV(&brokenReader{chunkReader{data: []byte(text[:n]), mode: mode, r: c.R}, e}, target)
			})
			c.Count("failing_readers", 1)
		}
		// a target column that does not exist
		for _, t := range []int{nc, -nc - 1, nc + c.R.Intn(100), -nc - 1 - c.R.Intn(100)} {
			what = fmt.Sprintf("target column %d of %d columns", t, nc)
			c.Input(map[string]interface{}{"text": clip(text, 1200), "damage": what})
			judge(func() { d = read(text, t) })
		}
		what = "only a header"
		judge(func() { d = read(joinCSV(lines[:1], eol), target) })
		what = "nothing"
		judge(func() { d = read("", target) })
		if how == 4 {
			what = "a file that does not exist"
			judge(func() { d = fs.ReadCSV(filepath.Join(dir, "other.csv"), target) })
			what = "a directory"
			judge(func() { d = fs.ReadCSV(dir, target) })
		}
		c.Seen(true, text, target)
	})

	c.Cases("json", c.N(2500, 25000), func(i int) {
		kind := []string{"node", "list", "dataset", "path"}[c.R.Intn(4)]
		dir, path := "", ""
		if kind == "path" && c.R.Intn(4) == 0 {
			d, clean := scratch(c)
			defer clean()
			dir, path = d, filepath.Join(d, "path.json")
		}
		// ways to decode: each returns whether the text was accepted
		var ways []func(b []byte) error
		var names []string
		add := func(name string, f func(b []byte) error) { names, ways = append(names, name), append(ways, f) }
		var v interface{}
		switch kind {
		case "node":
			n := wildNode(c.R, between(c.R, 1, 12))
			v = n
			add("json.Unmarshal", func(b []byte) error { return json.Unmarshal(b, &fs.Node{}) })
			add("UnmarshalJSON", func(b []byte) error { return (&fs.Node{}).UnmarshalJSON(b) })
			used := wildNode(c.R, 5)
			add("json.Unmarshal into a used node", func(b []byte) error { return json.Unmarshal(b, used) })
		case "list":
			h := fs.NewHighscore(between(c.R, 1, 9))
			for k := c.R.Intn(10); k >= 0; k-- {
				n := wildNode(c.R, 6)
				n.Score = c.R.NormFloat64()
				h.Insert(n)
			}
			v = h
			add("json.Unmarshal", func(b []byte) error { return json.Unmarshal(b, &fs.Highscore{}) })
			add("UnmarshalJSON", func(b []byte) error { return fs.NewHighscore(4).UnmarshalJSON(b) })
		case "dataset":
			v = genDset(c, 30, false)
			add("json.Unmarshal", func(b []byte) error { return json.Unmarshal(b, &fs.Dataset{}) })
			add("UnmarshalJSON", func(b []byte) error { return (&fs.Dataset{}).UnmarshalJSON(b) })
		case "path":
			p := &fs.LassoLarsPath{Dset: genDset(c, 12, false)}
			_, nc := p.Dset.X.Dims()
			for k := c.R.Intn(6); k >= 0; k-- {
				var sel []int
				var co []float64
				for j := 0; j < nc; j++ {
					if c.R.Intn(2) == 0 {
						sel, co = append(sel, j), append(co, c.R.NormFloat64())
					}
				}
				p.LassoLarsNodes = append(p.LassoLarsNodes, fs.NewLassoLarsNode(co, c.R.ExpFloat64(), sel))
				p.Aicc, p.Bic = append(p.Aicc, c.R.NormFloat64()), append(p.Bic, c.R.NormFloat64())
			}
			v = p
			got := func(p *fs.LassoLarsPath) error {
				if p == nil {
					return errors.New("no path")
				}
				return nil
			}
			add("LassoLarsPathFromBytes", func(b []byte) error { return got(fs.LassoLarsPathFromBytes(b)) })
			if dir != "" {
				add("LassoLarsPathFromJSON", func(b []byte) error {
					ioutil.WriteFile(path, b, 0644)
					return got(fs.LassoLarsPathFromJSON(path))
				})
			}
		}
		text := mustJSON(c, kind, v)
		for k, w := range ways {
			if !accepts(func() error { return w(text) }) {
				c.Failf("%s rejects an intact %s", names[k], kind)
			}
		}
		judge := func(bad []byte, what string) {
			c.Input(map[string]interface{}{"kind": kind, "text": clip(string(bad), 1500), "damage": what})
			for k, w := range ways {
				if accepts(func() error { return w(bad) }) {
					c.Failf("%s accepts a damaged %s: %s", names[k], kind, what)
				}
				c.Count("damaged_encodings_rejected", 1)
			}
		}
		for k := 0; k < 6; k++ {
			n := c.R.Intn(len(text))
			switch k {
			case 0:
				n = len(text) - 1
			case 1:
				n = 0
			}
			judge(text[:n], fmt.Sprintf("cut after %d of %d bytes", n, len(text)))
		}
		for _, more := range []string{"}", "]", ",", string(text), "0", "x"} {
			judge(append(append([]byte{}, text...), more...), "followed by "+clip(more, 20))
		}
		for k := 0; k < 8; k++ {
			var g interface{}
			if err := json.Unmarshal(text, &g); err != nil {
				panic(err)
			}
			g, what := damageValue(c.R, g)
			if what == "" {
				break
			}
			b, err := json.Marshal(g)
			if err != nil {
				panic(err)
			}
			judge(b, what)
			c.Count("values_of_another_type", 1)
		}
		// numbers that contradict each other
		var g map[string]interface{}
		json.Unmarshal(text, &g)
		what := ""
		switch kind {
		case "node":
			p := len(v.(*fs.Node).Model)
			sel, _ := g["selected"].([]interface{})
			bad := []int{p, p + c.R.Intn(20), -1, -1 - c.R.Intn(20)}[c.R.Intn(4)]
			if len(sel) > 0 && c.R.Intn(2) == 0 {
				sel[c.R.Intn(len(sel))] = bad
			} else {
				sel = append(sel, bad)
			}
			g["selected"] = sel
			what = fmt.Sprintf("feature %d of %d is selected", bad, p)
		case "dataset":
			switch c.R.Intn(3) {
			case 0:
				g["X"] = append(g["X"].([]interface{}), 1.0)
				what = "a value more than the matrix has"
			case 1:
				x := g["X"].([]interface{})
				if len(x) > 1 {
					g["X"] = x[:len(x)-1]
					what = "a value less than the matrix has"
				}
			default:
				g["Nr"] = g["Nr"].(float64) + 1
				what = "a row more than the matrix has"
			}
		}
		if what != "" {
			b, err := json.Marshal(g)
			if err != nil {
				panic(err)
			}
			judge(b, what)
			c.Count("contradictions", 1)
		}
		if dir != "" {
			for _, f := range []string{filepath.Join(dir, "none.json"), dir} {
				if accepts(func() error { return ways[0](nil) }) || Try(func() {
					if fs.LassoLarsPathFromJSON(f) == nil {
						panic("none")
					}
				}) == nil {
					c.Failf("a path was read from %s, which is no file", f)
				}
			}
		}
		c.Distinct("kind", kind)
		c.Seen(true, string(text))
	})

	c.Cases("tools", c.N(240, 2400), func(i int) { runDamagedTools(c) })
}

// toolRC runs a tool and returns its exit status (-1 for a signal).
func toolRC(c *Ctx, dir, name string, args ...string) (int, string) {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	c.Count("runs_"+name, 1)
	if err == nil {
		return 0, out.String()
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode(), out.String()
	}
	panic(err)
}

func runDamagedTools(c *Ctx) {
	if os.Getenv("VERIF_BIN") == "" {
		panic("VERIF_BIN is not set")
	}
	dir, clean := scratch(c)
	defer clean()
	nr, nc := between(c.R, 12, 24), between(c.R, 4, 6)
	lines := plainCSV(c.R, nr, nc)
	eol := []string{"\n", "\r\n"}[c.R.Intn(2)]
	write := func(name, text string) {
		if err := ioutil.WriteFile(filepath.Join(dir, name), []byte(text), 0644); err != nil {
			panic(err)
		}
	}
	target := strconv.Itoa(between(c.R, -nc, nc-1))
	which := []string{"bnb", "sasearch", "lasso", "nested", "kappa", "plot"}[c.R.Intn(6)]
	run := func(csv, target, out string) (int, string, []string) {
		var name string
		var args []string
		switch which {
		case "bnb":
			name, args = "goselect", []string{"bnb", "--csv", csv, "--target", target, "--out", out}
		case "sasearch":
			name, args = "goselect", []string{"sasearch", "--csv", csv, "--target", target, "--out", out, "--sweeps", "3"}
		case "lasso":
			name, args = "goselect", []string{"lasso", "--csv", csv, "--target", target, "--out", out, "--lmin", "0.05"}
			if c.R.Intn(2) == 0 {
				args = append(args, "--type", "cd", "--num", "5")
			}
		case "nested":
			name, args = "goselect-nestedlasso", []string{"-csvfile", csv, "-target", target, "-out", out, "-lambMin", "0.05", "-keep", "0.5"}
		case "kappa":
			name, args = "goselect-cohenlasso", []string{"-csvfile", csv, "-target", target, "-numSamp", "3", "-numLamb", "3", "-lambMin", "0.01", "-lambMax", "0.1"}
		case "plot":
			name, args = "goselect-plotlasso", []string{"-json", csv, "-prefix", strings.TrimSuffix(out, ".json"), "-ext", "png"}
		}
		rc, o := toolRC(c, dir, name, args...)
		return rc, o, append([]string{name}, args...)
	}
	// what the tools leave behind
	outputs := func() map[string]string {
		m := map[string]string{}
		filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.IsDir() && strings.HasPrefix(info.Name(), ".") {
				return filepath.SkipDir // the Go toolchain's own counters
			}
			if err == nil && !info.IsDir() && !strings.HasPrefix(info.Name(), "in.") {
				b, _ := ioutil.ReadFile(p)
				m[strings.TrimPrefix(p, dir)] = string(b)
			}
			return nil
		})
		return m
	}
	in := "in.csv"
	good := joinCSV(lines, eol)
	if which == "plot" {
		in = "in.json"
		d := genData(c.R, nr, nc-1, []string{"gauss"})
		p, p1 := &fs.LassoLarsPath{Dset: datasetOf(d, c.R.Intn(nc))}, nc-1
		for r := range p.Dset.Y { // no residual is zero
			p.Dset.Y[r] += 1000
		}
		for k := 0; k < 4; k++ {
			p.LassoLarsNodes = append(p.LassoLarsNodes, fs.NewLassoLarsNode([]float64{c.R.NormFloat64()}, 1/float64(k+1), []int{c.R.Intn(p1)}))
			p.Aicc, p.Bic = append(p.Aicc, c.R.NormFloat64()), append(p.Bic, c.R.NormFloat64())
		}
		good = string(mustJSON(c, "path", p))
	}
	write(in, good)
	if c.R.Intn(3) == 0 { // the intact file is accepted
		rc, o, args := run(in, target, "result.json")
		c.Input(map[string]interface{}{"text": clip(good, 1200), "args": args})
		if rc != 0 {
			c.Failf("%v exits with status %d for an intact file: %s", args, rc, clip(tail(o, 800), 800))
		}
		if len(outputs()) == 0 && which != "kappa" {
			c.Failf("%v left no result", args)
		}
		c.Count("intact_files_accepted", 1)
	} else if c.R.Intn(2) == 0 && which != "plot" {
		write("result.json", `{"an": "earlier result"}`)
	}
	before := outputs()
	// a place that cannot be written to
	if c.R.Intn(4) == 0 && which != "kappa" {
		out := "missing/result.json"
		if c.R.Intn(2) == 0 && which != "plot" {
			out = "folder"
			os.Mkdir(filepath.Join(dir, "folder"), 0755)
		}
		rc, o, args := run(in, target, out)
		c.Input(map[string]interface{}{"text": clip(good, 1200), "args": args})
		if rc == 0 {
			c.Failf("%v cannot write its result and exits with status 0: %s", args, clip(tail(o, 400), 400))
		}
		c.Count("unwritable_places", 1)
		c.Seen(true, good, which, out)
		return
	}
	bad, what := "", ""
	csv, t := in, target
	switch k := c.R.Intn(6); {
	case k == 0:
		csv, what, bad = "in.none", "the file does not exist", good
	case k == 1 && which != "plot":
		t, what, bad = strconv.Itoa([]int{nc, -nc - 1, nc + 7}[c.R.Intn(3)]), "the target column does not exist", good
	case which == "plot":
		n := c.R.Intn(len(good))
		bad, what = good[:n], fmt.Sprintf("cut after %d of %d bytes", n, len(good))
	default:
		bad, what = damageCSV(c.R, lines, eol)
	}
	write(in, bad)
	rc, o, args := run(csv, t, "result.json")
	c.Input(map[string]interface{}{"text": clip(bad, 1200), "damage": what, "args": args})
	if rc == 0 {
		c.Failf("%v: %s, but the tool exits with status 0: %s", args, what, clip(tail(o, 400), 400))
	}
	after := outputs()
	for f, b := range after {
		if old, ok := before[f]; !ok {
			c.Failf("%v: %s, but the tool leaves %s", args, what, f)
		} else if old != b {
			c.Failf("%v: %s, and the tool changed %s", args, what, f)
		}
	}
	for f := range before {
		if _, ok := after[f]; !ok {
			c.Failf("%v: %s, and the tool removed %s", args, what, f)
		}
	}
	c.Count("damaged_files_rejected", 1)
	c.Distinct("tool_and_damage", which+noDigits(what))
	c.Seen(true, bad, which, what)
}
