// Command verif runs the runtime monitors of /verif against the goselect
// library in /repo. See /verif/DESIGN.md.
//
//	verif run <property>                 supervisor: starts shards, judges, writes evidence
//	verif replay <file>                  re-runs the case a replay file describes
//	verif child <property> ...           internal: one shard
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type check struct {
	run    func(c *Ctx)
	shards int  // number of child processes
	race   bool // must be run by a binary built with -race
	rule   string
	assume []string
}

var checks = map[string]*check{}

func register(id string, c *check) {
	if c.shards == 0 {
		c.shards = 8
	}
	checks[id] = c
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: verif run|replay|child ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2], -1, "", envSeed(), envTier()))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "child":
		childMain(os.Args[2:])
	case "fresh":
		freshMain(os.Args[2:])
	}
}

func envSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Violation is one refuted property together with what is needed to replay it.
type Violation struct {
	Property string      `json:"property"`
	Kind     string      `json:"kind"`
	Group    string      `json:"group"`
	Case     int         `json:"case"`
	Seed     int64       `json:"seed"`
	Tier     string      `json:"tier"`
	Message  string      `json:"message"`
	Input    interface{} `json:"input,omitempty"`
	Detail   string      `json:"detail,omitempty"`
}

// childResult is what one shard reports.
type childResult struct {
	Evals      int64            `json:"evals"`
	Distinct   []uint64         `json:"distinct"`
	Counters   map[string]int64 `json:"counters"`
	Maxima     map[string]int64 `json:"maxima"`
	Sets       map[string][]uint64
	Samples    []interface{} `json:"samples"`
	Violations []Violation   `json:"violations"`
	Done       bool          `json:"done"`
}

type childProc struct {
	idx      int
	cmd      *exec.Cmd
	mu       sync.Mutex
	curGroup string
	curCase  int
	open     bool
	begun    time.Time
	cpuAt    float64
	beats    int64
	stderr   string
	result   *childResult
	err      error
	hang     string
	racelog  string
}

func procCPU(pid int) float64 {
	b, err := ioutil.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func supervise(id string, onlyCase int, onlyGroup string, seed int64, tier string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Printf("unknown property %s\n", id)
		return 1
	}
	start := time.Now()
	tmp, err := ioutil.TempDir("", "verif-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 1
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()

	n := ck.shards
	if onlyCase >= 0 {
		n = 1
	}
	var wg sync.WaitGroup
	procs := make([]*childProc, n)
	for i := 0; i < n; i++ {
		p := &childProc{idx: i}
		procs[i] = p
		wg.Add(1)
		go func() {
			defer wg.Done()
			runChild(p, self, id, tmp, i2s(p.idx), i2s(n), onlyCase, onlyGroup, seed, tier)
		}()
	}
	wg.Wait()

	// Merge
	total := &childResult{Counters: map[string]int64{}, Maxima: map[string]int64{}, Sets: map[string][]uint64{}}
	distinct := map[uint64]bool{}
	sets := map[string]map[uint64]bool{}
	var viol []Violation
	for _, p := range procs {
		if r := p.result; r != nil {
			total.Evals += r.Evals
			for _, d := range r.Distinct {
				distinct[d] = true
			}
			for k, v := range r.Counters {
				total.Counters[k] += v
			}
			for k, v := range r.Maxima {
				if v > total.Maxima[k] {
					total.Maxima[k] = v
				}
			}
			for k, v := range r.Sets {
				if sets[k] == nil {
					sets[k] = map[uint64]bool{}
				}
				for _, h := range v {
					sets[k][h] = true
				}
			}
			for _, s := range r.Samples {
				if len(total.Samples) < 3 {
					total.Samples = append(total.Samples, s)
				}
			}
			viol = append(viol, r.Violations...)
		}
		v := Violation{Property: id, Group: p.curGroup, Case: p.curCase, Seed: seed, Tier: tier}
		switch {
		case p.hang != "":
			v.Kind, v.Message, v.Detail = "no-return", "the operation did not return: "+p.hang, clip(p.stderr, 20000)
			viol = append(viol, v)
		case p.result == nil || !p.result.Done:
			v.Kind, v.Detail = "crash", clip(p.stderr, 20000)
			v.Message = "the run ended abnormally: " + firstFatal(p.stderr) + fmt.Sprintf(" (%v)", p.err)
			viol = append(viol, v)
		}
		if ck.race {
			for _, rep := range raceReports(p.racelog) {
				total.Counters["race_reports"]++
				viol = append(viol, Violation{Property: id, Kind: "data-race", Group: p.curGroup, Case: p.curCase, Seed: seed,
					Tier: tier, Message: "data race: " + raceTitle(rep), Detail: clip(rep, 8000)})
			}
		}
	}

	// A run that observed nothing decides nothing: report it rather than passing
	if len(viol) == 0 && onlyCase < 0 && (total.Evals == 0 || len(distinct) == 0) {
		viol = append(viol, Violation{Property: id, Kind: "nothing-observed", Message: "the workload produced no observation"})
	}

	known, fresh := splitKnown(id, viol)
	writeEvidence(id, ck, tier, seed, total, distinct, sets, len(fresh), len(known), time.Since(start), onlyCase >= 0)

	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	fmt.Printf("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", id, tier, seed, total.Evals, len(distinct), time.Since(start).Seconds())
	if len(fresh) == 0 {
		return 0
	}
	dir := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(dir, 0755)
	seen := map[string]bool{}
	printed := 0
	for i, v := range fresh {
		key := v.Kind + "|" + dedupKey(v.Message)
		if seen[key] || printed >= 5 {
			continue
		}
		seen[key] = true
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		ioutil.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  [%s] %s\n", v.Kind, clip(v.Message, 600))
		printed++
	}
	return 1
}

var digits = regexp.MustCompile(`[0-9.eE+-]+`)

func dedupKey(s string) string { return digits.ReplaceAllString(clip(s, 200), "#") }

func i2s(i int) string { return strconv.Itoa(i) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "WARNING: DATA RACE") {
			return strings.TrimSpace(l)
		}
	}
	return strings.TrimSpace(clip(s, 200))
}

// runChild runs one shard and watches it. The verdict "does not return" is never
// taken from the wall clock alone: either all goroutines of the child are blocked
// (deadlock) or the child burned an amount of its own CPU time in one case that is
// orders of magnitude above what a case needs (livelock).
func runChild(p *childProc, self, id, tmp, shard, nshards string, onlyCase int, onlyGroup string, seed int64, tier string) {
	out := filepath.Join(tmp, "out"+shard+".json")
	p.racelog = filepath.Join(tmp, "race"+shard)
	cmd := exec.Command(self, "child", id, shard, nshards, i2s(onlyCase), onlyGroup, strconv.FormatInt(seed, 10), tier, out)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=4 log_path="+p.racelog, "GOTRACEBACK=all", "TMPDIR="+tmp)
	var errb strings.Builder
	cmd.Stderr = &limitWriter{b: &errb, max: 4 << 20}
	pr, pw, err := os.Pipe()
	if err != nil {
		p.err = err
		return
	}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p.cmd = cmd
	if err := cmd.Start(); err != nil {
		p.err = err
		return
	}
	pw.Close()
	done := make(chan struct{})
	go func() {
		sc := bufio.NewScanner(pr)
		for sc.Scan() {
			f := strings.Fields(sc.Text())
			if len(f) != 3 {
				continue
			}
			p.mu.Lock()
			p.beats++
			p.open = f[0] == "B"
			p.curGroup = f[1]
			p.curCase, _ = strconv.Atoi(f[2])
			p.cpuAt = procCPU(cmd.Process.Pid)
			p.begun = time.Now()
			p.mu.Unlock()
		}
	}()
	go watch(p, done, tier, &errb)
	p.err = cmd.Wait()
	close(done)
	pr.Close()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	p.stderr = errb.String()
	if b, err := ioutil.ReadFile(out); err == nil {
		var r childResult
		if json.Unmarshal(b, &r) == nil {
			p.result = &r
		}
	}
}

type limitWriter struct {
	mu  sync.Mutex
	b   *strings.Builder
	max int
}

func (w *limitWriter) Write(d []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() < w.max {
		w.b.Write(d)
	}
	return len(d), nil
}

const livelockCPU = 150.0 // seconds of the child's own CPU time within one case

func watch(p *childProc, done chan struct{}, tier string, errb *strings.Builder) {
	pid := p.cmd.Process.Pid
	limit := livelockCPU
	if tier == "thorough" {
		limit *= 3
	}
	lastCPU := -1.0
	lastBeat := int64(-1)
	flat := 0
	for {
		select {
		case <-done:
			return
		case <-time.After(2 * time.Second):
		}
		cpu := procCPU(pid)
		p.mu.Lock()
		open, at, beat := p.open, p.cpuAt, p.beats
		p.mu.Unlock()
		if !open || cpu < 0 {
			flat = 0
			continue
		}
		if cpu-at > limit {
			p.hang = fmt.Sprintf("one case used more than %.0f s of CPU time (livelock)", limit)
		}
		if beat == lastBeat && cpu-lastCPU < 0.011 {
			flat++
		} else {
			flat = 0
		}
		lastCPU, lastBeat = cpu, beat
		if flat >= 10 {
			p.hang = "no goroutine made any step (deadlock)"
		}
		if p.hang != "" {
			syscall.Kill(pid, syscall.SIGQUIT)
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				syscall.Kill(-pid, syscall.SIGKILL)
			}
			return
		}
	}
}

func raceReports(prefix string) []string {
	var reps []string
	files, _ := filepath.Glob(prefix + ".*")
	for _, f := range files {
		b, _ := ioutil.ReadFile(f)
		parts := strings.Split(string(b), "WARNING: DATA RACE")
		for _, q := range parts[1:] {
			reps = append(reps, "WARNING: DATA RACE"+q)
		}
	}
	return reps
}

func raceTitle(rep string) string {
	var fns []string
	for _, l := range strings.Split(rep, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/davidkleiven/goselect/") {
			fns = append(fns, strings.TrimPrefix(l, "github.com/davidkleiven/goselect/"))
		}
	}
	if len(fns) > 4 {
		fns = fns[:4]
	}
	return strings.Join(fns, " <> ")
}

// splitKnown separates the violations listed in known_findings.txt. A line
// "finding: property=<id> match=<substring of the message> :: <what fails>"
// identifies one finding; "fixed:" lines suppress nothing.
func splitKnown(id string, viol []Violation) (known []string, fresh []Violation) {
	b, _ := ioutil.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	type kf struct{ match, text string }
	var list []kf
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" match=") {
			continue
		}
		r := strings.TrimPrefix(l, "finding: property="+id+" match=")
		i := strings.Index(r, " :: ")
		if i < 0 {
			continue
		}
		list = append(list, kf{r[:i], r[i+4:]})
	}
	for _, k := range list {
		known = append(known, k.text)
	}
next:
	for _, v := range viol {
		for _, k := range list {
			if strings.Contains(v.Message, k.match) {
				continue next
			}
		}
		fresh = append(fresh, v)
	}
	return known, fresh
}

func writeEvidence(id string, ck *check, tier string, seed int64, t *childResult, distinct map[uint64]bool, sets map[string]map[uint64]bool, nviol, nknown int, wall time.Duration, isReplay bool) {
	if isReplay {
		return
	}
	cov := map[string]interface{}{
		"evaluations":         t.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                ck.rule,
		"samples":             t.Samples,
	}
	obs := map[string]interface{}{}
	for k, v := range t.Counters {
		obs[k] = v
	}
	for k, v := range t.Maxima {
		obs["max_"+k] = v
	}
	for k, v := range sets {
		obs["distinct_"+k] = len(v)
	}
	cov["observed"] = obs
	e := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": append([]string{"the verdict covers the executions observed in this run, not all executions",
			"the reference computations of the harness (own QR, Jacobi SVD, enumeration) are trusted"}, ck.assume...),
	}
	if nknown > 0 {
		cov["known_findings"] = nknown
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	b, _ := json.MarshalIndent(e, "", " ")
	path := filepath.Join(verifDir(), "evidence", id+".json")
	if err := ioutil.WriteFile(path, b, 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
}

func replay(path string) int {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 1
	}
	return supervise(v.Property, v.Case, v.Group, v.Seed, v.Tier)
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
