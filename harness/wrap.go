package main

import (
	"math"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gonum.org/v1/gonum/mat"
)

// slowMat delays reads pseudo-randomly to widen interleavings. It keeps no
// shared mutable state, so it adds no synchronisation that could hide a race.
type slowMat struct {
	m     mat.Matrix
	seed  uint64
	every uint64
	sleep bool
}

func (s *slowMat) Dims() (int, int) { return s.m.Dims() }
func (s *slowMat) T() mat.Matrix    { return mat.Transpose{Matrix: s} }
func (s *slowMat) At(i, j int) float64 {
	v := s.m.At(i, j)
	h := (math.Float64bits(v) ^ s.seed) * 0x9E3779B97F4A7C15
	h ^= h >> 29
	if h%s.every == 0 {
		if s.sleep && h%(s.every*7) == 0 {
			time.Sleep(time.Duration(h%50) * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
	return v
}

// countMat counts reads and notes which columns and rows have been read.
type countMat struct {
	m     mat.Matrix
	reads int64
	mu    sync.Mutex
	cols  map[int]bool
}

func newCountMat(m mat.Matrix) *countMat { return &countMat{m: m, cols: map[int]bool{}} }

func (s *countMat) Dims() (int, int) { return s.m.Dims() }
func (s *countMat) T() mat.Matrix    { return mat.Transpose{Matrix: s} }
func (s *countMat) At(i, j int) float64 {
	atomic.AddInt64(&s.reads, 1)
	s.mu.Lock()
	s.cols[j] = true
	s.mu.Unlock()
	return s.m.At(i, j)
}

// traceMat records the order of reads (for operations that read sequentially).
type traceMat struct {
	m     mat.Matrix
	mu    sync.Mutex
	trace [][2]int
	limit int
}

func (s *traceMat) Dims() (int, int) { return s.m.Dims() }
func (s *traceMat) T() mat.Matrix    { return mat.Transpose{Matrix: s} }
func (s *traceMat) At(i, j int) float64 {
	s.mu.Lock()
	if len(s.trace) < s.limit {
		s.trace = append(s.trace, [2]int{i, j})
	}
	s.mu.Unlock()
	return s.m.At(i, j)
}

// opaque hides the concrete type of a matrix.
type opaque struct{ m mat.Matrix }

func (o opaque) Dims() (int, int)    { return o.m.Dims() }
func (o opaque) At(i, j int) float64 { return o.m.At(i, j) }
func (o opaque) T() mat.Matrix       { return mat.Transpose{Matrix: o} }

// libGoroutines returns the stacks of goroutines that are inside the library.
func libGoroutines() []string {
	buf := make([]byte, 1<<14)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var r []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "goselect/featselect") {
			r = append(r, g)
		}
	}
	return r
}

// waitNoLibGoroutines gives the goroutines of the library ample opportunity to
// finish and returns the ones that are left.
func waitNoLibGoroutines() []string {
	var left []string
	for k := 0; k < 400; k++ {
		left = libGoroutines()
		if len(left) == 0 {
			return nil
		}
		if k < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(k-90) * 50 * time.Microsecond)
		}
	}
	// still there after about two seconds of waiting: wait on as long as any of
	// them can still run, a goroutine that is merely slow is not a leak
	for k := 0; k < 300; k++ {
		left = libGoroutines()
		if len(left) == 0 {
			return nil
		}
		blocked := true
		for _, g := range left {
			head := g
			if i := strings.IndexByte(g, '\n'); i >= 0 {
				head = g[:i]
			}
			if strings.Contains(head, "running") || strings.Contains(head, "runnable") || strings.Contains(head, "sleep") {
				blocked = false
			}
		}
		if blocked && k > 2 {
			return left
		}
		time.Sleep(100 * time.Millisecond)
	}
	return left
}

// pacer paces a goroutine that watches while an operation runs. Once the
// operation has run for far longer than any case needs, the watcher stops
// watching (true), so that it does not hide a deadlock from the supervisor.
type pacer struct {
	n     int
	start time.Time
}

func (p *pacer) yield() bool {
	if p.n == 0 {
		p.start = time.Now()
	}
	p.n++
	runtime.Gosched()
	return p.n%64 == 0 && time.Since(p.start) > 6*time.Second
}
