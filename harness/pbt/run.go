package pbt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Sub is one executable check: a generator plus oracle run on many cases.
type Sub struct {
	Name     string
	Quick    int // cases in the quick tier
	Thorough int // cases in the thorough tier
	// Serial subs touch process-global state: each shard is its own process
	// running its cases one after another.
	Serial bool
	// Race subs run in the race-enabled binary.
	Race bool
	// Shards overrides the number of processes of a Serial sub.
	Shards int
	// Guide says that a Serial sub can be searched with coverage guidance, too;
	// other subs always are.
	Guide bool
	// NoGuide keeps a sub out of the guided search.
	NoGuide bool
	// Workers limits the goroutines of a non-serial sub (0 = all cores).
	Workers int
	// Count, when set, makes the sub enumerate: it returns how many cases there
	// are in the tier and the case reads its t.Index.
	Count func(tier string) int
	Run   func(t *T)
	// CaseTimeout is how long a single case may take before it counts as stuck.
	CaseTimeout time.Duration
}

// Prop is a property with its checks.
type Prop struct {
	ID          string
	Rule        string // what makes a case non-trivial
	Subs        []*Sub
	Assumptions []string
}

// T is the context of one running case.
type T struct {
	*Src
	Index   int
	Tier    string
	log     []string
	labels  []string
	nontriv bool
	key     uint64
	sample  string
	kin     *Kin
}

type failure struct{ msg string }

// Fail reports a violation and ends the case.
func (t *T) Fail(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

// Log notes a part of the generated case for the replay file.
func (t *T) Log(format string, args ...any) {
	if len(t.log) < 400 {
		t.log = append(t.log, fmt.Sprintf(format, args...))
	}
}

// Known reports a violation that is a recorded finding when id is listed in the
// known-findings file, and an ordinary violation otherwise. It returns when the
// finding is listed.
func (t *T) Known(id, format string, args ...any) {
	if _, ok := KnownFindings[id]; ok {
		t.Label("known-finding:" + id)
		return
	}
	t.Fail(format, args...)
}

// KnownFindings holds the listed findings (id -> description).
var KnownFindings = map[string]string{}

// Label counts the case under a class.
func (t *T) Label(l string) { t.labels = append(t.labels, l) }

// NonTrivial marks the case as non-trivial, identified by key.
func (t *T) NonTrivial(key string) {
	t.nontriv = true
	t.key = mix(t.key ^ Hash64(key))
	if t.sample == "" {
		t.sample = key
	}
}

// Outcome of running one case.
type outcome struct {
	failed  bool
	harness bool // panic in the harness itself
	msg     string
	t       *T
}

// LibPath marks stack frames of the code under test.
const LibPath = "github.com/nyaruka/phonenumbers"

func runCase(sub *Sub, src *Src, index int, tier string) (o outcome) {
	t := &T{Src: src, Index: index, Tier: tier}
	o.t = t
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				o.failed, o.msg = true, f.msg
				return
			}
			st := string(debug.Stack())
			o.failed = true
			o.msg = fmt.Sprintf("panic: %v", r)
			if !panicInLib(st) {
				o.harness = true
				o.msg += "\n" + st
			} else {
				o.msg += " (inside the library)\n" + trimStack(st)
			}
		}
	}()
	sub.Run(t)
	return
}

// Single is the outcome of one case run by itself.
type Single struct {
	Fail    string // what failed, "" if nothing
	Harness bool   // the harness itself failed
	Log     []string
	Key     uint64 // identifies a non-trivial case, otherwise 0
}

// RunOne runs one case outside any check.
func RunOne(run func(*T), src *Src) Single {
	o := runCase(&Sub{Run: run}, src, 0, "")
	r := Single{Log: o.t.log, Harness: o.harness}
	if o.failed {
		r.Fail = o.msg
	}
	if o.t.nontriv {
		r.Key = o.t.key
	}
	return r
}

// panicInLib reports whether the innermost frame that belongs to either the
// library or the harness belongs to the library.
func panicInLib(st string) bool {
	lines := strings.Split(st, "\n")
	// skip frames above (and including) the panic call
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.goPanic") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.sigpanic") {
			start = i
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, LibPath) {
			return true
		}
		if strings.HasPrefix(l, "verifharness/") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, LibPath) {
			out = append(out, l)
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// Failure is a recorded violation.
type Failure struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Choices  []uint64 `json:"choices"`
	Message  string   `json:"message"`
	Case     []string `json:"case"`
	Shrunk   bool     `json:"shrunk"`
	Kind     string   `json:"kind"` // "oracle", "crash", "hang"
	// Tail, of a crash or hang found with guidance: the case starts with Choices
	// and goes on at random from this.
	Tail *uint64 `json:"tail,omitempty"`
}

// Result of a sub (or one shard of it).
type Result struct {
	Sub        string           `json:"sub"`
	Evaluated  int64            `json:"evaluated"`
	Nontrivial int64            `json:"nontrivial"`
	Distinct   int64            `json:"distinct"`
	Hashes     []uint64         `json:"hashes,omitempty"`
	TimedOut   bool             `json:"timed_out,omitempty"`
	Labels     map[string]int64 `json:"labels"`
	Samples    []string         `json:"samples"`
	Failure    *Failure         `json:"failure,omitempty"`
	HarnessErr string           `json:"harness_err,omitempty"`
	StuckIndex *int             `json:"stuck_index,omitempty"`
	WallS      float64          `json:"wall_s"`
}

// ChildOpts selects what a child process runs.
type ChildOpts struct {
	Prop      *Prop
	Sub       *Sub
	Tier      string
	Seed      uint64
	Shard     int
	Shards    int
	CrumbFile string
	Only      int // >=0: run only that case index
	Deadline  time.Time
}

// Cases returns how many cases the sub runs in the tier.
func (s *Sub) Cases(tier string) int {
	if s.Count != nil {
		return s.Count(tier)
	}
	if tier == "thorough" {
		return s.Thorough
	}
	// VERIF_DIVIDE gives a shorter run, for trying things out
	if d, err := strconv.Atoi(os.Getenv("VERIF_DIVIDE")); err == nil && d > 1 {
		return max(s.Quick/d, 1)
	}
	return s.Quick
}

// crumbs keeps, in a memory-mapped file, the case index each worker is running,
// so that the supervisor can find it after a fatal crash.
type crumbs struct{ mem []byte }

func openCrumbs(path string, n int) *crumbs {
	if path == "" {
		return nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	if f.Truncate(int64(8*n)) != nil {
		return nil
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, 8*n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &crumbs{mem}
}

func (c *crumbs) set(w int, v int64) {
	if c != nil {
		binary.LittleEndian.PutUint64(c.mem[8*w:], uint64(v))
	}
}

// ReadCrumbs returns the in-flight case indexes left by a dead child.
func ReadCrumbs(path string) []int {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []int
	for i := 0; i+8 <= len(b); i += 8 {
		v := int64(binary.LittleEndian.Uint64(b[i:]))
		if v > 0 {
			out = append(out, int(v-1))
		}
	}
	sort.Ints(out)
	return out
}

const sampleCap = 6

// RunChild runs the cases of one shard in this process.
func RunChild(o ChildOpts) *Result {
	start := time.Now()
	sub := o.Sub
	n := sub.Cases(o.Tier)
	workers := runtime.NumCPU()
	if sub.Workers > 0 {
		workers = sub.Workers
	}
	if sub.Serial {
		workers = 1
	}
	if o.Only >= 0 {
		workers = 1
	}
	res := &Result{Sub: sub.Name, Labels: map[string]int64{}}
	cr := openCrumbs(o.CrumbFile, workers)
	timeout := sub.CaseTimeout
	if timeout == 0 {
		timeout = 90 * time.Second
	}
	type ws struct {
		began atomic.Int64 // unix nano, 0 = idle
		idx   atomic.Int64
	}
	states := make([]ws, workers)
	var mu sync.Mutex
	var best *outcome
	bestIdx := -1
	var bestChoices []uint64
	var stop atomic.Bool
	hashes := map[uint64]struct{}{}
	stream := o.Prop.ID + "/" + sub.Name

	var stuck atomic.Int64
	stuck.Store(-1)
	done := make(chan struct{})
	go func() {
		tk := time.NewTicker(2 * time.Second)
		defer tk.Stop()
		for {
			select {
			case <-done:
				return
			case <-tk.C:
				for i := range states {
					b := states[i].began.Load()
					if b != 0 && time.Since(time.Unix(0, b)) > timeout {
						stuck.Store(states[i].idx.Load())
						stop.Store(true)
						mu.Lock()
						idx := int(stuck.Load())
						res.StuckIndex = &idx
						res.WallS = time.Since(start).Seconds()
						emit(res)
						os.Exit(7)
					}
				}
			}
		}
	}()

	var timedOut atomic.Bool
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			labels := map[string]int64{}
			var evals, nontriv int64
			local := map[uint64]struct{}{}
			var samples []string
			for !stop.Load() {
				k := int(next.Add(1) - 1)
				i := k*o.Shards + o.Shard
				if o.Only >= 0 {
					if k > 0 {
						break
					}
					i = o.Only
				} else if i >= n {
					break
				}
				if !o.Deadline.IsZero() && k&15 == 0 && time.Now().After(o.Deadline) {
					timedOut.Store(true)
					break
				}
				cr.set(w, int64(i+1))
				states[w].idx.Store(int64(i))
				states[w].began.Store(time.Now().UnixNano())
				oc := runCase(sub, NewSrc(o.Seed, stream, uint64(i)), i, o.Tier)
				states[w].began.Store(0)
				evals++
				for _, l := range oc.t.labels {
					labels[l]++
				}
				if oc.t.nontriv {
					nontriv++
					if _, ok := local[oc.t.key]; !ok {
						local[oc.t.key] = struct{}{}
						if len(samples) < 2 {
							samples = append(samples, oc.t.sample)
						}
					}
				}
				if oc.failed {
					mu.Lock()
					if bestIdx < 0 || i < bestIdx {
						c := oc
						best, bestIdx, bestChoices = &c, i, oc.t.Choices()
					}
					mu.Unlock()
					stop.Store(true)
				}
			}
			cr.set(w, 0)
			mu.Lock()
			for l, c := range labels {
				res.Labels[l] += c
			}
			res.Evaluated += evals
			res.Nontrivial += nontriv
			for h := range local {
				hashes[h] = struct{}{}
			}
			res.Samples = append(res.Samples, samples...)
			mu.Unlock()
		}(w)
	}
	wg.Wait()
	res.Distinct = int64(len(hashes))
	if o.Shards > 1 {
		for h := range hashes {
			res.Hashes = append(res.Hashes, h)
		}
	}
	res.TimedOut = timedOut.Load()
	if len(res.Samples) > sampleCap {
		res.Samples = res.Samples[:sampleCap]
	}
	if best != nil {
		if best.harness {
			res.HarnessErr = fmt.Sprintf("case %d: %s", bestIdx, best.msg)
		} else {
			f := &Failure{Property: o.Prop.ID, Sub: sub.Name, Tier: o.Tier, Seed: o.Seed, Index: bestIdx, Choices: bestChoices, Message: best.msg, Case: best.t.log, Kind: "oracle"}
			shrink(sub, f, o.Tier, &states[0].began, &states[0].idx)
			res.Failure = f
		}
	}
	close(done)
	res.WallS = time.Since(start).Seconds()
	return res
}

// shrink minimises the failing choice sequence in place.
func shrink(sub *Sub, f *Failure, tier string, began, idx *atomic.Int64) {
	deadline := time.Now().Add(25 * time.Second)
	budget := 4000
	if sub.Count != nil && len(f.Choices) == 0 {
		return
	}
	try := func(ch []uint64) (outcome, bool) {
		budget--
		idx.Store(int64(f.Index))
		began.Store(time.Now().UnixNano())
		o := runCase(sub, NewReplay(ch), f.Index, tier)
		began.Store(0)
		return o, o.failed && !o.harness
	}
	cur := f.Choices
	if o, bad := try(cur); !bad {
		f.Message += " [did not fail again when the case alone was replayed in the same process]"
		return
	} else {
		f.Message, f.Case = o.msg, o.t.log
	}
	f.Shrunk = true
	accept := func(ch []uint64) bool {
		if budget <= 0 || time.Now().After(deadline) {
			return false
		}
		o, bad := try(ch)
		if bad {
			used := o.t.Choices()
			if less(used, cur) {
				cur = used
				f.Message, f.Case = o.msg, o.t.log
				return true
			}
		}
		return false
	}
	for improved := true; improved && budget > 0 && time.Now().Before(deadline); {
		improved = false
		// delete chunks
		for size := len(cur) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cur); {
				c := append(append([]uint64(nil), cur[:i]...), cur[i+size:]...)
				if accept(c) {
					improved = true
				} else {
					i += size
				}
			}
		}
		// zero chunks, then minimise single values
		for i := 0; i < len(cur); i++ {
			if cur[i] == 0 {
				continue
			}
			c := append([]uint64(nil), cur...)
			c[i] = 0
			if accept(c) {
				improved = true
				continue
			}
			lo, hi := uint64(0), uint64(0)
			if i < len(cur) {
				hi = cur[i]
			}
			for lo+1 < hi {
				mid := lo + (hi-lo)/2
				if i >= len(cur) {
					break
				}
				c := append([]uint64(nil), cur...)
				c[i] = mid
				if accept(c) {
					improved = true
					if i < len(cur) {
						hi = cur[i]
					} else {
						break
					}
				} else {
					lo = mid
				}
			}
		}
	}
	f.Choices = cur
}

// less orders choice sequences: shorter first, then lexicographically.
func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Replay runs a recorded failure again; it returns the message and whether it
// still fails.
func Replay(sub *Sub, f *Failure) (string, []string, bool) {
	var src *Src
	if f.Tail != nil {
		src = NewGuided(f.Choices, *f.Tail)
	} else if f.Kind == "oracle" {
		src = NewReplay(f.Choices)
	} else {
		src = NewSrc(f.Seed, f.Property+"/"+f.Sub, uint64(f.Index))
	}
	o := runCase(sub, src, f.Index, f.Tier)
	return o.msg, o.t.log, o.failed
}

func emit(r *Result) {
	b, _ := json.Marshal(r)
	os.Stdout.Write(append(append([]byte("RESULT "), b...), '\n'))
}

// Emit writes the result for the supervisor.
func Emit(r *Result) { emit(r) }
