package pbt

import (
	"encoding/binary"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Coverage-guided search. A case is a sequence of choices; cases that make the
// instrumented library do something new (an edge, a number of passes over an
// edge, a comparison that comes closer to being equal) are kept, and further
// cases are made from them by editing their choices.

// Edges are the edge counters of the instrumented library, Compared the marks
// left by its comparisons. They are set in the instrumented binary only.
var (
	Edges    []byte
	Compared []byte
)

// Guidable reports whether the sub can be searched with guidance.
func (s *Sub) Guidable() bool {
	return s.Count == nil && !s.Race && !s.NoGuide && (!s.Serial || s.Guide)
}

// GuidedCases returns how many cases the guided search of the sub runs.
func (s *Sub) GuidedCases(tier string) int {
	if tier == "thorough" {
		return s.Cases(tier) / 4
	}
	return s.Cases(tier) / 2
}

const maxPrefix = 4000

// guidedCrumb keeps the case that is being run in a memory-mapped file.
type guidedCrumb struct{ mem []byte }

func openGuidedCrumb(path string) *guidedCrumb {
	if path == "" {
		return nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	size := 8 * (maxPrefix + 2)
	if f.Truncate(int64(size)) != nil {
		return nil
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &guidedCrumb{mem}
}

func (c *guidedCrumb) set(ch []uint64, tail uint64) {
	if c == nil {
		return
	}
	binary.LittleEndian.PutUint64(c.mem, uint64(len(ch)+1))
	binary.LittleEndian.PutUint64(c.mem[8:], tail)
	for i, v := range ch {
		binary.LittleEndian.PutUint64(c.mem[16+8*i:], v)
	}
}

func (c *guidedCrumb) clear() {
	if c != nil {
		binary.LittleEndian.PutUint64(c.mem, 0)
	}
}

// ReadGuidedCrumb returns the case a dead guided child was running.
func ReadGuidedCrumb(path string) (ch []uint64, tail uint64, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return nil, 0, false
	}
	n := int(binary.LittleEndian.Uint64(b)) - 1
	if n < 0 || 16+8*n > len(b) {
		return nil, 0, false
	}
	for i := 0; i < n; i++ {
		ch = append(ch, binary.LittleEndian.Uint64(b[16+8*i:]))
	}
	return ch, binary.LittleEndian.Uint64(b[8:]), true
}

type entry struct {
	ch, bounds []uint64
	feats      []uint32
}

var bucket = func() (t [256]byte) {
	for i := 1; i < 256; i++ {
		switch {
		case i <= 3:
			t[i] = byte(i)
		case i <= 7:
			t[i] = 4
		case i <= 15:
			t[i] = 5
		case i <= 31:
			t[i] = 6
		case i <= 127:
			t[i] = 7
		default:
			t[i] = 8
		}
	}
	return
}()

// features lists what the last case did and forgets it.
func features(dst []uint32) []uint32 {
	dst = dst[:0]
	i := 0
	for ; i+8 <= len(Edges); i += 8 {
		if binary.LittleEndian.Uint64(Edges[i:]) == 0 {
			continue
		}
		for j := i; j < i+8; j++ {
			if b := bucket[Edges[j]]; b != 0 {
				dst = append(dst, uint32(j)<<4|uint32(b))
			}
		}
	}
	for ; i < len(Edges); i++ {
		if b := bucket[Edges[i]]; b != 0 {
			dst = append(dst, uint32(i)<<4|uint32(b))
		}
	}
	clear(Edges)
	for i := 0; i+8 <= len(Compared); i += 8 {
		if binary.LittleEndian.Uint64(Compared[i:]) == 0 {
			continue
		}
		for j := i; j < i+8; j++ {
			if Compared[j] != 0 {
				dst = append(dst, uint32(len(Edges)<<4+j))
				Compared[j] = 0
			}
		}
	}
	return dst
}

// mutate makes the choices of a new case out of kept ones.
func mutate(r *Src, corpus []*entry, e *entry) []uint64 {
	ch := append([]uint64(nil), e.ch...)
	redraw := func(i int) {
		n := uint64(1)
		if i < len(e.bounds) {
			n = e.bounds[i]
		}
		switch r.N(6) {
		case 0:
			ch[i] = 0
		case 1:
			ch[i] = n - 1
		case 2:
			ch[i] = (ch[i] + 1) % max(n, 1)
		case 3:
			ch[i] = (ch[i] + n - 1) % max(n, 1)
		default:
			ch[i] = r.U(n)
		}
	}
	if len(ch) == 0 {
		return ch
	}
	switch r.N(10) {
	case 0: // cut short: the rest is drawn anew
		ch = ch[:r.N(len(ch))]
	case 1: // the beginning of one and the end of another
		o := corpus[r.N(len(corpus))]
		if len(o.ch) > 0 {
			k := r.N(len(ch))
			l := min(k, len(o.ch)-1)
			if r.Bool() {
				l = r.N(len(o.ch))
			}
			ch = append(ch[:k], o.ch[l:]...)
		}
	case 2: // drop a stretch
		i := r.N(len(ch))
		j := min(i+1+r.N(8), len(ch))
		ch = append(ch[:i], ch[j:]...)
	case 3: // repeat a stretch
		i := r.N(len(ch))
		j := min(i+1+r.N(8), len(ch))
		st := append([]uint64(nil), ch[i:j]...)
		ch = append(ch[:j], append(st, ch[j:]...)...)
	case 4: // insert a stretch
		i := r.N(len(ch) + 1)
		var st []uint64
		for k := 1 + r.N(4); k > 0; k-- {
			st = append(st, r.U(256))
		}
		ch = append(ch[:i], append(st, ch[i:]...)...)
	case 5: // a value from elsewhere
		ch[r.N(len(ch))] = ch[r.N(len(ch))]
	case 6: // a stretch drawn anew
		i := r.N(len(ch))
		for j := i; j < min(i+2+r.N(12), len(ch)); j++ {
			redraw(j)
		}
	default:
		for k := 1 + r.N(4); k > 0; k-- {
			redraw(r.N(len(ch)))
		}
	}
	if len(ch) > maxPrefix {
		ch = ch[:maxPrefix]
	}
	return ch
}

// RunGuided searches with guidance, in one goroutine.
func RunGuided(o ChildOpts) *Result {
	start := time.Now()
	sub := o.Sub
	n := sub.GuidedCases(o.Tier) / o.Shards
	res := &Result{Sub: sub.Name, Labels: map[string]int64{}}
	cr := openGuidedCrumb(o.CrumbFile)
	timeout := sub.CaseTimeout
	if timeout == 0 {
		timeout = 90 * time.Second
	}
	var began, idx atomic.Int64
	var mu sync.Mutex
	done := make(chan struct{})
	go func() {
		tk := time.NewTicker(2 * time.Second)
		defer tk.Stop()
		for {
			select {
			case <-done:
				return
			case <-tk.C:
				if b := began.Load(); b != 0 && time.Since(time.Unix(0, b)) > timeout {
					mu.Lock()
					os.Exit(7)
				}
			}
		}
	}()
	r := NewSrc(o.Seed, fmt.Sprintf("%s/%s/guided/%d", o.Prop.ID, sub.Name, o.Shard), 0)
	hits := make([]uint32, len(Edges)<<4+len(Compared))
	seen := int64(0)
	var corpus []*entry
	var fs []uint32
	hashes := map[uint64]struct{}{}
	rarity := func(e *entry) uint32 {
		m := uint32(1<<32 - 1)
		for _, f := range e.feats {
			if h := hits[f]; h < m {
				m = h
			}
		}
		return m
	}
	clear(Edges)
	clear(Compared)
	for i := 0; i < n; i++ {
		if !o.Deadline.IsZero() && i&15 == 0 && time.Now().After(o.Deadline) {
			res.TimedOut = true
			break
		}
		r.rec = r.rec[:0]
		var ch []uint64
		if len(corpus) > 0 && r.N(4) > 0 {
			// of a few kept cases, the one that does the rarest thing
			e := corpus[r.N(len(corpus))]
			best := rarity(e)
			for k := 0; k < 3; k++ {
				c := corpus[r.N(len(corpus))]
				if q := rarity(c); q < best {
					e, best = c, q
				}
			}
			ch = mutate(r, corpus, e)
		}
		tail := r.U(1 << 60)
		cr.set(ch, tail)
		idx.Store(int64(i))
		began.Store(time.Now().UnixNano())
		oc := runCase(sub, NewGuided(ch, tail), i, o.Tier)
		began.Store(0)
		res.Evaluated++
		for _, l := range oc.t.labels {
			res.Labels[l]++
		}
		if oc.t.nontriv {
			res.Nontrivial++
			if _, ok := hashes[oc.t.key]; !ok {
				hashes[oc.t.key] = struct{}{}
				if len(res.Samples) < 2 {
					res.Samples = append(res.Samples, oc.t.sample)
				}
			}
		}
		if oc.failed {
			if oc.harness {
				res.HarnessErr = fmt.Sprintf("guided case %d: %s", i, oc.msg)
			} else {
				f := &Failure{Property: o.Prop.ID, Sub: sub.Name, Tier: o.Tier, Seed: o.Seed, Index: i, Choices: oc.t.Choices(), Message: oc.msg, Case: oc.t.log, Kind: "oracle"}
				shrink(sub, f, o.Tier, &began, &idx)
				res.Failure = f
			}
			break
		}
		fs = features(fs)
		isNew := false
		for _, f := range fs {
			h := hits[f]
			if h == 0 {
				isNew = true
				seen++
			}
			hits[f] = h + 1
		}
		if isNew && len(oc.t.rec) > 0 {
			k := min(len(oc.t.rec), maxPrefix)
			e := &entry{ch: append([]uint64(nil), oc.t.rec[:k]...), bounds: append([]uint64(nil), oc.t.bounds[:k]...)}
			// keep the rare ones only: they are what the case is chosen for
			for _, f := range fs {
				if hits[f] <= 3 {
					e.feats = append(e.feats, f)
				}
			}
			corpus = append(corpus, e)
		}
	}
	cr.clear()
	close(done)
	res.Labels["kept for new behaviour"] = int64(len(corpus))
	res.Labels["behaviours seen"] = seen
	res.Distinct = int64(len(hashes))
	for h := range hashes {
		res.Hashes = append(res.Hashes, h)
	}
	res.WallS = time.Since(start).Seconds()
	return res
}

// RunGuidedCase runs one guided case, to confirm a crash or hang.
func RunGuidedCase(o ChildOpts, ch []uint64, tail uint64) *Result {
	sub := o.Sub
	res := &Result{Sub: sub.Name, Labels: map[string]int64{}}
	timeout := sub.CaseTimeout
	if timeout == 0 {
		timeout = 90 * time.Second
	}
	time.AfterFunc(timeout, func() {
		i := 0
		res := &Result{Sub: sub.Name, StuckIndex: &i}
		emit(res)
		os.Exit(7)
	})
	oc := runCase(sub, NewGuided(ch, tail), 0, o.Tier)
	if oc.failed && !oc.harness {
		t := tail
		res.Failure = &Failure{Property: o.Prop.ID, Sub: sub.Name, Tier: o.Tier, Seed: o.Seed, Choices: ch, Tail: &t, Message: oc.msg, Case: oc.t.log, Kind: "oracle"}
	}
	return res
}
