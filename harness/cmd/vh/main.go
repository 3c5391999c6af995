// Command vh runs the checks: "vh check P03" supervises child processes that run
// the generated cases, "vh child ..." is such a process, "vh replay FILE" runs a
// recorded failure again.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/checks"
	"verifharness/pbt"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func outDir() string {
	if d := os.Getenv("VERIF_OUT"); d != "" {
		return d
	}
	return verifDir()
}

func loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	// known: property=P01 id=F1 description
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		pbt.KnownFindings[strings.TrimPrefix(f[2], "id=")] = strings.TrimPrefix(f[1], "property=") + " " + strings.Join(f[3:], " ")
	}
}

func find(prop, sub string) (*pbt.Prop, *pbt.Sub) {
	for _, p := range checks.All() {
		if p.ID == prop {
			for _, s := range p.Subs {
				if s.Name == sub {
					return p, s
				}
			}
			if sub == "" {
				return p, nil
			}
		}
	}
	fmt.Fprintln(os.Stderr, "vh: unknown check", prop, sub)
	os.Exit(2)
	return nil, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|child|replay|list ...")
		os.Exit(2)
	}
	loadKnown()
	switch os.Args[1] {
	case "list":
		for _, p := range checks.All() {
			fmt.Println(p.ID)
			for _, s := range p.Subs {
				fmt.Println("   ", s.Name, s.Cases("quick"), s.Cases("thorough"))
			}
		}
	case "child":
		child(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	default:
		if f := checks.Helpers[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		os.Exit(2)
	}
}

func child(args []string) {
	fs := flag.NewFlagSet("child", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	sub := fs.String("sub", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	crumb := fs.String("crumb", "", "")
	only := fs.Int("only", -1, "")
	deadline := fs.Int64("deadline", 0, "")
	guided := fs.Bool("guided", false, "")
	guidedCase := fs.String("guided-case", "", "")
	fs.Parse(args)
	p, s := find(*prop, *sub)
	o := pbt.ChildOpts{Prop: p, Sub: s, Tier: *tier, Seed: *seed, Shard: *shard, Shards: *shards, CrumbFile: *crumb, Only: *only}
	if *deadline > 0 {
		o.Deadline = time.Unix(*deadline, 0)
	}
	switch {
	case *guidedCase != "":
		ch, tail, _ := pbt.ReadGuidedCrumb(*guidedCase)
		pbt.Emit(pbt.RunGuidedCase(o, ch, tail))
	case *guided:
		pbt.Emit(pbt.RunGuided(o))
	default:
		pbt.Emit(pbt.RunChild(o))
	}
}

type childOut struct {
	res    *pbt.Result
	stderr string
	crumbs []int
	crumb  string
	err    error
	killed bool
}

func runChild(self string, args []string, limit time.Duration, tmp string, tag string) childOut {
	crumb := filepath.Join(tmp, "crumb-"+tag)
	cmd := exec.Command(self, append([]string{"child", "-crumb", crumb}, args...)...)
	var out bytes.Buffer
	errf, _ := os.Create(filepath.Join(tmp, "stderr-"+tag))
	cmd.Stdout, cmd.Stderr = &out, errf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMEMLIMIT=16GiB")
	var o childOut
	if o.err = cmd.Start(); o.err != nil {
		return o
	}
	timer := time.AfterFunc(limit, func() { o.killed = true; cmd.Process.Kill() })
	o.err = cmd.Wait()
	timer.Stop()
	errf.Close()
	b, _ := os.ReadFile(errf.Name())
	if len(b) > 20000 {
		b = b[:20000]
	}
	o.stderr = string(b)
	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<30)
	for sc.Scan() {
		if l := sc.Bytes(); bytes.HasPrefix(l, []byte("RESULT ")) {
			r := &pbt.Result{}
			if json.Unmarshal(l[7:], r) == nil {
				o.res = r
			}
		}
	}
	o.crumb = crumb
	if !guided(args) {
		o.crumbs = pbt.ReadCrumbs(crumb)
	}
	return o
}

func guided(args []string) bool {
	for _, a := range args {
		if a == "-guided" {
			return true
		}
	}
	return false
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	seedS := fs.String("seed", envOr("VERIF_SEED", "1"), "")
	onlySub := fs.String("sub", "", "run only this sub (for development)")
	raceBin := fs.String("race", "", "race-enabled binary")
	covBin := fs.String("cov", "", "binary with the library instrumented for coverage guidance")
	if len(args) == 0 {
		return 2
	}
	propID := args[0]
	fs.Parse(args[1:])
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, err := strconv.ParseUint(*seedS, 10, 64)
	if err != nil {
		seed = pbt.Hash64(*seedS)
	}
	prop, _ := find(propID, "")
	start := time.Now()
	budget := 12 * time.Minute
	if *tier == "thorough" {
		budget = 4 * time.Hour
	}
	deadline := start.Add(budget)
	tmp, err := os.MkdirTemp("", "vh-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Setenv("VH_TMP", tmp)
	self, _ := os.Executable()

	type subRep struct {
		Name      string           `json:"name"`
		Cases     int64            `json:"cases"`
		Distinct  int64            `json:"distinct_nontrivial"`
		Labels    map[string]int64 `json:"labels"`
		WallS     float64          `json:"wall_s"`
		Truncated bool             `json:"stopped_at_time_limit,omitempty"`
	}
	var reps []subRep
	var samples []string
	var total, distinct int64
	known := map[string]int64{}
	var fail *pbt.Failure
	var harnessErr string

	for _, sub := range prop.Subs {
		if *onlySub != "" && sub.Name != *onlySub {
			continue
		}
		bin := self
		if sub.Race {
			if *raceBin == "" {
				harnessErr = "no race-enabled binary given"
				break
			}
			bin = *raceBin
		}
		shards := 1
		if sub.Serial {
			shards = runtime.NumCPU()
			if sub.Shards > 0 {
				shards = sub.Shards
			}
			if n := sub.Cases(*tier); n < shards {
				shards = max(n, 1)
			}
		}
		rep := subRep{Name: sub.Name, Labels: map[string]int64{}}
		hashes := map[uint64]struct{}{}
		outs := make([]childOut, shards)
		var wg sync.WaitGroup
		t0 := time.Now()
		base := func() []string {
			return []string{"-prop", prop.ID, "-sub", sub.Name, "-tier", *tier, "-seed", fmt.Sprint(seed), "-deadline", fmt.Sprint(deadline.Unix())}
		}
		for k := 0; k < shards; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				outs[k] = runChild(bin, append(base(), "-shard", fmt.Sprint(k), "-shards", fmt.Sprint(shards)), time.Until(deadline)+2*time.Minute, tmp, fmt.Sprintf("%s-%d", sub.Name, k))
			}(k)
		}
		wg.Wait()
		for k := range outs {
			o := &outs[k]
			if r := o.res; r != nil {
				rep.Cases += r.Evaluated
				if shards > 1 {
					for _, h := range r.Hashes {
						hashes[h] = struct{}{}
					}
				} else {
					rep.Distinct = r.Distinct
				}
				for l, c := range r.Labels {
					if id, ok := strings.CutPrefix(l, "known-finding:"); ok {
						known[id] += c
						continue
					}
					rep.Labels[l] += c
				}
				if len(samples) < 24 {
					for i, s := range r.Samples {
						if i < 3 {
							samples = append(samples, sub.Name+": "+s)
						}
					}
				}
				rep.Truncated = rep.Truncated || r.TimedOut
				if r.HarnessErr != "" && harnessErr == "" {
					harnessErr = sub.Name + ": " + r.HarnessErr
				}
				if r.Failure != nil && (fail == nil || r.Failure.Index < fail.Index) {
					fail = r.Failure
				}
			}
			if o.res == nil || o.res.StuckIndex != nil {
				// the process died or a case got stuck: run the cases it was in again, alone
				cand := o.crumbs
				if o.res != nil && o.res.StuckIndex != nil {
					cand = []int{*o.res.StuckIndex}
				}
				if len(cand) > 16 {
					cand = cand[:16]
				}
				confirmed := false
				for _, idx := range cand {
					lim := 4 * time.Minute
					c := runChild(bin, append(base()[:8], "-only", fmt.Sprint(idx)), lim, tmp, fmt.Sprintf("again-%d", idx))
					switch {
					case c.res != nil && c.res.StuckIndex != nil || c.killed:
						fail, confirmed = &pbt.Failure{Property: prop.ID, Sub: sub.Name, Tier: *tier, Seed: seed, Index: idx, Kind: "hang",
							Message: "the case does not finish (confirmed in a fresh process)"}, true
					case c.res == nil:
						if why, ok := fatal(c.stderr); ok {
							fail, confirmed = &pbt.Failure{Property: prop.ID, Sub: sub.Name, Tier: *tier, Seed: seed, Index: idx, Kind: "crash", Message: why}, true
						}
					case c.res.Failure != nil:
						fail, confirmed = c.res.Failure, true
					}
					if confirmed {
						break
					}
				}
				if !confirmed && o.res == nil {
					// a concurrency failure need not repeat when the case runs alone
					if why, ok := fatal(o.stderr); ok && (sub.Race || strings.Contains(why, "concurrent map") || strings.Contains(why, "DATA RACE") || strings.Contains(why, "all goroutines are asleep")) {
						idx := -1
						if len(cand) > 0 {
							idx = cand[0]
						}
						fail, confirmed = &pbt.Failure{Property: prop.ID, Sub: sub.Name, Tier: *tier, Seed: seed, Index: idx, Kind: "crash", Message: why}, true
					}
				}
				if !confirmed && harnessErr == "" {
					if o.res != nil {
						// slow, not stuck (a loaded machine): the cases after it were not run
						fmt.Fprintf(os.Stderr, "note: %s case %d was slow but finished on its own; stopped there\n", sub.Name, *o.res.StuckIndex)
						rep.Truncated = true
					} else {
						harnessErr = fmt.Sprintf("%s: child process ended (%v) and no case reproduces it\n%s", sub.Name, o.err, errTail(o.stderr))
					}
				}
			}
		}
		if shards > 1 {
			rep.Distinct = int64(len(hashes))
		}
		rep.WallS = time.Since(t0).Seconds()
		total += rep.Cases
		distinct += rep.Distinct
		reps = append(reps, rep)
		fmt.Printf("%s/%s: %d cases, %d distinct non-trivial, %.1fs\n", prop.ID, sub.Name, rep.Cases, rep.Distinct, rep.WallS)
		if fail != nil || harnessErr != "" {
			break
		}
	}

	// the same checks again, with the cases led by what they make the library do
	for _, sub := range prop.Subs {
		if *covBin == "" || !sub.Guidable() || *onlySub != "" && sub.Name != *onlySub || fail != nil || harnessErr != "" {
			continue
		}
		rep := subRep{Name: sub.Name + " (guided)", Labels: map[string]int64{}}
		hashes := map[uint64]struct{}{}
		shards := max(min(runtime.NumCPU(), sub.GuidedCases(*tier)), 1)
		outs := make([]childOut, shards)
		base := []string{"-prop", prop.ID, "-sub", sub.Name, "-tier", *tier, "-seed", fmt.Sprint(seed)}
		var wg sync.WaitGroup
		t0 := time.Now()
		for k := 0; k < shards; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				outs[k] = runChild(*covBin, append(base[:len(base):len(base)], "-guided", "-deadline", fmt.Sprint(deadline.Unix()), "-shard", fmt.Sprint(k), "-shards", fmt.Sprint(shards)), time.Until(deadline)+2*time.Minute, tmp, fmt.Sprintf("%s-guided-%d", sub.Name, k))
			}(k)
		}
		wg.Wait()
		for k := range outs {
			o := &outs[k]
			if r := o.res; r != nil {
				rep.Cases += r.Evaluated
				for _, h := range r.Hashes {
					hashes[h] = struct{}{}
				}
				for l, c := range r.Labels {
					if id, ok := strings.CutPrefix(l, "known-finding:"); ok {
						known[id] += c
						continue
					}
					if l == "behaviours seen" {
						rep.Labels[l] = max(rep.Labels[l], c)
						continue
					}
					rep.Labels[l] += c
				}
				rep.Truncated = rep.Truncated || r.TimedOut
				if r.HarnessErr != "" && harnessErr == "" {
					harnessErr = rep.Name + ": " + r.HarnessErr
				}
				if r.Failure != nil && fail == nil {
					fail = r.Failure
				}
				continue
			}
			// the process died or was stuck: run the case it was in again, alone
			ch, tail, ok := pbt.ReadGuidedCrumb(o.crumb)
			if !ok {
				if o.killed {
					rep.Truncated = true
				} else if harnessErr == "" {
					harnessErr = fmt.Sprintf("%s: child process ended (%v)\n%s", rep.Name, o.err, errTail(o.stderr))
				}
				continue
			}
			f := &pbt.Failure{Property: prop.ID, Sub: sub.Name, Tier: *tier, Seed: seed, Index: -1, Choices: ch, Tail: &tail}
			c := runChild(self, append(base[:len(base):len(base)], "-guided-case", o.crumb), 4*time.Minute, tmp, fmt.Sprintf("again-guided-%d", k))
			switch {
			case c.res != nil && c.res.StuckIndex != nil || c.killed:
				f.Kind, f.Message = "hang", "the case does not finish (confirmed in a fresh process)"
				fail = f
			case c.res == nil:
				if why, ok := fatal(c.stderr); ok {
					f.Kind, f.Message = "crash", why
					fail = f
				}
			case c.res.Failure != nil:
				fail = c.res.Failure
			}
			if fail == nil {
				fmt.Fprintf(os.Stderr, "note: %s stopped early (%v) at a case that finishes on its own\n", rep.Name, o.err)
				rep.Truncated = true
			}
		}
		rep.Distinct = int64(len(hashes))
		rep.WallS = time.Since(t0).Seconds()
		total += rep.Cases
		// not added to the distinct cases: some may be among those above
		reps = append(reps, rep)
		fmt.Printf("%s/%s: %d cases, %d distinct non-trivial, %.1fs\n", prop.ID, rep.Name, rep.Cases, rep.Distinct, rep.WallS)
	}

	viol := 0
	if fail != nil {
		viol = 1
	}
	ev := map[string]any{
		"property": prop.ID, "tier": *tier, "seed": int64(seed & (1<<53 - 1)), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": distinct, "rule": prop.Rule, "samples": samples, "subchecks": reps,
		},
		"assumptions": append([]string{"the reference model reads the numbering plan data files shipped in the repository and trusts their content", "Go's regexp, unicode and text/display packages are trusted"}, prop.Assumptions...),
		"wall_s":      time.Since(start).Seconds(), "violations": viol,
	}
	if *onlySub == "" {
		os.MkdirAll(filepath.Join(outDir(), "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(outDir(), "evidence", prop.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	ids := make([]string, 0, len(known))
	for id := range known {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		d := strings.SplitN(pbt.KnownFindings[id], " ", 2)
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop.ID, d[len(d)-1])
	}
	if fail != nil {
		dir := filepath.Join(outDir(), "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", fail.Property, fail.Sub, seed))
		b, _ := json.MarshalIndent(fail, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s/%s case %d: %s\n", fail.Property, fail.Sub, fail.Index, fail.Message)
		for _, l := range fail.Case {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "ERROR of the check itself:", harnessErr)
		return 3
	}
	return 0
}

func errTail(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// fatal recognises a runtime crash report that involves the library.
func fatal(stderr string) (string, bool) {
	for _, m := range []string{"WARNING: DATA RACE", "fatal error: ", "panic: ", "unexpected fault address", "SIGSEGV"} {
		if i := strings.Index(stderr, m); i >= 0 {
			if !strings.Contains(stderr[i:], pbt.LibPath) {
				continue
			}
			s := stderr[i:]
			if len(s) > 4000 {
				s = s[:4000]
			}
			return s, true
		}
	}
	return "", false
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func replay(args []string) int {
	if len(args) != 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	f := &pbt.Failure{}
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	_, sub := find(f.Property, f.Sub)
	msg, log, bad := pbt.Replay(sub, f)
	for _, l := range log {
		fmt.Println("   ", l)
	}
	if bad {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
		return 1
	}
	fmt.Println("the recorded case passes")
	return 0
}
