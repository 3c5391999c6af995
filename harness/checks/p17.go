package checks

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"verifharness/pbt"
)

// concMain makes calls from many goroutines at once in a process whose caches
// are cold, then makes them again one after another.
func concMain([]string) {
	req := &freshReq{}
	if err := json.NewDecoder(os.Stdin).Decode(req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	t := &pbt.T{Src: pbt.NewReplay(req.Choices)}
	calls := callList(t, req.N)
	start := make(chan struct{})
	var wg sync.WaitGroup
	type got struct {
		call int
		out  string
	}
	outs := make([][]got, req.Procs)
	for g := 0; g < req.Procs; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(req.Sched, uint64(g)))
			order := r.Perm(len(calls))
			if g%4 == 0 {
				// these goroutines make the same calls in the same order
				for i := range order {
					order[i] = i
				}
			}
			<-start
			for k := 0; k < req.Per && k < len(order); k++ {
				i := order[k]
				outs[g] = append(outs[g], got{i, calls[i].safely(r.IntN(2) == 0)})
				if r.IntN(8) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	res := &freshRes{Results: make([][]byte, len(calls))}
	for i := range calls {
		res.Results[i] = []byte(calls[i].safely(false))
	}
	for _, o := range outs {
		for _, g := range o {
			if g.out != string(res.Results[g.call]) && res.Bad == "" {
				res.Bad = fmt.Sprintf("%s gave %s when called concurrently and %s when called alone", calls[g.call].desc, clip(g.out), clip(string(res.Results[g.call])))
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func concCase(t *pbt.T) {
	n := 4 + t.N(60)
	had := len(t.Choices())
	calls := callList(t, n)
	choices := t.Choices()[had:]
	req := &freshReq{Choices: choices, N: n, Procs: 2 + t.N(30), Per: 1 + t.N(40), Sched: t.U(1 << 30)}
	good, key := 0, ""
	alone := make([]string, n)
	for i, c := range calls {
		alone[i] = c.safely(false)
		if !trivialResult(alone[i]) {
			good++
		}
		key += c.desc
		t.Log("%s", c.desc)
	}
	if good >= 4 {
		t.NonTrivial(fmt.Sprint(req.Procs, " goroutines, ", req.Per, " of: ", key))
	}
	res, stderr, hung, err := inFreshProcess("concurrent", req, 4*time.Minute)
	if err != nil {
		if hung {
			t.Fail("%d goroutines making these calls do not finish", req.Procs)
		}
		// A caller may change what it was given: a race of that with another call
		// means that the two share it.
		for _, m := range []string{"WARNING: DATA RACE", "fatal error:", "panic:", "SIGSEGV"} {
			if i := strings.Index(stderr, m); i >= 0 && (strings.Contains(stderr[i:], pbt.LibPath) || strings.Contains(stderr[i:], ".spoil")) {
				s := stderr[i:]
				if len(s) > 3500 {
					s = s[:3500]
				}
				t.Fail("%d goroutines: %s", req.Procs, s)
			}
		}
		panic(fmt.Sprint("concurrent process: ", err, stderr))
	}
	if res.Bad != "" {
		t.Fail("%s", res.Bad)
	}
	for i := range calls {
		if string(res.Results[i]) != alone[i] {
			t.Fail("%s gives %s alone and %s after concurrent use", calls[i].desc, clip(alone[i]), clip(string(res.Results[i])))
		}
	}
}

func init() {
	Helpers["concurrent"] = concMain
	register(&pbt.Prop{
		ID:          "P17",
		Rule:        "at least four of the calls made concurrently returned something beyond empty, zero, false or an error; counted by distinct set of calls and goroutine count; every case starts in a fresh process with cold caches",
		Assumptions: []string{"interleavings are those the Go scheduler produces with 2 to 31 goroutines on this machine; data races are found by the race detector's happens-before analysis, which does not need the harmful interleaving itself"},
		Subs: []*pbt.Sub{
			{Name: "race-detector", Quick: 800, Thorough: 40000, Serial: true, Race: true, CaseTimeout: 10 * time.Minute, Run: concCase},
			{Name: "full-speed", Quick: 1600, Thorough: 80000, Serial: true, CaseTimeout: 10 * time.Minute, Run: concCase},
		},
	})
}
