package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/model"
	"verifharness/pbt"
)

// The library served from built files: the data files the builder made from a
// generated source take the place of the shipped ones in a build of the library
// (go build -overlay), and that build answers questions like any other.

// dataDirs are the places of the data files and which files there belong to them.
var dataFiles = []string{"metadata/data/*.gz", "data/*.gz", "timezone/data/*.gz", "carrier/data/*.gz", "geocoding/data/*.gz"}

// serve builds this harness with the library's data files replaced by those below
// built and returns the binary.
func serve(built string) (string, error) {
	repl := map[string]string{}
	for _, g := range dataFiles {
		old, _ := filepath.Glob(filepath.Join(model.RepoDir(), g))
		for _, f := range old {
			repl[f] = "" // gone
		}
		now, _ := filepath.Glob(filepath.Join(built, g))
		for _, f := range now {
			rel, _ := filepath.Rel(built, f)
			repl[filepath.Join(model.RepoDir(), rel)] = f
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(built+"/overlay.json", js, 0o644); err != nil {
		return "", err
	}
	exe := built + "/vh-served"
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-modfile="+os.Getenv("VH_MODFILE"), "-overlay="+built+"/overlay.json", "-ldflags=-s -w", "-o", exe, "./cmd/vh")
	cmd.Dir = os.Getenv("VERIF_DIR") + "/harness"
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%w\n%s", err, out)
	}
	return exe, nil
}

type servedReq struct {
	Seed uint64
	N    int
}

type servedRes struct {
	Fail     string
	Log      []string
	Asked    int
	Distinct int
	Labels   map[string]int
}

// servedMain asks questions of the library it is linked with.
func servedMain([]string) {
	req := &servedReq{}
	if err := json.NewDecoder(os.Stdin).Decode(req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	res := &servedRes{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	w := *w0() // a copy, as what is only claimed of the shipped data is not claimed of this
	for i := 0; i < req.N && res.Fail == ""; i++ {
		kind := ""
		r := pbt.RunOne(func(t *pbt.T) { kind = askServed(t, &w) }, pbt.NewSrc(req.Seed, "served", uint64(i)))
		if r.Harness {
			fmt.Fprintln(os.Stderr, r.Fail)
			os.Exit(3)
		}
		res.Fail, res.Log = r.Fail, r.Log
		res.Asked++
		if r.Key != 0 && !seen[r.Key] {
			seen[r.Key] = true
			res.Distinct++
			res.Labels[kind]++
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// askServed makes one query and compares it with what the data files give.
func askServed(t *pbt.T, w *model.World) string {
	switch t.Weighted(4, 4, 3, 4, 2, 2, 4) {
	case 0:
		if k, ok := someTable(t, carrierKeys()); ok {
			checkCarrierOf(t, w, lookupNum(t, w, k.keys), k.lang)
			return "carrier"
		}
	case 1:
		if k, ok := someTable(t, geoKeys()); ok {
			n := lookupNum(t, w, k.keys)
			checkPlaceOf(t, w, n, k.lang, regionFor(t, w, n))
			return "place"
		}
	case 2:
		if len(zoneKeys()) > 0 {
			checkZonesOf(t, w, lookupNum(t, w, zoneKeys()))
			return "zones"
		}
	case 3:
		r := shortRegion(t)
		cc := 0
		if p := w.Regions[r]; p != nil {
			cc = p.CC
		}
		checkShort(t, w, numOf(cc, shortText(t, r)), r)
		return "short"
	case 4:
		r := shortRegion(t)
		checkEmergency(t, w, shortText(t, r), r)
		return "emergency"
	case 5:
		s, r := prose(t, w)
		checkFind(t, w, s, r, model.Leniency(t.N(4)), math.MaxInt)
		return "search"
	}
	askAbout(t, w)
	return "plan"
}

func someTable(t *pbt.T, ks []keyed) (keyed, bool) {
	var full []keyed
	for _, k := range ks {
		if len(k.keys) > 0 {
			full = append(full, k)
		}
	}
	if len(full) == 0 {
		return keyed{}, false
	}
	return pbt.Pick(t.Src, full), true
}

// servedCase builds a generated source and questions the library served from it.
func servedCase(t *pbt.T) {
	s := genTreeUpTo(t, 9) // the lookups are made for prefixes of up to nine digits
	logTree(t, s)
	req := &servedReq{Seed: uint64(t.N(1 << 30)), N: 2500}
	dir := buildOnce(t, s)
	defer os.RemoveAll(dir)
	compareBuilt(t, dir, s)
	exe, err := serve(dir)
	if err != nil {
		t.Label("not served: no build with other data files")
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	in, _ := json.Marshal(req)
	cmd := exec.CommandContext(ctx, exe, "served")
	var out, errb bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &out, &errb
	cmd.Env = append(os.Environ(), "VERIF_REPO="+dir)
	if err := cmd.Run(); err != nil {
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 3 {
			panic("harness: " + errb.String())
		}
		t.Fail("the library served from the built files does not answer: %v\n%s", err, clip(errb.String()))
	}
	res := &servedRes{}
	if err := json.Unmarshal(out.Bytes(), res); err != nil {
		panic(err)
	}
	if res.Fail != "" {
		t.Fail("served from the built files, after %d questions: %s (%s)", res.Asked, res.Fail, strings.Join(res.Log, "; "))
	}
	var ls []string
	for l := range res.Labels {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		t.Label("served " + l)
	}
	if res.Distinct > 0 {
		t.NonTrivial(strconv.Itoa(res.Distinct) + s.files["resources/PhoneNumberMetadata.xml"] + fmt.Sprint(s.tables, s.zones))
	}
}
