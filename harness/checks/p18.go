package checks

import (
	"math"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/metadata"

	"verifharness/model"
	"verifharness/pbt"
)

// askAbout makes one query of some kind and compares it with what w gives.
func askAbout(t *pbt.T, w *model.World) {
	switch t.Weighted(6, 3, 3, 4, 3, 4, 2, 1, 1, 2, 2, 1) {
	case 0:
		s, r := anyText(t, w)
		checkParse(t, w, s, r)
	case 1:
		checkClass(t, w, numMsg(t, w))
	case 2:
		checkPossible(t, w, numMsg(t, w))
	case 3:
		p := anyPlan(t, w)
		n := numOf(p.CC, ruleNSN(t, p))
		if t.Bool() {
			n = numMsg(t, w)
		}
		checkFormat(t, w, n)
	case 4:
		n := numMsg(t, w)
		if t.Chance(1, 3) {
			n.Carrier = digits(t, 1+t.N(3))
		}
		if t.Chance(1, 3) {
			s, r := numText(t, w, "")
			if m, err := w.Parse(s, r, true); err == nil {
				n = m
			}
		}
		checkDialling(t, w, n, caller(t, w, n))
	case 5:
		s, r := typing(t, w)
		typeAll(t, w, pn.GetAsYouTypeFormatter(r), w.NewTyper(r), s, r, -1)
	case 6:
		s, r := prose(t, w)
		checkFind(t, w, s, r, model.Leniency(t.N(4)), math.MaxInt)
	case 7:
		r := anyRegion(t, w)
		if t.Bool() {
			r = pbt.Pick(t.Src, regionPool)
		}
		checkRegionListing(t, w, r)
	case 8:
		cc := pbt.Pick(t.Src, w.Codes)
		if t.Bool() {
			cc = pbt.Pick(t.Src, codePool)
		}
		checkCodeListing(t, w, cc)
		checkSets(t, w)
	case 9:
		checkNDC(t, w, numMsg(t, w))
	case 10:
		a, b := numPair(t, w)
		s, u := writeText(t, w, a), writeText(t, w, b)
		t.Log("%q vs %q", s, u)
		if g, x := pn.IsNumberMatch(s, u), w.MatchTexts(s, u); g != pn.MatchType(x) {
			t.Fail("IsNumberMatch(%q, %q) = %d; the rules give %d", s, u, g, x)
		}
		if g, x := pn.IsNumberMatchWithOneNumber(msg(t, a), u), w.MatchNumText(a, u); g != pn.MatchType(x) {
			t.Fail("IsNumberMatchWithOneNumber(%s, %q) = %d; the rules give %d", show(a), u, g, x)
		}
	case 11:
		p := anyPlan(t, w)
		checkTruncate(t, w, numOf(p.CC, validNSN(t, p)+digits(t, t.N(4))))
	}
}

func init() {
	register(&pbt.Prop{
		ID:   "P18",
		Rule: "at least one query on the installed plans was non-trivial by the rule of the property it belongs to (parsed, valid, formatted, found, known code); counted by distinct set of such queries",
		Subs: []*pbt.Sub{
			{Name: "installed", Quick: 16000, Thorough: 600000, Serial: true, Guide: true, Run: func(t *pbt.T) {
				w := genWorld(t)
				describeWorld(t, w)
				defer install(w)()
				for k := 4 + t.N(30); k > 0; k-- {
					askAbout(t, w)
				}
			}},
			{Name: "sequences", Quick: 6000, Thorough: 200000, Serial: true, Guide: true, Run: func(t *pbt.T) {
				// collections installed one over the other and taken away again
				type layer struct {
					w       *model.World
					restore func()
				}
				layers := []layer{{w0(), nil}}
				defer func() {
					for len(layers) > 1 {
						layers[len(layers)-1].restore()
						layers = layers[:len(layers)-1]
					}
				}()
				for k := 2 + t.N(8); k > 0; k-- {
					if len(layers) > 1 && t.Chance(2, 5) {
						t.Log("restore")
						layers[len(layers)-1].restore()
						layers = layers[:len(layers)-1]
					} else {
						if t.Chance(1, 12) {
							t.Log("a fresh load of the built-in plans")
							c, err := metadata.Load()
							if err != nil {
								t.Fail("the built-in plans do not load: %v", err)
							}
							layers = append(layers, layer{w0(), metadata.Use(c)})
						} else {
							w := genWorld(t)
							if len(layers) > 1 && t.Chance(1, 4) {
								w = layers[t.N(len(layers))].w // an earlier one again
							}
							if len(w.RegionIDs) < 100 {
								describeWorld(t, w)
							}
							layers = append(layers, layer{w, install(w)})
						}
						if c, err := metadata.NewContainer(&metadata.PhoneMetadataCollection{}, map[int][]string{}); t.Chance(1, 12) && (c != nil || err == nil) {
							t.Fail("a collection without plans is accepted")
						}
					}
					top := layers[len(layers)-1].w
					for q := 1 + t.N(8); q > 0; q-- {
						askAbout(t, top)
					}
				}
				for len(layers) > 1 {
					layers[len(layers)-1].restore()
					layers = layers[:len(layers)-1]
				}
				t.Log("all restored")
				for q := 1 + t.N(8); q > 0; q-- {
					askAbout(t, w0())
				}
			}},
		},
	})
}
