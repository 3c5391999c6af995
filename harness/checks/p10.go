package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"
	"strconv"
	"strings"

	"verifharness/model"
	"verifharness/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:   "P10",
		Rule: "the two numbers are related (grade above no-match) or both texts are numbers; counted by distinct pair",
		Subs: []*pbt.Sub{
			{Name: "messages", Quick: 800000, Thorough: 40000000, Run: func(t *pbt.T) {
				a, b := numPair(t, w0())
				t.Log("%s vs %s", show(a), show(b))
				want := model.MatchNums(a, b)
				t.Label("grade " + itoa(int(want)))
				if want > model.NoMatch {
					t.NonTrivial(show(a) + show(b))
				}
				pa, pb := msg(t, a), msg(t, b)
				if g := pn.IsNumberMatchWithNumbers(pa, pb); g != pn.MatchType(want) {
					t.Fail("IsNumberMatchWithNumbers(%s, %s) = %d; the rules give %d", show(a), show(b), g, want)
				}
				if g := pn.IsNumberMatchWithNumbers(pb, pa); g != pn.MatchType(want) {
					t.Fail("IsNumberMatchWithNumbers(%s, %s) = %d but %d the other way round", show(b), show(a), g, want)
				}
				self := model.MatchNums(a, a)
				if g := pn.IsNumberMatchWithNumbers(pa, pa); g != pn.MatchType(self) || g < pn.NSN_MATCH {
					t.Fail("%s matches itself with grade %d, want %d", show(a), g, self)
				}
				// raw input, source and carrier do not matter
				c := *a
				c.Raw, c.Src, c.Carrier = text(t, 8), pbt.Pick(t.Src, srcs), digits(t, t.N(3))
				if g := pn.IsNumberMatchWithNumbers(msg(t, &c), pb); g != pn.MatchType(want) {
					t.Fail("raw data changes the grade of %s and %s from %d to %d", show(&c), show(b), want, g)
				}
			}},
			{Name: "message-and-text", Quick: 350000, Thorough: 15000000, Run: func(t *pbt.T) {
				a, b := numPair(t, w0())
				s := writeText(t, w0(), b)
				t.Log("%s vs %q", show(a), s)
				want := w0().MatchNumText(a, s)
				t.Label("grade " + itoa(int(want)))
				if want > model.NoMatch {
					t.NonTrivial(show(a) + s)
				}
				if g := pn.IsNumberMatchWithOneNumber(msg(t, a), s); g != pn.MatchType(want) {
					t.Fail("IsNumberMatchWithOneNumber(%s, %q) = %d; the rules give %d", show(a), s, g, want)
				}
			}},
			{Name: "texts", Quick: 350000, Thorough: 15000000, Run: func(t *pbt.T) {
				a, b := numPair(t, w0())
				s, u := writeText(t, w0(), a), writeText(t, w0(), b)
				t.Log("%q vs %q", s, u)
				want := w0().MatchTexts(s, u)
				t.Label("grade " + itoa(int(want)))
				if want >= model.NoMatch {
					t.NonTrivial(s + "|" + u)
				}
				if g := pn.IsNumberMatch(s, u); g != pn.MatchType(want) {
					t.Fail("IsNumberMatch(%q, %q) = %d; the rules give %d", s, u, g, want)
				}
			}},
			plansSub(15000, 300000, func(t *pbt.T, w *model.World) {
				a, b := numPair(t, w)
				s, u := writeText(t, w, a), writeText(t, w, b)
				t.Log("%q vs %q", s, u)
				g, x := pn.IsNumberMatch(s, u), w.MatchTexts(s, u)
				if x > model.NoMatch {
					t.NonTrivial(s + "|" + u)
				}
				if g != pn.MatchType(x) {
					t.Fail("IsNumberMatch(%q, %q) = %d; the rules give %d", s, u, g, x)
				}
				if g, x := pn.IsNumberMatchWithOneNumber(msg(t, a), u), w.MatchNumText(a, u); g != pn.MatchType(x) {
					t.Fail("IsNumberMatchWithOneNumber(%s, %q) = %d; the rules give %d", show(a), u, g, x)
				}
			}),
		},
	})
}

// numPair draws two numbers, usually related.
func numPair(t *pbt.T, w *model.World) (*model.Num, *model.Num) {
	a := numMsg(t, w)
	if t.Chance(1, 10) {
		a = wildNum(t, w)
	}
	b := *a
	for k := t.N(3); k > 0; k-- {
		switch t.N(12) {
		case 0:
			b.CC = 0
		case 1:
			b.CC = pbt.Pick(t.Src, w.Codes)
		case 2: // suffix
			s := strconv.FormatUint(b.NN, 10)
			b.NN, _ = strconv.ParseUint(s[t.N(len(s)):], 10, 64)
		case 3:
			b.NN, _ = strconv.ParseUint("9"+strconv.FormatUint(b.NN%100000000, 10), 10, 64)
		case 4:
			b.Ext = ""
		case 5:
			b.Ext = ext(t)
		case 6:
			a.Ext = ext(t)
		case 7:
			b.ILZ = !b.ILZ
		case 8:
			b.ILZ, b.NLZ = true, int32(t.N(4))
		case 9:
			b.NN++
		case 10:
			a.CC = 0
		case 11:
			x := *a
			*a, b = b, x
		}
	}
	if t.Chance(1, 12) {
		b = *numMsg(t, w)
	}
	return a, &b
}

// writeText writes n in some notation.
func writeText(t *pbt.T, w *model.World, n *model.Num) string {
	s := ""
	switch t.Weighted(3, 3, 3, 3, 2, 2, 1) {
	case 0:
		s = w.Format(n, model.E164)
		if n.Ext != "" {
			s += extText(t, n.Ext)
		}
	case 1:
		s = w.Format(n, model.International)
	case 2:
		s = w.Format(n, model.National)
	case 3:
		s = w.Format(n, model.RFC3966)
	case 4:
		s = n.NSN()
		if n.Ext != "" {
			s += extText(t, n.Ext)
		}
	case 5:
		s = strings.TrimPrefix(w.Format(n, model.E164), "+")
	case 6:
		s, _ = anyText(t, w)
	}
	if t.Chance(1, 12) {
		s = mutate(t, s)
	}
	return s
}
