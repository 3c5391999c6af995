package checks

import (
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

// typing draws a text to be typed and the region it is typed in.
func typing(t *pbt.T, w *model.World) (string, string) {
	r := ""
	s := t.Recall("typing", func(s string) string { return mutate(t, s) }, func() (s string) {
		s, r = newTyping(t, w)
		return s
	})
	if r == "" {
		r = supported(t, w)
	}
	return s, r
}

func newTyping(t *pbt.T, w *model.World) (string, string) {
	r := supported(t, w)
	p := w.Regions[r]
	var s string
	switch t.Weighted(5, 5, 4, 3, 2, 2, 1, 1) {
	case 0: // national, with or without prefix
		s = anyNSN(t, p)
		if p.NPForParsing != "" && t.Chance(2, 3) {
			s = fromRE(t, p.NPForParsing) + s
		} else if t.Chance(1, 2) {
			s = p.NatPrefix + s
		}
	case 1: // international, of any country
		q := anyPlan(t, w)
		s = "+" + itoa(q.CC) + anyNSN(t, q)
		if t.Chance(1, 4) && q.NatPrefix != "" {
			s = "+" + itoa(q.CC) + q.NatPrefix + anyNSN(t, q)
		}
	case 2: // with the prefix dialled here
		q := anyPlan(t, w)
		idd := "00"
		if p.IntlPrefix != "" {
			idd = fromRE(t, p.IntlPrefix)
		}
		s = idd + itoa(q.CC) + anyNSN(t, q)
	case 3: // from a formatting rule
		s = ruleNSN(t, p)
		if t.Bool() {
			s = p.NatPrefix + s
		}
	case 4:
		s = digits(t, 1+t.N(20))
	case 5:
		s = "+" + digits(t, 1+t.N(18))
	case 6:
		s, _ = numText(t, w, r)
	case 7:
		s = text(t, 20)
	}
	if t.Chance(1, 250) {
		// somebody leans on the keys
		s += digits(t, t.N(40)) + strings.Repeat(digits(t, 1+t.N(3)), t.N(100))
	}
	if t.Chance(1, 12) {
		s = sprinkle(t, s)
	}
	if t.Chance(1, 10) {
		s = script(t, s)
	}
	if t.Chance(1, 12) {
		s = strings.Replace(s, "+", "\uFF0B", 1)
	}
	if t.Chance(1, 12) {
		s = mutate(t, s)
	}
	if t.Chance(1, 10) {
		r = anyRegion(t, w)
	}
	return s, r
}

// diallable is the digits and leading plus of s in ASCII, the digits a typed text
// stands for.
func diallable(s string) string {
	var b strings.Builder
	for i, r := range s {
		if d := model.DigitVal(r); d >= 0 {
			b.WriteByte(byte('0' + d))
		} else if i == 0 && (r == '+' || r == '\uFF0B') {
			b.WriteByte('+')
		}
	}
	return b.String()
}

func onlyKeys(s string) bool {
	for i, r := range s {
		if model.DigitVal(r) < 0 && !(i == 0 && (r == '+' || r == '\uFF0B')) {
			return false
		}
	}
	return true
}

func init() {
	register(&pbt.Prop{
		ID:   "P11",
		Rule: "at some point the shown text differs from what was typed; counted by distinct text and region",
		Subs: []*pbt.Sub{
			{Name: "typing", Quick: 400000, Thorough: 20000000, Run: func(t *pbt.T) {
				w := w0()
				s, r := typing(t, w)
				f := pn.GetAsYouTypeFormatter(r)
				typeAll(t, w, f, w.NewTyper(r), s, r, -1)
			}},
			plansSub(15000, 300000, func(t *pbt.T, w *model.World) {
				s, r := typing(t, w)
				typeAll(t, w, pn.GetAsYouTypeFormatter(r), w.NewTyper(r), s, r, -1)
			}),
			{Name: "history", Quick: 60000, Thorough: 3000000, Run: func(t *pbt.T) {
				// several texts through one formatter, cleared in between; after each clear
				// it behaves as a new one
				w := w0()
				_, r := typing(t, w)
				f, m := pn.GetAsYouTypeFormatter(r), w.NewTyper(r)
				for k := 2 + t.N(3); k > 0; k-- {
					s, _ := typing(t, w)
					typeAll(t, w, f, m, s, r, -1)
					f.Clear()
					t.Log("clear")
					if t.Chance(1, 6) {
						f.Clear()
					}
					m = w.NewTyper(r)
				}
			}},
			{Name: "interleaved", Quick: 40000, Thorough: 2000000, Run: func(t *pbt.T) {
				// two or three formatters used in turn do not disturb one another
				w := w0()
				type one struct {
					f     *pn.AsYouTypeFormatter
					m     *model.Typer
					rest  []rune
					typed string
					r     string
				}
				var all []*one
				s, r := typing(t, w)
				for k := 2 + t.N(2); k > 0; k-- {
					all = append(all, &one{f: pn.GetAsYouTypeFormatter(r), m: w.NewTyper(r), rest: []rune(s), r: r})
					t.Log("formatter %d for %q types %q", len(all), r, s)
					if t.Chance(2, 3) {
						s, _ = typing(t, w)
					} else {
						s, r = typing(t, w)
					}
				}
				for {
					var left []*one
					for _, o := range all {
						if len(o.rest) > 0 {
							left = append(left, o)
						}
					}
					if len(left) == 0 {
						break
					}
					o := left[t.N(len(left))]
					for k := 1 + t.N(4); k > 0 && len(o.rest) > 0; k-- {
						c := o.rest[0]
						o.rest, o.typed = o.rest[1:], o.typed+string(c)
						g, x := o.f.InputDigit(c), o.m.Type(c, false)
						if g != x {
							t.Fail("typing %q in %q while other formatters are in use shows %q; the rules give %q", o.typed, o.r, g, x)
						}
						if g != o.typed {
							t.NonTrivial(o.typed + "|" + o.r)
						}
					}
				}
			}},
			{Name: "position", Quick: 200000, Thorough: 10000000, Run: func(t *pbt.T) {
				w := w0()
				s, r := typing(t, w)
				rs := []rune(s)
				if len(rs) == 0 {
					return
				}
				typeAll(t, w, pn.GetAsYouTypeFormatter(r), w.NewTyper(r), s, r, t.N(len(rs)))
			}},
		},
	})
}

// typeAll types s and compares what is shown after every key. The cursor is
// remembered at rune index mark (or at random moments when negative).
func typeAll(t *pbt.T, w *model.World, f *pn.AsYouTypeFormatter, m *model.Typer, s, r string, mark int) {
	t.Log("typing %q in %q, position remembered at %d", s, r, mark)
	remembered := -1
	typed := ""
	if g := f.GetRememberedPosition(); g != 0 {
		t.Fail("a fresh formatter for %q remembers position %d", r, g)
	}
	for i, c := range []rune(s) {
		typed += string(c)
		rem := i == mark || mark < 0 && t.Chance(1, 10)
		var g string
		if rem {
			g = f.InputDigitAndRememberPosition(c)
			remembered = i
		} else {
			g = f.InputDigit(c)
		}
		x := m.Type(c, rem)
		if g != x {
			t.Fail("typing %q in %q shows %q; the rules give %q", typed, r, g, x)
		}
		if g != typed {
			t.NonTrivial(s + "|" + r)
		}
		if onlyKeys(typed) {
			if diallable(g) != diallable(typed) {
				t.Fail("typing %q in %q shows %q: the digits are not those typed", typed, r, g)
			}
		} else if g != typed {
			t.Fail("typing %q (not diallable) in %q shows %q instead of the text as typed", typed, r, g)
		}
		if remembered >= 0 {
			pos := f.GetRememberedPosition()
			if x := m.Position(); pos != x {
				t.Fail("typing %q in %q, position remembered at key %d: reported %d in %q; the rules give %d", typed, r, remembered, pos, g, x)
			}
			before := string([]rune(typed)[:remembered+1])
			shown := []rune(g)
			if pos < 0 || pos > len(shown) {
				t.Fail("typing %q in %q: remembered position %d lies outside %q", typed, r, pos, g)
			}
			if onlyKeys(typed) && diallable(string(shown[:pos])) != diallable(before) {
				t.Fail("typing %q in %q: remembered position %d in %q does not follow %q", typed, r, pos, g, before)
			}
			if !onlyKeys(typed) && pos != remembered+1 {
				t.Fail("typing %q in %q: remembered position %d in the raw text does not follow %q", typed, r, pos, before)
			}
		}
	}
}
