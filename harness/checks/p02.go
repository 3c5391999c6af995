package checks

import (
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

// printable draws a valid number that its own plan lets one write without being
// read as another number, with or without an extension.
func printable(t *pbt.T, w *model.World) *model.Num {
	n, _ := validNum(t, w)
	if !w.Valid(n) {
		t.Label("skipped: not valid")
		return nil
	}
	if w.Ambiguous(n) {
		t.Label("skipped: its digits read as prefix and another number")
		return nil
	}
	if t.Chance(1, 3) {
		n.Ext = digits(t, 1+t.N(9))
	}
	return n
}

// noExt drops the extension text of a formatted number.
func noExt(w *model.World, n *model.Num, f func(*model.Num) string) string {
	c := *n
	c.Ext = ""
	return f(&c)
}

// domesticOK reports whether national digits dialled in plan p cannot be taken for
// an international call or for a different complete number, and the plan's own
// prefix rule does not take something else off them.
func domesticOK(p *model.Plan, n *model.Num, dialled string) bool {
	if p.IntlPrefix != "" && model.MatchAt(p.IntlPrefix, dialled) >= 0 {
		return false
	}
	if dialled == n.NSN() {
		return true
	}
	if model.MatchFull(p.D[model.General].Pattern, dialled) {
		return false
	}
	// Argentina reads 0 345 415 0000 as 0 3454 15 0000
	return p.NPForParsing == "" || p.WithoutPrefix(dialled) == n.NSN()
}

func init() {
	register(&pbt.Prop{
		ID:   "P02",
		Rule: "the number is valid and its plan does not itself make the text ambiguous; counted by distinct number and style",
		Assumptions: []string{
			"numbers whose complete national digits the plan itself reads as a prefix followed by another complete number are left out, as are national texts that start with the region's own international prefix or are themselves another complete number or from which the plan's own prefix rule takes off something else (0 3454 15 0000 in Argentina for 0 345 415 0000), and callers whose international prefix pattern swallows digits of the code (Hong Kong)",
		},
		Subs: []*pbt.Sub{
			{Name: "international-styles", Quick: 400000, Thorough: 20000000, Run: func(t *pbt.T) {
				w := w0()
				n := printable(t, w)
				if n == nil {
					return
				}
				st := pbt.Pick(t.Src, []model.Style{model.E164, model.International, model.RFC3966})
				if st == model.RFC3966 && t.Chance(1, 4) {
					n.Ext = digits(t, 1+t.N(20))
				}
				r := anyRegion(t, w)
				want := *n
				if st == model.E164 {
					want.Ext = ""
				}
				p := msg(t, n)
				s := pn.Format(p, pn.PhoneNumberFormat(st))
				t.Log("number %s style %d text %q parsed in %q", show(n), st, s, r)
				t.NonTrivial(show(n) + string(rune('0'+st)))
				backAgain(t, s, r, &want, pn.PhoneNumberFormat(st))
			}},
			{Name: "national", Quick: 300000, Thorough: 15000000, Run: func(t *pbt.T) {
				w := w0()
				n := printable(t, w)
				if n == nil {
					return
				}
				r := w.RegionOf(n)
				p := w.Regions[r]
				if r == "001" || p == nil {
					return
				}
				if !domesticOK(p, n, model.DigitsOnly(noExt(w, n, func(c *model.Num) string { return w.Format(c, model.National) }))) {
					t.Label("skipped: the national text has another reading")
					return
				}
				s := pn.Format(msg(t, n), pn.NATIONAL)
				t.Log("number %s text %q parsed in %q", show(n), s, r)
				t.NonTrivial(show(n) + r)
				backAgain(t, s, r, n, pn.NATIONAL)
				// typed and shown again as it was
				kept, err := pn.ParseAndKeepRawInput(s, r)
				if err != nil {
					t.Fail("ParseAndKeepRawInput(%q, %q): %v", s, r, err)
				}
				again := pn.FormatInOriginalFormat(kept, r)
				back, err := pn.Parse(again, r)
				if err != nil || !eq(fromPB(back), n) {
					t.Fail("%q typed in %q is shown as %q, which parses to %s (%v)", s, r, again, show(fromPB(back)), err)
				}
			}},
			{Name: "dialled-from", Quick: 300000, Thorough: 15000000, Run: func(t *pbt.T) {
				w := w0()
				n := printable(t, w)
				if n == nil {
					return
				}
				from := supported(t, w)
				if t.Chance(1, 5) {
					from = caller(t, w, n)
				}
				c := w.Regions[from]
				if c == nil || !w.Supported[from] {
					return
				}
				checkDialledBack(t, w, n, c, from, "FormatOutOfCountryCallingNumber", true,
					func(n *model.Num) string { return w.FormatFrom(n, from) },
					func(p *pn.PhoneNumber) string { return pn.FormatOutOfCountryCallingNumber(p, from) })
				checkDialledBack(t, w, n, c, from, "FormatOutOfCountryKeepingAlphaChars", true,
					func(n *model.Num) string { return w.FormatFromAlpha(n, from) },
					func(p *pn.PhoneNumber) string { return pn.FormatOutOfCountryKeepingAlphaChars(p, from) })
				pretty := t.Bool()
				checkDialledBack(t, w, n, c, from, "FormatNumberForMobileDialing", false,
					func(n *model.Num) string { return w.FormatMobile(n, from, pretty) },
					func(p *pn.PhoneNumber) string { return pn.FormatNumberForMobileDialing(p, from, pretty) })
			}},
		},
	})
}

// backAgain parses s and compares with want, then formats again.
func backAgain(t *pbt.T, s, r string, want *model.Num, st pn.PhoneNumberFormat) {
	q, err := pn.Parse(s, r)
	if err != nil {
		t.Fail("%q, the text of %s, does not parse in %q: %v", s, show(want), r, err)
	}
	if g := fromPB(q); !eq(g, want) {
		t.Fail("%q, the text of %s, parses in %q to %s", s, show(want), r, show(g))
	}
	if again := pn.Format(q, st); again != s {
		t.Fail("%q parses in %q to %s, which prints as %q", s, r, show(want), again)
	}
}

func checkDialledBack(t *pbt.T, w *model.World, n *model.Num, c *model.Plan, from, name string, ext bool, mf func(*model.Num) string, lf func(*pn.PhoneNumber) string) {
	bare := noExt(w, n, mf)
	if bare == "" {
		t.Label(name + ": unreachable")
		return
	}
	d := model.DigitsOnly(bare)
	full := itoa(n.CC) + n.NSN()
	if !strings.HasPrefix(bare, "+") {
		if n.CC == c.CC {
			if !domesticOK(c, n, d) || n.CC == 1 && len(n.NSN()) != 10 || !c.Complete(n.NSN()) {
				t.Label("skipped: the text has another reading")
				return
			}
		} else if e := model.MatchAt(c.IntlPrefix, d); e < 0 || !strings.HasSuffix(d, full) || e != len(d)-len(full) {
			t.Label("skipped: the caller's prefix swallows digits")
			return
		}
	}
	s := lf(msg(t, n))
	want := *n
	if !ext {
		want.Ext = ""
	}
	t.Log("number %s %s from %q: %q", show(n), name, from, s)
	t.NonTrivial(show(n) + from + name)
	q, err := pn.Parse(s, from)
	if err != nil || !eq(fromPB(q), &want) {
		t.Fail("%s(%s, %q) = %q, which parses there to %s (%v)", name, show(n), from, s, show(fromPB(q)), err)
	}
}
