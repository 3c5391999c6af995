package checks

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

var words = []string{"call ", "Call me at ", "tel. ", "T: ", " or ", " and ", "/", " / ", ", ", "; ", ". ", "\n", " - ", "-", "--", " ", "  ", "(", ")", "[", "]", "fax", " x ", "x", "$", "%", "£", "é", "a", "Z",
	"\u2013", "\u2014", "\uFF0D", "\uFF08", "\uFF09", "\u3000", "ext. ", "№ ", "日本", "\u0301", "\u0915", "≤", "/x", "\\x", "1/2/2003", "31/10/96", "08/31/95", " 2012-01-02 08:00 ", "2012/0102 08:30", "1234-56 (1999)", "211-227 (2003)", "12345-6789 (10", "3:15", "10%", "$12.50", "192.168.1.1", "2024-05-01", "IB-", "#", "*", "+", "++", "\xff", "\x00", "~", ":", "_", "1", "12", "2023", "&", "@"}

// written draws a valid or nearly valid number of a region written in some way
// people write numbers in prose.
func written(t *pbt.T, w *model.World, region string) string {
	p := w.Regions[region]
	if p == nil || t.Chance(1, 4) {
		p = anyPlan(t, w)
	}
	nsn := validNSN(t, p)
	if t.Chance(1, 8) {
		nsn = anyNSN(t, p)
	}
	n := numOf(p.CC, nsn)
	if t.Chance(1, 8) {
		n.Ext = digits(t, 1+t.N(6))
	}
	var s string
	switch t.N(10) {
	case 9:
		s = bracketed(t, p, n)
	case 0:
		s = w.Format(n, model.National)
	case 1:
		s = w.Format(n, model.International)
	case 2:
		s = w.Format(n, model.RFC3966)
	case 3:
		s = w.Format(n, model.E164)
	case 4:
		s = p.NatPrefix + n.NSN()
	case 5:
		s = "+" + itoa(p.CC) + " " + p.NatPrefix + n.NSN()
	case 6:
		s = altGroups(t, w, p, n)
	case 7:
		s = sprinkle(t, w.Format(n, model.Style(t.N(3))))
	case 8:
		s = n.NSN()
	}
	if t.Chance(1, 4) {
		// change one separator
		sp := []string{" ", "-", ".", "/", "", "(", ")", "\u2013", "  ", " - ", "\u00A0", "x", "~"}
		i := strings.IndexAny(s, " -()")
		if k := strings.LastIndexAny(s, " -()"); k > 0 && t.Bool() {
			i = k
		}
		if i >= 0 {
			s = s[:i] + pbt.Pick(t.Src, sp) + s[i+1:]
		}
	}
	if t.Chance(1, 6) {
		s = strings.NewReplacer(" ", pbt.Pick(t.Src, []string{"-", ".", "/", "\u2010", "\u3000", " "}), "-", pbt.Pick(t.Src, []string{" ", ".", "-"})).Replace(s)
	}
	if t.Chance(1, 12) {
		s += extText(t, digits(t, 1+t.N(5)))
	}
	if t.Chance(1, 15) {
		s = script(t, s)
	}
	if t.Chance(1, 12) {
		s = mutate(t, s)
	}
	return s
}

// bracketed writes groups of the number, most of them in brackets.
func bracketed(t *pbt.T, p *model.Plan, n *model.Num) string {
	var b strings.Builder
	rest := n.NSN()
	switch t.N(3) {
	case 0:
		b.WriteString("+" + itoa(p.CC) + sep(t))
	case 1:
		b.WriteString(pbt.Pick(t.Src, []string{"", "("}) + p.NatPrefix)
	}
	pairs := []string{"()", "()", "[]", "（）", "［］", "(]", "((", "))", "("}
	sp := pbt.Pick(t.Src, []string{"", " ", "-"})
	for k := 2 + t.N(5); k > 0 && rest != ""; k-- {
		l := 1 + t.N(max(1, len(rest)/2))
		if k == 1 {
			l = len(rest)
		}
		g := rest[:l]
		rest = rest[l:]
		if t.Chance(2, 3) {
			br := []rune(pairs[0])
			if t.Chance(1, 8) {
				br = []rune(pbt.Pick(t.Src, pairs))
			}
			g = string(br[0]) + g
			if len(br) > 1 {
				g += string(br[1])
			}
		}
		b.WriteString(g)
		if rest != "" {
			b.WriteString(sp)
		}
	}
	return b.String()
}

// altGroups groups the number by an alternate format of its country.
func altGroups(t *pbt.T, w *model.World, p *model.Plan, n *model.Num) string {
	alts := w.Alt[p.CC]
	if alts == nil || len(alts.Formats) == 0 {
		return w.Format(n, model.International)
	}
	f := pbt.Pick(t.Src, alts.Formats)
	nsn := n.NSN()
	if t.Chance(2, 3) { // one that it covers
		nsn = fromRE(t, f.Pattern)
		if k := len(f.Leading); k > 0 {
			l := fromRE(t, f.Leading[k-1])
			if len(l) <= len(nsn) {
				nsn = l + nsn[len(l):]
			}
		}
	}
	s := (&model.Plan{Formats: []*model.NumFmt{f}}).GroupedBy(nsn)
	switch t.N(3) {
	case 0:
		return p.NatPrefix + s
	case 1:
		return "+" + itoa(p.CC) + " " + s
	}
	return s
}

// Patterns of texts that are or nearly are dates, times, page numbers, prices
// and so on, and of candidates at the limits of what is taken for a number.
var lookalikes = []string{
	`[0-3]?\d/[01]?\d/[12]?\d?\d{2}`, `[01]?\d/[0-3]?\d/\d{2,4}`, `\d{1,3}/\d{1,3}/\d{1,5}`, `\+?\d{1,3}/\d{2,4}/\d{2,4}/?\d{0,4}`,
	`[12]\d{3}[-/]?[01]\d[-/]?[0-3]\d {1,2}[0-2]\d(?::| :|;|: |)[0-6]?\d?`, `[123]\d{2,4}[-/. ]?[012]\d[-/. ]?[0-4]\d {0,2}[0-3]\d:?[0-9]{0,2}(?: :00)?`,
	`\d{1,6}-{1,3}\d{1,6} {0,5}\(\d{1,5}\)?`, `\(?\d{3}\)? {0,6}\d{3}-{0,6}\d{4}`, `[(\[+]{0,4}[-. ]{0,5}\d{3}[-. ]{0,6}\d{3}[-. ]{0,6}\d{4}`,
	`\d{1,4}(?:[-. ]{1,5}\d{1,4}){0,6}`, `\d(?:[-. ]\d){5,25}`, `\(\d{3}\) \(\d{3}\) \(\d{4}\)(?: \(\d\)){0,3}`, `\[?\d{3}[)\]]? ?\(?\d{3}[)\]] ?\d{4}`,
	`\d{3}[ -]\d{3}[ -]\d{4} ?(?:-|/|\. |\(|,| - | | ‒|－) ?\d{3}[ -]\d{3}[ -]\d{4}`, `\d{1,4}(?: - |- | -|\. |\.\. ?|/+| \(|\(|‒ ?|― | {1,3})(?:\d{1,4}(?: - |\. |/| \()){0,3}\d{3}[- ]?\d{3}[- ]?\d{4}`,
	`\d{15,22}`, `[$€£]\d{3,5}\.\d{2}`, `\d{3} ?\d{3} ?\d{4} ?[xX#~;,]{1,2} ?\d{1,8}`, `\d{3}[xX]{1,2}\d{3}[xX]?\d{4}`, `[xX]{1,3}\d{2,3}-\d{3}-\d{4}`,
}

func lookalike(t *pbt.T) string {
	s := fromRE(t, pbt.Pick(t.Src, lookalikes))
	if t.Chance(1, 4) {
		s = mutate(t, s)
	}
	return s
}

// prose draws a text with numbers in it.
func prose(t *pbt.T, w *model.World) (string, string) {
	r := ""
	s := t.Recall("prose", func(s string) string { return mutate(t, s) }, func() (s string) {
		s, r = newProse(t, w)
		return s
	})
	if r == "" {
		r = anyRegion(t, w)
	}
	return s, r
}

func newProse(t *pbt.T, w *model.World) (string, string) {
	region := anyRegion(t, w)
	if t.Chance(1, 20) {
		return text(t, 60), region
	}
	var b strings.Builder
	for k := 1 + t.N(4); k > 0; k-- {
		if t.Chance(2, 3) {
			for j := t.N(3); j > 0; j-- {
				b.WriteString(pbt.Pick(t.Src, words))
			}
		}
		if t.Chance(1, 10) {
			b.WriteString(lookalike(t))
		} else if t.Chance(1, 12) {
			s, _ := numText(t, w, "")
			b.WriteString(s)
		} else if t.Chance(1, 12) {
			b.WriteString(text(t, 10))
		} else {
			b.WriteString(written(t, w, region))
		}
		if t.Chance(2, 3) {
			b.WriteString(pbt.Pick(t.Src, words))
		}
	}
	return b.String(), region
}

func tries(t *pbt.T) int {
	switch t.N(4) {
	case 0:
		return t.N(12)
	case 1:
		return pbt.Pick(t.Src, []int{0, 1, 65535})
	}
	return math.MaxInt
}

func collect(text, region string, l pn.Leniency, tries int) []*pn.PhoneNumberMatch {
	var out []*pn.PhoneNumberMatch
	for m := range pn.FindNumbersWithLeniency(text, region, l, tries) {
		out = append(out, m)
	}
	return out
}

// filler is text without anything that could be a part of a number, closed by a
// line end. It may be very long.
func filler(t *pbt.T) string {
	unit := pbt.Pick(t.Src, []string{"a", " ", "\n", "word ", "lorem ipsum dolor sit amet. ", "日本語の文。", "é à ü ", "Ж", "\U0001F600 ", "\x80", "no numbers here,\r\n"})
	n := pbt.Pick(t.Src, []int{1 << 8, 1 << 10, 1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 16, 1 << 17, 1 << 18, 100000})
	switch t.N(3) {
	case 0:
		n += t.Range(-40, 3)
	case 1:
		n = t.N(n)
	}
	k := max(n/len(unit), 0)
	pad := max(n-k*len(unit)-1, 0)
	return strings.Repeat(unit, k) + strings.Repeat(" ", pad) + "\n"
}

func init() {
	register(&pbt.Prop{
		ID:   "P12",
		Rule: "at least one number is found in the text (or the verified number is accepted); counted by distinct text, region and leniency",
		Subs: []*pbt.Sub{
			{Name: "search", Quick: 250000, Thorough: 10000000, Run: func(t *pbt.T) {
				w := w0()
				s, r := prose(t, w)
				checkFind(t, w, s, r, model.Leniency(t.N(4)), tries(t))
			}},
			plansSub(6000, 200000, func(t *pbt.T, w *model.World) {
				s, r := prose(t, w)
				checkFind(t, w, s, r, model.Leniency(t.N(4)), math.MaxInt)
			}),
			{Name: "levels", Quick: 50000, Thorough: 2500000, Run: func(t *pbt.T) {
				w := w0()
				s, r := prose(t, w)
				for l := model.LPossible; l <= model.LExact; l++ {
					checkFind(t, w, s, r, l, math.MaxInt)
				}
			}},
			{Name: "lookalikes", Quick: 60000, Thorough: 3000000, Run: func(t *pbt.T) {
				// dates, time stamps, page numbers and candidates at the limits
				w := w0()
				var b strings.Builder
				for k := 1 + t.N(3); k > 0; k-- {
					if t.Bool() {
						b.WriteString(pbt.Pick(t.Src, words))
					}
					b.WriteString(lookalike(t))
				}
				if t.Bool() {
					b.WriteString(pbt.Pick(t.Src, words))
				}
				r := supported(t, w)
				if t.Bool() {
					r = "US"
				}
				checkFind(t, w, b.String(), r, model.Leniency(t.N(4)), tries(t))
			}},
			{Name: "neighbours", Quick: 60000, Thorough: 3000000, Run: func(t *pbt.T) {
				// what stands right before and after a number
				w := w0()
				r := supported(t, w)
				s := written(t, w, r)
				if t.Chance(3, 4) {
					p := w.Regions[r]
					s = w.Format(numOf(p.CC, validNSN(t, p)), model.Style(t.N(3)))
				}
				if t.Chance(2, 3) {
					s += nearRune(t)
					if t.Chance(1, 4) {
						s += nearRune(t)
					}
				}
				if t.Bool() {
					s = nearRune(t) + s
				}
				checkFind(t, w, s, r, model.Leniency(t.N(4)), math.MaxInt)
			}},
			{Name: "planted", Quick: 120000, Thorough: 6000000, Run: func(t *pbt.T) {
				// a valid international number in digit-free text is found as it is
				w := w0()
				n, _ := validNum(t, w)
				if !w.Valid(n) || w.Ambiguous(n) {
					t.Label("not valid or ambiguous")
					return
				}
				if n.NN == 0 {
					// +800 00000000: a national number of nothing but zeros counts
					// as "no number" and its grouping is then read from the raw text
					t.Label("all zeros")
					return
				}
				st := pbt.Pick(t.Src, []model.Style{model.E164, model.International})
				s := w.Format(n, st)
				pre := pbt.Pick(t.Src, []string{"", " ", "call ", "Tel: ", "my number is ", "\n", "日本: ", "→ ", "\"", "é ", "\u00A0", "of: "})
				post := pbt.Pick(t.Src, []string{"", " ", ".", " please", "!", "\n", "\"", ", thanks", " é", " (home)", "?"})
				r := anyRegion(t, w)
				l := pn.Leniency(t.N(4))
				t.Log("text %q in %q leniency %d", pre+s+post, r, l)
				t.NonTrivial(pre + s + post + r)
				ms := collect(pre+s+post, r, l, math.MaxInt)
				if len(ms) != 1 || ms[0].Start() != len(pre) || ms[0].RawString() != s {
					t.Fail("searching %q (region %q, leniency %d) does not find the valid number %q in it: %s", pre+s+post, r, l, s, showMatches(ms))
				}
				if g := core(fromPB(ms[0].Number())); !eq(g, n) {
					t.Fail("searching %q finds %s instead of %s", pre+s+post, show(g), show(n))
				}
			}},
			{Name: "verify", Quick: 250000, Thorough: 10000000, Run: func(t *pbt.T) {
				w := w0()
				r := supported(t, w)
				c := written(t, w, r)
				n, err := w.Parse(c, r, true)
				if err != nil || t.Chance(1, 6) {
					n = wildNum(t, w)
				}
				l := model.Leniency(t.N(4))
				t.Log("verify %s against %q at leniency %d", show(n), c, l)
				want := w.Verify(n, c, l)
				if want {
					t.NonTrivial(show(n) + c)
					t.Label("accepted")
				}
				if g := pn.Leniency(l).Verify(msg(t, n), c); g != want {
					t.Fail("leniency %d: Verify(%s, %q) = %v; the rules give %v", l, show(n), c, g, want)
				}
			}},
			{Name: "far", Quick: 1500, Thorough: 60000, Run: func(t *pbt.T) {
				// numbers far into a big text are found as they are in a small one
				w := w0()
				s, r := prose(t, w)
				l, n := model.Leniency(t.N(4)), tries(t)
				pre, post := filler(t), ""
				if t.Bool() {
					post = "\n" + filler(t)
				}
				want := w.Find(s, r, l, n)
				t.Log("search %q region %q leniency %d tries %d after %d bytes and before %d", s, r, l, n, len(pre), len(post))
				if len(want) > 0 {
					t.NonTrivial(fmt.Sprint(s, "|", r, l, len(pre)))
				}
				got := collect(pre+s+post, r, pn.Leniency(l), n)
				bad := len(want) != len(got)
				for i := 0; !bad && i < len(got); i++ {
					g, x := got[i], want[i]
					bad = g.Start() != len(pre)+x.Start || g.End() != len(pre)+x.End || g.RawString() != x.Raw || !eq(fromPB(g.Number()), &x.Num)
				}
				if bad {
					t.Fail("searching %q (region %q, leniency %d, tries %d) finds %s when %d bytes of %q stand before it and %d behind; by itself %d numbers are found", s, r, l, n, showMatches(got), len(pre), clip(pre), len(post), len(want))
				}
			}},
			{Name: "long", Quick: 3000, Thorough: 100000, Run: func(t *pbt.T) {
				// long texts with many candidates: the try limit matters
				w := w0()
				var b strings.Builder
				s, r := prose(t, w)
				for k := 3 + t.N(20); k > 0; k-- {
					b.WriteString(s)
					b.WriteString(pbt.Pick(t.Src, words))
					s, _ = prose(t, w)
				}
				checkFind(t, w, b.String(), r, model.Leniency(t.N(4)), t.N(60))
			}},
		},
	})
}

func showMatches(ms []*pn.PhoneNumberMatch) string {
	var b strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&b, "[%d,%d) %q %s; ", m.Start(), m.End(), m.RawString(), show(fromPB(m.Number())))
	}
	return "{" + b.String() + "}"
}

func checkFind(t *pbt.T, w *model.World, s, r string, l model.Leniency, tries int) {
	t.Log("search %q region %q leniency %d tries %d", s, r, l, tries)
	want := w.Find(s, r, l, tries)
	got := collect(s, r, pn.Leniency(l), tries)
	if len(want) > 0 {
		t.NonTrivial(fmt.Sprint(s, "|", r, l))
		t.Label(fmt.Sprintf("leniency %d: found", l))
	}
	bad := len(want) != len(got)
	for i := 0; !bad && i < len(got); i++ {
		g, x := got[i], want[i]
		bad = g.Start() != x.Start || g.End() != x.End || g.RawString() != x.Raw || !eq(fromPB(g.Number()), &x.Num)
	}
	if bad {
		var b strings.Builder
		for _, x := range want {
			fmt.Fprintf(&b, "[%d,%d) %q %s; ", x.Start, x.End, x.Raw, show(&x.Num))
		}
		t.Fail("searching %q (region %q, leniency %d, tries %d) finds %s; the rules give {%s}", s, r, l, tries, showMatches(got), b.String())
	}
	last := 0
	for i, g := range got {
		if g.Start() < last || g.End() <= g.Start() || g.End() > len(s) || s[g.Start():g.End()] != g.RawString() {
			t.Fail("searching %q: match %d is out of place: %s", s, i, showMatches(got))
		}
		last = g.End()
		p, err := pn.Parse(g.RawString(), r)
		if err != nil || !eq(core(fromPB(p)), core(fromPB(g.Number()))) {
			t.Fail("searching %q in %q: match %q is %s but parses to %s (%v)", s, r, g.RawString(), show(fromPB(g.Number())), show(fromPB(p)), err)
		}
		if l == model.LPossible && !pn.IsPossibleNumber(g.Number()) || l > model.LPossible && !pn.IsValidNumber(g.Number()) {
			t.Fail("searching %q in %q at leniency %d: match %q is not an acceptable number", s, r, l, g.RawString())
		}
	}
	if len(got) > 0 && utf8.RuneCountInString(s)%2 == 0 {
		// stopping early, and ranging over the same sequence again (also while a
		// range over it is under way), gives the same matches
		seq := pn.FindNumbersWithLeniency(s, r, pn.Leniency(l), tries)
		stop := t.N(len(got))
		ranges := []int{stop, len(got)}
		if t.Chance(1, 4) {
			ranges = append(ranges, -1)
		}
		for _, stop := range ranges {
			k := 0
			for m := range seq {
				if k >= len(got) || m.Start() != got[k].Start() || m.RawString() != got[k].RawString() || !eq(fromPB(m.Number()), fromPB(got[k].Number())) {
					t.Fail("searching %q a second time gives a different match %d", s, k)
				}
				if k++; k == stop+1 {
					break
				}
				if stop < 0 {
					j := 0
					for range seq {
						j++
					}
					if j != len(got) {
						t.Fail("searching %q within a search of it finds %d numbers instead of %d", s, j, len(got))
					}
				}
			}
			if want := min(stop+1, len(got)); stop >= 0 && k != want || stop < 0 && k != len(got) {
				t.Fail("searching %q with the same sequence again finds %d numbers instead of %d", s, k, want)
			}
		}
	}
	if l == model.LValid && tries == math.MaxInt {
		k := 0
		for m := range pn.FindNumbers(s, r) {
			if k >= len(got) || m.Start() != got[k].Start() || m.RawString() != got[k].RawString() {
				t.Fail("FindNumbers(%q, %q) differs from the search with valid leniency at match %d", s, r, k)
			}
			k++
		}
		if k != len(got) {
			t.Fail("FindNumbers(%q, %q) finds %d instead of %d", s, r, k, len(got))
		}
	}
}
