package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"
	"strings"
	"unicode/utf8"

	"verifharness/model"
	"verifharness/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:   "P20",
		Rule: "the text has a digit or letter that the helper keeps or converts; counted by distinct text",
		Subs: []*pbt.Sub{
			{Name: "texts", Quick: 900000, Thorough: 40000000, Run: func(t *pbt.T) {
				var s string
				switch t.N(3) {
				case 0:
					s = text(t, 24)
				case 1:
					s, _ = anyText(t, w0())
				case 2:
					// vanity candidates
					s = digits(t, t.N(6)) + sep(t) + vanity(t, digits(t, t.N(10)), t.N(5))
					if t.Chance(1, 3) {
						s += extText(t, ext(t))
					}
					if t.Chance(1, 4) {
						s = mutate(t, s)
					}
				}
				checkNormal(t, s)
			}},
			{Name: "long", Quick: 400, Thorough: 20000, Run: func(t *pbt.T) {
				s, _ := anyText(t, w0())
				if t.Bool() {
					s = text(t, 24)
				}
				n := 1 + t.N(50)
				if s != "" && t.Bool() {
					n = pbt.Pick(t.Src, []int{255, 256, 1024, 4096, 32768, 65536, 100000})/len(s) + t.N(3)
				}
				tail, _ := anyText(t, w0())
				checkNormal(t, strings.Repeat(s, n)+tail)
			}},
			{Name: "every-rune", Count: func(string) int { return (utf8.MaxRune + 1) / 64 }, Run: func(t *pbt.T) {
				// each code point, alone and between digits
				for r := rune(t.Index * 64); r < rune(t.Index*64+64); r++ {
					checkNormal(t, string(r))
					checkNormal(t, "1"+string(r)+"2")
					if model.DigitVal(r) >= 0 || r < 0x80 {
						checkNormal(t, "123"+string(r)+"abc")
					}
				}
			}},
		},
	})
}

func checkNormal(t *pbt.T, s string) {
	t.Log("text %q", clip(s))
	if d := model.DigitsOnly(s); d != "" {
		t.NonTrivial(s)
	}
	if g, x := pn.NormalizeDigitsOnly(s), model.DigitsOnly(s); g != x {
		t.Fail("NormalizeDigitsOnly(%q) = %q, want %q", clip(s), clip(g), clip(x))
	}
	if g, x := pn.NormalizeDiallableCharsOnly(s), model.DiallableOnly(s); g != x {
		t.Fail("NormalizeDiallableCharsOnly(%q) = %q, want %q", clip(s), clip(g), clip(x))
	}
	if g, x := pn.ConvertAlphaCharactersInNumber(s), model.ConvertAlpha(s); g != x {
		t.Fail("ConvertAlphaCharactersInNumber(%q) = %q, want %q", clip(s), clip(g), clip(x))
	}
	x := model.IsAlpha(s)
	if x {
		t.Label("vanity")
	}
	if g := pn.IsAlphaNumber(s); g != x {
		t.Fail("IsAlphaNumber(%q) = %v, want %v", clip(s), g, x)
	}
}
