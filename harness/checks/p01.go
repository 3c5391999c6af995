package checks

import (
	"errors"
	"math"
	"runtime"
	"strings"
	"syscall"
	"time"

	pn "github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/proto"

	"verifharness/pbt"
)

// busy returns the time the calling thread computes in f.
func busy(f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	const thread = 1 // RUSAGE_THREAD
	var a, b syscall.Rusage
	syscall.Getrusage(thread, &a)
	f()
	syscall.Getrusage(thread, &b)
	return time.Duration(b.Utime.Nano() + b.Stime.Nano() - a.Utime.Nano() - a.Stime.Nano())
}

// longText draws a long text made to be hard on patterns: long runs, many
// candidates, nested brackets.
func longText(t *pbt.T, maxLen int) string {
	var b strings.Builder
	want := 1 + t.N(maxLen)
	unit := pbt.Pick(t.Src, []string{"1", "(", ")", "+", "1 ", "12-", "(1)", "[1", "x1", " x", "/ x", ";ext=1", ",", ";", "-", "0", "+1 ", "1/", "650 253 0000 ", "+1 650-253-0000;", "\uFF11", "\u00A0", "\xff", "\u0301", "abc", "tel:", ";phone-context=", ";phone-context=+1", ";isub=", "2012-01-02 08:0", "12/12/2012", "1234-56 (1", "#", "*", "~1", "ext. 1", "1-800-FLOWERS ", "(((((", "1.1.1.1 "})
	for b.Len() < want {
		if t.Chance(1, 10) {
			b.WriteString(text(t, 10))
		}
		b.WriteString(strings.Repeat(unit, 1+t.N(200)))
		if t.Chance(1, 5) {
			unit = text(t, 6) + "1"
		}
	}
	return b.String()[:want]
}

func init() {
	register(&pbt.Prop{
		ID:   "P01",
		Rule: "the call got past argument checks into real work: a parseable text, a known calling code or a non-empty search; approximated by a result that is not empty, zero, false or an error; counted by distinct call",
		Subs: []*pbt.Sub{
			{Name: "any-call", Quick: 600000, Thorough: 30000000, CaseTimeout: 60 * time.Second, Run: func(t *pbt.T) {
				c := anyCall(t, w0(), true)
				t.Log("%s", c.desc)
				if out := c.run(false); out != "" && out != "0" && out != "false" && !strings.HasPrefix(out, "error") {
					t.NonTrivial(c.desc)
				}
			}},
			{Name: "length-limit", Quick: 100000, Thorough: 5000000, CaseTimeout: 60 * time.Second, Run: func(t *pbt.T) {
				w := w0()
				s, r := anyText(t, w)
				n := 251 + t.N(40)
				if t.Chance(1, 10) {
					n = 251 + t.N(20000)
				}
				pad := pbt.Pick(t.Src, []string{" ", "a", "0", "-", "+", "(", "\x80", ";", "\u00A0", "\uFF11"})
				if miss := n - len(s); miss > 0 {
					k := (miss + len(pad) - 1) / len(pad)
					front := 0
					if t.Chance(1, 3) {
						front = t.N(k + 1)
					}
					s = strings.Repeat(pad, front) + s + strings.Repeat(pad, k-front)
				}
				t.Log("Parse of %d bytes %.60q… in %q", len(s), s, r)
				t.NonTrivial(s)
				if _, err := pn.Parse(s, r); !errors.Is(err, pn.ErrNumTooLong) {
					t.Fail("Parse of %d bytes %q in %q: %v instead of the too-long error", len(s), s, r, err)
				}
				if _, err := pn.ParseAndKeepRawInput(s, r); !errors.Is(err, pn.ErrNumTooLong) {
					t.Fail("ParseAndKeepRawInput of %d bytes %q in %q: %v instead of the too-long error", len(s), s, r, err)
				}
			}},
			{Name: "long-texts", Quick: 2500, Thorough: 80000, CaseTimeout: 120 * time.Second, Run: func(t *pbt.T) {
				s := longText(t, 6000)
				r := anyRegion(t, w0())
				l := pn.Leniency(t.N(4))
				n := tries(t)
				t.Log("%d bytes, region %q leniency %d tries %d: %.80q…", len(s), r, l, n, s)
				t.NonTrivial(s)
				switch t.N(6) {
				case 0, 1, 2:
					for m := range pn.FindNumbersWithLeniency(s, r, l, n) {
						_ = m.RawString()
					}
				case 3:
					f := pn.GetAsYouTypeFormatter(r)
					for i, c := range s {
						if i > 600 {
							break
						}
						f.InputDigit(c)
						f.GetRememberedPosition()
					}
				case 4:
					pn.IsNumberMatch(s, s)
					pn.IsAlphaNumber(s)
					pn.ConvertAlphaCharactersInNumber(s)
					pn.NormalizeDigitsOnly(s)
					pn.NormalizeDiallableCharsOnly(s)
					pn.IsEmergencyNumber(s, r)
				case 5:
					p := msg(t, wildNum(t, w0()))
					p.RawInput = &s
					if t.Bool() {
						p.Extension = &s
					}
					pn.FormatInOriginalFormat(p, r)
					pn.FormatOutOfCountryKeepingAlphaChars(p, r)
					pn.Format(p, pn.RFC3966)
					pn.IsNumberMatchWithOneNumber(p, s)
					l.Verify(p, s)
				}
			}},
			{Name: "huge-texts", Quick: 96, Thorough: 600, NoGuide: true, CaseTimeout: 10 * time.Minute, Run: func(t *pbt.T) {
				// the work a search takes grows with its text, not with its square
				unit := pbt.Pick(t.Src, []string{"1 ", "12-", "(1)", "+1 ", "1/", "650 253 0000 ", "+1 650-253-0000;", "1234-56 (1", "1-800-FLOWERS ", "1.1.1.1 ", "call +1 650-253-0000 x123 today. ", "２２-", "é +41 44 668 18 00\n", "12/12/2012 ", "abc ", "$1.00 ", "x1 ", "2012-01-02 08, ", "at: 2012-01-02 08; "})
				if t.Bool() {
					unit, _ = prose(t, w0())
					unit += " "
				}
				r := anyRegion(t, w0())
				l := pn.Leniency(t.N(4))
				small := strings.Repeat(unit, 1+20000/len(unit))
				big := strings.Repeat(small, 16)
				t.Log("%d and %d bytes of %q, region %q leniency %d", len(small), len(big), unit, r, l)
				t.NonTrivial(unit + r + itoa(int(l)))
				n := toPB(wildNum(t, w0()))
				kind := 0
				if t.Chance(1, 3) {
					kind = 1 + t.N(8)
				}
				t.Log("call %d, message %v", kind, n)
				search := func(s string) time.Duration {
					c := proto.Clone(n).(*pn.PhoneNumber)
					c.RawInput, c.Extension, c.PreferredDomesticCarrierCode = &s, &s, &s
					return busy(func() {
						switch kind {
						case 0:
							for m := range pn.FindNumbersWithLeniency(s, r, l, math.MaxInt) {
								_ = m.RawString()
							}
						case 1:
							pn.FormatInOriginalFormat(c, r)
						case 2:
							pn.FormatOutOfCountryKeepingAlphaChars(c, r)
						case 3:
							pn.FormatNationalNumberWithPreferredCarrierCode(c, "")
						case 4:
							pn.FormatOutOfCountryCallingNumber(c, r)
						case 5:
							pn.IsNumberMatch(s, s)
						case 6:
							pn.ConvertAlphaCharactersInNumber(pn.NormalizeDigitsOnly(s) + s)
						case 7:
							pn.ConnectsToEmergencyNumber(s, r)
						case 8:
							l.Verify(c, s)
						}
					})
				}
				search(small)
				for try := 1; ; try++ {
					a, b := search(small), search(big)
					if b < time.Second || b < 6*16*a {
						return
					}
					if try == 4 || try == 2 && b > 10*time.Second {
						t.Fail("searching 16 times the text takes %v instead of %v of computing", b, a)
					}
				}
			}},
			{Name: "any-rune-typed", Quick: 60000, Thorough: 3000000, Run: func(t *pbt.T) {
				r := anyRegion(t, w0())
				f := pn.GetAsYouTypeFormatter(r)
				typed := []rune(nil)
				for k := t.N(25); k > 0; k-- {
					c := rune('0' + t.N(10))
					switch t.N(8) {
					case 0:
						c = pbt.Pick(t.Src, []rune{-1, math.MinInt32, math.MaxInt32, 0x10FFFF, 0x110000, 0xD800, 0xDFFF, 0xFFFD, 0, '+', '\uFF0B', '*', '#', 0x661, 0x1D7CE})
					case 1:
						c = rune(t.N(0x110000))
					}
					t.Log("key %#x", c)
					if typed = append(typed, c); len(typed) > 2 {
						t.NonTrivial(r + string(typed))
					}
					if t.Bool() {
						f.InputDigit(c)
					} else {
						f.InputDigitAndRememberPosition(c)
					}
					if p := f.GetRememberedPosition(); p < 0 {
						t.Fail("the remembered position is %d", p)
					}
				}
			}},
			{Name: "memory", Quick: 30000, Thorough: 1500000, Serial: true, Run: func(t *pbt.T) {
				// what a single call allocates is bounded by its input
				c := anyCall(t, w0(), true)
				c.run(false) // caches are filled
				var a, b runtime.MemStats
				runtime.ReadMemStats(&a)
				out := c.run(false)
				runtime.ReadMemStats(&b)
				t.Log("%s", c.desc)
				if out != "" && out != "0" && out != "false" && !strings.HasPrefix(out, "error") {
					t.NonTrivial(c.desc)
				}
				if d := b.TotalAlloc - a.TotalAlloc; d > 32<<20 {
					t.Fail("%s allocates %d bytes", c.desc, d)
				}
			}},
		},
	})
}
