package checks

import (
	"fmt"
	"maps"
	"math"
	"slices"
	"strings"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"google.golang.org/protobuf/proto"

	"verifharness/model"
	"verifharness/pbt"
)

// call is one call of the public API with fixed arguments.
type call struct {
	desc string
	// run makes the call and returns its result as text. When spoil is set it then
	// modifies everything the call returned.
	run func(spoil bool) string
	// args are the messages handed in, which must come out unchanged; nil for a call
	// documented to change its argument.
	args []proto.Message
}

var langs = []string{"en", "es", "fr", "de", "zh", "zh_Hant", "ja", "ko", "ru", "ar", "pt", "it", "uk", "fa", "sv", "th", "vi", "", "xx", "EN", "en-US", "en_GB", "tlh", "und", "zz", "../data/en", "a/b", "\x00", "é", "fil", "x", "not a language", "art-lojban", "zh-Hant-TW"}

func lang(t *pbt.T) string {
	if t.Chance(1, 20) {
		return text(t, 8)
	}
	return pbt.Pick(t.Src, langs)
}

var patternsForCalls = []string{`(\d{3})(\d{3})(\d+)`, `(\d+)`, `(\d{2})(\d{2})(\d{2})(\d{2})`, `(\d*)`, ``, `\d{4}`, `(a)|(\d+)`}
var formatsForCalls = []string{"$1 $2-$3", "$1", "($1) $2 $3 $4", "$2x$1", "", "$9", "text", "$", "$$", "${1}", "$1$NP$FG$CC"}

func userFormats(t *pbt.T) []*pn.NumberFormat {
	var out []*pn.NumberFormat
	for k := t.N(3); k > 0; k-- {
		f := &pn.NumberFormat{Pattern: proto.String(pbt.Pick(t.Src, patternsForCalls)), Format: proto.String(pbt.Pick(t.Src, formatsForCalls))}
		if t.Bool() {
			f.NationalPrefixFormattingRule = proto.String(pbt.Pick(t.Src, []string{"$NP$FG", "($FG)", "$NP $FG", "$1", "", "$", "0$1"}))
		}
		if t.Chance(1, 4) {
			f.DomesticCarrierCodeFormattingRule = proto.String(pbt.Pick(t.Src, []string{"$NP $CC $FG", "$CC", "$1 $CC"}))
		}
		if t.Bool() {
			f.LeadingDigitsPattern = append(f.LeadingDigitsPattern, pbt.Pick(t.Src, []string{"[2-9]", "1|0", "", `\d`}))
		}
		out = append(out, f)
	}
	return out
}

func spoilNumber(p *pn.PhoneNumber) {
	if p == nil {
		return
	}
	p.CountryCode, p.NationalNumber, p.Extension = proto.Int32(999), proto.Uint64(1), proto.String("spoilt")
	p.ItalianLeadingZero, p.NumberOfLeadingZeros = proto.Bool(true), proto.Int32(9)
	p.RawInput = proto.String("spoilt")
	p.PreferredDomesticCarrierCode = proto.String("spoilt")
}

func spoilStrings(s []string) {
	for i := range s {
		s[i] = "spoilt"
	}
	if len(s) > 1 {
		s[0], s[len(s)-1] = s[len(s)-1], s[0]
	}
	if cap(s) > len(s) {
		s = s[:cap(s)]
		s[len(s)-1] = "spoilt"
	}
}

func spoilMap[K comparable](m map[K]bool, extra K) {
	for k := range m {
		delete(m, k)
		break
	}
	for k := range m {
		m[k] = false
	}
	if m != nil {
		m[extra] = true
	}
}

func showParsed(p *pn.PhoneNumber, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return show(fromPB(p))
}

func sortedInts(m map[int]bool) string {
	return fmt.Sprint(slices.Sorted(maps.Keys(m)), len(m))
}

// anyInt draws a calling code like integer.
func anyInt(t *pbt.T, w *model.World) int {
	switch t.N(4) {
	case 0:
		return t.N(1100)
	case 1:
		return pbt.Pick(t.Src, []int{0, -1, 1, 999, 1000, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 800, 979})
	}
	return pbt.Pick(t.Src, w.Codes)
}

// anyCall draws a call. Wild calls take arguments of any kind; others take the
// kind people use.
func anyCall(t *pbt.T, w *model.World, wild bool) *call {
	return callOf(t, w, wild, t.N(callKinds))
}

const callKinds = 64

// callOf draws a call of one kind.
func callOf(t *pbt.T, w *model.World, wild bool, kind int) *call {
	num := func() *pn.PhoneNumber {
		n := numMsg(t, w)
		if wild {
			n = wildNum(t, w)
		} else if t.Chance(1, 4) {
			n.Src = pbt.Pick(t.Src, srcs)
			n.Raw, _ = numText(t, w, "")
		}
		return toPB(n)
	}
	txt := func() string {
		if wild && t.Chance(1, 3) {
			return text(t, 60)
		}
		s, _ := anyText(t, w)
		return s
	}
	reg := func() string {
		if wild && t.Chance(1, 8) {
			return text(t, 4)
		}
		return anyRegion(t, w)
	}
	enum := func(n int) int {
		if wild && t.Chance(1, 6) {
			return pbt.Pick(t.Src, []int{-1, n, n + 1, 100, math.MinInt64, math.MaxInt64})
		}
		return t.N(n)
	}
	c := &call{}
	do := func(f func(spoil bool) string, args ...proto.Message) *call {
		c.run, c.args = f, args
		return c
	}
	named := func(f string, a ...any) { c.desc = fmt.Sprintf(f, a...) }
	one := func(name string, f func(p *pn.PhoneNumber) string) *call {
		p := num()
		named("%s(%s)", name, show(fromPB(p)))
		return do(func(bool) string { return f(p) }, p)
	}
	oneR := func(name string, f func(p *pn.PhoneNumber, r string) string) *call {
		p, r := num(), reg()
		if t.Chance(1, 3) {
			if rs := w.CC2R[int(p.GetCountryCode())]; len(rs) > 0 {
				r = pbt.Pick(t.Src, rs)
			}
		}
		named("%s(%s, %q)", name, show(fromPB(p)), r)
		return do(func(bool) string { return f(p, r) }, p)
	}
	str := func(name string, f func(s string) string) *call {
		s := txt()
		named("%s(%q)", name, s)
		return do(func(bool) string { return f(s) })
	}
	rg := func(name string, f func(r string) string) *call {
		r := reg()
		named("%s(%q)", name, r)
		return do(func(bool) string { return f(r) })
	}
	y := func(v any) string { return fmt.Sprint(v) }

	switch kind {
	case 0, 1, 2, 3:
		s, r := anyText(t, w)
		if wild {
			s, r = txt(), reg()
		}
		named("Parse(%q, %q)", s, r)
		return do(func(spoil bool) string {
			p, err := pn.Parse(s, r)
			out := showParsed(p, err)
			if spoil {
				spoilNumber(p)
			}
			return out
		})
	case 4, 5:
		s, r := anyText(t, w)
		named("ParseAndKeepRawInput(%q, %q)", s, r)
		return do(func(spoil bool) string {
			p, err := pn.ParseAndKeepRawInput(s, r)
			out := showParsed(p, err)
			if spoil {
				spoilNumber(p)
			}
			return out
		})
	case 6, 7:
		p, st := num(), enum(4)
		named("Format(%s, %d)", show(fromPB(p)), st)
		return do(func(bool) string { return pn.Format(p, pn.PhoneNumberFormat(st)) }, p)
	case 8, 9:
		p, st, fs := num(), enum(4), userFormats(t)
		named("FormatByPattern(%s, %d, %v)", show(fromPB(p)), st, fs)
		args := []proto.Message{p}
		for _, f := range fs {
			args = append(args, f)
		}
		return do(func(bool) string { return pn.FormatByPattern(p, pn.PhoneNumberFormat(st), fs) }, args...)
	case 10:
		p, cc := num(), digits(t, t.N(4))
		named("FormatNationalNumberWithCarrierCode(%s, %q)", show(fromPB(p)), cc)
		return do(func(bool) string { return pn.FormatNationalNumberWithCarrierCode(p, cc) }, p)
	case 11:
		p, cc := num(), digits(t, t.N(4))
		named("FormatNationalNumberWithPreferredCarrierCode(%s, %q)", show(fromPB(p)), cc)
		return do(func(bool) string { return pn.FormatNationalNumberWithPreferredCarrierCode(p, cc) }, p)
	case 12:
		pretty := t.Bool()
		return oneR("FormatNumberForMobileDialing", func(p *pn.PhoneNumber, r string) string { return pn.FormatNumberForMobileDialing(p, r, pretty) })
	case 13:
		return oneR("FormatOutOfCountryCallingNumber", pn.FormatOutOfCountryCallingNumber)
	case 14:
		return oneR("FormatInOriginalFormat", pn.FormatInOriginalFormat)
	case 15:
		return oneR("FormatOutOfCountryKeepingAlphaChars", pn.FormatOutOfCountryKeepingAlphaChars)
	case 16:
		return one("GetNationalSignificantNumber", pn.GetNationalSignificantNumber)
	case 17:
		return one("GetNumberType", func(p *pn.PhoneNumber) string { return y(int(pn.GetNumberType(p))) })
	case 18:
		return one("IsValidNumber", func(p *pn.PhoneNumber) string { return y(pn.IsValidNumber(p)) })
	case 19:
		return oneR("IsValidNumberForRegion", func(p *pn.PhoneNumber, r string) string { return y(pn.IsValidNumberForRegion(p, r)) })
	case 20:
		return one("GetRegionCodeForNumber", pn.GetRegionCodeForNumber)
	case 21:
		return one("IsPossibleNumberWithReason", func(p *pn.PhoneNumber) string {
			return y(int(pn.IsPossibleNumberWithReason(p))) + y(pn.IsPossibleNumber(p))
		})
	case 22:
		p, ty := num(), enum(12)
		named("IsPossibleNumberForTypeWithReason(%s, %d)", show(fromPB(p)), ty)
		return do(func(bool) string {
			return y(int(pn.IsPossibleNumberForTypeWithReason(p, pn.PhoneNumberType(ty)))) + y(pn.IsPossibleNumberForType(p, pn.PhoneNumberType(ty)))
		}, p)
	case 23:
		s, r := txt(), reg()
		named("IsPossibleNumberFromRegion(%q, %q)", s, r)
		return do(func(bool) string { return y(pn.IsPossibleNumberFromRegion(s, r)) })
	case 24:
		p := num()
		named("TruncateTooLongNumber(%s)", show(fromPB(p)))
		return do(func(bool) string {
			q := proto.Clone(p).(*pn.PhoneNumber)
			return y(pn.TruncateTooLongNumber(q)) + show(fromPB(q))
		})
	case 25:
		a, b := num(), num()
		if t.Bool() {
			b = proto.Clone(a).(*pn.PhoneNumber)
			if t.Bool() {
				b.Extension = proto.String(digits(t, 2))
			}
		}
		named("IsNumberMatchWithNumbers(%s, %s)", show(fromPB(a)), show(fromPB(b)))
		return do(func(bool) string { return y(int(pn.IsNumberMatchWithNumbers(a, b))) }, a, b)
	case 26:
		a, b := txt(), txt()
		named("IsNumberMatch(%q, %q)", a, b)
		return do(func(bool) string { return y(int(pn.IsNumberMatch(a, b))) })
	case 27:
		a, b := num(), txt()
		named("IsNumberMatchWithOneNumber(%s, %q)", show(fromPB(a)), b)
		return do(func(bool) string { return y(int(pn.IsNumberMatchWithOneNumber(a, b))) }, a)
	case 28:
		return one("CanBeInternationallyDialled", func(p *pn.PhoneNumber) string { return y(pn.CanBeInternationallyDialled(p)) })
	case 29:
		return one("IsNumberGeographical", func(p *pn.PhoneNumber) string { return y(pn.IsNumberGeographical(p)) })
	case 30:
		return one("GetLengthOfGeographicalAreaCode", func(p *pn.PhoneNumber) string { return y(pn.GetLengthOfGeographicalAreaCode(p)) })
	case 31:
		return one("GetLengthOfNationalDestinationCode", func(p *pn.PhoneNumber) string { return y(pn.GetLengthOfNationalDestinationCode(p)) })
	case 32:
		k := anyInt(t, w)
		named("code queries(%d)", k)
		return do(func(spoil bool) string {
			rs := pn.GetRegionCodesForCountryCode(k)
			ts := pn.GetSupportedTypesForNonGeoEntity(k)
			ex := pn.GetExampleNumberForNonGeoEntity(k)
			out := fmt.Sprint(pn.GetCountryMobileToken(k), pn.GetRegionCodeForCountryCode(k), rs, ts, showParsed(ex, nil), pn.IsNumberGeographicalForType(pn.MOBILE, k))
			if spoil {
				spoilStrings(rs)
				spoilMap(ts, pn.UNKNOWN)
				spoilNumber(ex)
			}
			return out
		})
	case 33:
		named("supported listings")
		return do(func(spoil bool) string {
			a, b, g := pn.GetSupportedRegions(), pn.GetSupportedCallingCodes(), pn.GetSupportedGlobalNetworkCallingCodes()
			out := fmt.Sprint(slices.Sorted(maps.Keys(a)), len(a), sortedInts(b), sortedInts(g))
			if spoil {
				spoilMap(a, "spoilt")
				spoilMap(b, 9999)
				spoilMap(g, 9998)
			}
			return out
		})
	case 34:
		r := reg()
		named("region queries(%q)", r)
		return do(func(spoil bool) string {
			ts := pn.GetSupportedTypesForRegion(r)
			out := fmt.Sprint(pn.GetCountryCodeForRegion(r), pn.GetNddPrefixForRegion(r, true), pn.GetNddPrefixForRegion(r, false), pn.IsNANPACountry(r), pn.IsMobileNumberPortableRegion(r), ts)
			if spoil {
				spoilMap(ts, pn.UNKNOWN)
			}
			return out
		})
	case 35:
		r, ty := reg(), enum(12)
		named("examples(%q, %d)", r, ty)
		return do(func(spoil bool) string {
			a, b, d := pn.GetExampleNumber(r), pn.GetInvalidExampleNumber(r), pn.GetExampleNumberForTypeInRegion(r, pn.PhoneNumberType(ty))
			out := showParsed(a, nil) + showParsed(b, nil) + showParsed(d, nil)
			if spoil {
				spoilNumber(a)
				spoilNumber(b)
				spoilNumber(d)
			}
			return out
		})
	case 36:
		ty := enum(12)
		named("GetExampleNumberForType(%d)", ty)
		return do(func(spoil bool) string {
			// which region's example is given is left open
			p := pn.GetExampleNumberForType(pn.PhoneNumberType(ty))
			out := y(p == nil)
			if spoil {
				spoilNumber(p)
			}
			return out
		})
	case 37:
		return str("NormalizeDigitsOnly", pn.NormalizeDigitsOnly)
	case 38:
		return str("NormalizeDiallableCharsOnly", pn.NormalizeDiallableCharsOnly)
	case 39:
		return str("ConvertAlphaCharactersInNumber", pn.ConvertAlphaCharactersInNumber)
	case 40:
		return str("IsAlphaNumber", func(s string) string { return y(pn.IsAlphaNumber(s)) })
	case 41, 42, 43, 44:
		var s string
		r := reg()
		if s, r = prose(t, w); wild && t.Bool() {
			s = text(t, 120)
		}
		l, n := enum(4), tries(t)
		if wild && t.Chance(1, 10) {
			n = -1
		}
		named("FindNumbersWithLeniency(%q, %q, %d, %d)", s, r, l, n)
		return do(func(spoil bool) string {
			var b strings.Builder
			for m := range pn.FindNumbersWithLeniency(s, r, pn.Leniency(l), n) {
				fmt.Fprint(&b, m.Start(), m.End(), m.RawString(), show(fromPB(m.Number())), m.String() != "", ";")
				if spoil {
					spoilNumber(m.Number())
				}
			}
			return b.String()
		})
	case 45:
		p, s, l := num(), txt(), enum(4)
		named("Leniency(%d).Verify(%s, %q)", l, show(fromPB(p)), s)
		return do(func(bool) string { return y(pn.Leniency(l).Verify(p, s)) }, p)
	case 46, 47, 48:
		s, r := typing(t, w)
		if wild && t.Bool() {
			s, r = text(t, 40), reg()
		}
		mark := t.N(10)
		named("typing %q in %q", s, r)
		return do(func(spoil bool) string {
			f := pn.GetAsYouTypeFormatter(r)
			var b strings.Builder
			for i, c := range s {
				if i == mark {
					b.WriteString(f.InputDigitAndRememberPosition(c))
				} else {
					b.WriteString(f.InputDigit(c))
				}
				fmt.Fprint(&b, f.GetRememberedPosition(), ";")
			}
			if spoil {
				f.Clear()
			}
			return b.String()
		})
	case 49:
		return one("short number queries", func(p *pn.PhoneNumber) string {
			return fmt.Sprint(pn.IsPossibleShortNumber(p), pn.IsValidShortNumber(p), pn.GetExpectedCost(p), pn.IsCarrierSpecific(p))
		})
	case 50, 51:
		r := reg()
		p := num()
		if t.Chance(2, 3) {
			if sp := w.Short[r]; sp != nil && sp.D[model.ShortCode] != nil {
				p = toPB(numOf(max(w.Regions[r].CC, 0), fromRE(t, sp.D[model.ShortCode].Pattern)))
			}
		}
		named("short number queries(%s, %q)", show(fromPB(p)), r)
		return do(func(bool) string {
			return fmt.Sprint(pn.IsPossibleShortNumberForRegion(p, r), pn.IsValidShortNumberForRegion(p, r), pn.GetExpectedCostForRegion(p, r), pn.IsCarrierSpecificForRegion(p, r), pn.IsSmsServiceForRegion(p, r))
		}, p)
	case 52:
		s := txt()
		if t.Bool() {
			s = pbt.Pick(t.Src, []string{"911", "112", "999", "110", "+112", "9116", "1 1 2", "000"})
		}
		r := reg()
		named("emergency(%q, %q)", s, r)
		return do(func(bool) string { return fmt.Sprint(pn.IsEmergencyNumber(s, r), pn.ConnectsToEmergencyNumber(s, r)) })
	case 53, 54, 55:
		l := lang(t)
		return one("carrier in "+l, func(p *pn.PhoneNumber) string {
			a, e1 := carrier.GetNameForNumber(p, l)
			b, e2 := carrier.GetNameForValidNumber(p, l)
			c, e3 := carrier.GetSafeDisplayName(p, l)
			return fmt.Sprint(a, e1, b, e2, c, e3)
		})
	case 56, 57, 58:
		l, u := lang(t), reg()
		return one(fmt.Sprintf("geocoding in %s for %s", l, u), func(p *pn.PhoneNumber) string {
			a, e1 := geocoding.GetDescriptionForNumber(p, l)
			b, e2 := geocoding.GetDescriptionForValidNumber(p, l)
			c, e3 := geocoding.GetDescriptionForNumberForUserRegion(p, l, u)
			d, e4 := geocoding.GetDescriptionForValidNumberForUserRegion(p, l, u)
			return fmt.Sprint(a, e1, b, e2, c, e3, d, e4)
		})
	case 59, 60:
		p := num()
		named("time zones of %s", show(fromPB(p)))
		return do(func(spoil bool) string {
			a, e1 := timezone.GetTimeZonesForNumber(p)
			b, e2 := timezone.GetTimeZonesForGeographicalNumber(p)
			out := fmt.Sprint(a, e1, b, e2)
			if spoil {
				spoilStrings(a)
				spoilStrings(b)
			}
			return out
		}, p)
	case 61:
		s, r := anyText(t, w)
		p := num()
		named("ParseToNumber(%q, %q)", s, r)
		return do(func(bool) string {
			q := proto.Clone(p).(*pn.PhoneNumber)
			return showParsed(q, pn.ParseToNumber(s, r, q))
		})
	case 62:
		return rg("GetAsYouTypeFormatter", func(r string) string { return pn.GetAsYouTypeFormatter(r).InputDigit('1') })
	default:
		named("MetadataCollection")
		return do(func(bool) string {
			a, e1 := pn.MetadataCollection()
			b, e2 := pn.ShortNumberMetadataCollection()
			return fmt.Sprint(len(a.GetMetadata()), e1, len(b.GetMetadata()), e2)
		})
	}
}
