package checks

import (
	"slices"
	"sync"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/proto"

	"verifharness/model"
	"verifharness/pbt"
)

// regionStrings are the region codes every listing is asked about: all two
// letter codes, near misses and oddities.
var regionStrings = sync.OnceValue(func() []string {
	out := append([]string{}, oddRegions...)
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			s := string([]rune{a, b})
			out = append(out, s)
		}
	}
	for _, r := range w0().RegionIDs {
		out = append(out, string([]byte{r[0] | 0x20, r[1]}), r+" ", r[:1], r+r, " "+r)
	}
	return out
})

var codeInts = sync.OnceValue(func() []int {
	var out []int
	for i := -5; i <= 1100; i++ {
		out = append(out, i)
	}
	return append(out, 1<<31-1, -(1 << 31), 1<<32+1, 1<<32+44, 9999, 10000, 12684, 44001, 1<<62)
})

func init() {
	register(&pbt.Prop{
		ID:   "P15",
		Rule: "the region or calling code is a supported one, or the drawn example exists; counted by distinct region, code and type",
		Subs: []*pbt.Sub{
			{Name: "every-region", Count: func(string) int { return len(regionStrings()) }, Run: func(t *pbt.T) {
				checkRegionListing(t, w0(), regionStrings()[t.Index])
			}},
			{Name: "every-code", Count: func(string) int { return len(codeInts()) }, Run: func(t *pbt.T) {
				checkCodeListing(t, w0(), codeInts()[t.Index])
			}},
			plansSub(25000, 400000, func(t *pbt.T, w *model.World) {
				switch t.N(4) {
				case 3:
					typ := model.Type(t.N(13))
					p := pn.GetExampleNumberForType(pn.PhoneNumberType(typ))
					t.Log("type %d: %s", typ, show(fromPB(p)))
					checkExampleForType(t, w, typ, p)
				case 0:
					r := anyRegion(t, w)
					if t.Bool() {
						r = pbt.Pick(t.Src, regionPool)
					}
					checkRegionListing(t, w, r)
				case 1:
					cc := pbt.Pick(t.Src, w.Codes)
					if t.Bool() {
						cc = pbt.Pick(t.Src, codePool)
					}
					checkCodeListing(t, w, cc)
				case 2:
					checkSets(t, w)
				}
			}),
			{Name: "random", Quick: 60000, Thorough: 1000000, Run: func(t *pbt.T) {
				r := anyRegion(t, w0())
				if t.Chance(1, 3) {
					r = text(t, 4)
				}
				checkRegionListing(t, w0(), r)
				cc := t.N(2000)
				switch t.N(4) {
				case 0:
					cc = int(int32(t.U64()))
				case 1:
					cc = pbt.Pick(t.Src, w0().Codes)
				}
				checkCodeListing(t, w0(), cc)
			}},
			{Name: "sets", Quick: 200, Thorough: 5000, Run: func(t *pbt.T) { checkSets(t, w0()) }},
			{Name: "merge", Quick: 30000, Thorough: 1000000, Run: func(t *pbt.T) {
				// a rule folded into another
				str := func() *string {
					if t.Bool() {
						return nil
					}
					return proto.String(pbt.Pick(t.Src, []string{"", "$1", "$1 $2", "(\\d{3})(\\d+)", "0$1"}))
				}
				rule := func() *metadata.NumberFormat {
					f := &metadata.NumberFormat{Pattern: str(), Format: str(), NationalPrefixFormattingRule: str(), DomesticCarrierCodeFormattingRule: str()}
					for k := t.N(4); k > 0; k-- {
						f.LeadingDigitsPattern = append(f.LeadingDigitsPattern, digits(t, 1+t.N(3)))
					}
					if t.Bool() {
						f.NationalPrefixOptionalWhenFormatting = proto.Bool(t.Bool())
					}
					return f
				}
				a, b := rule(), rule()
				t.Log("%v + %v", a, b)
				t.NonTrivial(a.String() + b.String())
				want, keep := proto.Clone(a), proto.Clone(b)
				proto.Merge(want, b) // set fields overwrite, lists are appended
				a.Merge(b)
				if !proto.Equal(a, want) || !proto.Equal(b, keep) {
					t.Fail("merging gives %v, expected %v; merged from %v", a, want, b)
				}
			}},
			{Name: "examples-by-type", Quick: 6000, Thorough: 200000, Run: func(t *pbt.T) {
				typ := model.Type(t.N(13))
				p := pn.GetExampleNumberForType(pn.PhoneNumberType(typ))
				t.Log("type %d: %s", typ, show(fromPB(p)))
				checkExampleForType(t, w0(), typ, p)
			}},
		},
	})
}

func checkExampleForType(t *pbt.T, w *model.World, typ model.Type, p *pn.PhoneNumber) {
	if typ >= model.TUnknown {
		typ = model.TUnknown
	}
	// the examples of that type, first those of the regions
	found := func(mine *model.Num) (any, match bool) {
		for _, r := range w.RegionIDs {
			if e := w.Example(r, typ); e != nil {
				any = true
				match = match || mine != nil && eq(e, mine)
			}
		}
		if any {
			return
		}
		for _, cc := range w.NGCodes {
			if e := w.ExampleNonGeoType(cc, typ); e != nil {
				any = true
				match = match || mine != nil && eq(e, mine)
			}
		}
		return
	}
	if p == nil {
		if any, _ := found(nil); any {
			t.Fail("GetExampleNumberForType(%d) finds nothing although there is an example", typ)
		}
		return
	}
	n := fromPB(p)
	t.NonTrivial(show(n))
	if _, match := found(n); !match {
		t.Fail("GetExampleNumberForType(%d) = %s, which is no example of that type", typ, show(n))
	}
}

// goodType: an example listed for typ has that type, allowing for the combined type.
func goodType(typ, got model.Type) bool {
	return typ == got || got == model.TFixedOrMobile && (typ == model.TFixed || typ == model.TMobile) ||
		typ == model.TFixedOrMobile && got == model.TFixed
}

func checkRegionListing(t *pbt.T, w *model.World, r string) {
	t.Log("region %q", r)
	sup := w.Supported[r]
	p := w.Regions[r]
	if !sup {
		p = nil
	} else {
		t.NonTrivial(r)
	}
	// What was given out is the caller's to change.
	spoilMap(pn.GetSupportedRegions(), "Earth")
	spoilMap(pn.GetSupportedTypesForRegion(r), pn.UNKNOWN)
	spoilNumber(pn.GetExampleNumber(r))
	spoilNumber(pn.GetInvalidExampleNumber(r))
	if g := pn.GetSupportedRegions()[r]; g != sup {
		t.Fail("GetSupportedRegions()[%q] = %v, the data says %v", r, g, sup)
	}
	md, ok := metadata.RegionMetadata(r)
	checkPlanMessage(t, "RegionMetadata("+r+")", md, ok, w.Regions[r])
	if g := metadata.SupportedRegions()[r]; g != sup {
		t.Fail("metadata.SupportedRegions()[%q] = %v, the data says %v", r, g, sup)
	}
	if g := metadata.IsNANPARegion(r); g != w.NANPA[r] {
		t.Fail("metadata.IsNANPARegion(%q) = %v, the data says %v", r, g, w.NANPA[r])
	}
	cc := 0
	ndd, nddStrip := "", ""
	types := map[model.Type]bool{}
	if p != nil {
		cc, ndd, nddStrip = p.CC, w.NDD(r, false), w.NDD(r, true)
		types = p.SupportedTypes()
	}
	if g := pn.GetCountryCodeForRegion(r); g != cc {
		t.Fail("GetCountryCodeForRegion(%q) = %d, the data says %d", r, g, cc)
	}
	if sup && !slices.Contains(pn.GetRegionCodesForCountryCode(cc), r) {
		t.Fail("region %q has code %d, whose regions are %v", r, cc, pn.GetRegionCodesForCountryCode(cc))
	}
	if g := pn.GetNddPrefixForRegion(r, false); g != ndd {
		t.Fail("GetNddPrefixForRegion(%q, false) = %q, the data says %q", r, g, ndd)
	}
	if g := pn.GetNddPrefixForRegion(r, true); g != nddStrip {
		t.Fail("GetNddPrefixForRegion(%q, true) = %q, the data says %q", r, g, nddStrip)
	}
	if g := pn.IsNANPACountry(r); g != w.NANPA[r] {
		t.Fail("IsNANPACountry(%q) = %v, the data says %v", r, g, w.NANPA[r])
	}
	if g := pn.IsMobileNumberPortableRegion(r); g != w.Portable(r) {
		t.Fail("IsMobileNumberPortableRegion(%q) = %v, the data says %v", r, g, w.Portable(r))
	}
	checkTypes(t, pn.GetSupportedTypesForRegion(r), types, "region "+r)
	for typ := model.TFixed; typ <= model.TUnknown; typ++ {
		e := w.Example(r, typ)
		g := fromPB(pn.GetExampleNumberForTypeInRegion(r, pn.PhoneNumberType(typ)))
		if !eq(g, e) {
			t.Fail("GetExampleNumberForTypeInRegion(%q, %d) = %s, the data gives %s", r, typ, show(g), show(e))
		}
		if e != nil && typ < model.TUnknown && w == w0() {
			pb := msg(t, e)
			if !pn.IsValidNumberForRegion(pb, r) || !goodType(typ, model.Type(pn.GetNumberType(pb))) {
				t.Fail("the example %s for region %q type %d is valid=%v type=%d", show(e), r, typ, pn.IsValidNumberForRegion(pb, r), pn.GetNumberType(pb))
			}
		}
	}
	if g, e := fromPB(pn.GetExampleNumber(r)), w.Example(r, model.TFixed); !eq(g, e) {
		t.Fail("GetExampleNumber(%q) = %s, the data gives %s", r, show(g), show(e))
	}
	inv := pn.GetInvalidExampleNumber(r)
	if e := w.InvalidExample(r); !eq(fromPB(inv), e) {
		t.Fail("GetInvalidExampleNumber(%q) = %s, the data gives %s", r, show(fromPB(inv)), show(e))
	}
	if sup && w == w0() {
		if inv == nil {
			t.Fail("no invalid example for region %q", r)
		}
		if pn.IsValidNumber(inv) {
			t.Fail("the invalid example %s of region %q is valid", show(fromPB(inv)), r)
		}
	}
}

// checkPlanMessage compares a plan handed out by the metadata package with p.
func checkPlanMessage(t *pbt.T, what string, md *metadata.PhoneMetadata, ok bool, p *model.Plan) {
	if ok != (p != nil) || ok != (md != nil) {
		t.Fail("%s: found %v, the data says %v", what, ok, p != nil)
	}
	if md == nil {
		return
	}
	b, err := proto.Marshal(&metadata.PhoneMetadataCollection{Metadata: []*metadata.PhoneMetadata{md}})
	if err != nil {
		t.Fail("%s cannot be serialised: %v", what, err)
	}
	comparePlans(t, what, model.DecodePlans(b), []*model.Plan{p})
	for k, d := range map[model.Kind]*metadata.PhoneNumberDesc{model.General: md.GetGeneralDesc(), model.FixedLine: md.GetFixedLine(), model.Mobile: md.GetMobile(), model.TollFree: md.GetTollFree()} {
		if d == nil || p.D[k] == nil {
			continue
		}
		for l := int32(-2); l <= 20; l++ {
			if g, x := d.HasPossibleLength(l), slices.Contains(p.D[k].Lengths, l); g != x {
				t.Fail("%s description %d: HasPossibleLength(%d) = %v, the data says %v", what, k, l, g, x)
			}
			if g, x := d.HasPossibleLengthLocalOnly(l), slices.Contains(p.D[k].Local, l); g != x {
				t.Fail("%s description %d: HasPossibleLengthLocalOnly(%d) = %v, the data says %v", what, k, l, g, x)
			}
		}
	}
}

func checkTypes(t *pbt.T, g map[pn.PhoneNumberType]bool, x map[model.Type]bool, what string) {
	for typ := model.Type(-1); typ < 15; typ++ {
		if g[pn.PhoneNumberType(typ)] != x[typ] {
			t.Fail("supported types of %s: type %d listed=%v, the data says %v", what, typ, g[pn.PhoneNumberType(typ)], x[typ])
		}
	}
	if len(g) != len(x) {
		t.Fail("supported types of %s: %d types listed, the data has %d", what, len(g), len(x))
	}
}

func checkCodeListing(t *pbt.T, w *model.World, cc int) {
	t.Log("calling code %d", cc)
	rs := w.CC2R[cc]
	if len(rs) > 0 {
		t.NonTrivial(itoa(cc))
	}
	spoilStrings(pn.GetRegionCodesForCountryCode(cc))
	spoilMap(pn.GetSupportedCallingCodes(), 999)
	spoilMap(pn.GetSupportedGlobalNetworkCallingCodes(), 999)
	spoilMap(pn.GetSupportedTypesForNonGeoEntity(cc), pn.UNKNOWN)
	spoilNumber(pn.GetExampleNumberForNonGeoEntity(cc))
	if g := pn.GetRegionCodesForCountryCode(cc); !slices.Equal(g, rs) {
		t.Fail("GetRegionCodesForCountryCode(%d) = %v, the data says %v", cc, g, rs)
	}
	md, ok := metadata.NonGeoMetadata(cc)
	checkPlanMessage(t, "NonGeoMetadata("+itoa(cc)+")", md, ok, w.NonGeo[cc])
	if g := metadata.CountryCodeToRegion()[cc]; !slices.Equal(g, rs) {
		t.Fail("metadata.CountryCodeToRegion()[%d] = %v, the data says %v", cc, g, rs)
	}
	main := "ZZ"
	if len(rs) > 0 {
		main = rs[0]
	}
	if g := pn.GetRegionCodeForCountryCode(cc); g != main {
		t.Fail("GetRegionCodeForCountryCode(%d) = %q, the data says %q", cc, g, main)
	}
	if g := pn.GetSupportedCallingCodes()[cc]; g != (len(rs) > 0) {
		t.Fail("GetSupportedCallingCodes()[%d] = %v, the data says %v", cc, g, rs)
	}
	global := len(rs) == 1 && rs[0] == "001"
	if g := pn.GetSupportedGlobalNetworkCallingCodes()[cc]; g != global {
		t.Fail("GetSupportedGlobalNetworkCallingCodes()[%d] = %v, the data says %v", cc, g, global)
	}
	types := map[model.Type]bool{}
	if p := w.NonGeo[cc]; p != nil && len(rs) > 0 {
		types = p.SupportedTypes()
	}
	checkTypes(t, pn.GetSupportedTypesForNonGeoEntity(cc), types, "code "+itoa(cc))
	e := pn.GetExampleNumberForNonGeoEntity(cc)
	if x := w.ExampleNonGeo(cc); !eq(fromPB(e), x) {
		t.Fail("GetExampleNumberForNonGeoEntity(%d) = %s, the data gives %s", cc, show(fromPB(e)), show(x))
	}
	if global && w == w0() {
		if e == nil || !pn.IsValidNumber(e) || int(e.GetCountryCode()) != cc {
			t.Fail("the example of global code %d is %s", cc, show(fromPB(e)))
		}
	}
	if g := pn.GetCountryMobileToken(cc); g != model.MobileToken(cc) {
		t.Fail("GetCountryMobileToken(%d) = %q", cc, g)
	}
}

func checkSets(t *pbt.T, w *model.World) {
	t.NonTrivial("sets" + itoa(t.Index))
	rs := pn.GetSupportedRegions()
	for r, ok := range rs {
		if ok != w.Supported[r] {
			t.Fail("GetSupportedRegions lists %q=%v", r, ok)
		}
	}
	if len(rs) != len(w.Supported) {
		t.Fail("GetSupportedRegions has %d entries, the data %d", len(rs), len(w.Supported))
	}
	cs := pn.GetSupportedCallingCodes()
	if len(cs) != len(w.Codes) {
		t.Fail("GetSupportedCallingCodes has %d entries, the data %d", len(cs), len(w.Codes))
	}
	if a, b := len(metadata.SupportedRegions()), len(metadata.SupportedCallingCodes()); a != len(w.Supported) || b != len(w.Codes) {
		t.Fail("the metadata package lists %d regions and %d codes, the data has %d and %d", a, b, len(w.Supported), len(w.Codes))
	}
	if a, b := len(metadata.CountryCodesForNonGeographicalRegion()), len(metadata.CountryCodeToRegion()); a != len(w.NGCodes) || b != len(w.Codes) {
		t.Fail("the metadata package lists %d global codes of %d codes, the data has %d of %d", a, b, len(w.NGCodes), len(w.Codes))
	}
	// the embedded collection is the built-in one whatever is installed
	coll, err := pn.MetadataCollection()
	if err != nil || len(coll.GetMetadata()) != len(w0().RegionIDs)+len(w0().NGCodes) {
		t.Fail("MetadataCollection has %d plans, error %v", len(coll.GetMetadata()), err)
	}
	md := pbt.Pick(t.Src, coll.GetMetadata())
	p := w0().Regions[md.GetId()]
	if md.GetId() == "001" {
		p = w0().NonGeo[int(md.GetCountryCode())]
	}
	checkPlanMessage(t, "MetadataCollection "+md.GetId(), md, true, p)
	gs := pn.GetSupportedGlobalNetworkCallingCodes()
	if len(gs) != len(w.NGCodes) {
		t.Fail("GetSupportedGlobalNetworkCallingCodes has %d entries, the data %d", len(gs), len(w.NGCodes))
	}
}
