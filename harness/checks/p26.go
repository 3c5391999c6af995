package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"unicode/utf8"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"verifharness/model"
	"verifharness/pbt"
)

// stored is a phone number message field by field, with what is present.
type stored struct {
	CC, NLZ           *int32
	NN                *uint64
	ILZ               *bool
	Ext, Raw, Carrier *string
	Src               *int32
}

func varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// fields writes every present field as the public definition of the message
// numbers them, in the order of the numbers.
func (s *stored) fields() [][]byte {
	var out [][]byte
	num := func(n int, v uint64) { out = append(out, varint([]byte{byte(n << 3)}, v)) }
	str := func(n int, v string) { out = append(out, append(varint([]byte{byte(n<<3 | 2)}, uint64(len(v))), v...)) }
	if s.CC != nil {
		num(1, uint64(int64(*s.CC)))
	}
	if s.NN != nil {
		num(2, *s.NN)
	}
	if s.Ext != nil {
		str(3, *s.Ext)
	}
	if s.ILZ != nil {
		v := uint64(0)
		if *s.ILZ {
			v = 1
		}
		num(4, v)
	}
	if s.Raw != nil {
		str(5, *s.Raw)
	}
	if s.Src != nil {
		num(6, uint64(int64(*s.Src)))
	}
	if s.Carrier != nil {
		str(7, *s.Carrier)
	}
	if s.NLZ != nil {
		num(8, uint64(int64(*s.NLZ)))
	}
	return out
}

func (s *stored) bytes() []byte { return bytes.Join(s.fields(), nil) }

// readStored reads the fields of a stored message.
func readStored(b []byte) (s *stored, err error) {
	s = &stored{}
	uv := func() (v uint64) {
		for i := 0; ; i += 7 {
			if len(b) == 0 || i > 63 {
				err = fmt.Errorf("cut short")
				return
			}
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << i
			if c < 0x80 {
				return
			}
		}
	}
	for len(b) > 0 && err == nil {
		tag := uv()
		switch tag {
		case 1 << 3:
			v := int32(uv())
			s.CC = &v
		case 2 << 3:
			v := uv()
			s.NN = &v
		case 4 << 3:
			v := uv() != 0
			s.ILZ = &v
		case 6 << 3:
			v := int32(uv())
			s.Src = &v
		case 8 << 3:
			v := int32(uv())
			s.NLZ = &v
		case 3<<3 | 2, 5<<3 | 2, 7<<3 | 2:
			n := uv()
			if n > uint64(len(b)) {
				return s, fmt.Errorf("cut short")
			}
			v := string(b[:n])
			b = b[n:]
			switch tag >> 3 {
			case 3:
				s.Ext = &v
			case 5:
				s.Raw = &v
			case 7:
				s.Carrier = &v
			}
		default:
			return s, fmt.Errorf("tag %d", tag)
		}
	}
	return s, err
}

func ptr[V any](v V) *V { return &v }

func genStored(t *pbt.T) *stored {
	n := wildNum(t, w0())
	s := &stored{CC: ptr(int32(n.CC)), NN: ptr(n.NN)}
	some := func() bool { return t.Chance(1, 3) }
	if n.Ext != "" || some() {
		s.Ext = &n.Ext
	}
	if n.ILZ || some() {
		s.ILZ = &n.ILZ
	}
	if n.NLZ != 1 || some() {
		s.NLZ = &n.NLZ
	}
	if n.Raw != "" || some() {
		s.Raw = &n.Raw
		if t.Bool() {
			s.Raw = ptr(text(t, 30))
		}
	}
	if n.Src != 0 || some() {
		s.Src = ptr(int32(pbt.Pick(t.Src, srcs)))
	}
	if n.Carrier != "" || some() {
		s.Carrier = &n.Carrier
	}
	return s
}

func (s *stored) message() *pn.PhoneNumber {
	p := &pn.PhoneNumber{CountryCode: s.CC, NationalNumber: s.NN, Extension: s.Ext, ItalianLeadingZero: s.ILZ, NumberOfLeadingZeros: s.NLZ, RawInput: s.Raw, PreferredDomesticCarrierCode: s.Carrier}
	if s.Src != nil {
		p.CountryCodeSource = ptr(pn.PhoneNumber_CountryCodeSource(*s.Src))
	}
	return proto.Clone(p).(*pn.PhoneNumber)
}

func or[V any](p *V, def V) V {
	if p == nil {
		return def
	}
	return *p
}

// getters says where the getters do not give the fields or, for missing ones,
// their defaults.
func (s *stored) getters(p *pn.PhoneNumber) string {
	for _, f := range []struct {
		name string
		g, x any
	}{
		{"GetCountryCode", p.GetCountryCode(), or(s.CC, 0)}, {"GetNationalNumber", p.GetNationalNumber(), or(s.NN, 0)}, {"GetExtension", p.GetExtension(), or(s.Ext, "")},
		{"GetItalianLeadingZero", p.GetItalianLeadingZero(), or(s.ILZ, false)}, {"GetNumberOfLeadingZeros", p.GetNumberOfLeadingZeros(), or(s.NLZ, 1)},
		{"GetRawInput", p.GetRawInput(), or(s.Raw, "")}, {"GetCountryCodeSource", int32(p.GetCountryCodeSource()), or(s.Src, 0)},
		{"GetPreferredDomesticCarrierCode", p.GetPreferredDomesticCarrierCode(), or(s.Carrier, "")},
	} {
		if f.g != f.x {
			return fmt.Sprintf("%s gives %v instead of %v", f.name, f.g, f.x)
		}
	}
	return ""
}

func (s *stored) String() string {
	var b strings.Builder
	for _, f := range []struct {
		name string
		v    any
		ok   bool
	}{{"code", or(s.CC, 0), s.CC != nil}, {"number", or(s.NN, 0), s.NN != nil}, {"ext", or(s.Ext, ""), s.Ext != nil}, {"leading zero", or(s.ILZ, false), s.ILZ != nil}, {"zeros", or(s.NLZ, 0), s.NLZ != nil},
		{"raw", or(s.Raw, ""), s.Raw != nil}, {"source", or(s.Src, 0), s.Src != nil}, {"carrier", or(s.Carrier, ""), s.Carrier != nil}} {
		if f.ok {
			fmt.Fprintf(&b, " %s=%#v", f.name, f.v)
		}
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

var srcNames = map[int32]string{0: "UNSPECIFIED", 1: "FROM_NUMBER_WITH_PLUS_SIGN", 5: "FROM_NUMBER_WITH_IDD", 10: "FROM_NUMBER_WITHOUT_PLUS_SIGN", 20: "FROM_DEFAULT_COUNTRY"}

// asJSON is the message in the JSON form of its public definition.
func (s *stored) asJSON() []byte {
	m := map[string]any{"countryCode": s.CC, "nationalNumber": fmt.Sprint(or(s.NN, 0))} // genStored always has both
	set := func(k string, ok bool, v any) {
		if ok {
			m[k] = v
		}
	}
	set("extension", s.Ext != nil, s.Ext)
	set("italianLeadingZero", s.ILZ != nil, s.ILZ)
	set("numberOfLeadingZeros", s.NLZ != nil, s.NLZ)
	set("rawInput", s.Raw != nil, s.Raw)
	set("countryCodeSource", s.Src != nil, srcNames[or(s.Src, 0)])
	set("preferredDomesticCarrierCode", s.Carrier != nil, s.Carrier)
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// behaves compares what the library says about two equal messages.
func behaves(t *pbt.T, a, b *pn.PhoneNumber, region string) {
	f := pn.PhoneNumberFormat(t.N(4))
	if x, y := pn.Format(a, f), pn.Format(b, f); x != y {
		t.Fail("after storing, Format(%d) gives %q instead of %q", f, y, x)
	}
	if x, y := pn.FormatInOriginalFormat(a, region), pn.FormatInOriginalFormat(b, region); x != y {
		t.Fail("after storing, FormatInOriginalFormat gives %q instead of %q", y, x)
	}
	if x, y := pn.FormatOutOfCountryKeepingAlphaChars(a, region), pn.FormatOutOfCountryKeepingAlphaChars(b, region); x != y {
		t.Fail("after storing, FormatOutOfCountryKeepingAlphaChars gives %q instead of %q", y, x)
	}
	if x, y := pn.GetNumberType(a), pn.GetNumberType(b); x != y {
		t.Fail("after storing, the type is %d instead of %d", y, x)
	}
	if x, y := pn.FormatNationalNumberWithPreferredCarrierCode(a, ""), pn.FormatNationalNumberWithPreferredCarrierCode(b, ""); x != y {
		t.Fail("after storing, the carrier code format is %q instead of %q", y, x)
	}
	if g := pn.IsNumberMatchWithNumbers(a, b); g != pn.EXACT_MATCH {
		t.Fail("after storing, the number matches itself with grade %d", g)
	}
}

func init() {
	register(&pbt.Prop{
		ID:          "P26",
		Rule:        "the message has a field beyond code and number (messages), the text parses to a number (returned), the plans have a formatting rule (plans); counted by distinct message, text and collection",
		Assumptions: []string{"the stored form is that of the public phonenumber.proto and phonemetadata.proto: field numbers, types and defaults are restated in the harness"},
		Subs: []*pbt.Sub{
			{Name: "messages", Quick: 500000, Thorough: 20000000, Run: func(t *pbt.T) {
				s := genStored(t)
				t.Log("message %s", s)
				if len(s.fields()) > 2 {
					t.NonTrivial(string(s.bytes()))
				}
				p := s.message()
				if d := s.getters(p); d != "" {
					t.Fail("%s: %s", s, d)
				}
				b, err := proto.MarshalOptions{Deterministic: true}.Marshal(p)
				if err != nil || !bytes.Equal(b, s.bytes()) {
					t.Fail("%s is stored as %x, %v; its definition gives %x", s, b, err, s.bytes())
				}
				// written by someone else: fields in another order, some twice
				fs := s.fields()
				for k := t.N(4); k > 0; k-- {
					i, j := t.N(len(fs)), t.N(len(fs))
					fs[i], fs[j] = fs[j], fs[i]
				}
				if t.Chance(1, 4) {
					o := genStored(t)
					var early [][]byte
					for _, f := range o.fields() {
						for _, g := range fs {
							if f[0] == g[0] {
								early = append(early, f) // overruled by what comes later
							}
						}
					}
					fs = append(early, fs...)
				}
				q := &pn.PhoneNumber{}
				if t.Bool() {
					q = toPB(wildNum(t, w0()))
				}
				if err := proto.Unmarshal(bytes.Join(fs, nil), q); err != nil {
					t.Fail("%s stored as %x is not read back: %v", s, fs, err)
				}
				if d := s.getters(q); d != "" || !proto.Equal(p, q) {
					t.Fail("%s stored as %x is read back as {%v}: %s", s, fs, q, d)
				}
				r := anyRegion(t, w0())
				if or(s.CC, 0) != 0 {
					behaves(t, p, q, r)
				}
				c := proto.Clone(p).(*pn.PhoneNumber)
				if d := s.getters(c); d != "" || !proto.Equal(p, c) {
					t.Fail("the copy of %s is {%v}: %s", s, c, d)
				}
				if !utf8.ValidString(or(s.Raw, "") + or(s.Ext, "")) {
					return
				}
				j, err := protojson.Marshal(p)
				if err != nil {
					t.Fail("%s as JSON: %v", s, err)
				}
				var a, x any
				if json.Unmarshal(j, &a) != nil || json.Unmarshal(s.asJSON(), &x) != nil || fmt.Sprint(a) != fmt.Sprint(x) {
					t.Fail("%s as JSON is %s, its definition gives %s", s, j, s.asJSON())
				}
				q = &pn.PhoneNumber{}
				if err := protojson.Unmarshal(s.asJSON(), q); err != nil || !proto.Equal(p, q) {
					t.Fail("%s is read back from JSON as {%v}, %v", s, q, err)
				}
				txt, err := prototext.Marshal(p)
				q = &pn.PhoneNumber{}
				if err != nil || prototext.Unmarshal(txt, q) != nil || !proto.Equal(p, q) {
					t.Fail("%s is read back from text %s as {%v}, %v", s, txt, q, err)
				}
			}},
			{Name: "returned", Quick: 500000, Thorough: 20000000, Run: func(t *pbt.T) {
				// every number the library returns can be stored, in one canonical form
				w := w0()
				s, r := anyText(t, w)
				t.Log("parse %q in %q", s, r)
				x, xerr := w.Parse(s, r, false)
				p, err := pn.Parse(s, r)
				if err != nil || xerr != nil {
					return // which texts parse is another property
				}
				t.NonTrivial(s + "|" + r)
				want := canonical(x)
				b, err := proto.MarshalOptions{Deterministic: true}.Marshal(p)
				if err != nil || !bytes.Equal(b, want.bytes()) {
					g, _ := readStored(b)
					t.Fail("Parse(%q, %q) is stored as %s, %v; the form of that number is %s", s, r, g, err, want)
				}
				k, err := pn.ParseAndKeepRawInput(s, r)
				if err != nil {
					t.Fail("ParseAndKeepRawInput(%q, %q): %v", s, r, err)
				}
				if y, err := w.Parse(s, r, true); err == nil {
					want = canonical(y)
					want.Raw, want.Src = &s, ptr(int32(y.Src))
					if b, err = (proto.MarshalOptions{Deterministic: true}).Marshal(k); err != nil || !bytes.Equal(b, want.bytes()) {
						g, _ := readStored(b)
						t.Fail("ParseAndKeepRawInput(%q, %q) is stored as %s, %v; the form of that number is %s", s, r, g, err, want)
					}
				}
				for m := range pn.FindNumbersWithLeniency("a "+s+" b", r, pn.POSSIBLE, 100) {
					if n, err := m.Number(), proto.CheckInitialized(m.Number()); err != nil {
						t.Fail("the match %q has the number {%v} that cannot be stored: %v", m.RawString(), n, err)
					}
				}
			}},
			{Name: "examples", Count: func(string) int { return len(w0().RegionIDs) + len(w0().Codes) }, Run: func(t *pbt.T) {
				w := w0()
				var ns []*pn.PhoneNumber
				if t.Index < len(w.RegionIDs) {
					r := w.RegionIDs[t.Index]
					t.Log("examples of %s", r)
					ns = append(ns, pn.GetExampleNumber(r), pn.GetInvalidExampleNumber(r))
					for typ := pn.FIXED_LINE; typ <= pn.UNKNOWN; typ++ {
						ns = append(ns, pn.GetExampleNumberForTypeInRegion(r, typ))
					}
				} else {
					cc := w.Codes[t.Index-len(w.RegionIDs)]
					t.Log("example of +%d", cc)
					ns = append(ns, pn.GetExampleNumberForNonGeoEntity(cc))
				}
				for _, n := range ns {
					if n == nil {
						continue
					}
					b, err := proto.MarshalOptions{Deterministic: true}.Marshal(n)
					t.NonTrivial(string(b))
					if x := canonical(fromPB(n)); err != nil || !bytes.Equal(b, x.bytes()) {
						t.Fail("the example {%v} is stored as %x, %v; the form of that number is %x", n, b, err, x.bytes())
					}
				}
			}},
			{Name: "sources", Quick: 200, Thorough: 2000, Run: func(t *pbt.T) {
				// the names of the sources, either way
				v := int32(t.N(32)) - 3
				src := pn.PhoneNumber_CountryCodeSource(v)
				name, ok := srcNames[v]
				t.Log("source %d", v)
				if ok {
					t.NonTrivial(name)
				}
				x := name
				if !ok {
					x = fmt.Sprint(v)
				}
				if src.String() != x || *src.Enum() != src || int32(src.Number()) != v {
					t.Fail("source %d is named %q instead of %q", v, src.String(), x)
				}
				if pn.PhoneNumber_CountryCodeSource_name[v] != name || ok && pn.PhoneNumber_CountryCodeSource_value[name] != v {
					t.Fail("source %d is listed as %q and %q as %d", v, pn.PhoneNumber_CountryCodeSource_name[v], name, pn.PhoneNumber_CountryCodeSource_value[name])
				}
				if len(pn.PhoneNumber_CountryCodeSource_name) != len(srcNames) || len(pn.PhoneNumber_CountryCodeSource_value) != len(srcNames) {
					t.Fail("there are %d names and %d values of sources", len(pn.PhoneNumber_CountryCodeSource_name), len(pn.PhoneNumber_CountryCodeSource_value))
				}
				var none *pn.PhoneNumber
				if d := (&stored{}).getters(none); d != "" {
					t.Fail("no message: %s", d)
				}
				if d := (&stored{}).getters(&pn.PhoneNumber{}); d != "" {
					t.Fail("an empty message: %s", d)
				}
			}},
			{Name: "plans", Quick: 3000, Thorough: 100000, Run: func(t *pbt.T) {
				// numbering plans survive storing as well
				w := genWorld(t)
				describeWorld(t, w)
				coll := &metadata.PhoneMetadataCollection{}
				var plans []*model.Plan
				add := func(p *model.Plan) {
					plans = append(plans, p)
					coll.Metadata = append(coll.Metadata, planPB(p))
					if len(p.Formats) > 0 {
						t.NonTrivial(fmt.Sprint(w.RegionIDs, p.Formats[0].Pattern, p.D[model.General]))
					}
				}
				for _, r := range w.RegionIDs {
					add(w.Regions[r])
				}
				for _, cc := range w.NGCodes {
					add(w.NonGeo[cc])
				}
				b, err := proto.Marshal(coll)
				if err != nil {
					t.Fail("the plans cannot be stored: %v", err)
				}
				comparePlans(t, "stored plan", model.DecodePlans(b), plans)
				back := &metadata.PhoneMetadataCollection{}
				if err := proto.Unmarshal(b, back); err != nil || !proto.Equal(coll, back) {
					t.Fail("the plans are not read back as they were: %v", err)
				}
				for i, m := range back.GetMetadata() {
					checkPlanMessage(t, "plan read back "+plans[i].ID, m, true, plans[i])
					checkPlanGetters(t, m, plans[i])
				}
			}},
		},
	})
}

// canonical is the one form in which a parsed number is stored.
func canonical(n *model.Num) *stored {
	s := &stored{CC: ptr(int32(n.CC)), NN: ptr(n.NN)}
	if n.Ext != "" {
		s.Ext = &n.Ext
	}
	if n.ILZ {
		s.ILZ = ptr(true)
	}
	if n.NLZ != 1 {
		s.NLZ = &n.NLZ
	}
	if n.Carrier != "" {
		s.Carrier = &n.Carrier
	}
	return s
}

// checkPlanGetters compares what the getters of a plan say with the plan.
func checkPlanGetters(t *pbt.T, m *metadata.PhoneMetadata, p *model.Plan) {
	for _, f := range []struct {
		name string
		g, x any
	}{
		{"Id", m.GetId(), p.ID}, {"CountryCode", int(m.GetCountryCode()), p.CC}, {"InternationalPrefix", m.GetInternationalPrefix(), p.IntlPrefix},
		{"PreferredInternationalPrefix", m.GetPreferredInternationalPrefix(), p.PrefIntl}, {"NationalPrefix", m.GetNationalPrefix(), p.NatPrefix},
		{"PreferredExtnPrefix", m.GetPreferredExtnPrefix(), p.ExtnPrefix}, {"NationalPrefixForParsing", m.GetNationalPrefixForParsing(), p.NPForParsing},
		{"NationalPrefixTransformRule", m.GetNationalPrefixTransformRule(), p.NPTransform}, {"SameMobileAndFixedLinePattern", m.GetSameMobileAndFixedLinePattern(), p.SameMobFixed},
		{"MainCountryForCode", m.GetMainCountryForCode(), p.MainCountry}, {"LeadingDigits", m.GetLeadingDigits(), p.LeadingDigits},
		{"MobileNumberPortableRegion", m.GetMobileNumberPortableRegion(), p.MNP}, {"NumberFormat", len(m.GetNumberFormat()), len(p.Formats)},
		{"IntlNumberFormat", len(m.GetIntlNumberFormat()), len(p.IntlFormats)},
	} {
		if f.g != f.x {
			t.Fail("plan %s: Get%s gives %v, its field is %v", p.ID, f.name, f.g, f.x)
		}
	}
	for k, d := range map[model.Kind]*metadata.PhoneNumberDesc{
		model.General: m.GetGeneralDesc(), model.FixedLine: m.GetFixedLine(), model.Mobile: m.GetMobile(), model.TollFree: m.GetTollFree(), model.PremiumRate: m.GetPremiumRate(),
		model.SharedCost: m.GetSharedCost(), model.PersonalNumber: m.GetPersonalNumber(), model.Voip: m.GetVoip(), model.Pager: m.GetPager(), model.Uan: m.GetUan(),
		model.Voicemail: m.GetVoicemail(), model.NoIntl: m.GetNoInternationalDialling()} {
		x := p.D[k]
		if (d == nil) != (x == nil) {
			t.Fail("plan %s: description %d missing=%v, its field missing=%v", p.ID, k, d == nil, x == nil)
		}
		if x == nil {
			x = &model.Desc{}
		}
		if d.GetNationalNumberPattern() != x.Pattern || d.GetExampleNumber() != x.Example || !slices.Equal(d.GetPossibleLength(), x.Lengths) || !slices.Equal(d.GetPossibleLengthLocalOnly(), x.Local) {
			t.Fail("plan %s: the getters of description %d give %q, %q, %v, %v; its fields are %s", p.ID, k, d.GetNationalNumberPattern(), d.GetExampleNumber(), d.GetPossibleLength(), d.GetPossibleLengthLocalOnly(), descText(x))
		}
	}
	for _, fs := range []struct {
		m []*metadata.NumberFormat
		p []*model.NumFmt
	}{{m.GetNumberFormat(), p.Formats}, {m.GetIntlNumberFormat(), p.IntlFormats}} {
		for i, f := range fs.m {
			x := fs.p[i]
			if f.GetPattern() != x.Pattern || f.GetFormat() != x.Format || !slices.Equal(f.GetLeadingDigitsPattern(), x.Leading) || f.GetNationalPrefixFormattingRule() != x.NPRule ||
				f.GetNationalPrefixOptionalWhenFormatting() != x.NPOptional || f.GetDomesticCarrierCodeFormattingRule() != x.CarrierRule {
				t.Fail("plan %s: the getters of format %d give %v, its fields are %+v", p.ID, i, f, *x)
			}
		}
	}
}
