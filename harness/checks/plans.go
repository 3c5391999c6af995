package checks

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/nyaruka/phonenumbers/v2/metadata"
	"google.golang.org/protobuf/proto"

	"verifharness/model"
	"verifharness/pbt"
)

// ---- generated numbering plans ----

var codePool = []int{1, 7, 20, 39, 44, 49, 52, 54, 55, 56, 57, 61, 62, 65, 81, 86, 90, 211, 225, 353, 376, 378, 500, 599, 888, 998, 999}
var globalPool = []int{800, 808, 870, 878, 881, 979}
var regionPool = []string{"US", "CA", "GB", "IM", "IT", "SM", "BR", "MX", "CL", "AR", "UZ", "CO", "HU", "RU", "KZ", "DE", "AU", "CX", "AA", "QB", "QC", "XD", "XE", "BS", "JP", "FI"}

var leadPool = []string{"[2-9]", "[1-9]", "2", "3[0-4]", "9", "8", "80", "90[0-2]", "1[2-5]", "[5-7]", "0[1-9]", "0", "4", "70", "6[0-5]", "15", "11", "999", "[0-9]", "55"}

// alt is a run of numbers: a lead followed by lo to hi digits.
type alt struct {
	lead   string
	lo, hi int
}

func (a alt) re() string {
	if a.lo == a.hi {
		if a.lo == 0 {
			return a.lead
		}
		return fmt.Sprintf(`%s\d{%d}`, a.lead, a.lo)
	}
	return fmt.Sprintf(`%s\d{%d,%d}`, a.lead, a.lo, a.hi)
}

func (a alt) lens() []int32 {
	n := len(a.lead)
	if i := strings.IndexByte(a.lead, '['); i >= 0 {
		n -= strings.IndexByte(a.lead, ']') - i
	}
	var out []int32
	for k := a.lo; k <= a.hi; k++ {
		out = append(out, int32(n+k))
	}
	return out
}

func sortedLens(m map[int32]bool) []int32 {
	out := make([]int32, 0, len(m))
	for l := range m {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// genDesc draws a description of one kind of numbers.
func genDesc(t *pbt.T) (*model.Desc, map[int32]bool) {
	lens := map[int32]bool{}
	var res []string
	n := t.Weighted(5, 2)
	many := t.Chance(1, 25) // numbers of many lengths
	if many {
		n = 3 + t.N(5)
	}
	for k := n; k >= 0; k-- {
		a := alt{lead: pbt.Pick(t.Src, leadPool), lo: 4 + t.N(6)}
		if many {
			a.lo = 1 + t.N(11)
		}
		a.hi = a.lo
		if t.Chance(1, 3) {
			a.hi += 1 + t.N(2)
		}
		res = append(res, a.re())
		for _, l := range a.lens() {
			lens[l] = true
		}
	}
	d := &model.Desc{HasPattern: true, Pattern: strings.Join(res, "|")}
	if len(lens) > 1 && t.Chance(1, 3) {
		// the pattern takes a length the description does not list
		ls := sortedLens(lens)
		delete(lens, ls[t.N(len(ls))])
	}
	return d, lens
}

func genFmt(t *pbt.T, np string) *model.NumFmt {
	f := &model.NumFmt{}
	groups := 1 + t.N(4)
	var pat, tmpl strings.Builder
	for g := 1; g <= groups; g++ {
		lo := 1 + t.N(4)
		switch {
		case t.Chance(1, 6):
			fmt.Fprintf(&pat, `(\d{%d,%d})`, lo, lo+1)
		case g == groups && t.Chance(1, 8):
			pat.WriteString(`(\d+)`)
		case g == 1 && t.Chance(1, 8):
			pat.WriteString(`([2-9]\d)`)
		case lo == 1 && t.Bool():
			pat.WriteString(`(\d)`)
		default:
			fmt.Fprintf(&pat, `(\d{%d})`, lo)
		}
		if g > 1 {
			tmpl.WriteString(pbt.Pick(t.Src, []string{" ", "-", " ", ".", "", "/", "x"}))
		}
		fmt.Fprintf(&tmpl, "$%d", g)
	}
	f.Pattern, f.Format = pat.String(), tmpl.String()
	if groups > 1 && t.Chance(1, 12) {
		f.Format = strings.Replace(f.Format, "$1", "($1)", 1)
	}
	if groups > 2 && t.Chance(1, 16) {
		f.Format = "$2 15-$3" // an inserted token and a dropped group, as Argentina has
	} else if groups == 3 && t.Chance(1, 12) {
		f.Format = pbt.Pick(t.Src, []string{"$1 $3 $2", "$3 $2 $1", "$2 $1-$3"})
	}
	if t.Chance(1, 24) {
		// a star in it, as Israel has
		switch t.N(3) {
		case 0:
			f.Format = "*" + f.Format
		case 1:
			f.Format += "*"
		case 2:
			f.Format = strings.Replace(f.Format, "$2", "*$2", 1)
		}
	}
	for k := t.N(3); k > 0; k-- {
		l := pbt.Pick(t.Src, leadPool)
		if n := len(f.Leading); n > 0 && t.Chance(2, 3) {
			l = f.Leading[n-1] + pbt.Pick(t.Src, []string{"", `\d`, "[0-5]", "1"})
		}
		f.Leading = append(f.Leading, l)
	}
	if t.Chance(1, 2) {
		f.NPRule = pbt.Pick(t.Src, []string{np + "$1", "(" + np + "$1)", np + " $1", "($1)", "$1", np + "-$1", "0$1", "8 $1"})
		f.NPOptional = t.Chance(1, 3)
	}
	if t.Chance(1, 4) {
		f.CarrierRule = pbt.Pick(t.Src, []string{np + " $CC ($1)", "$CC $1", np + "$CC $1", np + " $CC $1"})
	}
	return f
}

// finish computes what the other parts imply: the general description and which
// kinds share a pattern.
func finishPlan(t *pbt.T, p *model.Plan, lens map[model.Kind]map[int32]bool) {
	all := map[int32]bool{}
	var res []string
	for k := model.FixedLine; k <= model.Voicemail; k++ {
		for l := range lens[k] {
			all[l] = true
		}
		if d := p.D[k]; d != nil {
			res = append(res, d.Pattern)
		}
	}
	g := &model.Desc{HasPattern: true, Lengths: sortedLens(all)}
	if t.Bool() {
		g.Pattern = fmt.Sprintf(`\d{%d,%d}`, g.Lengths[0], g.Lengths[len(g.Lengths)-1])
	} else {
		g.Pattern = strings.Join(res, "|")
	}
	// lengths dialled only locally, by kind; the general ones are those that are no
	// full length of any kind
	local := map[model.Kind]map[int32]bool{}
	gl := map[int32]bool{}
	for _, k := range []model.Kind{model.FixedLine, model.Mobile, model.TollFree, model.Voip} {
		if p.D[k] == nil || !t.Chance(1, 3) {
			continue
		}
		local[k] = map[int32]bool{}
		for i := 1 + t.N(3); i > 0; i-- {
			l := int32(2 + t.N(9))
			if lens[k][l] {
				continue
			}
			local[k][l] = true
			if !all[l] {
				gl[l] = true
			}
		}
	}
	g.Local = sortedLens(gl)
	if t.Chance(1, 25) {
		// a plan that gives lengths but no digits
		g.HasPattern, g.Pattern = false, ""
	}
	p.D[model.General] = g
	for k := model.FixedLine; k <= model.NoIntl; k++ {
		d := p.D[k]
		if d == nil {
			p.D[k] = &model.Desc{Lengths: []int32{-1}}
			continue
		}
		if ls := sortedLens(lens[k]); fmt.Sprint(ls) != fmt.Sprint(g.Lengths) || t.Chance(1, 8) {
			d.Lengths = ls
		}
		d.Local = sortedLens(local[k])
		if t.Chance(4, 5) {
			d.Example = fromRE(t, d.Pattern)
		}
	}
	p.SameMobFixed = p.D[model.FixedLine].Pattern == p.D[model.Mobile].Pattern
}

var intlPrefixes = []string{"00", "011", "00[1-9]", "0(?:0|11)", "810", "001[1-9]", "1[1-3]0", "119", "00(?:12|34)?"}

// genPlan draws the plan of one region.
func genPlan(t *pbt.T, id string, cc int) *model.Plan {
	if id != "001" && t.Chance(1, 6) {
		// the plan of some real region, at another place
		real := *w0().Regions[pbt.Pick(t.Src, w0().RegionIDs)]
		real.ID, real.CC, real.MainCountry = id, cc, false
		return &real
	}
	p := &model.Plan{ID: id, CC: cc}
	lens := map[model.Kind]map[int32]bool{}
	p.D[model.FixedLine], lens[model.FixedLine] = genDesc(t)
	if t.Chance(4, 5) {
		if t.Chance(1, 4) {
			c := *p.D[model.FixedLine]
			p.D[model.Mobile], lens[model.Mobile] = &c, lens[model.FixedLine]
		} else {
			p.D[model.Mobile], lens[model.Mobile] = genDesc(t)
		}
	}
	for k := model.TollFree; k <= model.Voicemail; k++ {
		if t.Chance(1, 4) {
			p.D[k], lens[k] = genDesc(t)
		}
	}
	if t.Chance(1, 6) {
		p.D[model.NoIntl], lens[model.NoIntl] = genDesc(t)
	}
	if id == "001" {
		p.D[model.NoIntl] = nil
		finishPlan(t, p, lens)
		for i := t.N(2); i > 0; i-- {
			p.Formats = append(p.Formats, genFmt(t, ""))
		}
		for _, f := range p.Formats {
			f.NPRule, f.CarrierRule = "", ""
		}
		return p
	}
	finishPlan(t, p, lens)
	p.NatPrefix = pbt.Pick(t.Src, []string{"", "0", "8", "1", "01", "06", "9"})
	if t.Chance(1, 12) {
		// prefixes with a pause for another dialling tone
		p.NatPrefix = pbt.Pick(t.Src, []string{"0~1", "8~2", "0~1~5", "~0"})
	}
	np := strings.ReplaceAll(p.NatPrefix, "~", "")
	if np != "" {
		p.NPForParsing = np
	}
	if t.Chance(1, 3) {
		if np == "" {
			np = "0"
		}
		p.NPForParsing = pbt.Pick(t.Src, []string{np + `|1`, np + `(?:1[0-9])?`, np + `(1\d)?`, `(?:` + np + `(1[1-4]))?`})
		switch t.N(8) {
		case 0:
			p.NPForParsing, p.NPTransform = np+`([2-5]\d{5})|`+np, `9$1`
		case 1:
			p.NPForParsing, p.NPTransform = np+`?(?:(11|2[2-4]|38)15)?`, `9$1`
		case 2:
			p.NPForParsing, p.NPTransform = np+`(1[1-9])?(\d{4,8})`, `$2`
		case 3:
			p.NPForParsing, p.NPTransform = `([2-9]\d{6})$|`+np, `24$1`
		case 4:
			p.NPForParsing, p.NPTransform = np+`([2-5]\d)([67])`, pbt.Pick(t.Src, []string{`$15$2`, `$1$29`, `$20$1`})
		case 5:
			// a code and a number with something between them
			p.NPForParsing, p.NPTransform = np+`(1[2-4])?9?(\d{5,8})`, `$2`
		}
	}
	p.IntlPrefix = pbt.Pick(t.Src, intlPrefixes)
	if t.Chance(1, 3) {
		p.PrefIntl = pbt.Pick(t.Src, []string{"00", "0011", "8~10", "011"})
	}
	if t.Chance(1, 5) {
		p.ExtnPrefix = pbt.Pick(t.Src, []string{" int ", " #", " доб. ", ";ext="})
	}
	p.MNP = t.Chance(1, 4)
	for k := t.N(4); k > 0; k-- {
		p.Formats = append(p.Formats, genFmt(t, p.NatPrefix))
	}
	if len(p.Formats) > 0 && t.Chance(1, 3) {
		for _, f := range p.Formats {
			c := *f
			if t.Bool() {
				c.NPRule, c.CarrierRule, c.NPOptional = "", "", false
			}
			if t.Chance(1, 5) {
				continue
			}
			if t.Chance(1, 3) {
				g := genFmt(t, p.NatPrefix)
				c.Pattern, c.Format = g.Pattern, g.Format
			}
			p.IntlFormats = append(p.IntlFormats, &c)
		}
	}
	return p
}

// genWorld draws a collection of plans. Alternate formats and short numbers are
// not part of what is installed and stay as they are.
func genWorld(t *pbt.T) *model.World {
	if t.Chance(1, 5) {
		return rework(t)
	}
	var plans []*model.Plan
	cc2r := map[int][]string{}
	used := map[string]bool{}
	fresh := func() string {
		for i := t.N(len(regionPool)); ; i++ {
			if r := regionPool[i%len(regionPool)]; !used[r] {
				used[r] = true
				return r
			}
		}
	}
	for k := 1 + t.N(4); k > 0; k-- {
		cc := pbt.Pick(t.Src, codePool)
		if cc2r[cc] != nil {
			continue
		}
		n := 1
		if t.Chance(1, 3) {
			n += 1 + t.N(3)
		}
		main := genPlan(t, fresh(), cc)
		main.MainCountry = n > 1
		plans = append(plans, main)
		cc2r[cc] = []string{main.ID}
		for ; n > 1; n-- {
			p := genPlan(t, fresh(), cc)
			if t.Chance(1, 2) {
				// as most shared plans do, the region has the main plan's prefixes
				p.NatPrefix, p.NPForParsing, p.NPTransform, p.IntlPrefix = main.NatPrefix, main.NPForParsing, main.NPTransform, main.IntlPrefix
			}
			if t.Chance(1, 2) {
				p.LeadingDigits = pbt.Pick(t.Src, leadPool)
				if t.Bool() {
					p.LeadingDigits += "|" + pbt.Pick(t.Src, leadPool)
				}
			}
			if t.Chance(1, 2) {
				p.Formats, p.IntlFormats = nil, nil
			}
			plans = append(plans, p)
			cc2r[cc] = append(cc2r[cc], p.ID)
		}
	}
	for k := t.N(3); k > 0; k-- {
		cc := pbt.Pick(t.Src, globalPool)
		if cc2r[cc] == nil {
			plans = append(plans, genPlan(t, "001", cc))
			cc2r[cc] = []string{"001"}
		}
	}
	w := model.FromPlans(plans, cc2r)
	w.Alt, w.Short = w0().Alt, w0().Short
	return w
}

// rework draws a collection of the real plans of a few calling codes with some of
// their parts exchanged.
func rework(t *pbt.T) *model.World {
	real := func() *model.Plan {
		rs := w0().RegionIDs
		return w0().Regions[rs[t.N(len(rs))]]
	}
	var plans []*model.Plan
	cc2r := map[int][]string{}
	for k := 1 + t.N(3); k > 0; k-- {
		cc := pbt.Pick(t.Src, w0().Codes)
		if len(cc2r) == 0 {
			cc = pbt.Pick(t.Src, w0().GeoCodes)
		} else if t.Chance(1, 6) {
			cc = pbt.Pick(t.Src, []int{1, 7, 39, 44, 47, 52, 54, 55, 61, 262, 358, 590, 599, 800, 883})
		}
		rs := slices.Clone(w0().CC2R[cc])
		if len(rs) == 0 || cc2r[cc] != nil {
			continue
		}
		if len(rs) > 1 && t.Chance(1, 4) {
			i := t.N(len(rs))
			rs[0], rs[i] = rs[i], rs[0]
		}
		cc2r[cc] = rs
		for i, r := range rs {
			p := new(model.Plan)
			if r == "001" {
				*p = *w0().NonGeo[cc]
			} else {
				*p = *w0().Regions[r]
			}
			p.MainCountry = i == 0 && len(rs) > 1
			plans = append(plans, p)
			if t.Chance(1, 3) {
				a, b := 1+t.N(int(model.Voicemail)), 1+t.N(int(model.Voicemail))
				p.D[a], p.D[b] = p.D[b], p.D[a]
				f, m := p.D[model.FixedLine], p.D[model.Mobile]
				p.SameMobFixed = f != nil && m != nil && f.HasPattern && m.HasPattern && f.Pattern == m.Pattern && slices.Equal(f.Lengths, m.Lengths)
			}
			if t.Chance(1, 6) {
				p.D[model.NoIntl] = p.D[1+t.N(int(model.Voicemail))]
			}
			if t.Chance(1, 4) {
				p.MNP = !p.MNP
			}
			if t.Chance(1, 5) {
				p.LeadingDigits = pbt.Pick(t.Src, leadPool)
				if t.Bool() {
					p.LeadingDigits = ""
				}
			}
			if t.Chance(1, 6) {
				p.Formats = real().Formats
			}
			if t.Chance(1, 6) {
				p.IntlFormats = nil
				if t.Bool() {
					p.IntlFormats = p.Formats
				}
			}
			if t.Chance(1, 6) {
				o := real()
				p.NatPrefix, p.NPForParsing, p.NPTransform = o.NatPrefix, o.NPForParsing, o.NPTransform
			}
			if t.Chance(1, 6) {
				o := real()
				p.IntlPrefix, p.PrefIntl = o.IntlPrefix, o.PrefIntl
			}
			if t.Chance(1, 6) {
				p.ExtnPrefix = real().ExtnPrefix
			}
		}
	}
	w := model.FromPlans(plans, cc2r)
	w.Alt, w.Short = w0().Alt, w0().Short
	return w
}

// regroup draws a collection of the plans of real regions that share calling codes
// differently.
func regroup(t *pbt.T) *model.World {
	var plans []*model.Plan
	cc2r := map[int][]string{}
	used := map[string]bool{}
	for k := 1 + t.N(3); k > 0; k-- {
		cc := pbt.Pick(t.Src, codePool)
		if cc2r[cc] != nil {
			continue
		}
		for n := 1 + t.N(5); n > 0; n-- {
			r := pbt.Pick(t.Src, w0().RegionIDs)
			if used[r] {
				continue
			}
			used[r] = true
			p := *w0().Regions[r]
			p.CC, p.MainCountry = cc, len(cc2r[cc]) == 0
			plans = append(plans, &p)
			cc2r[cc] = append(cc2r[cc], r)
		}
	}
	if len(plans) == 0 {
		return genWorld(t)
	}
	w := model.FromPlans(plans, cc2r)
	w.Alt, w.Short = w0().Alt, w0().Short
	return w
}

// plansSub is ask over generated numbering plans, several questions to each.
func plansSub(quick, thorough int, ask func(t *pbt.T, w *model.World)) *pbt.Sub {
	return worldsSub("plans", quick, thorough, genWorld, ask)
}

func worldsSub(name string, quick, thorough int, gen func(*pbt.T) *model.World, ask func(t *pbt.T, w *model.World)) *pbt.Sub {
	return &pbt.Sub{Name: name, Quick: quick, Thorough: thorough, Serial: true, Guide: true, Run: func(t *pbt.T) {
		w := gen(t)
		describeWorld(t, w)
		defer install(w)()
		if t.Bool() {
			t.Related()
			defer t.Unrelated()
		}
		for k := 4 + t.N(24); k > 0; k-- {
			t.Turn()
			ask(t, w)
		}
	}}
}

// ---- as messages ----

func strPB(s string) *string {
	if s == "" {
		return nil
	}
	return &s
}

func boolPB(b bool) *bool {
	if !b {
		return nil
	}
	return &b
}

func descPB(d *model.Desc) *metadata.PhoneNumberDesc {
	if d == nil {
		return nil
	}
	return &metadata.PhoneNumberDesc{NationalNumberPattern: strPB(d.Pattern), PossibleLength: append([]int32(nil), d.Lengths...),
		PossibleLengthLocalOnly: append([]int32(nil), d.Local...), ExampleNumber: strPB(d.Example)}
}

func fmtsPB(fs []*model.NumFmt) []*metadata.NumberFormat {
	var out []*metadata.NumberFormat
	for _, f := range fs {
		out = append(out, &metadata.NumberFormat{Pattern: proto.String(f.Pattern), Format: proto.String(f.Format),
			LeadingDigitsPattern: append([]string(nil), f.Leading...), NationalPrefixFormattingRule: strPB(f.NPRule),
			NationalPrefixOptionalWhenFormatting: boolPB(f.NPOptional), DomesticCarrierCodeFormattingRule: strPB(f.CarrierRule)})
	}
	return out
}

func planPB(p *model.Plan) *metadata.PhoneMetadata {
	return &metadata.PhoneMetadata{Id: proto.String(p.ID), CountryCode: proto.Int32(int32(p.CC)), InternationalPrefix: strPB(p.IntlPrefix),
		PreferredInternationalPrefix: strPB(p.PrefIntl), NationalPrefix: strPB(p.NatPrefix), PreferredExtnPrefix: strPB(p.ExtnPrefix),
		NationalPrefixForParsing: strPB(p.NPForParsing), NationalPrefixTransformRule: strPB(p.NPTransform),
		SameMobileAndFixedLinePattern: boolPB(p.SameMobFixed), NumberFormat: fmtsPB(p.Formats), IntlNumberFormat: fmtsPB(p.IntlFormats),
		MainCountryForCode: boolPB(p.MainCountry), LeadingDigits: strPB(p.LeadingDigits), MobileNumberPortableRegion: boolPB(p.MNP),
		GeneralDesc: descPB(p.D[model.General]), FixedLine: descPB(p.D[model.FixedLine]), Mobile: descPB(p.D[model.Mobile]),
		TollFree: descPB(p.D[model.TollFree]), PremiumRate: descPB(p.D[model.PremiumRate]), SharedCost: descPB(p.D[model.SharedCost]),
		PersonalNumber: descPB(p.D[model.PersonalNumber]), Voip: descPB(p.D[model.Voip]), Pager: descPB(p.D[model.Pager]),
		Uan: descPB(p.D[model.Uan]), Voicemail: descPB(p.D[model.Voicemail]), NoInternationalDialling: descPB(p.D[model.NoIntl])}
}

// install makes w the library's numbering plan data.
func install(w *model.World) (restore func()) {
	coll := &metadata.PhoneMetadataCollection{}
	for _, r := range w.RegionIDs {
		coll.Metadata = append(coll.Metadata, planPB(w.Regions[r]))
	}
	for _, cc := range w.NGCodes {
		coll.Metadata = append(coll.Metadata, planPB(w.NonGeo[cc]))
	}
	m := map[int][]string{}
	for cc, rs := range w.CC2R {
		m[cc] = append([]string(nil), rs...)
	}
	c, err := metadata.NewContainer(coll, m)
	if err != nil {
		panic(err)
	}
	return metadata.Use(c)
}

func describeWorld(t *pbt.T, w *model.World) {
	t.Log("installed: codes %v", w.CC2R)
	show := func(p *model.Plan) {
		t.Log("  %s +%d idd=%q pref=%q np=%q parse=%q transform=%q lead=%q", p.ID, p.CC, p.IntlPrefix, p.PrefIntl, p.NatPrefix, p.NPForParsing, p.NPTransform, p.LeadingDigits)
		for k := model.General; k <= model.NoIntl; k++ {
			if d := p.D[k]; d != nil && d.HasPattern {
				t.Log("    kind %d: %s lengths %v local %v", k, d.Pattern, d.Lengths, d.Local)
			}
		}
		for _, f := range p.Formats {
			t.Log("    format %+v", *f)
		}
		for _, f := range p.IntlFormats {
			t.Log("    intl format %+v", *f)
		}
	}
	for _, r := range w.RegionIDs {
		show(w.Regions[r])
	}
	for _, cc := range w.NGCodes {
		show(w.NonGeo[cc])
	}
}
