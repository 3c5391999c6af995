package checks

import (
	"bytes"
	"context"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/model"
	"verifharness/pbt"
)

// ---- metadata sources ----

// srcTree is a source tree and what must come out of it.
type srcTree struct {
	files  map[string]string // path below the checkout -> content
	plans  []*model.Plan
	short  []*model.Plan
	alt    []*model.Plan
	cc2r   map[int][]string
	zones  map[int][]string
	tables map[string]map[string]map[int]string // carrier|geocoding -> language -> table
}

func attr(b *strings.Builder, name, val string) {
	if val == "" {
		return
	}
	b.WriteString(" " + name + `="`)
	var e bytes.Buffer
	xml.EscapeText(&e, []byte(val))
	b.WriteString(strings.ReplaceAll(e.String(), "&#xA;", "\n") + `"`)
}

func elem(b *strings.Builder, indent, name, val string) {
	var e bytes.Buffer
	xml.EscapeText(&e, []byte(val))
	b.WriteString(indent + "<" + name + ">" + strings.ReplaceAll(e.String(), "&#xA;", "\n") + "</" + name + ">\n")
}

// srcSpread breaks a pattern over several lines, as the sources do.
func srcSpread(t *pbt.T, p string) string {
	if !t.Chance(1, 3) {
		return p
	}
	var b strings.Builder
	for i, c := range p {
		b.WriteRune(c)
		if c == '|' || c == ')' && i < len(p)-1 && p[i+1] != '?' && p[i+1] != '{' && p[i+1] != '+' {
			b.WriteString(pbt.Pick(t.Src, []string{"", "\n          ", " ", "\n\t"}))
		}
	}
	if t.Bool() {
		return "\n      " + b.String() + "\n    "
	}
	return b.String()
}

// lengthText writes lengths in the source notation.
func lengthText(t *pbt.T, ls []int32) string {
	var parts []string
	for i := 0; i < len(ls); {
		j := i
		for j+1 < len(ls) && ls[j+1] == ls[j]+1 {
			j++
		}
		if j-i >= 2 && t.Chance(4, 5) {
			parts = append(parts, fmt.Sprintf("[%d-%d]", ls[i], ls[j]))
			i = j + 1
			continue
		}
		parts = append(parts, strconv.Itoa(int(ls[i])))
		i++
	}
	return strings.Join(parts, ",")
}

// srcDesc is a description as the source has it.
type srcDesc struct {
	pattern, example string
	lens, local      []int32
}

func (d *srcDesc) write(t *pbt.T, b *strings.Builder, name string) {
	b.WriteString("      <" + name + ">\n")
	if d.pattern != "" {
		elem(b, "        ", "nationalNumberPattern", srcSpread(t, d.pattern))
	}
	if len(d.lens) > 0 {
		b.WriteString("        <possibleLengths")
		attr(b, "national", lengthText(t, d.lens))
		if len(d.local) > 0 {
			attr(b, "localOnly", lengthText(t, d.local))
		}
		b.WriteString("/>\n")
	}
	if d.example != "" {
		elem(b, "        ", "exampleNumber", d.example)
	}
	b.WriteString("      </" + name + ">\n")
}

// newSrcDesc draws a description; its lengths stay within allowed when given.
func newSrcDesc(t *pbt.T, allowed map[int32]bool) *srcDesc {
	d, lens := genDesc(t)
	s := &srcDesc{pattern: d.Pattern}
	if allowed != nil {
		for l := range lens {
			if !allowed[l] {
				delete(lens, l)
			}
		}
		if len(lens) == 0 || t.Chance(1, 8) {
			for l := range allowed {
				lens[l] = true
			}
		}
	} else if t.Chance(1, 6) {
		for l := int32(1 + t.N(6)); l < int32(8+t.N(9)); l += int32(1 + t.N(2)) {
			lens[l] = true
		}
	}
	s.lens = sortedLens(lens)
	if t.Chance(5, 6) {
		s.example = fromRE(t, d.Pattern)
	}
	return s
}

func lensOf(out map[int32]bool, ls []int32) {
	for _, l := range ls {
		out[l] = true
	}
}

// expand gives the description the built data must have.
func (d *srcDesc) expand(general []int32) *model.Desc {
	if d == nil {
		return &model.Desc{Lengths: []int32{-1}}
	}
	x := &model.Desc{HasPattern: d.pattern != "", Pattern: d.pattern, Example: d.example, Local: d.local}
	if !reflect.DeepEqual(d.lens, general) {
		x.Lengths = d.lens
	}
	return x
}

var mainKinds = []struct {
	k    model.Kind
	name string
}{{model.NoIntl, "noInternationalDialling"}, {model.FixedLine, "fixedLine"}, {model.Mobile, "mobile"}, {model.Pager, "pager"}, {model.TollFree, "tollFree"},
	{model.PremiumRate, "premiumRate"}, {model.SharedCost, "sharedCost"}, {model.PersonalNumber, "personalNumber"}, {model.Voip, "voip"}, {model.Uan, "uan"}, {model.Voicemail, "voicemail"}}

var srcShortKinds = []struct {
	k    model.Kind
	name string
}{{model.TollFree, "tollFree"}, {model.PremiumRate, "premiumRate"}, {model.Emergency, "emergency"}, {model.StandardRate, "standardRate"},
	{model.ShortCode, "shortCode"}, {model.CarrierSpecific, "carrierSpecific"}, {model.SmsServices, "smsServices"}}

const dtdNote = `<!DOCTYPE phoneNumberMetadata [
<!ELEMENT phoneNumberMetadata (territories)>
<!ELEMENT territories (territory+)>
<!ELEMENT territory (references?, availableFormats?, generalDesc, noInternationalDialling?)>
<!ATTLIST territory id CDATA #REQUIRED>
]>
`

// srcFormats writes available formats and returns what they come to.
func srcFormats(t *pbt.T, b *strings.Builder, p *model.Plan, terrNP string, terrOpt bool, terrCarrier string, alternate bool) {
	n := 1 + t.N(4)
	explicit := false
	var intl []*model.NumFmt
	b.WriteString("      <availableFormats>\n")
	for ; n > 0; n-- {
		f := genFmt(t, "")
		f.NPRule, f.CarrierRule, f.NPOptional = "", "", false
		b.WriteString("        <numberFormat")
		attr(b, "pattern", f.Pattern)
		f.NPRule, f.NPOptional, f.CarrierRule = sub(terrNP, p.NatPrefix), terrOpt, sub(terrCarrier, p.NatPrefix)
		if t.Chance(1, 3) {
			r := pbt.Pick(t.Src, []string{"$NP$FG", "($NP$FG)", "$FG", "$NP $FG", "$NP-$FG", "($FG)"})
			attr(b, "nationalPrefixFormattingRule", r)
			f.NPRule = sub(r, p.NatPrefix)
		}
		if t.Chance(1, 4) {
			v := t.Chance(3, 4)
			attr(b, "nationalPrefixOptionalWhenFormatting", strconv.FormatBool(v))
			f.NPOptional = v
		}
		if t.Chance(1, 5) {
			r := pbt.Pick(t.Src, []string{"$NP $CC ($FG)", "$CC $FG", "$NP$CC $FG", "$NP $CC $FG"})
			attr(b, "carrierCodeFormattingRule", r)
			f.CarrierRule = sub(r, p.NatPrefix)
		}
		b.WriteString(">\n")
		for _, l := range f.Leading {
			elem(b, "          ", "leadingDigits", srcSpread(t, l))
		}
		elem(b, "          ", "format", f.Format)
		p.Formats = append(p.Formats, f)
		switch c := *f; {
		case alternate || t.Chance(2, 3):
			intl = append(intl, &c)
		case t.Chance(1, 2):
			elem(b, "          ", "intlFormat", "NA")
			explicit = true
		default:
			g := strings.NewReplacer(" ", "-", "-", " ", ".", " ").Replace(f.Format)
			elem(b, "          ", "intlFormat", g)
			intl = append(intl, &model.NumFmt{Pattern: f.Pattern, Format: g, Leading: f.Leading})
			explicit = true
		}
		b.WriteString("        </numberFormat>\n")
	}
	b.WriteString("      </availableFormats>\n")
	if explicit {
		p.IntlFormats = intl
	}
}

// sub expands the placeholders of a source rule.
func sub(rule, np string) string {
	return strings.NewReplacer("$NP", np, "$FG", "$1").Replace(rule)
}

func comment(t *pbt.T, b *strings.Builder) {
	if t.Chance(1, 4) {
		b.WriteString("      <!-- " + pbt.Pick(t.Src, []string{"Africa", "see <a> & b", "National numbers: 1 < 2"}) + " -->\n")
	}
}

// srcTerritory writes one territory and returns its plan.
func srcTerritory(t *pbt.T, b *strings.Builder, id string, cc int, main bool) *model.Plan {
	p := &model.Plan{ID: id, CC: cc, MainCountry: main}
	b.WriteString("    <territory")
	attr(b, "id", id)
	attr(b, "countryCode", strconv.Itoa(cc))
	if main {
		attr(b, "mainCountryForCode", "true")
	}
	np, npRule, npOpt, carrier := "", "", false, ""
	if id != "001" {
		np = pbt.Pick(t.Src, []string{"", "0", "8", "1", "01", "06"})
		p.NatPrefix = np
		attr(b, "nationalPrefix", np)
		p.NPForParsing = np
		if t.Chance(1, 3) {
			p.NPForParsing = pbt.Pick(t.Src, []string{`0|1`, `0(?:1[0-9])?`, `0(1\d|2\d)?(\d{5})`, `(?:0(1[1-4]))?`})
			attr(b, "nationalPrefixForParsing", srcSpread(t, p.NPForParsing))
			if t.Chance(1, 2) {
				p.NPTransform = pbt.Pick(t.Src, []string{`9$1`, `$1`, `$2`, `11$2`})
				attr(b, "nationalPrefixTransformRule", p.NPTransform)
			}
		}
		p.IntlPrefix = pbt.Pick(t.Src, intlPrefixes)
		attr(b, "internationalPrefix", p.IntlPrefix)
		if t.Chance(1, 3) {
			p.PrefIntl = pbt.Pick(t.Src, []string{"00", "0011", "8~10"})
			attr(b, "preferredInternationalPrefix", p.PrefIntl)
		}
		if t.Chance(1, 5) {
			p.ExtnPrefix = pbt.Pick(t.Src, []string{" int ", " #", " доб. ", " <&> "})
			attr(b, "preferredExtnPrefix", p.ExtnPrefix)
		}
		if t.Chance(1, 4) {
			p.LeadingDigits = pbt.Pick(t.Src, leadPool)
			attr(b, "leadingDigits", p.LeadingDigits)
		}
		if t.Chance(1, 4) {
			p.MNP = true
			attr(b, "mobileNumberPortableRegion", "true")
		}
		if t.Chance(1, 2) {
			npRule = pbt.Pick(t.Src, []string{"$NP$FG", "($NP$FG)", "$FG", "$NP $FG"})
			attr(b, "nationalPrefixFormattingRule", npRule)
		}
		if t.Chance(1, 4) {
			npOpt = true
			attr(b, "nationalPrefixOptionalWhenFormatting", "true")
		}
		if t.Chance(1, 5) {
			carrier = pbt.Pick(t.Src, []string{"$NP $CC ($FG)", "$CC $FG", "$NP$CC $FG"})
			attr(b, "carrierCodeFormattingRule", carrier)
		}
	}
	b.WriteString(">\n")
	comment(t, b)
	if t.Chance(1, 3) {
		b.WriteString("      <references>\n        <sourceUrl>http://example.com/?a=1&amp;b=2</sourceUrl>\n      </references>\n")
	}
	if t.Chance(2, 3) {
		srcFormats(t, b, p, npRule, npOpt, carrier, false)
	}
	// descriptions; the general one is derived from the others
	ds := map[model.Kind]*srcDesc{}
	all := map[int32]bool{}
	local := map[int32]bool{}
	for _, mk := range mainKinds {
		if mk.k == model.NoIntl {
			continue
		}
		prob := 3
		if mk.k == model.FixedLine || mk.k == model.Mobile {
			prob = 9
		}
		if !t.Chance(prob, 10) {
			continue
		}
		d := newSrcDesc(t, nil)
		if mk.k == model.Mobile && ds[model.FixedLine] != nil && t.Chance(1, 3) {
			c := *ds[model.FixedLine]
			d = &c
			d.local = nil
		}
		if (mk.k == model.FixedLine || mk.k == model.Mobile) && t.Chance(1, 3) {
			own := map[int32]bool{}
			lensOf(own, d.lens)
			for l := int32(2 + t.N(4)); l < int32(6+t.N(6)); l += int32(1 + t.N(2)) {
				if !own[l] {
					d.local = append(d.local, l)
				}
			}
		}
		ds[mk.k] = d
		lensOf(all, d.lens)
		lensOf(local, d.local)
	}
	if len(all) == 0 {
		ds[model.FixedLine] = newSrcDesc(t, nil)
		lensOf(all, ds[model.FixedLine].lens)
	}
	if t.Chance(1, 5) {
		ds[model.NoIntl] = newSrcDesc(t, all)
		if t.Chance(1, 4) && len(local) > 0 {
			own := map[int32]bool{}
			lensOf(own, ds[model.NoIntl].lens)
			for _, l := range sortedLens(local) {
				if !own[l] {
					ds[model.NoIntl].local = append(ds[model.NoIntl].local, l)
				}
			}
		}
	}
	gen := &srcDesc{pattern: fmt.Sprintf(`\d{%d,%d}`, 1+t.N(5), 8+t.N(8))}
	if t.Bool() {
		gen.pattern = pbt.Pick(t.Src, []string{`[1-9]\d{4,11}`, `(?:[2-9]|0\d)\d{5,9}|1\d{3}`})
	}
	gen.write(t, b, "generalDesc")
	for _, mk := range mainKinds {
		if d := ds[mk.k]; d != nil {
			d.write(t, b, mk.name)
			comment(t, b)
		}
	}
	b.WriteString("    </territory>\n")
	g := &model.Desc{HasPattern: true, Pattern: gen.pattern, Lengths: sortedLens(all)}
	for _, l := range sortedLens(local) {
		if !all[l] {
			g.Local = append(g.Local, l)
		}
	}
	p.D[model.General] = g
	for _, mk := range mainKinds {
		p.D[mk.k] = ds[mk.k].expand(g.Lengths)
	}
	p.SameMobFixed = p.D[model.FixedLine].Pattern == p.D[model.Mobile].Pattern
	return p
}

func srcShortTerritory(t *pbt.T, b *strings.Builder, id string) *model.Plan {
	p := &model.Plan{ID: id}
	b.WriteString("    <territory")
	attr(b, "id", id)
	b.WriteString(">\n")
	comment(t, b)
	code := newSrcDesc(t, nil)
	all := map[int32]bool{}
	lensOf(all, code.lens)
	gen := &srcDesc{pattern: pbt.Pick(t.Src, []string{`[1-9]\d{2,5}`, `1\d\d(?:\d{2})?|9\d{2}`})}
	gen.write(t, b, "generalDesc")
	g := &model.Desc{HasPattern: true, Pattern: gen.pattern, Lengths: code.lens}
	p.D[model.General] = g
	for _, mk := range srcShortKinds {
		var d *srcDesc
		if mk.k == model.ShortCode {
			d = code
		} else if t.Chance(1, 2) {
			d = newSrcDesc(t, all)
		}
		if d != nil {
			d.write(t, b, mk.name)
		}
		p.D[mk.k] = d.expand(g.Lengths)
	}
	b.WriteString("    </territory>\n")
	return p
}

var placeNames = []string{"Zürich", "São Paulo", "北京", "Москва", "New York, NY", "A & B Telecom", "T-Mobile", "Å", "x", "O2 (UK)", "\"Quoted\"", "Orange", "Vodafone", "1&1", "日本", "Name with  two spaces", "É", "# not a comment", "a/b"}

// srcTable writes prefix files for one language.
func srcTable(t *pbt.T, files map[string]string, dir string, longest int) map[int]string {
	out := map[int]string{}
	for k := 1 + t.N(3); k > 0; k-- {
		cc := pbt.Pick(t.Src, codePool)
		name := dir + "/" + strconv.Itoa(cc) + ".txt"
		if _, dup := files[name]; dup {
			continue
		}
		var b strings.Builder
		if t.Chance(2, 3) {
			b.WriteString("# Copyright (C) 2011 The Libphonenumber Authors\n#\n# 1|x\n\n")
		}
		type entry struct {
			p int
			v string
		}
		var es []entry
		n, many := t.N(30), false
		if t.Chance(1, 60) {
			n, many = 200+t.N(600), true
		}
		for ; n > 0; n-- {
			s := strconv.Itoa(cc) + digits(t, t.N(9))
			p, _ := strconv.Atoi(s)
			if _, dup := out[p]; dup || p >= 1<<40 || len(s) > longest {
				continue
			}
			v := pbt.Pick(t.Src, placeNames)
			if many {
				v += " " + digits(t, 3)
			} else if t.Chance(1, 8) {
				v += " " + digits(t, 2)
			}
			out[p] = v
			es = append(es, entry{p, v})
		}
		if t.Bool() {
			sort.Slice(es, func(i, j int) bool { return es[i].p < es[j].p })
		}
		for _, e := range es {
			fmt.Fprintf(&b, "%d|%s\n", e.p, e.v)
			if t.Chance(1, 10) {
				b.WriteString(pbt.Pick(t.Src, []string{"\n", "# note\n", "  \n"}))
			}
		}
		s := b.String()
		if t.Chance(1, 6) {
			s = strings.TrimSuffix(s, "\n")
		}
		files[name] = s
	}
	return out
}

func genTree(t *pbt.T) *srcTree { return genTreeUpTo(t, 13) }

// genTreeUpTo draws a source tree whose carrier and geocoding prefixes have at most
// so many digits.
func genTreeUpTo(t *pbt.T, longest int) *srcTree {
	s := &srcTree{files: map[string]string{}, cc2r: map[int][]string{}, zones: map[int][]string{}, tables: map[string]map[string]map[int]string{}}
	var b strings.Builder
	head := func() {
		b.Reset()
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- Copyright -->\n")
		if t.Bool() {
			b.WriteString(dtdNote)
		}
		b.WriteString("<phoneNumberMetadata>\n  <territories>\n")
	}
	tail := func(name string) {
		b.WriteString("  </territories>\n</phoneNumberMetadata>\n")
		s.files["resources/"+name] = b.String()
	}
	head()
	type terr struct {
		id   string
		cc   int
		main bool
	}
	var ts []terr
	used := map[string]bool{}
	seen := map[int]bool{}
	for k := 1 + t.N(6); k > 0; k-- {
		cc := pbt.Pick(t.Src, codePool)
		if seen[cc] {
			continue
		}
		seen[cc] = true
		n := 1
		if t.Chance(1, 3) {
			n += 1 + t.N(3)
		}
		m := t.N(n)
		for i := 0; i < n; i++ {
			r := pbt.Pick(t.Src, regionPool)
			if used[r] {
				continue
			}
			used[r] = true
			ts = append(ts, terr{r, cc, n > 1 && i == m})
		}
	}
	for k := t.N(3); k > 0; k-- {
		cc := pbt.Pick(t.Src, globalPool)
		if !seen[cc] {
			seen[cc] = true
			ts = append(ts, terr{"001", cc, false})
		}
	}
	if len(ts) == 0 {
		ts = append(ts, terr{"US", 1, false})
	}
	if t.Bool() { // document order is by region, not by code
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	}
	for _, x := range ts {
		s.plans = append(s.plans, srcTerritory(t, &b, x.id, x.cc, x.main))
		if x.main {
			s.cc2r[x.cc] = append([]string{x.id}, s.cc2r[x.cc]...)
		} else {
			s.cc2r[x.cc] = append(s.cc2r[x.cc], x.id)
		}
	}
	tail("PhoneNumberMetadata.xml")
	head()
	for _, r := range regionPool[:1+t.N(5)] {
		s.short = append(s.short, srcShortTerritory(t, &b, r))
	}
	tail("ShortNumberMetadata.xml")
	head()
	for _, cc := range codePool[:t.N(4)] {
		p := &model.Plan{CC: cc}
		b.WriteString("    <territory")
		attr(&b, "countryCode", strconv.Itoa(cc))
		b.WriteString(">\n")
		srcFormats(t, &b, p, "", false, "", true)
		b.WriteString("    </territory>\n")
		s.alt = append(s.alt, p)
	}
	tail("PhoneNumberAlternateFormats.xml")
	b.Reset()
	b.WriteString("# time zones\n\n")
	for k := t.N(40); k > 0; k-- {
		p, _ := strconv.Atoi(strconv.Itoa(pbt.Pick(t.Src, codePool)) + digits(t, t.N(9)))
		if s.zones[p] != nil || p >= 1<<40 {
			continue
		}
		var zs []string
		nz := 1 + t.N(4)
		if t.Chance(1, 60) {
			nz = 40 + t.N(216)
		}
		for j := nz; j > 0; j-- {
			zs = append(zs, pbt.Pick(t.Src, []string{"America/New_York", "Europe/London", "Europe/Zurich", "Asia/Tokyo", "Etc/UTC", "Africa/Abidjan", "America/Argentina/Buenos_Aires", "Asia/Kolkata", "Etc/GMT+12", "America/Port-au-Prince"}))
		}
		s.zones[p] = zs
		fmt.Fprintf(&b, "%d|%s\n", p, strings.Join(zs, "&"))
		if t.Chance(1, 8) {
			b.WriteString(pbt.Pick(t.Src, []string{"\n", "#x|y\n"}))
		}
	}
	s.files["resources/timezones/map_data.txt"] = b.String()
	for _, kind := range []string{"carrier", "geocoding"} {
		s.tables[kind] = map[string]map[int]string{}
		for _, l := range []string{"en", "de", "zh", "zh_Hant", "ar"} {
			if l == "en" || t.Chance(1, 3) {
				s.tables[kind][l] = srcTable(t, s.files, "resources/"+kind+"/"+l, longest)
			}
		}
		if t.Chance(1, 4) {
			s.files["resources/"+kind+"/README.md"] = "1|not a table\n"
		}
	}
	return s
}

// ---- running the builder ----

var builderDir = sync.OnceValues(func() (string, error) {
	// a place an unprivileged user can work in, with the builder and a stand-in for
	// git that "clones" a prepared tree
	base := os.Getenv("VH_TMP")
	if base == "" {
		base = os.TempDir()
	} else if err := os.Chmod(base, 0o755); err != nil {
		return "", err
	}
	dir, err := os.MkdirTemp(base, "build-")
	if err != nil {
		return "", err
	}
	if err := os.Chmod(dir, 0o755); err != nil {
		return "", err
	}
	exe, err := os.ReadFile(os.Getenv("VH_BUILDMETADATA"))
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(dir+"/buildmetadata", exe, 0o755); err != nil {
		return "", err
	}
	if err := os.MkdirAll(dir+"/bin", 0o755); err != nil {
		return "", err
	}
	// "git clone ... _build" moves the prepared tree into place; "git ls-remote"
	// lists the prepared tags as git would with the given options
	git := `#!/bin/sh
echo "$*" >> git.log
case "$1" in
clone) for a; do last="$a"; done; exec /bin/mv source "$last" ;;
ls-remote)
  shift; sort=plain; which=all; peel=peeled
  for a; do case "$a" in --sort=-v:refname|--sort=-version:refname) sort=down ;; v\*|refs/tags/v\*) which=v ;; --refs) peel=refs ;; esac; done
  exec /bin/cat "tags/$sort-$which-$peel" ;;
*) exit 1 ;;
esac
`
	return dir, os.WriteFile(dir+"/bin/git", []byte(git), 0o755)
})

func nobody() *syscall.SysProcAttr {
	if os.Getuid() != 0 {
		return nil
	}
	return &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
}

// buildRun is one run of the builder.
type buildRun struct {
	files map[string]string // the checkout, below source/
	args  []string
	tags  []string // the upstream's tags, nil for a listing that fails
	gone  bool     // there is no checkout: cloning fails
}

// tagListing writes what "git ls-remote" prints for each combination of options.
func tagListing(tags []string) map[string]string {
	out := map[string]string{}
	byVersion := slices.Clone(tags)
	sort.SliceStable(byVersion, func(i, j int) bool { return versionLess(byVersion[j], byVersion[i]) })
	byName := slices.Clone(tags)
	sort.Strings(byName)
	for name, l := range map[string][]string{"down": byVersion, "plain": byName} {
		for _, which := range []string{"v", "all"} {
			for _, peel := range []string{"refs", "peeled"} {
				var b strings.Builder
				for i, tag := range l {
					if which == "v" && !strings.HasPrefix(tag, "v") {
						continue
					}
					fmt.Fprintf(&b, "%040x\trefs/tags/%s\n", i*7919+1, tag)
					if peel == "peeled" {
						fmt.Fprintf(&b, "%040x\trefs/tags/%s^{}\n", i*7919+2, tag)
					}
				}
				out[name+"-"+which+"-"+peel] = b.String()
			}
		}
	}
	return out
}

// versionLess orders tags as git's version sort does: text and runs of digits.
func versionLess(a, b string) bool {
	isDigit := func(c byte) bool { return c >= '0' && c <= '9' }
	for a != "" && b != "" {
		if isDigit(a[0]) && isDigit(b[0]) {
			i, j := 0, 0
			for i < len(a) && isDigit(a[i]) {
				i++
			}
			for j < len(b) && isDigit(b[j]) {
				j++
			}
			x, _ := strconv.Atoi(a[:i])
			y, _ := strconv.Atoi(b[:j])
			if x != y {
				return x < y
			}
			a, b = a[i:], b[j:]
			continue
		}
		if a[0] != b[0] {
			return a[0] < b[0]
		}
		a, b = a[1:], b[1:]
	}
	return len(a) < len(b)
}

// run runs the builder in a new scratch directory and returns it.
func (r *buildRun) run() (dir string, log string, err error) {
	base, err := builderDir()
	if err != nil {
		return "", "", fmt.Errorf("harness: %w", err)
	}
	dir, err = os.MkdirTemp(base, "w-")
	if err != nil {
		return "", "", err
	}
	for _, d := range []string{"data", "metadata/data", "timezone/data", "carrier/data", "geocoding/data", "tags"} {
		if err := os.MkdirAll(dir+"/"+d, 0o755); err != nil {
			return dir, "", err
		}
	}
	put := func(p, c string) error {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		return os.WriteFile(p, []byte(c), 0o644)
	}
	if !r.gone {
		for _, d := range []string{"source/resources/carrier", "source/resources/geocoding"} {
			if err := os.MkdirAll(dir+"/"+d, 0o755); err != nil {
				return dir, "", err
			}
		}
		for f, c := range r.files {
			if err := put(dir+"/source/"+f, c); err != nil {
				return dir, "", err
			}
		}
	}
	if r.tags != nil {
		for f, c := range tagListing(r.tags) {
			if err := put(dir+"/tags/"+f, c); err != nil {
				return dir, "", err
			}
		}
	}
	if os.Getuid() == 0 {
		filepath.Walk(dir, func(p string, _ os.FileInfo, _ error) error { return os.Chown(p, 65534, 65534) })
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, base+"/buildmetadata", r.args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + base + "/bin", "HOME=" + dir, "TMPDIR=" + dir}
	cmd.SysProcAttr = nobody()
	out, err := cmd.CombinedOutput()
	if err != nil && !strings.Contains(err.Error(), "exit status") && !strings.Contains(err.Error(), "signal") {
		err = fmt.Errorf("harness: %w", err)
	}
	return dir, string(out), err
}

// recordedVersion reads the constant the builder records, "" when there is none.
func recordedVersion(dir string) (string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), dir+"/metadata/version.go", nil, 0)
	if err != nil {
		return "", err
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.CONST {
			continue
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			for i, n := range v.Names {
				if n.Name == "Version" && i < len(v.Values) {
					if l, ok := v.Values[i].(*ast.BasicLit); ok && l.Kind == token.STRING {
						return strconv.Unquote(l.Value)
					}
				}
			}
		}
	}
	return "", fmt.Errorf("no constant Version")
}

func readOut(t *pbt.T, dir, name string) []byte {
	b, err := os.ReadFile(dir + "/" + name)
	if err != nil {
		t.Fail("the builder does not write %s: %v", name, err)
	}
	raw, err := model.Gunzip(b)
	if err != nil {
		t.Fail("%s cannot be inflated: %v", name, err)
	}
	return raw
}

func comparePlans(t *pbt.T, what string, got, want []*model.Plan) {
	if len(got) != len(want) {
		t.Fail("%s: %d plans built from %d territories", what, len(got), len(want))
	}
	for i, g := range got {
		x := want[i]
		name := fmt.Sprintf("%s %s +%d", what, x.ID, x.CC)
		gs, xs := *g, *x
		gs.D, xs.D = [model.NumKinds]*model.Desc{}, [model.NumKinds]*model.Desc{}
		gs.Formats, xs.Formats, gs.IntlFormats, xs.IntlFormats = nil, nil, nil, nil
		if !reflect.DeepEqual(gs, xs) {
			t.Fail("%s: built as %+v, the source says %+v", name, gs, xs)
		}
		for k := range g.D {
			if a, b := descText(g.D[k]), descText(x.D[k]); a != b {
				t.Fail("%s: description %d built as %s, the source says %s", name, k, a, b)
			}
		}
		if a, b := fmtsText(g.Formats), fmtsText(x.Formats); a != b {
			t.Fail("%s: formats built as %s, the source says %s", name, a, b)
		}
		if a, b := fmtsText(g.IntlFormats), fmtsText(x.IntlFormats); a != b {
			t.Fail("%s: international formats built as %s, the source says %s", name, a, b)
		}
	}
}

func descText(d *model.Desc) string {
	if d == nil {
		return "nothing"
	}
	return fmt.Sprintf("{%v %q %v %v %q}", d.HasPattern, d.Pattern, d.Lengths, d.Local, d.Example)
}

func fmtsText(fs []*model.NumFmt) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%q; ", fmt.Sprintf("%+v", *f))
	}
	return b.String()
}

// decoded reads a built file back; one that cannot be read is a violation.
func decoded[V any](t *pbt.T, dir, name string, dec func([]byte) V) V {
	raw := readOut(t, dir, name)
	defer func() {
		if r := recover(); r != nil {
			t.Fail("%s cannot be read back: %v", name, r)
		}
	}()
	return dec(raw)
}

func compareBuilt(t *pbt.T, dir string, s *srcTree) {
	comparePlans(t, "plan", decoded(t, dir, "metadata/data/metadata.xml.gz", model.DecodePlans), s.plans)
	comparePlans(t, "short plan", decoded(t, dir, "data/shortnumber_metadata.xml.gz", model.DecodePlans), s.short)
	comparePlans(t, "alternate formats", decoded(t, dir, "data/alternateformats_metadata.xml.gz", model.DecodePlans), s.alt)
	if g := decoded(t, dir, "metadata/data/countrycode_to_region.xml.gz", model.DecodeListTable); !reflect.DeepEqual(g, s.cc2r) {
		t.Fail("regions of calling codes built as %v, the source says %v", g, s.cc2r)
	}
	if g := decoded(t, dir, "timezone/data/prefix_to_timezone.xml.gz", model.DecodeListTable); !reflect.DeepEqual(g, s.zones) {
		t.Fail("time zones: %s", tableDiff(g, s.zones))
	}
	for kind, langs := range s.tables {
		for l, want := range langs {
			got := decoded(t, dir, kind+"/data/"+l+".txt.gz", model.DecodeStringTable)
			if !reflect.DeepEqual(got, want) {
				t.Fail("%s table %s: %s", kind, l, tableDiff(got, want))
			}
		}
		files, _ := filepath.Glob(dir + "/" + kind + "/data/*")
		if len(files) != len(langs) {
			t.Fail("%s: %d tables built from %d languages", kind, len(files), len(langs))
		}
	}
}

// tableDiff says where a built table differs from its source.
func tableDiff[V any](got, want map[int]V) string {
	for _, k := range model.SortedKeys(want) {
		if v, ok := got[k]; !ok {
			return fmt.Sprintf("prefix %d of the source is not in the built table (%d of %d entries)", k, len(got), len(want))
		} else if !reflect.DeepEqual(v, want[k]) {
			return clip(fmt.Sprintf("prefix %d built as %q, the source says %q", k, any(v), any(want[k])))
		}
	}
	for _, k := range model.SortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("prefix %d of the built table is not in the source", k)
		}
	}
	return "empty against missing"
}

func logTree(t *pbt.T, s *srcTree) {
	names := make([]string, 0, len(s.files))
	for n := range s.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t.Log("%s:\n%s", n, s.files[n])
	}
}

// genVersion draws a release tag.
func genVersion(t *pbt.T) string {
	return fmt.Sprintf("v%d.%d.%d", pbt.Pick(t.Src, []int{7, 8, 9, 10}), pbt.Pick(t.Src, []int{0, 1, 2, 10, 12, 13}), t.N(120))
}

// succeed runs the builder on a good source and returns its scratch directory.
func (r *buildRun) succeed(t *pbt.T, version string) string {
	dir, log, err := r.run()
	if err != nil {
		if strings.HasPrefix(err.Error(), "harness:") {
			panic(err)
		}
		os.RemoveAll(dir)
		t.Fail("the builder fails on a well-formed source: %v\n%s", err, clip(log))
	}
	if v, err := recordedVersion(dir); err != nil || v != version {
		os.RemoveAll(dir)
		t.Fail("metadata/version.go records %q (%v), built from %q", v, err, version)
	}
	return dir
}

func buildOnce(t *pbt.T, s *srcTree) string {
	v := genVersion(t)
	return (&buildRun{files: s.files, args: []string{v}, tags: []string{"v99.0.0"}}).succeed(t, v)
}

// clonedTag is the tag that was cloned, from the stand-in's log.
func clonedTag(dir string) string {
	b, _ := os.ReadFile(dir + "/git.log")
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || f[0] != "clone" {
			continue
		}
		for i, a := range f {
			if x, ok := strings.CutPrefix(a, "--branch="); ok {
				return x
			}
			if (a == "--branch" || a == "-b") && i+1 < len(f) {
				return f[i+1]
			}
		}
	}
	return ""
}

// smallTree is a fixed well-formed source.
var smallTree = sync.OnceValue(func() *srcTree {
	return genTree(&pbt.T{Src: pbt.NewSrc(7, "small", 0)})
})

func init() {
	Helpers["served"] = servedMain
	register(&pbt.Prop{
		ID:          "P19",
		Rule:        "the source tree has at least two territories and a non-empty prefix table; counted by distinct source tree",
		Assumptions: []string{"the upstream checkout is replaced by a generated source tree through a stand-in git; the builder runs as an unprivileged user in a scratch directory"},
		Subs: []*pbt.Sub{
			{Name: "trees", Quick: 4000, Thorough: 150000, Serial: true, Run: func(t *pbt.T) {
				s := genTree(t)
				logTree(t, s)
				if len(s.plans) >= 2 && len(s.tables["carrier"]["en"])+len(s.tables["geocoding"]["en"]) > 0 {
					t.NonTrivial(s.files["resources/PhoneNumberMetadata.xml"] + fmt.Sprint(s.tables, s.zones))
				}
				dir := buildOnce(t, s)
				defer os.RemoveAll(dir)
				compareBuilt(t, dir, s)
			}},
			{Name: "twice", Quick: 300, Thorough: 10000, Serial: true, Run: func(t *pbt.T) {
				s := genTree(t)
				logTree(t, s)
				if len(s.plans) >= 2 {
					t.NonTrivial(s.files["resources/PhoneNumberMetadata.xml"] + fmt.Sprint(s.tables, s.zones))
				}
				a := buildOnce(t, s)
				defer os.RemoveAll(a)
				b := buildOnce(t, s)
				defer os.RemoveAll(b)
				compareBuilt(t, a, s)
				compareBuilt(t, b, s)
			}},
			{Name: "large", Quick: 60, Thorough: 2000, Serial: true, Run: func(t *pbt.T) {
				s := genTree(t)
				kind, lang := pbt.Pick(t.Src, []string{"carrier", "geocoding"}), pbt.Pick(t.Src, []string{"en", "xx"})
				dir := "resources/" + kind + "/" + lang
				for f := range s.files {
					if strings.HasPrefix(f, dir+"/") {
						delete(s.files, f)
					}
				}
				// up to as many names as can be told apart, more prefixes than that, and
				// long names
				names, entries := 1+t.N(300), 1+t.N(500)
				switch t.N(3) {
				case 0:
					names = 65535 - t.N(3)
					entries = names + t.N(4000)
				case 1:
					names, entries = 1+t.N(40000), 65530+t.N(5000)
				}
				wide := pbt.Pick(t.Src, []int{0, 0, 100, 250, 300, 3000})
				if names*wide > 1<<24 {
					wide = 0
				}
				cc := pbt.Pick(t.Src, codePool)
				first, _ := strconv.Atoi(strconv.Itoa(cc) + "00000")
				step := 1 + t.N(3)
				table := map[int]string{}
				var b strings.Builder
				for i := 0; i < entries; i++ {
					v := fmt.Sprintf("Näme %d", i*7919%names) + strings.Repeat("ñ", wide)
					table[first+i*step] = v
					fmt.Fprintf(&b, "%d|%s\n", first+i*step, v)
				}
				s.files[dir+"/"+strconv.Itoa(cc)+".txt"] = b.String()
				s.tables[kind][lang] = table
				b.Reset()
				s.zones = map[int][]string{}
				zones, keys := 1+t.N(600), 1+t.N(70000)
				for i := 0; i < keys; i++ {
					zs := []string{fmt.Sprintf("Zone/%d", i%zones)}
					if i%5 == 0 {
						zs = append(zs, fmt.Sprintf("Other/%d", i%(zones+3)))
					}
					s.zones[first+i] = zs
					fmt.Fprintf(&b, "%d|%s\n", first+i, strings.Join(zs, "&"))
				}
				s.files["resources/timezones/map_data.txt"] = b.String()
				t.Log("%s/%s: %d prefixes, %d names of %d more letters; %d zone prefixes, %d zones", kind, lang, entries, names, wide, keys, zones)
				t.NonTrivial(fmt.Sprint(kind, lang, entries, names, wide, keys, zones))
				out := buildOnce(t, s)
				defer os.RemoveAll(out)
				compareBuilt(t, out, s)
			}},
			{Name: "served", Quick: 16, Thorough: 200, Serial: true, CaseTimeout: 10 * time.Minute, Run: servedCase},
			{Name: "release", Quick: 600, Thorough: 15000, Serial: true, Run: func(t *pbt.T) {
				// which release is fetched and recorded
				r := &buildRun{files: smallTree().files, tags: []string{}}
				best := ""
				for k := 1 + t.N(12); k > 0; k-- {
					tag := genVersion(t)
					if t.Chance(1, 4) {
						tag = pbt.Pick(t.Src, []string{"libphonenumber-8.0.1", "7.7.1", "release-99", "x"}) + "." + itoa(t.N(30))
					}
					if slices.Contains(r.tags, tag) {
						continue
					}
					r.tags = append(r.tags, tag)
					if strings.HasPrefix(tag, "v") && (best == "" || versionLess(best, tag)) {
						best = tag
					}
				}
				if best == "" {
					best = genVersion(t)
					r.tags = append(r.tags, best)
				}
				want := best
				if t.Chance(1, 3) {
					want = genVersion(t)
					r.args = []string{want}
				}
				t.Log("tags %v, arguments %v", r.tags, r.args)
				if len(r.args) == 0 && len(r.tags) > 1 {
					t.NonTrivial(fmt.Sprint(r.tags))
				}
				dir := r.succeed(t, want)
				defer os.RemoveAll(dir)
				if g := clonedTag(dir); g != want {
					t.Fail("tags %v, arguments %v: %q was fetched, not %q", r.tags, r.args, g, want)
				}
			}},
		},
	})
}
