package checks

import (
	"fmt"
	"maps"
	"os"
	"regexp"
	"strings"

	"verifharness/pbt"
)

const (
	mainXML  = "resources/PhoneNumberMetadata.xml"
	shortXML = "resources/ShortNumberMetadata.xml"
	altXML   = "resources/PhoneNumberAlternateFormats.xml"
	zoneTxt  = "resources/timezones/map_data.txt"
)

var builtFrom = map[string]string{mainXML: "metadata/data/metadata.xml.gz", shortXML: "data/shortnumber_metadata.xml.gz",
	altXML: "data/alternateformats_metadata.xml.gz", zoneTxt: "timezone/data/prefix_to_timezone.xml.gz"}

// replaceOne rewrites one match of re, drawn at random; ok is false without a match.
func replaceOne(t *pbt.T, s, re string, f func(groups []string) string) (string, bool) {
	all := regexp.MustCompile(re).FindAllStringSubmatchIndex(s, -1)
	if len(all) == 0 {
		return s, false
	}
	m := pbt.Pick(t.Src, all)
	var g []string
	for i := 0; i < len(m); i += 2 {
		if m[i] < 0 {
			g = append(g, "")
		} else {
			g = append(g, s[m[i]:m[i+1]])
		}
	}
	return s[:m[0]] + f(g) + s[m[1]:], true
}

func insertLine(t *pbt.T, s string, lines ...string) string {
	l := strings.Split(s, "\n")
	for _, x := range lines {
		i := t.N(len(l) + 1)
		l = append(l[:i:i], append([]string{x}, l[i:]...)...)
	}
	return strings.Join(l, "\n")
}

var badLengths = []string{"", "6,", ",6", "6,,7", "[6-8", "[6]", "[6-7]", "[8-6]", "[6-6]", "[6-8-9]", "[]", "[", "6x", "x", "[a-9]", "[3-b]", "[6-9],", "6 7", "1.5", "[-]", "6-8", "0x8", "9,six", "[6-8]9"}

var badRE = []string{`(`, `[`, `\d{5,2}`, `*`, `(?:1|2`, `[2-`, `a)`, `\d{3}(`, `(?<`, `1[5-2]`, `++`, `\d{2000}`, `[[:nope:]]`, `\`}

// malform breaks one thing in files and names the file and the data that must
// not be built from it.
func malform(t *pbt.T, files map[string]string) (what, file, out string, ok bool) {
	edit := func(f, re string, to func(g []string) string) bool {
		s, done := replaceOne(t, files[f], re, to)
		if done && s == files[f] {
			done = false
		}
		files[f] = s
		file, out = f, builtFrom[f]
		return done
	}
	xmlFile := pbt.Pick(t.Src, []string{mainXML, shortXML, altXML})
	descFile := pbt.Pick(t.Src, []string{mainXML, shortXML})
	fmtFile := pbt.Pick(t.Src, []string{mainXML, mainXML, altXML})
	to := func(f string, v ...any) func([]string) string {
		return func([]string) string { return fmt.Sprintf(f, v...) }
	}
	re := strings.NewReplacer("<", "&lt;", "&", "&amp;").Replace(pbt.Pick(t.Src, badRE))
	const patternThen = `\s*(?:<nationalNumberPattern>[^<]*</nationalNumberPattern>\s*)?<possibleLengths `
	outside := func(g []string) string {
		return g[1] + `national="` + pbt.Pick(t.Src, []string{"99", "[97-99]", g[2] + ",99"}) + `"`
	}
	switch t.N(22) {
	case 0:
		l := pbt.Pick(t.Src, badLengths)
		what = fmt.Sprintf("possible lengths %q", l)
		ok = edit(descFile, `national="[^"]*"`, to(`national="%s"`, l))
	case 1:
		l := pbt.Pick(t.Src, badLengths[1:])
		what = fmt.Sprintf("local-only lengths %q", l)
		ok = edit(mainXML, `national="[^"]*"( localOnly="[^"]*")?`, to(`national="99" localOnly="%s"`, l))
	case 2:
		what = "a length both national and local-only"
		ok = edit(mainXML, `national="(\[?)(\d+)([^"]*)"( localOnly="[^"]*")?`, func(g []string) string {
			return `national="` + g[1] + g[2] + g[3] + `" localOnly="` + pbt.Pick(t.Src, []string{g[2], "99," + g[2], g[2] + ",98"}) + `"`
		})
	case 3:
		what = "lengths in the general description"
		ok = edit(descFile, `\n *</generalDesc>`, func(g []string) string { return "\n<possibleLengths national=\"6\"/>" + g[0] })
	case 4:
		what = "a length of numbers that cannot be dialled from abroad which no other type has"
		ok = edit(mainXML, `(<noInternationalDialling>`+patternThen+`)national="([^"]*)"`, outside)
	case 5:
		what = "a length of a short number type that short codes do not have"
		ok = edit(shortXML, `(<(?:tollFree|premiumRate|emergency|standardRate|carrierSpecific|smsServices)>`+patternThen+`)national="([^"]*)"`, outside)
	case 6:
		what = "local-only lengths of short numbers"
		ok = edit(shortXML, `(national="[^"]*")`, func(g []string) string { return g[1] + ` localOnly="99"` })
	case 7:
		what = "two international formats"
		ok = edit(fmtFile, `</format>(?:\s*<intlFormat>[^<]*</intlFormat>)?`, to(`</format><intlFormat>$1</intlFormat><intlFormat>%s</intlFormat>`, pbt.Pick(t.Src, []string{"$1 $2", "NA", "$1"})))
	case 8:
		what = "number pattern " + re
		ok = edit(descFile, `(?s)<nationalNumberPattern>[^<]*</nationalNumberPattern>`, to(`<nationalNumberPattern>%s</nationalNumberPattern>`, re))
	case 9:
		what = "leading digits " + re
		ok = edit(fmtFile, `(?s)<leadingDigits>[^<]*</leadingDigits>`, to(`<leadingDigits>%s</leadingDigits>`, re))
	case 10:
		what = "format pattern " + re
		ok = edit(fmtFile, ` pattern="[^"]*"`, to(` pattern="%s"`, re))
	case 11:
		what = "national prefix for parsing " + re
		ok = edit(mainXML, ` nationalPrefixForParsing="[^"]*"`, to(` nationalPrefixForParsing="%s"`, re))
	case 12:
		what = "international prefix " + re
		ok = edit(mainXML, ` internationalPrefix="[^"]*"`, to(` internationalPrefix="%s"`, re))
	case 13:
		what = "leading digits of a territory " + re
		ok = edit(mainXML, ` leadingDigits="[^"]*"`, to(` leadingDigits="%s"`, re))
	case 14:
		c := files[xmlFile]
		k := t.N(len(c) - len("</phoneNumberMetadata>\n"))
		what = fmt.Sprintf("truncated after %d bytes", k)
		files[xmlFile] = c[:k]
		file, out, ok = xmlFile, builtFrom[xmlFile], true
	case 15:
		what = "elements that do not nest"
		ok = edit(xmlFile, `</(\w+)>(\s*<)`, func(g []string) string {
			return pbt.Pick(t.Src, []string{"</" + g[1] + "x>", "<" + g[1] + ">", "", "</" + g[1] + "></" + g[1] + ">", "</" + g[1]}) + g[2]
		})
	case 16:
		what = "an attribute of the wrong kind"
		switch t.N(3) {
		case 0:
			ok = edit(mainXML, ` countryCode="[^"]*"`, to(` countryCode="%s"`, pbt.Pick(t.Src, []string{"x", "1x", "9999999999999", "1.5"})))
		case 1:
			ok = edit(mainXML, ` mainCountryForCode="true"`, to(` mainCountryForCode="%s"`, pbt.Pick(t.Src, []string{"yes", "2", "main"})))
		case 2:
			ok = edit(fmtFile, ` nationalPrefixOptionalWhenFormatting="\w+"`, to(` nationalPrefixOptionalWhenFormatting="%s"`, pbt.Pick(t.Src, []string{"yes", "2", "maybe"})))
		}
	case 17:
		file = pbt.Pick(t.Src, []string{mainXML, shortXML, altXML, zoneTxt})
		what, out, ok = "missing", builtFrom[file], true
		delete(files, file)
	case 18:
		file, out, ok = zoneTxt, builtFrom[zoneTxt], true
		l := pbt.Pick(t.Src, []string{"41", "Europe/Zurich", "41|Europe/Zurich|Europe/Rome", "4x|Europe/Zurich", "|Europe/Zurich", "41;Europe/Zurich", " 41|Europe/Zurich", "4 1|Europe/Zurich", "41|Europe/Zurich|", "99999999999999999999|Europe/Zurich", "0x41|Europe/Zurich", "41.5|x", " |Europe/Zurich"})
		what = fmt.Sprintf("line %q", l)
		files[file] = insertLine(t, files[file], l)
	case 19, 20, 21:
		kind, lang := pbt.Pick(t.Src, []string{"carrier", "geocoding"}), pbt.Pick(t.Src, []string{"en", "de", "zh_Hant", "xx"})
		dir := "resources/" + kind + "/" + lang + "/"
		out, ok = kind+"/data/"+lang+".txt.gz", true
		file = dir + itoa(pbt.Pick(t.Src, codePool)) + ".txt"
		if t.Chance(1, 3) {
			other := dir + itoa(pbt.Pick(t.Src, codePool)) + "9.txt"
			p := itoa(pbt.Pick(t.Src, codePool)) + digits(t, 6)
			what = "prefix " + p + " twice"
			files[file] = insertLine(t, files[file], p+"|Name")
			f2 := file
			if t.Bool() {
				f2 = other
			}
			files[f2] = insertLine(t, files[f2], p+"|"+pbt.Pick(t.Src, []string{"Name", "Other"}))
			break
		}
		l := pbt.Pick(t.Src, []string{"41x|Name", "|Name", "-41|Name", "4 1|Name", " 41|Name", "99999999999999999999|Name", "+-1|Name", "4.1|Name", "four|Name", "41x|", "41 |Name", "0x41|Name"})
		what = fmt.Sprintf("line %q", l)
		files[file] = insertLine(t, files[file], l)
	}
	return
}

func init() {
	register(&pbt.Prop{
		ID:          "P25",
		Rule:        "the source was malformed in one place (or could not be fetched); counted by distinct malformed text",
		Assumptions: []string{"the upstream checkout is replaced by a generated source tree through a stand-in git; the builder runs as an unprivileged user in a scratch directory"},
		Subs: []*pbt.Sub{
			{Name: "malformed", Quick: 6000, Thorough: 200000, Serial: true, Run: func(t *pbt.T) {
				s := genTree(t)
				files := maps.Clone(s.files)
				what, file, out, ok := "", "", "", false
				for i := 0; i < 8 && !ok; i++ {
					files = maps.Clone(s.files)
					what, file, out, ok = malform(t, files)
				}
				if !ok {
					t.Label("nothing to break")
					return
				}
				t.Label(strings.Fields(what)[0] + " in " + file[strings.LastIndex(file, "/")+1:])
				t.Log("%s: %s\n%s", file, what, files[file])
				t.NonTrivial(file + what + files[file])
				v := genVersion(t)
				refused(t, &buildRun{files: files, args: []string{v}, tags: []string{v}}, file+": "+what, out)
			}},
			{Name: "fetching", Quick: 300, Thorough: 4000, Serial: true, Run: func(t *pbt.T) {
				r := &buildRun{files: smallTree().files}
				what := ""
				switch t.N(4) {
				case 0:
					r.args, r.gone, r.tags, what = []string{genVersion(t)}, true, []string{genVersion(t)}, "cloning fails"
				case 1:
					r.gone, r.tags, what = true, []string{genVersion(t)}, "cloning the latest release fails"
				case 2:
					what = "listing tags fails"
				case 3:
					r.tags, what = []string{}, "no release among the tags"
					for k := t.N(4); k > 0; k-- {
						r.tags = append(r.tags, pbt.Pick(t.Src, []string{"libphonenumber-8.0", "8.1", "release-9", "x"})+"."+itoa(k))
					}
				}
				t.Log("%s; arguments %q, tags %q", what, r.args, r.tags)
				t.NonTrivial(fmt.Sprint(what, r.args, r.tags))
				refused(t, r, what, builtFrom[mainXML])
			}},
			{Name: "too-many", Quick: 8, Thorough: 80, Serial: true, Run: func(t *pbt.T) {
				files := maps.Clone(smallTree().files)
				kind := pbt.Pick(t.Src, []string{"carrier", "geocoding"})
				n := 65537 + t.N(3000)
				var b strings.Builder
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "%d|Name %d\n", 4100000+i, i)
				}
				files["resources/"+kind+"/xx/41.txt"] = b.String()
				t.Log("%d names in one %s table", n, kind)
				t.NonTrivial(fmt.Sprint(kind, n))
				refused(t, &buildRun{files: files, args: []string{"v1.2.3"}}, fmt.Sprintf("%d different names in one table", n), kind+"/data/xx.txt.gz")
			}},
		},
	})
}

// refused runs the builder, which must fail without writing out or recording a version.
func refused(t *pbt.T, r *buildRun, what, out string) {
	dir, log, err := r.run()
	if err != nil && strings.HasPrefix(err.Error(), "harness:") {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err == nil {
		t.Fail("the builder succeeds although %s\n%s", what, clip(log))
	}
	if _, e := os.Stat(dir + "/metadata/version.go"); e == nil {
		t.Fail("the builder records a version although it failed on %s", what)
	}
	if _, e := os.Stat(dir + "/" + out); e == nil {
		t.Fail("the builder writes %s although %s", out, what)
	}
}
