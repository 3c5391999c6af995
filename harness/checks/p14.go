package checks

import (
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/timezone"

	"verifharness/model"
	"verifharness/pbt"
)

func langsOf(t map[string]map[int]string) []string {
	var out []string
	for l := range t {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

type keyed struct {
	lang string
	keys []int
}

func keyedTables(t map[string]map[int]string) []keyed {
	var out []keyed
	for _, l := range langsOf(t) {
		out = append(out, keyed{l, model.SortedKeys(t[l])})
	}
	return out
}

var (
	carrierKeys = sync.OnceValue(func() []keyed { return keyedTables(model.CarrierTables()) })
	geoKeys     = sync.OnceValue(func() []keyed { return keyedTables(model.GeoTables()) })
	zoneKeys    = sync.OnceValue(func() []int { return model.SortedKeys(model.ZoneTable()) })
)

var oddLangs = []string{"", "xx", "EN", "en-US", "zh-Hant", "zh_Hant", "de-AT", "pt-BR", "und", "../en", "tlh", "fil", "en.txt", "\x00", "no", "sr", "zh"}

// underKey draws a number that starts with table prefix k.
func underKey(t *pbt.T, w *model.World, k int) *model.Num {
	s := strconv.Itoa(k)
	if t.Chance(1, 8) && len(s) > 3 { // just outside
		s = s[:len(s)-1]
	}
	for i := 1; i <= 3 && i < len(s)+1; i++ {
		cc, _ := strconv.Atoi(s[:i])
		rs, ok := w.CC2R[cc]
		if !ok {
			continue
		}
		rest := s[i:]
		// complete it to a plausible length, preferably a valid number
		var n *model.Num
		for try := 0; try < 6; try++ {
			var p *model.Plan
			if rs[0] == "001" {
				p = w.NonGeo[cc]
			} else {
				p = w.Regions[pbt.Pick(t.Src, rs)]
			}
			v := validNSN(t, p)
			if len(v) <= len(rest) {
				v = rest + digits(t, 4)
			} else {
				v = rest + v[len(rest):]
			}
			if cc == 54 && t.Bool() {
				v = "9" + v
			}
			n = numOf(cc, v)
			if w.Valid(n) {
				break
			}
		}
		return n
	}
	return numOf(1, digits(t, 10))
}

// lookupNum draws a number for the lookups.
var tokenCodes = sync.OnceValue(func() []int {
	var out []int
	for _, cc := range w0().Codes {
		if model.MobileToken(cc) != "" && w0().CC2R[cc][0] != "001" {
			out = append(out, cc)
		}
	}
	return out
})

func lookupNum(t *pbt.T, w *model.World, ks []int) *model.Num {
	var n *model.Num
	vary := func(s string) string {
		cc, nsn, _ := strings.Cut(s, " ")
		return cc + " " + varyNSN(t)(nsn)
	}
	s := t.Recall("lookup", vary, func() string {
		n = newLookupNum(t, w, ks)
		return itoa(n.CC) + " " + n.NSN()
	})
	if n == nil {
		cc, nsn, _ := strings.Cut(s, " ")
		k, _ := strconv.Atoi(cc)
		n = numOf(k, nsn)
	}
	return n
}

func newLookupNum(t *pbt.T, w *model.World, ks []int) *model.Num {
	var n *model.Num
	switch t.Weighted(18, 6, 3, 1) {
	case 0:
		n = underKey(t, w, ks[t.N(len(ks))])
	case 3:
		// the mobile token, once or repeatedly, before a number or an area of the table
		if len(tokenCodes()) == 0 {
			return numMsg(t, w)
		}
		cc := pbt.Pick(t.Src, tokenCodes())
		nsn := anyNSN(t, w.Regions[w.CC2R[cc][0]])
		if s := itoa(ks[t.N(len(ks))]); strings.HasPrefix(s, itoa(cc)) {
			nsn = s[len(itoa(cc)):] + digits(t, 6)
		}
		n = numOf(cc, strings.Repeat(model.MobileToken(cc), t.N(4))+nsn)
	case 1:
		n = numMsg(t, w)
	default:
		n = wildNum(t, w)
		if n.CC <= 0 {
			n.CC = pbt.Pick(t.Src, w.Codes)
		}
	}
	if n.NN == 0 {
		n.Raw = ""
	}
	return n
}

func init() {
	register(&pbt.Prop{
		ID:   "P14",
		Rule: "the tables have an entry for the number in that language; counted by distinct number and language",
		Subs: []*pbt.Sub{
			{Name: "carrier", Quick: 500000, Thorough: 20000000, Run: func(t *pbt.T) {
				w := w0()
				k := pbt.Pick(t.Src, carrierKeys())
				if t.Chance(1, 3) {
					k = carrierKeys()[sort.Search(len(carrierKeys()), func(i int) bool { return carrierKeys()[i].lang >= "en" })]
				}
				n := lookupNum(t, w, k.keys)
				lang := k.lang
				if t.Chance(1, 10) {
					lang = pbt.Pick(t.Src, oddLangs)
				}
				checkCarrierOf(t, w, n, lang)
			}},
			{Name: "geocoding", Quick: 300000, Thorough: 12000000, Run: func(t *pbt.T) {
				w := w0()
				k := pbt.Pick(t.Src, geoKeys())
				if t.Chance(1, 3) {
					k = geoKeys()[sort.Search(len(geoKeys()), func(i int) bool { return geoKeys()[i].lang >= "en" })]
				}
				n := lookupNum(t, w, k.keys)
				lang := k.lang
				if t.Chance(1, 8) {
					lang = pbt.Pick(t.Src, oddLangs)
				}
				user := regionFor(t, w, n)
				if t.Bool() {
					user = w.RegionOf(n)
				}
				checkPlaceOf(t, w, n, lang, user)
			}},
			{Name: "timezone", Quick: 400000, Thorough: 16000000, Run: func(t *pbt.T) {
				w := w0()
				n := lookupNum(t, w, zoneKeys())
				checkZonesOf(t, w, n)
			}},
			worldsSub("plans", 60000, 1500000, func(t *pbt.T) *model.World {
				if t.Chance(1, 4) {
					return genWorld(t)
				}
				return rework(t)
			}, func(t *pbt.T, w *model.World) {
				// the tables stay, types, regions and portability follow the plans
				n := numMsg(t, w)
				under := func(ks []int) {
					// an entry of the table below a code of the plans
					if t.Chance(1, 3) {
						return
					}
					var in [][]int
					for m := 1; m < 1e9; m *= 10 {
						if r := ks[sort.SearchInts(ks, n.CC*m):sort.SearchInts(ks, (n.CC+1)*m)]; len(r) > 0 {
							in = append(in, r)
						}
					}
					if len(in) == 0 {
						return
					}
					rest := itoa(pbt.Pick(t.Src, pbt.Pick(t.Src, in)))[len(itoa(n.CC)):]
					v := n.NSN()
					if len(v) <= len(rest) {
						v = rest + digits(t, 4)
					} else {
						v = rest + v[len(rest):]
					}
					n = numOf(n.CC, v)
				}
				switch t.N(3) {
				case 0:
					k := pbt.Pick(t.Src, carrierKeys())
					if t.Bool() {
						k = carrierKeys()[sort.Search(len(carrierKeys()), func(i int) bool { return carrierKeys()[i].lang >= "en" })]
					}
					under(k.keys)
					checkCarrierOf(t, w, n, k.lang)
				case 1:
					k := geoKeys()[sort.Search(len(geoKeys()), func(i int) bool { return geoKeys()[i].lang >= "en" })]
					under(k.keys)
					checkPlaceOf(t, w, n, k.lang, pbt.Pick(t.Src, append([]string{w.RegionOf(n), "", "ZZ", "US"}, w.RegionIDs...)))
				default:
					under(zoneKeys())
					checkZonesOf(t, w, n)
				}
			}),
			{Name: "every-prefix", Count: func(tier string) int {
				n := len(zoneKeys())
				for _, k := range carrierKeys() {
					n += len(k.keys)
				}
				for _, k := range geoKeys() {
					n += len(k.keys)
				}
				return n
			}, Run: func(t *pbt.T) {
				// every entry of every table is found through a number below it
				w := w0()
				i := t.Index
				pick := func(ks []keyed) (string, int, bool) {
					for _, k := range ks {
						if i < len(k.keys) {
							return k.lang, k.keys[i], true
						}
						i -= len(k.keys)
					}
					return "", 0, false
				}
				if lang, key, ok := pick(carrierKeys()); ok {
					n := direct(t, w, key)
					t.Log("carrier table %q prefix %d: %s", lang, key, show(n))
					t.NonTrivial("c" + lang + itoa(key))
					if g, err := carrier.GetNameForValidNumber(msg(t, n), lang); err != nil || g != w.Carrier(n, lang) {
						t.Fail("carrier.GetNameForValidNumber(%s, %q) = %q, %v; the tables give %q", show(n), lang, g, err, w.Carrier(n, lang))
					}
					return
				}
				if lang, key, ok := pick(geoKeys()); ok {
					n := direct(t, w, key)
					t.Log("geocoding table %q prefix %d: %s", lang, key, show(n))
					t.NonTrivial("g" + lang + itoa(key))
					if g, err := geocoding.GetDescriptionForValidNumber(msg(t, n), lang); err != nil || g != w.Place(n, lang) {
						t.Fail("geocoding.GetDescriptionForValidNumber(%s, %q) = %q, %v; the tables give %q", show(n), lang, g, err, w.Place(n, lang))
					}
					return
				}
				n := direct(t, w, zoneKeys()[i])
				t.NonTrivial("z" + itoa(i))
				if g, err := timezone.GetTimeZonesForGeographicalNumber(msg(t, n)); err != nil || !slices.Equal(g, w.Zones(n)) {
					t.Fail("GetTimeZonesForGeographicalNumber(%s) = %v, %v; the table gives %v", show(n), g, err, w.Zones(n))
				}
			}},
		},
	})
}

// direct builds a number of code cc whose E.164 digits start with prefix key.
func direct(t *pbt.T, w *model.World, key int) *model.Num {
	s := strconv.Itoa(key)
	for i := 1; i <= 3 && i <= len(s); i++ {
		cc, _ := strconv.Atoi(s[:i])
		if _, ok := w.CC2R[cc]; ok {
			rest := s[i:]
			if cc == 54 && !strings.HasPrefix(rest, "9") && t.Bool() {
				rest = "9" + rest
			}
			return numOf(cc, rest+digits(t, max(1, 10-len(rest))))
		}
	}
	return numOf(1, digits(t, 10))
}

func checkCarrierOf(t *pbt.T, w *model.World, n *model.Num, lang string) {
	t.Log("carrier of %s in %q", show(n), lang)
	p := msg(t, n)
	x := w.Carrier(n, lang)
	if x != "" {
		t.NonTrivial(show(n) + lang)
	}
	same := func(name string, g string, err error, x string) {
		if err != nil || g != x {
			t.Fail("%s(%s, %q) = %q, %v; the tables give %q", name, show(n), lang, g, err, x)
		}
	}
	g, err := carrier.GetNameForValidNumber(p, lang)
	same("carrier.GetNameForValidNumber", g, err, x)
	g, err = carrier.GetNameForNumber(p, lang)
	same("carrier.GetNameForNumber", g, err, w.CarrierOf(n, lang))
	g, err = carrier.GetSafeDisplayName(p, lang)
	same("carrier.GetSafeDisplayName", g, err, w.SafeCarrier(n, lang))
	if w.SafeCarrier(n, lang) != "" {
		t.Label("safe name")
	}
}

func checkPlaceOf(t *pbt.T, w *model.World, n *model.Num, lang, user string) {
	t.Log("place of %s in %q for %q", show(n), lang, user)
	p := msg(t, n)
	x := w.Place(n, lang)
	if x != "" {
		t.NonTrivial(show(n) + lang)
	}
	same := func(name string, g string, err error, x string) {
		if err != nil || g != x {
			t.Fail("%s(%s, %q, %q) = %q, %v; the tables give %q", name, show(n), lang, user, g, err, x)
		}
	}
	g, err := geocoding.GetDescriptionForValidNumber(p, lang)
	same("geocoding.GetDescriptionForValidNumber", g, err, x)
	g, err = geocoding.GetDescriptionForNumber(p, lang)
	same("geocoding.GetDescriptionForNumber", g, err, w.PlaceOf(n, lang, nil))
	g, err = geocoding.GetDescriptionForValidNumberForUserRegion(p, lang, user)
	same("geocoding.GetDescriptionForValidNumberForUserRegion", g, err, w.PlaceFor(n, lang, user))
	g, err = geocoding.GetDescriptionForNumberForUserRegion(p, lang, user)
	same("geocoding.GetDescriptionForNumberForUserRegion", g, err, w.PlaceOf(n, lang, &user))
	t.Label(map[bool]string{true: "described", false: "no description"}[x != ""])
}

func checkZonesOf(t *pbt.T, w *model.World, n *model.Num) {
	t.Log("zones of %s", show(n))
	p := msg(t, n)
	x := w.Zones(n)
	if x[0] != "Etc/Unknown" {
		t.NonTrivial(show(n))
	}
	for i := range 2 {
		g, err := timezone.GetTimeZonesForGeographicalNumber(p)
		if err != nil || !slices.Equal(g, x) {
			t.Fail("GetTimeZonesForGeographicalNumber(%s) = %v, %v; the table gives %v (answer %d)", show(n), g, err, x, i+1)
		}
		spoilStrings(g) // the list is the caller's
	}
	x = w.ZonesOf(n)
	for i := range 2 {
		g, err := timezone.GetTimeZonesForNumber(p)
		if err != nil || !slices.Equal(g, x) {
			t.Fail("GetTimeZonesForNumber(%s) = %v, %v; the table gives %v (answer %d)", show(n), g, err, x, i+1)
		}
		spoilStrings(g)
	}
	t.Label(strconv.Itoa(min(len(x), 3)) + " zones")
}
