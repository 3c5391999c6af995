package model

import (
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/text/language"
	"golang.org/x/text/language/display"
)

var (
	carrierOnce, geoOnce, tzOnce sync.Once
	carrierT, geoT               map[string]map[int]string
	tzT                          map[int][]string
)

// CarrierTables returns the carrier tables by language.
func CarrierTables() map[string]map[int]string {
	carrierOnce.Do(func() { carrierT = LangTables("carrier/data") })
	return carrierT
}

// GeoTables returns the geocoding tables by language.
func GeoTables() map[string]map[int]string {
	geoOnce.Do(func() { geoT = LangTables("geocoding/data") })
	return geoT
}

// ZoneTable returns the time-zone table.
func ZoneTable() map[int][]string {
	tzOnce.Do(func() { tzT = TimezoneTable() })
	return tzT
}

// longest returns the value of the longest prefix of digits in t.
func longest[V any](t map[int]V, digits string) (V, bool) {
	for i := min(len(digits), 18); i > 0; i-- {
		k, err := strconv.Atoi(digits[:i])
		if err != nil {
			continue
		}
		if v, ok := t[k]; ok {
			return v, true
		}
	}
	var zero V
	return zero, false
}

func e164Digits(n *Num) string { return strconv.Itoa(n.CC) + n.NSN() }

// Carrier returns the carrier of n whatever its type.
func (w *World) Carrier(n *Num, lang string) string {
	v, _ := longest(CarrierTables()[lang], e164Digits(n))
	return v
}

// CarrierOf returns the carrier of n if it can be mobile.
func (w *World) CarrierOf(n *Num, lang string) string {
	switch w.TypeOf(n) {
	case TMobile, TFixedOrMobile, TPager:
		return w.Carrier(n, lang)
	}
	return ""
}

// SafeCarrier returns the carrier of n unless numbers are portable in its region.
func (w *World) SafeCarrier(n *Num, lang string) string {
	if w.Portable(w.RegionOf(n)) {
		return ""
	}
	return w.CarrierOf(n, lang)
}

// Portable reports whether mobile numbers are portable in region.
func (w *World) Portable(region string) bool {
	p := w.region(region)
	return p != nil && p.MNP
}

func regionName(region, lang string) string {
	if region == "" || region == "ZZ" || region == "001" {
		return ""
	}
	r, err := language.ParseRegion(region)
	if err != nil {
		return ""
	}
	l, err := language.Parse(lang)
	if err != nil {
		l = language.English
	}
	namer := display.Regions(l)
	if namer == nil { // nothing to say in this language
		namer = display.Regions(language.English)
	}
	return namer.Name(r)
}

func (w *World) countryName(n *Num, lang string) string {
	rs := w.CC2R[n.CC]
	if len(rs) == 1 {
		return regionName(rs[0], lang)
	}
	found := ""
	for _, r := range rs {
		if w.ValidFor(n, r) {
			if found != "" {
				return ""
			}
			found = r
		}
	}
	return regionName(found, lang)
}

// Place describes where n is, assuming it is valid.
func (w *World) Place(n *Num, lang string) string {
	look := n
	if tok := MobileToken(n.CC); tok != "" && strings.HasPrefix(n.NSN(), tok) {
		if m, err := w.Parse(n.NSN()[len(tok):], w.mainRegion(n.CC), false); err == nil {
			look = m
		}
	}
	if v, ok := longest(GeoTables()[lang], e164Digits(look)); ok && v != "" {
		return v
	}
	return w.countryName(n, lang)
}

// PlaceFor is Place for a user in region user.
func (w *World) PlaceFor(n *Num, lang, user string) string {
	r := w.RegionOf(n)
	if r == user {
		return w.Place(n, lang)
	}
	return regionName(r, lang)
}

// PlaceOf describes where n is after checking it.
func (w *World) PlaceOf(n *Num, lang string, user *string) string {
	t := w.TypeOf(n)
	switch {
	case t == TUnknown:
		return ""
	case !Geographical(t, n.CC):
		return w.countryName(n, lang)
	case user != nil:
		return w.PlaceFor(n, lang, *user)
	}
	return w.Place(n, lang)
}

// Zones returns the time zones of n looked up by all of its digits.
func (w *World) Zones(n *Num) []string { return zones(e164Digits(n)) }

func zones(digits string) []string {
	if v, ok := longest(ZoneTable(), digits); ok {
		return v
	}
	return []string{"Etc/Unknown"}
}

// ZonesOf returns the time zones of n after checking it.
func (w *World) ZonesOf(n *Num) []string {
	t := w.TypeOf(n)
	switch {
	case t == TUnknown:
		return []string{"Etc/Unknown"}
	case !Geographical(t, n.CC):
		return zones(strconv.Itoa(n.CC))
	}
	return w.Zones(n)
}

// SortedKeys returns the sorted prefixes of a table.
func SortedKeys[V any](t map[int]V) []int {
	out := make([]int, 0, len(t))
	for k := range t {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// ---- examples ----

// Example returns the example number of type t in region, or nil.
func (w *World) Example(region string, t Type) *Num {
	p := w.region(region)
	if p == nil {
		return nil
	}
	d := p.D[p.kindFor(t)]
	if d == nil || d.Example == "" {
		return nil
	}
	n, err := w.Parse(d.Example, region, false)
	if err != nil {
		return nil
	}
	return n
}

// ExampleNonGeo returns the example number of a global calling code, or nil.
func (w *World) ExampleNonGeo(cc int) *Num {
	p := w.planFor(cc, "001")
	if p == nil {
		return nil
	}
	for _, k := range []Kind{Mobile, TollFree, SharedCost, Voip, Voicemail, Uan, PremiumRate} {
		if d := p.D[k]; d != nil && d.Example != "" {
			n, err := w.Parse("+"+strconv.Itoa(cc)+d.Example, "ZZ", false)
			if err != nil {
				return nil
			}
			return n
		}
	}
	return nil
}

// ExampleNonGeoType returns the example number of type t of a global calling
// code, or nil.
func (w *World) ExampleNonGeoType(cc int, t Type) *Num {
	p := w.planFor(cc, "001")
	if p == nil {
		return nil
	}
	d := p.D[p.kindFor(t)]
	if d == nil || d.Example == "" {
		return nil
	}
	n, err := w.Parse("+"+strconv.Itoa(cc)+d.Example, "ZZ", false)
	if err != nil {
		return nil
	}
	return n
}

// InvalidExample returns the invalid example number of region, or nil.
func (w *World) InvalidExample(region string) *Num {
	p := w.region(region)
	if p == nil || p.D[FixedLine] == nil {
		return nil
	}
	ex := p.D[FixedLine].Example
	for l := len(ex) - 1; l >= 2; l-- {
		if n, err := w.Parse(ex[:l], region, false); err == nil && !w.Valid(n) {
			return n
		}
	}
	return nil
}
