package model

import "strings"

// Cost of a short number (public enum order).
type Cost int

// Costs.
const (
	CostTollFree Cost = iota
	CostStandard
	CostPremium
	CostUnknown
)

// shortPlan returns the short-number plan of region when number code cc is used there.
func (w *World) shortPlan(cc int, region string) *Plan {
	for _, r := range w.CC2R[cc] {
		if r == region {
			return w.Short[region]
		}
	}
	return nil
}

// ShortPossibleIn reports whether n has a possible short-number length in region.
func (w *World) ShortPossibleIn(n *Num, region string) bool {
	p := w.shortPlan(n.CC, region)
	return p != nil && hasLen(p.D[General].Lengths, len(n.NSN()))
}

// ShortPossible reports whether n is a possible short number in any of its regions.
func (w *World) ShortPossible(n *Num) bool {
	for _, r := range w.CC2R[n.CC] {
		if w.ShortPossibleIn(n, r) {
			return true
		}
	}
	return false
}

// ShortValidIn reports whether n is a valid short number of region.
func (w *World) ShortValidIn(n *Num, region string) bool {
	p := w.shortPlan(n.CC, region)
	return p != nil && p.D[General].matches(n.NSN()) && p.D[ShortCode].matches(n.NSN())
}

// shortRegion is the region whose short number n is.
func (w *World) shortRegion(n *Num) string {
	rs := w.CC2R[n.CC]
	if len(rs) == 1 {
		return rs[0]
	}
	for _, r := range rs {
		if p := w.Short[r]; p != nil && p.D[ShortCode].matches(n.NSN()) {
			return r
		}
	}
	return ""
}

// ShortValid reports whether n is a valid short number somewhere.
func (w *World) ShortValid(n *Num) bool {
	r := w.shortRegion(n)
	if len(w.CC2R[n.CC]) > 1 {
		return r != ""
	}
	return w.ShortValidIn(n, r)
}

// CostIn returns the expected cost of n in region.
func (w *World) CostIn(n *Num, region string) Cost {
	p := w.shortPlan(n.CC, region)
	nsn := n.NSN()
	switch {
	case p == nil || !hasLen(p.D[General].Lengths, len(nsn)):
		return CostUnknown
	case p.D[PremiumRate].matches(nsn):
		return CostPremium
	case p.D[StandardRate].matches(nsn):
		return CostStandard
	case p.D[TollFree].matches(nsn), w.Emergency(nsn, region, false):
		return CostTollFree
	}
	return CostUnknown
}

// CostOf returns the expected cost of n: the worst one of its regions.
func (w *World) CostOf(n *Num) Cost {
	rank := map[Cost]int{CostTollFree: 0, CostStandard: 1, CostUnknown: 2, CostPremium: 3}
	rs := w.CC2R[n.CC]
	if len(rs) == 0 {
		return CostUnknown
	}
	worst := CostTollFree
	for _, r := range rs {
		if c := w.CostIn(n, r); rank[c] > rank[worst] {
			worst = c
		}
	}
	return worst
}

// CarrierSpecific reports whether n is carrier specific.
func (w *World) CarrierSpecific(n *Num) bool {
	p := w.Short[w.shortRegion(n)]
	return p != nil && p.D[CarrierSpecific].matches(n.NSN())
}

// CarrierSpecificIn reports whether n is carrier specific in region.
func (w *World) CarrierSpecificIn(n *Num, region string) bool {
	p := w.shortPlan(n.CC, region)
	return p != nil && p.D[CarrierSpecific].matches(n.NSN())
}

// SMSIn reports whether n is an SMS service in region.
func (w *World) SMSIn(n *Num, region string) bool {
	p := w.shortPlan(n.CC, region)
	return p != nil && p.D[SmsServices].matches(n.NSN())
}

// Emergency reports whether dialling text in region reaches an emergency
// service: exactly, or (connects) with further digits where that works.
func (w *World) Emergency(text, region string, connects bool) bool {
	t := ExtractPossible(text)
	if t == "" || isPlus([]rune(t)[0]) {
		return false
	}
	p := w.Short[region]
	if p == nil || p.D[Emergency] == nil || p.D[Emergency].Pattern == "" {
		return false
	}
	d := DigitsOnly(t)
	pat := p.D[Emergency].Pattern
	if full(pat, d) {
		return true
	}
	if !connects || strings.Contains(" BR CL NI ", " "+region+" ") {
		return false
	}
	return at(pat, d) >= 0
}
