package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/proto"

	"verifharness/model"
	"verifharness/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:   "P05",
		Rule: "the text parses to a number (for reuse: at least two parses of the history succeed); counted by distinct text and region",
		Subs: []*pbt.Sub{
			{Name: "kept-input", Quick: 700000, Thorough: 35000000, Run: func(t *pbt.T) {
				w := w0()
				s, r := anyText(t, w)
				if t.Chance(1, 3) {
					s, r = carrierText(t, w)
				}
				checkKept(t, w, s, r)
			}},
			{Name: "origin", Quick: 300000, Thorough: 15000000, Run: func(t *pbt.T) {
				// the origin is known from how the text was put together
				w := w0()
				n, p := validNum(t, w)
				if p.ID == "001" || !w.Valid(n) || w.Ambiguous(n) {
					return
				}
				r := w.RegionOf(n)
				c := w.Regions[r]
				nsn := n.NSN()
				full := itoa(n.CC) + nsn
				var s string
				want := model.SrcPlus
				switch t.N(3) {
				case 0:
					s = "+" + full
					r = anyRegion(t, w)
				case 1:
					r = supported(t, w)
					c = w.Regions[r]
					if c.IntlPrefix == "" {
						return
					}
					idd := fromRE(t, c.IntlPrefix)
					if model.MatchAt(c.IntlPrefix, idd+full) != len(idd) {
						return
					}
					s, want = idd+full, model.SrcIDD
				case 2:
					if model.MatchAt(c.IntlPrefix, nsn) >= 0 || len(nsn) > len(itoa(n.CC)) && nsn[:len(itoa(n.CC))] == itoa(n.CC) {
						return
					}
					s, want = nsn, model.SrcDefault
				}
				if t.Chance(1, 3) {
					s = spread(t, s)
				}
				t.Log("%q in %q", s, r)
				k, err := pn.ParseAndKeepRawInput(s, r)
				if err != nil {
					t.Fail("ParseAndKeepRawInput(%q, %q): %v", s, r, err)
				}
				t.NonTrivial(s + "|" + r)
				if g := fromPB(k); g.Src != want || g.Raw != s {
					t.Fail("ParseAndKeepRawInput(%q, %q) = %s; its origin is %d", s, r, show(g), want)
				}
			}},
			{Name: "reuse", Quick: 250000, Thorough: 12000000, Run: func(t *pbt.T) {
				w := w0()
				m := &pn.PhoneNumber{}
				if t.Bool() {
					m = toPB(wildNum(t, w))
				}
				if t.Chance(1, 8) {
					// fields this version of the message does not know
					m.ProtoReflect().SetUnknown([]byte{0x98, 0x06, byte(t.N(100))})
				}
				t.Log("message holds %s and %d bytes of unknown fields", show(fromPB(m)), len(m.ProtoReflect().GetUnknown()))
				ok := 0
				hist := ""
				for k := 1 + t.N(5); k > 0; k-- {
					s, r := anyText(t, w)
					if t.Chance(1, 4) {
						s, r = carrierText(t, w)
					}
					keep := t.Bool()
					t.Log("parse %q in %q keep=%v", s, r, keep)
					var fresh *pn.PhoneNumber
					var ferr, err error
					if keep {
						fresh, ferr = pn.ParseAndKeepRawInput(s, r)
						err = pn.ParseAndKeepRawInputToNumber(s, r, m)
					} else {
						fresh, ferr = pn.Parse(s, r)
						err = pn.ParseToNumber(s, r, m)
					}
					if (err == nil) != (ferr == nil) {
						t.Fail("parsing %q in %q into a used message: %v; into a new one: %v", s, r, err, ferr)
					}
					hist += s + "|"
					if err != nil {
						continue
					}
					if ok++; ok == 2 {
						t.NonTrivial(hist)
					}
					if !proto.Equal(m, fresh) {
						t.Fail("parsing %q in %q into a used message gives %s, into a new one %s", s, r, show(fromPB(m)), show(fromPB(fresh)))
					}
					if t.Chance(1, 6) {
						m.Extension = proto.String("77")
						m.PreferredDomesticCarrierCode = proto.String("15")
						m.ItalianLeadingZero = proto.Bool(true)
						m.NumberOfLeadingZeros = proto.Int32(3)
						t.Log("fields set by the caller")
					}
				}
			}},
			plansSub(25000, 500000, func(t *pbt.T, w *model.World) {
				s, r := anyText(t, w)
				if t.Chance(1, 2) {
					s, r = dialledText(t, w, supported(t, w))
				}
				checkKept(t, w, s, r)
			}),
		},
	})
}

func checkKept(t *pbt.T, w *model.World, s, r string) {
	t.Log("ParseAndKeepRawInput(%q, %q)", s, r)
	plain, perr := pn.Parse(s, r)
	kept, kerr := pn.ParseAndKeepRawInput(s, r)
	if (perr == nil) != (kerr == nil) {
		t.Fail("%q in %q: plain parsing says %v, keeping raw input says %v", s, r, perr, kerr)
	}
	if perr != nil {
		return
	}
	t.NonTrivial(s + "|" + r)
	if plain.RawInput != nil || plain.CountryCodeSource != nil || plain.PreferredDomesticCarrierCode != nil {
		t.Fail("Parse(%q, %q) sets raw input data: %s", s, r, show(fromPB(plain)))
	}
	g := fromPB(kept)
	if !eq(core(g), fromPB(plain)) {
		t.Fail("%q in %q parses to %s, and to %s when raw input is kept", s, r, show(fromPB(plain)), show(g))
	}
	if kept.RawInput == nil || kept.GetRawInput() != s {
		t.Fail("ParseAndKeepRawInput(%q, %q) keeps %q", s, r, kept.GetRawInput())
	}
	want, werr := w.Parse(s, r, true)
	if werr != nil {
		t.Fail("ParseAndKeepRawInput(%q, %q) = %s; the rules give the error %q", s, r, show(g), werr)
	}
	if want.Carrier != "" {
		t.Label("carrier dialled")
	}
	t.Label([]string{"unspecified", "plus", "", "", "", "idd", "", "", "", "", "no plus"}[min(int(want.Src), 10)])
	if !eq(g, want) {
		t.Fail("ParseAndKeepRawInput(%q, %q) = %s; the rules give %s", s, r, show(g), show(want))
	}
}

var carrierRegions = []string{"BR", "AR", "CL", "CO", "CR", "KR", "MX", "TR", "JP", "HU", "SV", "EC", "UZ", "FI", "HN", "LI", "UY", "BO", "CN", "NI", "ZW", "SM", "US", "AU", "NA", "MO", "BY", "FR", "GF", "LT"}

// carrierText draws a number dialled with a national prefix that may hold a
// carrier code.
func carrierText(t *pbt.T, w *model.World) (string, string) {
	r := pbt.Pick(t.Src, carrierRegions)
	if w.Regions[r] == nil {
		return numText(t, w, "")
	}
	return dialledText(t, w, r)
}

func dialledText(t *pbt.T, w *model.World, r string) (string, string) {
	p := w.Regions[r]
	s := anyNSN(t, p)
	if p.NPForParsing != "" {
		s = fromRE(t, p.NPForParsing) + s
	}
	if t.Chance(1, 5) {
		s = "+" + itoa(p.CC) + s
	}
	return s, r
}
