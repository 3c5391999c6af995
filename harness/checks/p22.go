package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:   "P22",
		Rule: "the destination code length is not zero; counted by distinct number",
		Subs: []*pbt.Sub{
			{Name: "numbers", Quick: 700000, Thorough: 30000000, Run: func(t *pbt.T) { checkNDC(t, w0(), numMsg(t, w0())) }},
			{Name: "valid", Quick: 400000, Thorough: 20000000, Run: func(t *pbt.T) {
				n, _ := validNum(t, w0())
				if t.Chance(1, 6) {
					n.Ext = ext(t)
				}
				checkNDC(t, w0(), n)
			}},
			plansSub(20000, 400000, func(t *pbt.T, w *model.World) {
				n := numMsg(t, w)
				if t.Chance(1, 2) {
					p := anyPlan(t, w)
					n = numOf(p.CC, ruleNSN(t, p))
				}
				checkNDC(t, w, n)
			}),
			{Name: "any-message", Quick: 200000, Thorough: 8000000, Run: func(t *pbt.T) { checkNDC(t, w0(), wildNum(t, w0())) }},
		},
	})
}

func checkNDC(t *pbt.T, w *model.World, n *model.Num) {
	t.Log("number %s", show(n))
	p := msg(t, n)
	x := w.NDCLen(n)
	if x > 0 {
		t.NonTrivial(show(n))
	}
	g := pn.GetLengthOfNationalDestinationCode(p)
	if g != x {
		t.Fail("GetLengthOfNationalDestinationCode(%s) = %d; the international format %q gives %d", show(n), g, w.Format(n, model.International), x)
	}
	a := pn.GetLengthOfGeographicalAreaCode(p)
	if ax := w.AreaLen(n); a != ax {
		t.Fail("GetLengthOfGeographicalAreaCode(%s) = %d; the rules give %d", show(n), a, ax)
	} else if ax > 0 {
		t.Label("has area code")
	}
	if n.NN != 0 || n.Raw == "" {
		if nsn := pn.GetNationalSignificantNumber(p); g < 0 || g > len(nsn) || a < 0 || a > len(nsn) {
			t.Fail("%s: code lengths %d and %d cannot be cut from %q", show(n), g, a, nsn)
		}
	}
	if n.Ext != "" {
		c := *n
		c.Ext = ""
		if g2 := pn.GetLengthOfNationalDestinationCode(msg(t, &c)); g2 != g {
			t.Fail("the extension of %s changes the destination code length from %d to %d", show(n), g2, g)
		}
	}
}
