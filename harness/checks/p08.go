package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:   "P08",
		Rule: "a formatting rule of the plan applies or the number has an extension, zeros or an unknown code; counted by distinct number",
		Subs: []*pbt.Sub{
			{Name: "numbers", Quick: 900000, Thorough: 50000000, Run: func(t *pbt.T) { checkFormat(t, w0(), numMsg(t, w0())) }},
			{Name: "rules", Quick: 500000, Thorough: 25000000, Run: func(t *pbt.T) {
				p := anyPlan(t, w0())
				n := numOf(p.CC, ruleNSN(t, p))
				if t.Chance(1, 8) {
					n.Ext = ext(t)
				}
				checkFormat(t, w0(), n)
			}},
			plansSub(25000, 500000, func(t *pbt.T, w *model.World) {
				p := anyPlan(t, w)
				n := numOf(p.CC, ruleNSN(t, p))
				if t.Chance(1, 3) {
					n = numMsg(t, w)
				}
				checkFormat(t, w, n)
			}),
			{Name: "any-message", Quick: 250000, Thorough: 10000000, Run: func(t *pbt.T) { checkFormat(t, w0(), wildNum(t, w0())) }},
		},
	})
}

func checkFormat(t *pbt.T, w *model.World, n *model.Num) {
	t.Log("number %s", show(n))
	p := msg(t, n)
	nat := w.Format(n, model.International)
	if len(nat) > 0 && (nat != n.NSN() || n.Ext != "" || n.ILZ) {
		t.NonTrivial(show(n))
	}
	for s := model.E164; s <= model.RFC3966; s++ {
		want := w.Format(n, s)
		if g := pn.Format(p, pn.PhoneNumberFormat(s)); g != want {
			t.Fail("Format(%s, style %d) = %q; the rules give %q", show(n), s, g, want)
		}
	}
	t.Label(map[bool]string{true: "known code", false: "unknown code"}[w.MainPlan(n.CC) != nil])
}
