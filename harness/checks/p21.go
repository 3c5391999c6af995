package checks

import (
	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:   "P21",
		Rule: "the number is not valid as given and its calling code is known; counted by distinct number",
		Subs: []*pbt.Sub{
			{Name: "too-long", Quick: 500000, Thorough: 20000000, Run: func(t *pbt.T) { checkTruncate(t, w0(), longNum(t, w0())) }},
			plansSub(20000, 400000, func(t *pbt.T, w *model.World) { checkTruncate(t, w, longNum(t, w)) }),
			{Name: "any-message", Quick: 300000, Thorough: 10000000, Run: func(t *pbt.T) { checkTruncate(t, w0(), wildNum(t, w0())) }},
		},
	})
}

func longNum(t *pbt.T, w *model.World) *model.Num {
	n, p := validNum(t, w)
	s := n.NSN()
	if k := 17 - len(s); k > 0 && t.Chance(4, 5) {
		s += digits(t, 1+t.N(k))
	}
	if t.Chance(1, 8) {
		s = edit(t, s)
	}
	m := numOf(p.CC, s)
	if t.Chance(1, 4) {
		m.Ext, m.Raw, m.Src, m.Carrier = ext(t), text(t, 6), pbt.Pick(t.Src, srcs), digits(t, t.N(3))
	}
	return m
}

func checkTruncate(t *pbt.T, w *model.World, n *model.Num) {
	t.Log("number %s", show(n))
	want, ok := w.Truncate(n)
	if w.MainPlan(n.CC) != nil && !w.Valid(n) {
		t.NonTrivial(show(n))
	}
	t.Label(map[bool]string{true: "success", false: "failure"}[ok])
	p := msg(t, n)
	g := pn.TruncateTooLongNumber(p)
	x := *n
	x.NN = want
	if got := fromPB(p); g != ok || !eq(got, &x) {
		t.Fail("TruncateTooLongNumber(%s) = %v leaving %s; expected %v leaving %s", show(n), g, show(got), ok, show(&x))
	}
	if g && !pn.IsValidNumber(p) {
		t.Fail("TruncateTooLongNumber(%s) reports success but leaves %s, which is not valid", show(n), show(fromPB(p)))
	}
}
