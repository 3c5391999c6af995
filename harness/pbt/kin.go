package pbt

// Kin remembers values drawn earlier in the same case, so that a series of
// questions is about related things: the same digits under another plan, the
// same text from another region, a number differing in its last digit. Answers
// remembered under too short a key, or buffers shared between calls, only show
// up between such questions.
type Kin struct {
	strs map[string][]string
	objs []any
	used int
}

// Related makes the generators of this case draw related values from now on.
func (t *T) Related() { t.kin = &Kin{strs: map[string][]string{}} }

// Unrelated ends it.
func (t *T) Unrelated() { t.kin = nil }

// Turn starts the next question of a series: the objects of the previous ones
// may be used again.
func (t *T) Turn() {
	if t.kin != nil {
		t.kin.used = 0
	}
}

// Again returns an object used at the same place of an earlier question, or o.
func (t *T) Again(o any) any {
	k := t.kin
	if k == nil {
		return o
	}
	k.used++
	if k.used <= len(k.objs) {
		return k.objs[k.used-1]
	}
	k.objs = append(k.objs, o)
	return o
}

// Recall returns a value of the kind drawn earlier (possibly varied) or a fresh
// one. Outside a series it is just fresh.
func (t *T) Recall(kind string, vary func(string) string, fresh func() string) string {
	if t.kin == nil {
		return fresh()
	}
	pool := t.kin.strs[kind]
	if len(pool) > 0 && t.Chance(1, 2) {
		v := pool[t.N(len(pool))]
		if vary != nil && t.Chance(1, 3) {
			v = vary(v)
		} else {
			return v
		}
		if len(pool) < 12 {
			t.kin.strs[kind] = append(pool, v)
		}
		return v
	}
	v := fresh()
	// fresh may itself have recalled
	if pool = t.kin.strs[kind]; len(pool) < 12 {
		t.kin.strs[kind] = append(pool, v)
	}
	return v
}

// Series returns a sub that asks the question of s several times about related
// values.
func (s *Sub) Series() *Sub {
	run := s.Run
	return &Sub{Name: s.Name + "-series", Quick: max(s.Quick/16, 1), Thorough: max(s.Thorough/16, 1), NoGuide: true, CaseTimeout: s.CaseTimeout, Workers: s.Workers, Run: func(t *T) {
		t.Related()
		defer t.Unrelated()
		for k := 2 + t.N(7); k > 0; k-- {
			t.Turn()
			run(t)
		}
	}}
}
