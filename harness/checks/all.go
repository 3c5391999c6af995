package checks

import "verifharness/pbt"

var registry []*pbt.Prop

// quickScale makes the quick runs of the cheaper properties longer.
var quickScale = map[string]int{"P01": 3, "P02": 2, "P04": 2, "P07": 3, "P08": 2, "P10": 2, "P13": 3, "P14": 2, "P15": 2, "P18": 2, "P20": 4, "P21": 2, "P22": 2, "P23": 2}

func register(p *pbt.Prop) {
	if k := quickScale[p.ID]; k > 1 {
		for _, s := range p.Subs {
			// the rest are small because each case is a process or a build
			if s.Quick >= 1000 {
				s.Quick *= k
			}
		}
	}
	// what a process only judges by itself, what enumerates and what has series of
	// its own stays as it is
	for _, s := range p.Subs {
		if s.Count == nil && !s.Serial && !s.Race && s.Quick >= 10000 && s.Name != "long" {
			p.Subs = append(p.Subs, s.Series())
		}
	}
	registry = append(registry, p)
}

// All returns every property in order.
func All() []*pbt.Prop {
	out := make([]*pbt.Prop, 0, len(registry))
	for i := 0; i < 100; i++ {
		for _, p := range registry {
			if p.ID == propID(i) {
				out = append(out, p)
			}
		}
	}
	return out
}

func propID(i int) string { return "P" + string(rune('0'+i/10)) + string(rune('0'+i%10)) }

// Helpers are extra entry points of the binary used by some checks.
var Helpers = map[string]func([]string){}
