package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	pn "github.com/nyaruka/phonenumbers/v2"
	"github.com/nyaruka/phonenumbers/v2/carrier"
	"github.com/nyaruka/phonenumbers/v2/geocoding"
	"github.com/nyaruka/phonenumbers/v2/timezone"
	"google.golang.org/protobuf/proto"

	"verifharness/model"
	"verifharness/pbt"
)

// callList draws n calls, of all kinds or of a few.
func callList(t *pbt.T, n int) []*call {
	var kinds []int
	if t.Chance(2, 5) {
		for k := 1 + t.N(3); k > 0; k-- {
			kinds = append(kinds, t.N(callKinds))
		}
	}
	out := make([]*call, n)
	if t.Bool() {
		t.Related()
		defer t.Unrelated()
	}
	for i := range out {
		if kinds != nil {
			out[i] = callOf(t, w0(), t.Chance(1, 5), pbt.Pick(t.Src, kinds))
			continue
		}
		out[i] = anyCall(t, w0(), t.Chance(1, 5))
	}
	return out
}

// freshReq asks a fresh process to make a list of calls again; the calls are
// given as the choices they were generated from.
type freshReq struct {
	Choices []uint64 `json:"choices"`
	N       int      `json:"n"`
	Procs   int      `json:"procs,omitempty"` // goroutines (concurrent mode)
	Per     int      `json:"per,omitempty"`   // calls per goroutine
	Sched   uint64   `json:"sched,omitempty"`
}

type freshRes struct {
	Results [][]byte `json:"results"`
	Bad     string   `json:"bad,omitempty"`
}

// inFreshProcess runs helper mode in a new process of this binary.
func inFreshProcess(mode string, req *freshReq, limit time.Duration) (res *freshRes, stderr string, hung bool, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	self, _ := os.Executable()
	cmd := exec.CommandContext(ctx, self, mode)
	in, _ := json.Marshal(req)
	var out, errb bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &out, &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	err = cmd.Run()
	if ctx.Err() != nil {
		return nil, errb.String(), true, ctx.Err()
	}
	if err != nil {
		return nil, errb.String(), false, err
	}
	res = &freshRes{}
	if err = json.Unmarshal(out.Bytes(), res); err != nil {
		return nil, errb.String(), false, err
	}
	return res, errb.String(), false, nil
}

// safely makes the call and turns a panic into a result, so that a crash (which
// is another property's business) does not end the process.
func (c *call) safely(spoil bool) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	return c.run(spoil)
}

func freshMain([]string) {
	req := &freshReq{}
	if err := json.NewDecoder(os.Stdin).Decode(req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	t := &pbt.T{Src: pbt.NewReplay(req.Choices)}
	calls := callList(t, req.N)
	res := &freshRes{Results: make([][]byte, len(calls))}
	for i := len(calls) - 1; i >= 0; i-- {
		res.Results[i] = []byte(calls[i].safely(false))
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func trivialResult(s string) bool {
	return s == "" || s == "0" || s == "false" || strings.HasPrefix(s, "error")
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func init() {
	Helpers["fresh"] = freshMain
	register(&pbt.Prop{
		ID:   "P16",
		Rule: "the call returned something beyond empty, zero, false or an error (arguments, repeats); the history contains at least 20 such calls (history, fresh process); counted by distinct call or history",
		Subs: []*pbt.Sub{
			{Name: "arguments", Quick: 1500000, Thorough: 60000000, Run: func(t *pbt.T) {
				c := anyCall(t, w0(), t.Chance(1, 3))
				before := make([]proto.Message, len(c.args))
				for i, a := range c.args {
					before[i] = proto.Clone(a)
				}
				out := c.safely(false)
				t.Log("%s", c.desc)
				for i, a := range c.args {
					if !proto.Equal(a, before[i]) {
						t.Fail("%s changed its argument %d from {%v} to {%v}", c.desc, i, before[i], a)
					}
				}
				if len(c.args) > 0 && !trivialResult(out) {
					t.NonTrivial(c.desc)
				}
			}},
			{Name: "history", Quick: 12000, Thorough: 500000, Serial: true, Guide: true, Run: func(t *pbt.T) {
				calls := callList(t, 2+t.N(60))
				first := make([]string, len(calls))
				good, key := 0, ""
				for i, c := range calls {
					first[i] = c.safely(t.Bool())
					if !trivialResult(first[i]) {
						good++
						key += c.desc
					}
					t.Log("%s", c.desc)
				}
				if good >= 20 {
					t.NonTrivial(key)
				}
				for k := 0; k < len(calls); k++ {
					i := t.N(len(calls))
					if again := calls[i].safely(true); again != first[i] {
						t.Fail("%s gave %s and later %s", calls[i].desc, clip(first[i]), clip(again))
					}
				}
			}},
			{Name: "reused-message", Quick: 60000, Thorough: 3000000, Run: func(t *pbt.T) {
				// one message that the caller fills again and again is answered for
				// like a new message each time
				w := w0()
				t.Related()
				defer t.Unrelated()
				m := &pn.PhoneNumber{}
				fs := make([]int, 1+t.N(3))
				for i := range fs {
					fs[i] = t.N(len(numberQueries))
				}
				good, key := 0, ""
				// nothing else is asked between the questions about the message
				var later []func()
				undisturbed := t.Bool()
				for k := 2 + t.N(10); k > 0; k-- {
					refill(t, w, m)
					q := numberQueries[pbt.Pick(t.Src, fs)]
					r := anyRegion(t, w)
					before := proto.Clone(m).(*pn.PhoneNumber)
					t.Log("%s of {%v}, %q", q.name, m, r)
					g := q.ask(m, r)
					compare := func() {
						if x := q.ask(before, r); g != x {
							t.Fail("%s of {%v} with %q is %s in a message used before and %s in a new one", q.name, before, r, clip(g), clip(x))
						}
					}
					if undisturbed {
						later = append(later, compare)
					} else {
						compare()
					}
					if !proto.Equal(m, before) {
						t.Fail("%s changed its argument from {%v} to {%v}", q.name, before, m)
					}
					if !trivialResult(g) {
						good++
						key += q.name + g
					}
				}
				for _, f := range later {
					f()
				}
				if good > 1 {
					t.NonTrivial(key)
				}
			}},
			{Name: "fresh-process", Quick: 120, Thorough: 5000, Serial: true, Run: func(t *pbt.T) {
				n := 2 + t.N(1500)
				had := len(t.Choices())
				calls := callList(t, n)
				choices := t.Choices()[had:]
				here := make([]string, n)
				good, key := 0, ""
				for i, c := range calls {
					here[i] = c.safely(true)
					if !trivialResult(here[i]) {
						good++
						key += c.desc
					}
				}
				if good >= 20 {
					t.NonTrivial(key)
				}
				res, stderr, hung, err := inFreshProcess("fresh", &freshReq{Choices: choices, N: n}, 3*time.Minute)
				if err != nil {
					if hung {
						t.Fail("the calls do not finish in a fresh process")
					}
					panic(fmt.Sprint("fresh process: ", err, stderr))
				}
				for i := range calls {
					if string(res.Results[i]) != here[i] {
						t.Log("%s", calls[i].desc)
						t.Fail("%s gives %s in a process with a history and %s in a fresh one", calls[i].desc, clip(here[i]), clip(string(res.Results[i])))
					}
				}
			}},
		},
	})
}

// numberQueries are calls on one number.
var numberQueries = []struct {
	name string
	ask  func(p *pn.PhoneNumber, r string) string
}{
	{"GetNationalSignificantNumber", func(p *pn.PhoneNumber, r string) string { return pn.GetNationalSignificantNumber(p) }},
	{"Format", func(p *pn.PhoneNumber, r string) string {
		return fmt.Sprint(pn.Format(p, pn.NATIONAL), "|", pn.Format(p, pn.INTERNATIONAL), "|", pn.Format(p, pn.RFC3966), "|", pn.Format(p, pn.E164))
	}},
	{"GetNumberType", func(p *pn.PhoneNumber, r string) string { return fmt.Sprint(int(pn.GetNumberType(p))) }},
	{"IsValidNumber", func(p *pn.PhoneNumber, r string) string { return fmt.Sprint(pn.IsValidNumber(p)) }},
	{"IsValidNumberForRegion", func(p *pn.PhoneNumber, r string) string { return fmt.Sprint(pn.IsValidNumberForRegion(p, r)) }},
	{"GetRegionCodeForNumber", func(p *pn.PhoneNumber, r string) string { return pn.GetRegionCodeForNumber(p) }},
	{"IsPossibleNumberWithReason", func(p *pn.PhoneNumber, r string) string {
		return "r" + fmt.Sprint(int(pn.IsPossibleNumberWithReason(p)))
	}},
	{"IsPossibleNumberForTypeWithReason", func(p *pn.PhoneNumber, r string) string {
		return "r" + fmt.Sprint(int(pn.IsPossibleNumberForTypeWithReason(p, pn.MOBILE)), int(pn.IsPossibleNumberForTypeWithReason(p, pn.FIXED_LINE_OR_MOBILE)))
	}},
	{"FormatOutOfCountryCallingNumber", pn.FormatOutOfCountryCallingNumber},
	{"FormatOutOfCountryKeepingAlphaChars", pn.FormatOutOfCountryKeepingAlphaChars},
	{"FormatInOriginalFormat", func(p *pn.PhoneNumber, r string) (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = "panic"
			}
		}()
		return pn.FormatInOriginalFormat(p, r)
	}},
	{"FormatNumberForMobileDialing", func(p *pn.PhoneNumber, r string) string { return pn.FormatNumberForMobileDialing(p, r, true) }},
	{"FormatNationalNumberWithPreferredCarrierCode", func(p *pn.PhoneNumber, r string) string {
		return pn.FormatNationalNumberWithPreferredCarrierCode(p, "15")
	}},
	{"CanBeInternationallyDialled", func(p *pn.PhoneNumber, r string) string { return fmt.Sprint(pn.CanBeInternationallyDialled(p)) }},
	{"IsNumberGeographical", func(p *pn.PhoneNumber, r string) string { return fmt.Sprint(pn.IsNumberGeographical(p)) }},
	{"lengths", func(p *pn.PhoneNumber, r string) string {
		return fmt.Sprint(pn.GetLengthOfGeographicalAreaCode(p), pn.GetLengthOfNationalDestinationCode(p))
	}},
	{"IsNumberMatchWithOneNumber", func(p *pn.PhoneNumber, r string) string {
		return fmt.Sprint(int(pn.IsNumberMatchWithOneNumber(p, "+16502530000")))
	}},
	{"TruncateTooLongNumber", func(p *pn.PhoneNumber, r string) string {
		q := proto.Clone(p).(*pn.PhoneNumber)
		return fmt.Sprint(pn.TruncateTooLongNumber(q), q.GetNationalNumber())
	}},
	{"short numbers", func(p *pn.PhoneNumber, r string) string {
		return fmt.Sprint(pn.IsPossibleShortNumber(p), pn.IsValidShortNumber(p), pn.IsPossibleShortNumberForRegion(p, r), pn.IsValidShortNumberForRegion(p, r),
			int(pn.GetExpectedCost(p)), int(pn.GetExpectedCostForRegion(p, r)), pn.IsCarrierSpecific(p), pn.IsSmsServiceForRegion(p, r))
	}},
	{"carrier", func(p *pn.PhoneNumber, r string) string {
		a, e1 := carrier.GetNameForNumber(p, "en")
		b, e2 := carrier.GetSafeDisplayName(p, "en")
		return fmt.Sprint(a, e1, b, e2)
	}},
	{"geocoding", func(p *pn.PhoneNumber, r string) string {
		a, e1 := geocoding.GetDescriptionForNumber(p, "en")
		b, e2 := geocoding.GetDescriptionForNumberForUserRegion(p, "en", r)
		return fmt.Sprint(a, e1, b, e2)
	}},
	{"timezone", func(p *pn.PhoneNumber, r string) string {
		a, e := timezone.GetTimeZonesForNumber(p)
		return fmt.Sprint(a, e)
	}},
}

// touchUp changes one field of a message that is in use, by assigning it or by
// writing through it, and leaves the others.
func touchUp(t *pbt.T, m *pn.PhoneNumber) {
	through := t.Bool()
	switch t.N(8) {
	case 0, 1:
		v := int32(t.N(5))
		if through && m.NumberOfLeadingZeros != nil {
			*m.NumberOfLeadingZeros = v
		} else {
			m.NumberOfLeadingZeros = proto.Int32(v)
		}
		if m.ItalianLeadingZero == nil {
			m.ItalianLeadingZero = proto.Bool(true)
		}
	case 2:
		v := t.Bool()
		if through && m.ItalianLeadingZero != nil {
			*m.ItalianLeadingZero = !*m.ItalianLeadingZero
		} else {
			m.ItalianLeadingZero = proto.Bool(v)
		}
	case 3:
		if e := ext(t); through && m.Extension != nil {
			*m.Extension = e
		} else if t.Chance(1, 4) {
			m.Extension = nil
		} else {
			m.Extension = proto.String(e)
		}
	case 4:
		if through {
			*m.NationalNumber ^= uint64(1 + t.N(7))
		} else {
			m.NationalNumber = proto.Uint64(*m.NationalNumber + 1)
		}
	case 5:
		if v := pbt.Pick(t.Src, []string{"", "12", "15", "41"}); through && m.PreferredDomesticCarrierCode != nil {
			*m.PreferredDomesticCarrierCode = v
		} else {
			m.PreferredDomesticCarrierCode = proto.String(v)
		}
	case 6:
		v := pbt.Pick(t.Src, []pn.PhoneNumber_CountryCodeSource{pn.PhoneNumber_UNSPECIFIED, pn.PhoneNumber_FROM_NUMBER_WITH_PLUS_SIGN, pn.PhoneNumber_FROM_NUMBER_WITH_IDD, pn.PhoneNumber_FROM_NUMBER_WITHOUT_PLUS_SIGN, pn.PhoneNumber_FROM_DEFAULT_COUNTRY})
		if through && m.CountryCodeSource != nil {
			*m.CountryCodeSource = v
		} else {
			m.CountryCodeSource = &v
		}
	default:
		if v := clip(m.GetRawInput()) + pbt.Pick(t.Src, []string{"", " ", "1"}); through && m.RawInput != nil {
			*m.RawInput = v
		} else {
			m.RawInput = proto.String(v)
		}
	}
}

// refill puts another number into m, in one of the ways a caller does.
func refill(t *pbt.T, w *model.World, m *pn.PhoneNumber) {
	if m.NationalNumber != nil && t.Chance(1, 3) {
		touchUp(t, m)
		return
	}
	n := numMsg(t, w)
	switch t.N(4) {
	case 0:
		proto.Reset(m)
		proto.Merge(m, toPB(n))
	case 1: // in place
		if m.CountryCode == nil || m.NationalNumber == nil {
			proto.Merge(m, toPB(n))
		}
		*m.CountryCode, *m.NationalNumber = int32(n.CC), n.NN
		if t.Bool() {
			m.Extension = nil
		}
	case 2:
		m.CountryCode, m.NationalNumber = proto.Int32(int32(n.CC)), proto.Uint64(n.NN)
	default:
		s, r := numText(t, w, "")
		if t.Bool() {
			pn.ParseToNumber(s, r, m)
		} else {
			pn.ParseAndKeepRawInputToNumber(s, r, m)
		}
	}
}
