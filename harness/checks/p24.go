package checks

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	pn "github.com/nyaruka/phonenumbers/v2"

	"verifharness/model"
	"verifharness/pbt"
)

// runParser runs the parser command.
func runParser(args []string) (stdout, stderr string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VH_PHONEPARSER"), args...)
	var o, e strings.Builder
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Env = []string{}
	cmd.Dir = "/"
	if err := cmd.Run(); err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			panic(fmt.Errorf("harness: %w", err))
		}
		return o.String(), e.String(), x.ExitCode()
	}
	return o.String(), e.String(), 0
}

// argText makes s usable as a command argument.
func argText(s string) string { return strings.ReplaceAll(s, "\x00", "") }

func init() {
	register(&pbt.Prop{
		ID:          "P24",
		Rule:        "the command is asked about a text that parses; counted by distinct text and region",
		Assumptions: []string{"arguments hold no NUL byte, as the operating system demands"},
		Subs: []*pbt.Sub{
			{Name: "command", Quick: 12000, Thorough: 300000, Serial: true, Run: func(t *pbt.T) {
				w := w0()
				s, r := anyText(t, w)
				if t.Chance(1, 3) {
					n, p := validNum(t, w)
					s, r = w.Format(n, model.Style(t.N(4))), p.ID
				}
				s, r = argText(s), argText(r)
				t.Log("phoneparser %q %q", s, r)
				out, errs, code := runParser([]string{s, r})
				n, werr := w.Parse(s, r, false)
				want, wcode := "", 0
				if werr != nil {
					t.Label("rejected")
					_, err := pn.Parse(s, r)
					if !sameErr(err, werr) {
						t.Fail("Parse(%q, %q): error %v; the rules give the error %q", s, r, err, werr)
					}
					want, wcode = fmt.Sprintf("Error parsing number: %s\n", err), 1
				} else {
					t.Label("parsed")
					t.NonTrivial(s + "|" + r)
					want = fmt.Sprintf("            E164: %s\nNational Dialing: %s\n        National: %d\n         IsValid: %v\n",
						w.Format(n, model.E164), w.Format(n, model.National), n.NN, w.Valid(n))
				}
				if out != want || code != wcode || errs != "" {
					t.Fail("phoneparser %q %q exits %d and prints\n%s%s\nexpected exit %d and\n%s", s, r, code, out, errs, wcode, want)
				}
			}},
			{Name: "usage", Quick: 300, Thorough: 3000, Serial: true, Run: func(t *pbt.T) {
				n := t.N(6)
				if n == 2 {
					n = 6
				}
				args := []string{}
				for ; n > 0; n-- {
					s, r := anyText(t, w0())
					if t.Bool() {
						s = r
					}
					args = append(args, argText(s))
				}
				t.Log("phoneparser %q", args)
				t.NonTrivial(fmt.Sprintf("%q", args))
				out, _, code := runParser(args)
				if code == 0 || !strings.HasPrefix(out, "usage:") || strings.Contains(out, "E164:") {
					t.Fail("phoneparser with %d arguments exits %d and prints %q", len(args), code, out)
				}
			}},
		},
	})
}
