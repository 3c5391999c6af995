package model

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Leniency of a text search (public enum order).
type Leniency int

// Leniencies.
const (
	LPossible Leniency = iota
	LValid
	LStrict
	LExact
)

// Found is a number found in a text.
type Found struct {
	Start, End int
	Raw        string
	Num        Num
}

const (
	opening  = "(\\[\uFF08\uFF3B"
	closing  = ")\\]\uFF09\uFF3D"
	inParens = "[^" + opening + closing + "]"
)

var (
	candidateRE = "(?i)(?:[" + opening + pluses + "][" + punct + "]{0,4}){0,2}" + nd + "{1,20}(?:[" + punct + "]{0,4}" + nd + "{1,20}){0,20}(?:" + extForText + ")?"
	bracketsRE  = `\A[` + opening + "]?(?:" + inParens + "+[" + closing + "])?" + inParens + "+(?:[" + opening + "]" + inParens + "+[" + closing + "]){0,3}" + inParens + `*\z`
	datesRE     = `(?:[0-3]?[0-9]/[01]?[0-9]|[01]?[0-9]/[0-3]?[0-9])/(?:[12][0-9])?[0-9]{2}`
	stampsRE    = `[12][0-9]{3}[-/]?[01][0-9][-/]?[0-3][0-9] +[0-2][0-9]\z`
	pagesRE     = `[0-9]{1,5}-+[0-9]{1,5}[\t\n\f\r ]{0,4}\([0-9]{1,4}`
	innerREs    = []string{
		`/+(.*)`,
		`(\([^(]*)`,
		`(?:\p{Z}-|-\p{Z})\p{Z}*(.+)`,
		"[\u2012-\u2015\uFF0D]\\p{Z}*(.+)",
		`\.+\p{Z}*([^.]+)`,
		`\p{Z}+(\P{Z}+)`,
	}
)

type search struct {
	w      *World
	text   string
	region string
	len    Leniency
	tries  int
}

// Find returns the numbers found in text.
func (w *World) Find(text, region string, l Leniency, tries int) []Found {
	s := &search{w, text, region, l, tries}
	var out []Found
	pos := 0
	for s.tries > 0 {
		loc := re(candidateRE).FindStringIndex(text[pos:])
		if loc == nil {
			break
		}
		start := pos + loc[0]
		cand := text[start : pos+loc[1]]
		if cut := re(`[\\/] *x`).FindStringIndex(cand); cut != nil {
			cand = cand[:cut[0]]
		}
		if f := s.candidate(cand, start); f != nil {
			out = append(out, *f)
			pos = f.End
			continue
		}
		pos = start + len(cand)
		s.tries--
	}
	return out
}

func (s *search) candidate(c string, at0 int) *Found {
	if re(datesRE).MatchString(c) {
		return nil
	}
	if re(stampsRE).MatchString(c) && at(`:[0-5][0-9]`, s.text[at0+len(c):]) >= 0 {
		return nil
	}
	if f := s.accept(c, at0); f != nil {
		return f
	}
	for _, inner := range innerREs {
		first := true
		for _, g := range re(inner).FindAllStringSubmatchIndex(c, -1) {
			if s.tries <= 0 {
				break
			}
			if first {
				first = false
				if f := s.accept(trimUnwantedEnd(c[:g[0]]), at0); f != nil {
					return f
				}
				s.tries--
			}
			if f := s.accept(trimUnwantedEnd(c[g[2]:g[3]]), at0+g[2]); f != nil {
				return f
			}
			s.tries--
		}
	}
	return nil
}

func badNeighbour(r rune) bool {
	if r == '%' || unicode.Is(unicode.Sc, r) {
		return true
	}
	if !unicode.IsLetter(r) && !unicode.Is(unicode.Mn, r) {
		return false
	}
	return unicode.Is(unicode.Latin, r) || r >= 0x300 && r < 0x370
}

func (s *search) accept(c string, at0 int) *Found {
	if !re(bracketsRE).MatchString(c) || re(pagesRE).MatchString(c) {
		return nil
	}
	if s.len >= LValid {
		if at0 > 0 && at("["+opening+pluses+"]", c) < 0 {
			if r, _ := utf8.DecodeLastRuneInString(s.text[:at0]); badNeighbour(r) {
				return nil
			}
		}
		if end := at0 + len(c); end < len(s.text) {
			if r, _ := utf8.DecodeRuneInString(s.text[end:]); badNeighbour(r) {
				return nil
			}
		}
	}
	n, err := s.w.Parse(c, s.region, true)
	if err != nil || !s.w.Verify(n, c, s.len) {
		return nil
	}
	r := *n
	r.Raw, r.Src, r.Carrier = "", 0, ""
	return &Found{at0, at0 + len(c), c, r}
}

// Verify reports whether the candidate text of n satisfies leniency l.
func (w *World) Verify(n *Num, c string, l Leniency) bool {
	switch l {
	case LPossible:
		r := w.PossibleReason(n)
		return r == Possible || r == LocalOnly
	case LValid, LStrict, LExact:
	default:
		return false
	}
	if !w.Valid(n) || !w.xOK(n, c) {
		return false
	}
	if l >= LStrict && tooManySlashes(n, c) {
		return false
	}
	if !w.prefixPresent(n) {
		return false
	}
	if l == LValid {
		return true
	}
	norm := digitsKeep(c)
	check := w.groupsTogether
	if l == LExact {
		check = w.groupsExact
	}
	rfc := w.Format(n, RFC3966)
	if i := strings.IndexByte(rfc, ';'); i >= 0 {
		rfc = rfc[:i]
	}
	if check(n, norm, strings.Split(rfc[strings.IndexByte(rfc, '-')+1:], "-")) {
		return true
	}
	alt := w.Alt[n.CC]
	if alt == nil {
		return false
	}
	nsn := n.NSN()
	for _, f := range alt.Formats {
		if len(f.Leading) > 0 && at(f.Leading[0], nsn) < 0 {
			continue
		}
		if check(n, norm, strings.Split(f.apply(nsn, RFC3966, ""), "-")) {
			return true
		}
	}
	return false
}

func isX(b byte) bool { return b == 'x' || b == 'X' }

// xOK: two x's stand for a carrier code before the number, one x for an
// extension.
func (w *World) xOK(n *Num, c string) bool {
	for i := 0; i+1 < len(c); i++ {
		if !isX(c[i]) {
			continue
		}
		if isX(c[i+1]) {
			i++
			if w.MatchNumText(n, c[i:]) != NSNMatch {
				return false
			}
		} else if DigitsOnly(c[i:]) != n.Ext {
			return false
		}
	}
	return true
}

func tooManySlashes(n *Num, c string) bool {
	parts := strings.Split(c, "/")
	if len(parts) <= 2 {
		return false
	}
	if (n.Src == SrcPlus || n.Src == SrcNoPlus) && DigitsOnly(parts[0]) == strconv.Itoa(n.CC) {
		return len(parts) > 3
	}
	return true
}

// prefixPresent: a nationally written number needs its national prefix where
// the format has one.
func (w *World) prefixPresent(n *Num) bool {
	if n.Src != SrcDefault {
		return true
	}
	p := w.region(w.mainRegion(n.CC))
	if p == nil {
		return true
	}
	f := pick(p.Formats, n.NSN())
	if f == nil || f.NPRule == "" || f.NPOptional || full(`\(?\$1\)?`, f.NPRule) {
		return true
	}
	_, _, ok := p.stripNational(DigitsOnly(n.Raw))
	return ok
}

func (w *World) groupsTogether(n *Num, c string, groups []string) bool {
	pos := 0
	if n.Src != SrcDefault {
		cc := strconv.Itoa(n.CC)
		pos = strings.Index(c, cc) + len(cc)
	}
	for i, g := range groups {
		if pos > len(c) {
			return false
		}
		k := strings.Index(c[pos:], g)
		if k < 0 {
			return false
		}
		pos += k + len(g)
		if i == 0 && pos < len(c) {
			next, _ := utf8.DecodeRuneInString(c[pos:])
			if w.NDD(w.mainRegion(n.CC), true) != "" && unicode.IsDigit(next) {
				return strings.HasPrefix(c[pos-len(g):], n.NSN())
			}
		}
	}
	return strings.Contains(c[pos:], n.Ext)
}

func (w *World) groupsExact(n *Num, c string, groups []string) bool {
	have := splitNonDigits(c)
	for len(have) > 1 && have[len(have)-1] == "" {
		have = have[:len(have)-1]
	}
	if len(have) == 1 {
		return true
	}
	if n.Ext != "" {
		have = have[:len(have)-1]
	}
	k := len(have) - 1
	if strings.Contains(have[k], n.NSN()) {
		return true
	}
	for i := len(groups) - 1; i > 0 && k >= 0; i-- {
		if have[k] != groups[i] {
			return false
		}
		k--
	}
	return k >= 0 && strings.HasSuffix(have[k], groups[0])
}

// NDD returns the national prefix of region.
func (w *World) NDD(region string, strip bool) string {
	p := w.region(region)
	if p == nil {
		return ""
	}
	if strip {
		return strings.ReplaceAll(p.NatPrefix, "~", "")
	}
	return p.NatPrefix
}
