// Package model is an executable reference model of what the phonenumbers
// library promises: an independent implementation, over its own data types and
// its own decoding of the numbering-plan data, of parsing, validation,
// formatting, matching, text search and prefix lookups. It shares no code with
// the library.
package model

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// Desc describes the numbers of one kind.
type Desc struct {
	HasPattern bool
	Pattern    string
	Lengths    []int32
	Local      []int32
	Example    string
}

// NumFmt is a formatting rule.
type NumFmt struct {
	Pattern     string
	Format      string
	Leading     []string
	NPRule      string
	NPOptional  bool
	CarrierRule string
}

// Kind indexes the number descriptions of a plan.
type Kind int

// Kinds of descriptions.
const (
	General Kind = iota
	FixedLine
	Mobile
	TollFree
	PremiumRate
	SharedCost
	PersonalNumber
	Voip
	Pager
	Uan
	Voicemail
	NoIntl
	Emergency
	ShortCode
	StandardRate
	CarrierSpecific
	SmsServices
	NumKinds
)

// Plan is the numbering plan of a region (or of a non-geographical code).
type Plan struct {
	ID            string
	CC            int
	IntlPrefix    string
	PrefIntl      string
	NatPrefix     string
	ExtnPrefix    string
	NPForParsing  string
	NPTransform   string
	SameMobFixed  bool
	Formats       []*NumFmt
	IntlFormats   []*NumFmt
	MainCountry   bool
	LeadingDigits string
	MNP           bool
	D             [NumKinds]*Desc
}

// World is everything the model knows.
type World struct {
	Regions map[string]*Plan
	NonGeo  map[int]*Plan
	CC2R    map[int][]string
	Short   map[string]*Plan
	Alt     map[int]*Plan
	// derived
	Supported map[string]bool
	NANPA     map[string]bool
	RegionIDs []string // sorted supported regions
	Codes     []int    // sorted calling codes
	GeoCodes  []int
	NGCodes   []int
}

// ---- protobuf wire decoding ----

type wire struct {
	b []byte
}

func (w *wire) uvarint() uint64 {
	v, n := binary.Uvarint(w.b)
	if n <= 0 {
		panic("model: bad varint")
	}
	w.b = w.b[n:]
	return v
}

func (w *wire) field(f func(num int, typ int, val uint64, data []byte)) {
	for len(w.b) > 0 {
		tag := w.uvarint()
		num, typ := int(tag>>3), int(tag&7)
		switch typ {
		case 0:
			f(num, typ, w.uvarint(), nil)
		case 2:
			n := int(w.uvarint())
			d := w.b[:n]
			w.b = w.b[n:]
			f(num, typ, 0, d)
		default:
			panic(fmt.Sprintf("model: wire type %d", typ))
		}
	}
}

func ints(dst []int32, typ int, val uint64, data []byte) []int32 {
	if typ == 0 {
		return append(dst, int32(val))
	}
	w := wire{data}
	for len(w.b) > 0 {
		dst = append(dst, int32(w.uvarint()))
	}
	return dst
}

func decodeDesc(b []byte) *Desc {
	d := &Desc{}
	w := wire{b}
	w.field(func(num, typ int, val uint64, data []byte) {
		switch num {
		case 2:
			d.HasPattern, d.Pattern = true, string(data)
		case 6:
			d.Example = string(data)
		case 9:
			d.Lengths = ints(d.Lengths, typ, val, data)
		case 10:
			d.Local = ints(d.Local, typ, val, data)
		}
	})
	return d
}

func decodeFmt(b []byte) *NumFmt {
	f := &NumFmt{}
	w := wire{b}
	w.field(func(num, typ int, val uint64, data []byte) {
		switch num {
		case 1:
			f.Pattern = string(data)
		case 2:
			f.Format = string(data)
		case 3:
			f.Leading = append(f.Leading, string(data))
		case 4:
			f.NPRule = string(data)
		case 5:
			f.CarrierRule = string(data)
		case 6:
			f.NPOptional = val != 0
		}
	})
	return f
}

var descFields = map[int]Kind{1: General, 2: FixedLine, 3: Mobile, 4: TollFree, 5: PremiumRate, 6: SharedCost,
	7: PersonalNumber, 8: Voip, 21: Pager, 25: Uan, 27: Emergency, 28: Voicemail, 29: ShortCode, 30: StandardRate,
	31: CarrierSpecific, 33: SmsServices, 24: NoIntl}

func decodePlan(b []byte) *Plan {
	p := &Plan{}
	w := wire{b}
	w.field(func(num, typ int, val uint64, data []byte) {
		if k, ok := descFields[num]; ok {
			p.D[k] = decodeDesc(data)
			return
		}
		switch num {
		case 9:
			p.ID = string(data)
		case 10:
			p.CC = int(int32(val))
		case 11:
			p.IntlPrefix = string(data)
		case 17:
			p.PrefIntl = string(data)
		case 12:
			p.NatPrefix = string(data)
		case 13:
			p.ExtnPrefix = string(data)
		case 15:
			p.NPForParsing = string(data)
		case 16:
			p.NPTransform = string(data)
		case 18:
			p.SameMobFixed = val != 0
		case 19:
			p.Formats = append(p.Formats, decodeFmt(data))
		case 20:
			p.IntlFormats = append(p.IntlFormats, decodeFmt(data))
		case 22:
			p.MainCountry = val != 0
		case 23:
			p.LeadingDigits = string(data)
		case 32:
			p.MNP = val != 0
		}
	})
	return p
}

// DecodePlans decodes a serialized plan collection.
func DecodePlans(raw []byte) []*Plan {
	var out []*Plan
	w := wire{raw}
	w.field(func(num, typ int, val uint64, data []byte) {
		if num == 1 {
			out = append(out, decodePlan(data))
		}
	})
	return out
}

// Gunzip inflates a gzip file's contents.
func Gunzip(b []byte) ([]byte, error) {
	zr, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(zr)
}

func readGz(path string) ([]byte, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return Gunzip(b)
}

// table reads the interned-string prefix tables: u32 length, the strings joined
// by newlines, u32 entry count, then per entry a varint key delta followed by
// string indexes.
type table struct {
	vals []string
	n    int
	b    []byte
}

func openTable(raw []byte) *table {
	n := int(binary.LittleEndian.Uint32(raw))
	vals := strings.Split(string(raw[4:4+n]), "\n")
	raw = raw[4+n:]
	return &table{vals, int(binary.LittleEndian.Uint32(raw)), raw[4:]}
}

func (t *table) delta() int {
	v, n := binary.Uvarint(t.b)
	if n <= 0 {
		panic("model: bad table")
	}
	t.b = t.b[n:]
	return int(v)
}

func (t *table) str() string {
	i := int(binary.LittleEndian.Uint16(t.b))
	t.b = t.b[2:]
	return t.vals[i]
}

// DecodeStringTable decodes a prefix -> string table.
func DecodeStringTable(raw []byte) map[int]string {
	t := openTable(raw)
	out := map[int]string{}
	k := 0
	for i := 0; i < t.n; i++ {
		k += t.delta()
		out[k] = t.str()
	}
	return out
}

// DecodeListTable decodes a prefix -> list of strings table.
func DecodeListTable(raw []byte) map[int][]string {
	t := openTable(raw)
	out := map[int][]string{}
	k := 0
	for i := 0; i < t.n; i++ {
		k += t.delta()
		c := int(t.b[0])
		t.b = t.b[1:]
		l := make([]string, c)
		for j := range l {
			l[j] = t.str()
		}
		out[k] = l
	}
	return out
}

// RepoDir is where the code under test lives.
func RepoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Derive fills in the derived sets of w.
func (w *World) Derive() *World {
	w.Supported = map[string]bool{}
	w.NANPA = map[string]bool{}
	w.RegionIDs, w.Codes, w.GeoCodes, w.NGCodes = nil, nil, nil, nil
	for cc, rs := range w.CC2R {
		w.Codes = append(w.Codes, cc)
		if len(rs) == 1 && rs[0] == "001" {
			w.NGCodes = append(w.NGCodes, cc)
			continue
		}
		w.GeoCodes = append(w.GeoCodes, cc)
		for _, r := range rs {
			if r != "001" {
				w.Supported[r] = true
			}
		}
	}
	for _, r := range w.CC2R[1] {
		w.NANPA[r] = true
	}
	for r := range w.Supported {
		w.RegionIDs = append(w.RegionIDs, r)
	}
	sort.Strings(w.RegionIDs)
	sort.Ints(w.Codes)
	sort.Ints(w.GeoCodes)
	sort.Ints(w.NGCodes)
	return w
}

// FromPlans builds a world from plans and the calling code map.
func FromPlans(plans []*Plan, cc2r map[int][]string) *World {
	w := &World{Regions: map[string]*Plan{}, NonGeo: map[int]*Plan{}, CC2R: cc2r, Short: map[string]*Plan{}, Alt: map[int]*Plan{}}
	for _, p := range plans {
		if p.ID == "001" {
			w.NonGeo[p.CC] = p
		} else {
			w.Regions[p.ID] = p
		}
	}
	return w.Derive()
}

var (
	embOnce sync.Once
	embW    *World
	embErr  error
)

// Embedded returns the world described by the data files embedded in the library.
func Embedded() *World {
	embOnce.Do(func() {
		dir := RepoDir()
		raw, err := readGz(filepath.Join(dir, "metadata/data/metadata.xml.gz"))
		if err != nil {
			embErr = err
			return
		}
		rraw, err := readGz(filepath.Join(dir, "metadata/data/countrycode_to_region.xml.gz"))
		if err != nil {
			embErr = err
			return
		}
		w := FromPlans(DecodePlans(raw), DecodeListTable(rraw))
		if raw, err = readGz(filepath.Join(dir, "data/shortnumber_metadata.xml.gz")); err != nil {
			embErr = err
			return
		}
		for _, p := range DecodePlans(raw) {
			if p.ID != "001" {
				w.Short[p.ID] = p
			}
		}
		if raw, err = readGz(filepath.Join(dir, "data/alternateformats_metadata.xml.gz")); err != nil {
			embErr = err
			return
		}
		for _, p := range DecodePlans(raw) {
			w.Alt[p.CC] = p
		}
		embW = w
	})
	if embErr != nil {
		panic("model: cannot read the library's data files: " + embErr.Error())
	}
	return embW
}

// LangTables reads every "<lang>.txt.gz" table of a data directory of the repo.
func LangTables(sub string) map[string]map[int]string {
	files, err := filepath.Glob(filepath.Join(RepoDir(), sub, "*.txt.gz"))
	if err != nil || len(files) == 0 {
		panic("model: no tables in " + sub)
	}
	out := map[string]map[int]string{}
	for _, f := range files {
		raw, err := readGz(f)
		if err != nil {
			panic(err)
		}
		out[strings.TrimSuffix(filepath.Base(f), ".txt.gz")] = DecodeStringTable(raw)
	}
	return out
}

// TimezoneTable reads the prefix to timezones table.
func TimezoneTable() map[int][]string {
	raw, err := readGz(filepath.Join(RepoDir(), "timezone/data/prefix_to_timezone.xml.gz"))
	if err != nil {
		panic(err)
	}
	return DecodeListTable(raw)
}

// ---- regexps ----

var reCache sync.Map

func re(p string) *regexp.Regexp {
	if v, ok := reCache.Load(p); ok {
		return v.(*regexp.Regexp)
	}
	r := regexp.MustCompile(p)
	reCache.Store(p, r)
	return r
}

// full reports whether pattern matches all of s.
func full(pattern, s string) bool { return re(`\A(?:` + pattern + `)\z`).MatchString(s) }

// at returns the end of the match of pattern at the start of s, or -1.
func at(pattern, s string) int {
	loc := re(`\A(?:` + pattern + `)`).FindStringIndex(s)
	if loc == nil {
		return -1
	}
	return loc[1]
}
