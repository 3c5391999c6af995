// Package checks holds the executable properties.
package checks

import (
	"errors"
	"fmt"
	"strconv"

	pn "github.com/nyaruka/phonenumbers/v2"
	"google.golang.org/protobuf/proto"

	"verifharness/model"
	"verifharness/pbt"
)

// msg is toPB, except that in a series of questions the messages of the previous
// question are used again, as a caller does who parses into one message. Answers
// must not be remembered by the message's identity.
func msg(t *pbt.T, n *model.Num) *pn.PhoneNumber {
	fresh := toPB(n)
	old, ok := t.Again(fresh).(*pn.PhoneNumber)
	if !ok || old == fresh {
		return fresh
	}
	proto.Reset(old)
	proto.Merge(old, fresh)
	return old
}

// toPB turns a model number into a message. Optional fields are set only when
// they carry something.
func toPB(n *model.Num) *pn.PhoneNumber {
	p := &pn.PhoneNumber{CountryCode: proto.Int32(int32(n.CC)), NationalNumber: proto.Uint64(n.NN)}
	if n.Ext != "" {
		p.Extension = proto.String(n.Ext)
	}
	if n.ILZ {
		p.ItalianLeadingZero = proto.Bool(true)
	}
	if n.NLZ != 1 {
		p.NumberOfLeadingZeros = proto.Int32(n.NLZ)
	}
	if n.Raw != "" {
		p.RawInput = proto.String(n.Raw)
	}
	if n.Src != model.SrcUnspecified {
		s := pn.PhoneNumber_CountryCodeSource(n.Src)
		p.CountryCodeSource = &s
	}
	if n.Carrier != "" {
		p.PreferredDomesticCarrierCode = proto.String(n.Carrier)
	}
	return p
}

// fromPB reads a message through its getters.
func fromPB(p *pn.PhoneNumber) *model.Num {
	if p == nil {
		return nil
	}
	return &model.Num{CC: int(p.GetCountryCode()), NN: p.GetNationalNumber(), Ext: p.GetExtension(), ILZ: p.GetItalianLeadingZero(),
		NLZ: p.GetNumberOfLeadingZeros(), Raw: p.GetRawInput(), Src: model.Src(p.GetCountryCodeSource()), Carrier: p.GetPreferredDomesticCarrierCode()}
}

func show(n *model.Num) string {
	if n == nil {
		return "<nil>"
	}
	s := "{+" + strconv.Itoa(n.CC) + " " + strconv.FormatUint(n.NN, 10)
	if n.ILZ || n.NLZ != 1 {
		s += fmt.Sprintf(" zeros=%v/%d", n.ILZ, n.NLZ)
	}
	if n.Ext != "" {
		s += fmt.Sprintf(" ext=%q", n.Ext)
	}
	if n.Raw != "" {
		s += fmt.Sprintf(" raw=%q", n.Raw)
	}
	if n.Src != 0 {
		s += fmt.Sprintf(" src=%d", n.Src)
	}
	if n.Carrier != "" {
		s += fmt.Sprintf(" carrier=%q", n.Carrier)
	}
	return s + "}"
}

func eq(a, b *model.Num) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

// core strips everything that is not the number itself.
func core(n *model.Num) *model.Num {
	c := *n
	c.Raw, c.Src, c.Carrier = "", 0, ""
	return &c
}

var errMap = map[error]error{
	pn.ErrNotANumber: model.ErrNotANumber, pn.ErrNumTooLong: model.ErrTooLong, pn.ErrInvalidCountryCode: model.ErrCountryCode,
	pn.ErrTooShortAfterIDD: model.ErrShortIDD, pn.ErrTooShortNSN: model.ErrShortNSN,
}

// sameErr reports whether library error e is model error m.
func sameErr(e, m error) bool {
	if e == nil || m == nil {
		return e == nil && m == nil
	}
	for le, me := range errMap {
		if errors.Is(e, le) {
			return me == m
		}
	}
	return false
}
