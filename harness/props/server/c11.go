package main

import (
	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
)

func runC11(c sessCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	o, err := play(s, c.Items)
	if err != nil {
		return err
	}
	if o.badReply != "" {
		return o.fail("%s", o.badReply)
	}
	m := modelOf(c.Items, nil)
	if d := model.DiffReplies(m.Replies, o.replies, true); d != "" {
		return o.fail("%s", d)
	}
	classes(r, c.Items)
	n := 0
	for _, w := range m.Replies {
		n += len(w.Confirms)
		r.ClassIf(w.ResultCode, "result code expected")
	}
	if n > 0 {
		r.NonTrivial()
	}
	return nil
}

// genManyRecords: packets whose record count goes up to the maximum that fits.
func genManyRecords(t *rapid.T) sessCase {
	id := newIDs(t)
	p := gen.Header(t)
	room := gen.MaxBody
	n := rapid.IntRange(1, 300).Draw(t, "n")
	switch rapid.IntRange(0, 3).Draw(t, "size") {
	case 0:
		n = rapid.IntRange(1, 20).Draw(t, "few")
	case 3:
		n = room / 7
	}
	base := gen.U16(t, "rn")
	sst := gen.B8(t, "sst")
	with := rapid.IntRange(0, 20).Draw(t, "every")
	for i := 0; i < n && room >= 7; i++ {
		r := ref.Record{RN: base + uint16(i), SST: sst, RST: sst}
		if with > 0 && i%with == with-1 {
			r.Subs = []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: id.Next(), VLD: 1}}}
		}
		l := len(r.Bytes())
		if l > room {
			break
		}
		room -= l
		p.Records = append(p.Records, r)
	}
	return sessCase{items(&p)}
}

func c11() pbt.Property {
	return pbt.Property{
		ID: "C11",
		Rule: "sessions of 1..6 valid packets (application data with 0..4 records, and up to 9359 records in the many-records sub-check; client responses; identities) against the real server, " +
			"everything it sends parsed by an independent parser and compared with the model's reply sequence; non-trivial: at least one record is to be confirmed; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("session", 30000, 1500000, genSess(sopt{Packets: 6, Responses: true}), guarded(runC11)),
			pbt.Make("many-records", 400, 10000, genManyRecords, guarded(runC11)),
			pbt.Make("large", 300, 10000, genSess(sopt{Packets: 3, Big: true, Responses: true}), guarded(runC11)),
		},
	}
}
