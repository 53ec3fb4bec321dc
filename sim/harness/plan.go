package main

import (
	"fmt"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"zzsim/rt"
)

// filter is one scan filter.
type filter struct {
	P int32
	K []byte
	V []byte `json:",omitempty"`
}

// scanSpec is a scan request.
type scanSpec struct {
	Sig     int32
	Filters []filter `json:",omitempty"`
	Ranged  bool     `json:",omitempty"`
	Start   int64    `json:",omitempty"` // unix nanoseconds
	End     int64    `json:",omitempty"`
	Now     *int64   `json:",omitempty"` // relative to the moment the scan is sent if Rel, else unix nanoseconds
	Rel     bool     `json:",omitempty"`
	Offset  int64    `json:",omitempty"`
	Raw     []byte   `json:",omitempty"` // a request as it is, judged only by getting an answer
	NoCheck bool     `json:",omitempty"`
}

// op is one step of a plan, executed by the root of the simulation.
type op struct {
	ID   int
	K    string
	N    int64     `json:",omitempty"`
	D    int64     `json:",omitempty"` // duration
	Q    int64     `json:",omitempty"` // quantum
	B    bool      `json:",omitempty"`
	PB   []byte    `json:",omitempty"`
	S    *scanSpec `json:",omitempty"`
	Str  string    `json:",omitempty"`
	Strs []string  `json:",omitempty"`
	Ns   []int64   `json:",omitempty"`
	Note string    `json:",omitempty"`
}

// plan is a complete run except for the scheduler's decisions.
type plan struct {
	Prop string
	Kind string // which harness: "server", "translate", ...
	Seed uint64
	Cfg  rt.Config
	Ops  []op
}

func (s *scanSpec) request(now time.Time) *v1.Scan {
	if s.Raw != nil {
		o := &v1.Scan{}
		if proto.Unmarshal(s.Raw, o) == nil {
			return o
		}
		return &v1.Scan{}
	}
	o := &v1.Scan{Scope: v1.Scan_SCOPE(s.Sig)}
	for _, f := range s.Filters {
		if isAttr(f.P) {
			o.Filters = append(o.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_AttributeProp(f.P), Key: string(f.K), Value: string(f.V)}}})
		} else {
			o.Filters = append(o.Filters, &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_BaseProp(f.P), Value: string(f.K)}}})
		}
	}
	if s.Ranged {
		o.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(time.Unix(0, s.Start)), End: timestamppb.New(time.Unix(0, s.End))}
	}
	if s.Now != nil {
		t := time.Unix(0, *s.Now)
		if s.Rel {
			t = now.Add(time.Duration(*s.Now))
		}
		o.Now = timestamppb.New(t)
	}
	if s.Offset != 0 {
		o.Offset = durationpb.New(time.Duration(s.Offset))
	}
	return o
}

func (s *scanSpec) String() string {
	x := fmt.Sprintf("scan %v", v1.Scan_SCOPE(s.Sig))
	for _, f := range s.Filters {
		x += fmt.Sprintf(" %s=%q", propName(f.P), string(f.K))
		if isAttr(f.P) {
			x += fmt.Sprintf(":%q", string(f.V))
		}
	}
	if s.Ranged {
		x += fmt.Sprintf(" [%s, %s)", time.Unix(0, s.Start).UTC().Format(time.RFC3339Nano), time.Unix(0, s.End).UTC().Format(time.RFC3339Nano))
	} else {
		x += " instant"
	}
	if s.Offset != 0 {
		x += " offset " + time.Duration(s.Offset).String()
	}
	return x
}

func propName(p int32) string {
	if isAttr(p) {
		return v1.Scan_AttributeProp(p).String()
	}
	return v1.Scan_BaseProp(p).String()
}

func (o op) String() string {
	switch o.K {
	case "export":
		return fmt.Sprintf("#%d export %s", o.ID, describe(o.PB))
	case "scan":
		return fmt.Sprintf("#%d %s", o.ID, o.S)
	case "adv", "stall":
		return fmt.Sprintf("#%d %s %s", o.ID, o.K, time.Duration(o.D))
	}
	return fmt.Sprintf("#%d %s %d %s", o.ID, o.K, o.N, o.Str)
}

func describe(pb []byte) string {
	d := &v1.Data{}
	if proto.Unmarshal(pb, d) != nil {
		return "?"
	}
	l, ts := exportLabels(d)
	s := ""
	if len(ts) > 0 {
		s = time.Unix(0, int64(ts[0])).UTC().Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("%d atoms, %d labels, first at %s, %d bytes", len(atomKeys(d)), len(l), s, len(pb))
}
