package main

import (
	"fmt"
	"strings"

	"github.com/chronos-tachyon/flate"
)

// evText renders everything observable in an event.
func evText(e flate.Event) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v in=%d/%d out=%d/%d n=%d f=%v", e.Type, e.InputBytesTotal, e.InputBytesStream, e.OutputBytesTotal, e.OutputBytesStream, e.NumStreams, e.Format)
	if e.Header != nil {
		fmt.Fprintf(&sb, " hdr=%s", hdrText(*e.Header))
	}
	if e.Block != nil {
		fmt.Fprintf(&sb, " blk=%v/%v", e.Block.Type, e.Block.IsFinal)
	}
	if t := e.Trees; t != nil {
		fmt.Fprintf(&sb, " trees=%d/%d/%d %x %x %x", t.CodeCount, t.LiteralLengthCount, t.DistanceCount, []byte(t.CodeSizes), []byte(t.LiteralLengthSizes), []byte(t.DistanceSizes))
	}
	if e.Footer != nil {
		fmt.Fprintf(&sb, " ftr=%08x/%08x", uint32(e.Footer.Adler32), uint32(e.Footer.CRC32))
	}
	return sb.String()
}

func hdrText(h flate.Header) string {
	var sb strings.Builder
	mt := "-"
	if !h.LastModified.IsZero() {
		mt = fmt.Sprint(h.LastModified.Unix())
	}
	fmt.Fprintf(&sb, "{%q %q %s %v %v wb=%v lvl=%v [", h.FileName, h.Comment, mt, h.DataType, h.OSType, h.WindowBits, h.CompressLevel)
	for _, r := range h.ExtraData.Records {
		fmt.Fprintf(&sb, "%x:%x ", r.ID, r.Bytes)
	}
	sb.WriteString("]}")
	return sb.String()
}

// evLog is a tracer recording rendered events.
type evLog struct {
	lines []string
	evs   []flate.Event
	keep  bool
}

func (l *evLog) OnEvent(e flate.Event) {
	l.lines = append(l.lines, evText(e))
	if l.keep {
		l.evs = append(l.evs, cloneEvent(e))
	}
}

func cloneHeader(h flate.Header) flate.Header {
	h.ExtraData.Records = append([]flate.ExtraDataRecord(nil), h.ExtraData.Records...)
	for i := range h.ExtraData.Records {
		h.ExtraData.Records[i].Bytes = append([]byte(nil), h.ExtraData.Records[i].Bytes...)
	}
	return h
}

func cloneEvent(e flate.Event) flate.Event {
	if e.Header != nil {
		h := cloneHeader(*e.Header)
		e.Header = &h
	}
	if e.Block != nil {
		b := *e.Block
		e.Block = &b
	}
	if e.Trees != nil {
		t := *e.Trees
		t.CodeSizes = append(flate.SizeList(nil), t.CodeSizes...)
		t.LiteralLengthSizes = append(flate.SizeList(nil), t.LiteralLengthSizes...)
		t.DistanceSizes = append(flate.SizeList(nil), t.DistanceSizes...)
		e.Trees = &t
	}
	if e.Footer != nil {
		f := *e.Footer
		e.Footer = &f
	}
	return e
}

func diffLines(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<none>", "<none>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("event %d:\n   got  %s\n   want %s", i, head(x, 700), head(y, 700))
		}
	}
	return ""
}
