package main

import (
	"bytes"
	"fmt"
	"io"

	lha "github.com/jeromelesaux/lha"
	"verif/mc/ref"
)

// getHeader parses one header with the code under test; rest is how much of the
// stream it left.
func getHeader(b []byte) (h *lha.LzHeader, err error, has bool, consumed int) {
	cr := &countReader{b: b}
	var r io.Reader = cr
	h = lha.NewLzHeader()
	err, has = h.GetHeader(&r)
	return h, err, has, cr.pos
}

// headerDiff compares a parsed header with what the model says.
func headerDiff(h *lha.LzHeader, e *ref.Entry) string {
	var d []string
	f := func(what string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			d = append(d, fmt.Sprintf("%s %.60v instead of %.60v", what, fmt.Sprintf("%q", fmt.Sprint(got)), fmt.Sprintf("%q", fmt.Sprint(want))))
		}
	}
	f("level", h.HeaderLevel, e.Level)
	f("method", string(h.Method), e.Method)
	f("packed size", h.PackedSize, e.Packed)
	f("original size", h.OriginalSize, e.Orig)
	f("name", cname(h.Name), e.Name)
	f("link target", cname(h.Realname), e.Link)
	f("has CRC", h.HasCrc, e.Crc >= 0)
	if e.Crc >= 0 {
		f("CRC", h.Crc, e.Crc)
	}
	f("OS", h.ExtendType, e.OS)
	f("time", h.UnixLastModifiedStamp, e.Time)
	f("mode", h.UnixMode, e.Mode)
	f("uid", h.UnixUID, e.UID)
	f("gid", h.UnixGid, e.GID)
	f("user", cname(h.User), e.User)
	f("group", cname(h.Group), e.Group)
	f("attribute", h.Attribute, e.Attr)
	f("header size", h.HeaderSize, e.HeaderSize)
	if len(d) == 0 {
		return ""
	}
	return fmt.Sprint(d)
}

// writeHeader writes one with the code under test.
func writeHeader(h *lha.LzHeader) ([]byte, error) {
	var buf bytes.Buffer
	var w io.Writer = &buf
	err := lha.WriteHeader(&w, h)
	return buf.Bytes(), err
}
