package h

import (
	"github.com/gogama/flatgeobuf/flatgeobuf"
	"verif/harness/vf"
)

func magicOK(b []byte) bool {
	ok := true
	for i, c := range []byte{'f', 'g', 'b', 0, 'f', 'g', 'b'} {
		if i != 3 {
			ok = vf.And(ok, b[i] == c)
		}
	}
	return ok
}

// Every byte string of up to 11 bytes, every first chunk size.
func C07_magic() {
	n := vf.Choose("len", vf.Param("stream lengths below", 12, 20))
	chunk := vf.Choose("chunk", 10)
	b := vf.Bytes("b", n)
	s := newSrc(b, chunk)
	s.lastEOF = vf.Choose("eof with last bytes", 2) == 1
	v, err := flatgeobuf.Magic(s)
	if n < 8 {
		vf.Assert(err != nil, "short-is-error")
		vf.Assert(s.pos == n, "short-consumes-all")
		vf.Reach("short")
		return
	}
	vf.Assert((err == nil) == magicOK(b), "recognised-iff-magic")
	vf.Assert(s.pos == 8, "consumes-eight")
	vf.Assert(vf.Imp(err == nil, vf.And(v.Major == b[3], v.Patch == b[7])), "version-bytes")
	if err == nil {
		vf.Obs("major", uint64(v.Major))
		vf.Obs("patch", uint64(v.Patch))
		vf.Reach("recognised")
	} else {
		vf.Reach("refused")
	}
}

// The file reader: eight arbitrary bytes before a good header.
func C07_reader() {
	hdr := headerBytes(vf.U64("count"), 0)
	b := append(vf.Bytes("magic", 8), hdr...)
	r := flatgeobuf.NewFileReader(newSrc(b, 0))
	h, err := r.Header()
	want := vf.And(magicOK(b), b[3] == 3)
	if err == nil {
		vf.Assert(want, "accepted-only-version-3")
		vf.Assert(h != nil, "header-returned")
		vf.Reach("accepted")
	} else {
		// counts beyond int are refused for another reason
		vf.Assert(vf.Or(!want, h != nil), "refused-only-others")
		vf.Assert(vf.Imp(!want, h == nil), "no-header-without-magic")
		vf.Reach("refused")
	}
	vf.Assert(flatgeobuf.MinSpecMajorVersion == 3 && flatgeobuf.MaxSpecMajorVersion == 3, "supported-range")
}

// What the writer emits is accepted by both.
func C07_writer() {
	hdr := headerBytes(uint64(vf.U8("count")), vf.U16("nodeSize"))
	var w sink
	n, err := flatgeobuf.NewFileWriter(&w).Header(asHeader(hdr))
	if err != nil {
		vf.Assert(len(w.b) == 0 && n == 0, "refused-writes-nothing")
		return
	}
	v, err := flatgeobuf.Magic(newSrc(w.b, 0))
	vf.Assert(err == nil && v.Major == 3, "magic-accepts")
	vf.Assert(eqBytes(w.b[8:], hdr), "header-follows")
	_, err = flatgeobuf.NewFileReader(newSrc(w.b, 0)).Header()
	vf.Assert(err == nil, "reader-accepts")
	vf.Reach("written")
}
