package h

import (
	"encoding/binary"
	"io"

	"github.com/gogama/flatgeobuf/packedrtree"
	"verif/harness/vf"
)

type cfg struct {
	n  int
	ns uint16
}

func symRefs(n int) []packedrtree.Ref {
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		b := box("ref")
		vf.Assume(noNaN(b))
		refs[i] = packedrtree.Ref{Box: b, Offset: vf.I64("off")}
	}
	return refs
}

func boxesOf(refs []packedrtree.Ref) []packedrtree.Box {
	bs := make([]packedrtree.Box, len(refs))
	for i := range refs {
		bs[i] = refs[i].Box
	}
	return bs
}

// checkExact asserts that rs holds each ref that touches q once and nothing else.
func checkExact(refs []packedrtree.Ref, q packedrtree.Box, rs packedrtree.Results, id string) {
	cnt := make([]int, len(refs))
	for i := range rs {
		k := rs[i].RefIndex
		vf.Assert(k >= 0 && k < len(refs), id+"-refindex-in-range")
		cnt[k]++
		vf.Assert(rs[i].Offset == refs[k].Offset, id+"-offset-of-ref")
	}
	for k := range refs {
		vf.Assert(cnt[k] <= 1, id+"-once")
		vf.Assert((cnt[k] == 1) == touches(refs[k].Box, q), id+"-iff-intersects")
	}
}

func symQuery() packedrtree.Box {
	q := box("q")
	vf.Assume(noNaN(q))
	return q
}

// All references and the query arbitrary, small trees.
func C01_small() {
	n := 1 + vf.Choose("n", vf.Param("max refs (all boxes symbolic)", 7, 9))
	ns := uint16(2 + vf.Choose("nodeSize-2", vf.Param("node sizes from 2", 3, 5)))
	refs := symRefs(n)
	given := make([]packedrtree.Ref, n)
	copy(given, refs)
	q := symQuery()
	t, err := packedrtree.New(given, ns)
	vf.Assert(err == nil, "new-succeeds")
	for i := range given {
		given[i] = packedrtree.Ref{} // the index holds copies
	}
	vf.Assert(t.NumRefs() == n, "numrefs")
	vf.Assert(t.NodeSize() == ns, "nodesize")
	vf.Assert(hullOf(boxesOf(refs), t.Bounds()), "bounds-smallest")
	rs := t.Search(q)
	checkExact(refs, q, rs, "search")
	if len(rs) == n && n > 2 {
		vf.Reach("all hit")
	}
	if len(rs) == 0 {
		vf.Reach("no hit")
	}
}

// Larger trees: every leaf is the square [i,i+1] on a diagonal, except one
// arbitrary leaf anywhere; the query is arbitrary.
func C01_one_arbitrary_leaf() {
	cfgs := []cfg{{5, 2}, {8, 2}, {10, 3}, {17, 16}}
	if vf.Thorough() {
		cfgs = append(cfgs, cfg{9, 3}, cfg{16, 4}, cfg{17, 4}, cfg{17, 2}, cfg{28, 3}, cfg{21, 4})
	}
	c := cfgs[vf.Choose("cfg", len(cfgs))]
	ps := []int{0, c.n / 2, c.n - 1}
	p := ps[vf.Choose("pos", len(ps))]
	refs := make([]packedrtree.Ref, c.n)
	for i := range refs {
		f := float64(3 * i)
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: f, YMin: f, XMax: f + 1, YMax: f + 1}, Offset: int64(100 + i)}
	}
	b := box("leaf")
	vf.Assume(noNaN(b))
	refs[p].Box = b
	q := symQuery()
	t, err := packedrtree.New(refs, c.ns)
	vf.Assert(err == nil, "new-succeeds")
	vf.Assert(hullOf(boxesOf(refs), t.Bounds()), "bounds-smallest")
	checkExact(refs, q, t.Search(q), "search")
	vf.Reach("searched")
}

// Multi-level trees up to a few hundred references of one point each; the
// query is any point, so every leaf is reached along its own child range.
func C01_every_leaf_of_large_trees() {
	cfgs := []cfg{{1, 2}, {1, 16}, {2, 65535}, {16, 16}, {17, 16}, {31, 2}, {32, 2}, {33, 2}, {80, 3}, {82, 3}, {63, 4}, {65, 4}, {126, 5}, {150, 100}, {257, 16}}
	if vf.Thorough() {
		cfgs = append(cfgs, cfg{127, 2}, cfg{129, 2}, cfg{243, 3}, cfg{244, 3}, cfg{256, 4}, cfg{258, 4}, cfg{626, 5}, cfg{273, 16}, cfg{600, 24}, cfg{300, 299}, cfg{300, 65535})
	}
	c := cfgs[vf.Choose("cfg", len(cfgs))]
	refs := make([]packedrtree.Ref, c.n)
	for i := range refs {
		f := float64(i)
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: f, YMin: -f, XMax: f, YMax: -f}, Offset: int64(1000 + 7*i)}
	}
	x := vf.F64("x")
	vf.Assume(notNaN(x))
	q := packedrtree.Box{XMin: x, YMin: -1e9, XMax: x, YMax: 1e9}
	t, err := packedrtree.New(refs, c.ns)
	vf.Assert(err == nil, "new-succeeds")
	vf.Assert(sameBox(t.Bounds(), packedrtree.Box{XMin: 0, YMin: -float64(c.n - 1), XMax: float64(c.n - 1), YMax: 0}), "bounds-smallest")
	checkExact(refs, q, t.Search(q), "search")
	vf.Reach("searched")
}

// Queries that hit (nearly) everything, so that many nodes wait to be visited:
// the query is any box that reaches over all references but one arbitrary one.
func C01_wide_queries() {
	cfgs := []cfg{{40, 16}, {70, 2}, {300, 16}, {2000, 50}, {1200, 100}, {5000, 70}}
	if vf.Thorough() {
		cfgs = append(cfgs, cfg{2100, 64}, cfg{9000, 300}, cfg{4200, 4}, cfg{20000, 140})
	}
	vf.Steps(100_000_000)
	c := cfgs[vf.Choose("cfg", len(cfgs))]
	p := []int{0, c.n / 2, c.n - 1}[vf.Choose("pos", 3)]
	refs := make([]packedrtree.Ref, c.n)
	for i := range refs {
		f := float64(i)
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: f, YMin: 0, XMax: f, YMax: 1}, Offset: int64(1000 + 7*i)}
	}
	x := vf.F64("leaf")
	vf.Assume(notNaN(x))
	refs[p].XMin, refs[p].XMax = x, x
	q := packedrtree.Box{XMin: -1, YMin: 0, XMax: float64(c.n), YMax: 1}
	if vf.Choose("side", 2) == 0 {
		q.XMin = vf.F64("min")
		vf.Assume(q.XMin <= 0)
	}
	t, err := packedrtree.New(refs, c.ns)
	vf.Assert(err == nil, "new-succeeds")
	rs := t.Search(q)
	hit := vf.And(x >= q.XMin, x <= q.XMax)
	want := c.n - 1
	if hit {
		want++
	}
	vf.Assert(len(rs) == want, "number")
	seen := make([]bool, c.n)
	for _, r := range rs {
		i := vf.Fix(r.RefIndex)
		vf.Assert(i >= 0 && i < c.n && !seen[i], "each-once")
		seen[i] = true
		vf.Assert(r.Offset == int64(1000+7*i), "offset")
	}
	vf.Reach("searched")
}

func manyRefs(n int) []packedrtree.Ref {
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		f := float64(i)
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: f, YMin: 0, XMax: f, YMax: 1}, Offset: int64(1000 + 7*i)}
	}
	return refs
}

// More references than fit in 16 bits, and any point as query in one of the
// leaf nodes around there.
func C01_many_refs() {
	vf.Steps(1_000_000_000)
	n := 66000 - vf.Choose("66000-n", vf.Param("counts from 66000 down in steps of 40", 1, 20))*40
	ns := []uint16{16, 300}[vf.Choose("nodeSize", vf.Param("node sizes", 1, 2))]
	refs := manyRefs(n)
	t, err := packedrtree.New(refs, ns)
	vf.Assert(err == nil, "new-succeeds")
	vf.Assert(t.NumRefs() == n, "numrefs")
	vf.Assert(sameBox(t.Bounds(), packedrtree.Box{XMax: float64(n - 1), YMax: 1}), "bounds-smallest")
	x, lo := pointAmong(n)
	theOne(t.Search(packedrtree.Box{XMin: x, XMax: x, YMax: 1}), x, lo)
}

// pointAmong is an abscissa somewhere around the first, middle or last five.
func pointAmong(n int) (x float64, lo int) {
	lo = []int{0, n / 2, n - 5}[vf.Choose("where", 3)]
	x = vf.F64("x")
	vf.Assume(x >= float64(lo) && x < float64(lo+5))
	return
}

func theOne(rs packedrtree.Results, x float64, lo int) {
	at := -1
	for i := lo; i < lo+5; i++ {
		if x == float64(i) {
			at = i
		}
	}
	if at >= 0 {
		vf.Assert(len(rs) == 1 && rs[0].RefIndex == at && rs[0].Offset == int64(1000+7*at), "the-one")
		vf.Reach("hit")
	} else {
		vf.Assert(len(rs) == 0, "none")
		vf.Reach("miss")
	}
}

// ---- C04

// refSize is the definition: 40 bytes for every node, where the references
// form the bottom level and each level above has one node for every ns nodes
// (or part thereof) below, up to a single root; at least one level of parents.
// ok is false when that does not fit in an int.
func refSize(n, ns uint64) (int, bool) {
	parents := uint64(0)
	for level := n; ; {
		level = (level + ns - 1) / ns // n < 2^63: no wrap
		parents += level
		if level == 1 {
			break
		}
	}
	// parents < 2^63 as every level has at most half (rounded up) of the one below
	total := n + parents
	if total > (1<<63-1)/40 {
		return 0, false
	}
	return int(total) * 40, true
}

// refSizeClosed is the closed form: level k has ceil(n/ns^k) nodes.
func refSizeClosed(n, ns uint64) int {
	total := n
	for pow := ns; ; pow *= ns {
		nodes := n / pow
		if nodes*pow != n {
			nodes++
		}
		total += nodes
		if nodes == 1 {
			return int(total) * 40
		}
	}
}

func checkSize(n int, ns uint16) {
	sz, err := packedrtree.Size(n, ns)
	want, ok := refSize(uint64(n), uint64(ns))
	vf.Assert((err == nil) == ok, "error-iff-overflow")
	vf.Assert(vf.Imp(err == nil, sz == want), "exact")
	if ok {
		vf.Obs("size", uint64(sz))
	}
}

// Node sizes that are powers of two: every 63-bit count, split by magnitude
// (2^e < n <= 2^(e+1)).
func C04_pow2_all_counts() {
	ks := []int{1, 3, 4, 15}
	if vf.Thorough() {
		ks = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	}
	ns := uint16(1) << ks[vf.Choose("k", len(ks))]
	e := vf.Choose("e", 64) - 1
	n := 1
	if e >= 0 {
		n = 1<<e + 1 + vf.Int("x", 0, 1<<e-1)
	}
	vf.Assume(n > 0) // counts are non-negative ints
	checkSize(n, ns)
	vf.Reach("sized")
	if e == 62 {
		vf.Reach("huge count")
	}
}

// Other node sizes: every count up to a bound.
func C04_any_nodesize() {
	list := []int{3, 5, 6, 7, 10, 12, 15, 17, 24, 31, 33, 63, 100, 255, 257, 1000, 4097, 65535}
	ns := uint16(list[vf.Choose("ns", len(list))])
	n := vf.Int("n", 1, 1<<vf.Param("counts below 2^k, k =", 14, 20))
	checkSize(n, ns)
	sz, _ := packedrtree.Size(n, ns)
	vf.Assert(sz == refSizeClosed(uint64(n), uint64(ns)), "closed-form")
	vf.Reach("sized")
}

// The same node sizes, around the largest count whose size fits.
func C04_largest_counts() {
	list := []int{100, 127, 129, 255, 257, 1000, 4097, 12345, 32767, 65534, 65535}
	ns := uint16(2 + vf.Choose("ns", vf.Param("node sizes from 2", 48, 500)+len(list)))
	if k := int(ns) - 2 - vf.Param("node sizes from 2", 48, 500); k >= 0 {
		ns = uint16(list[k])
	}
	lo, hi := uint64(1), uint64(1)<<62 // lo fits, hi does not
	for hi-lo > 1 {
		if _, ok := refSize(lo+(hi-lo)/2, uint64(ns)); ok {
			lo += (hi - lo) / 2
		} else {
			hi = lo + (hi-lo)/2
		}
	}
	w := vf.Param("counts around the limit, each way", 500, 60000)
	n := int(lo) - w + vf.Int("x", 0, 2*w)
	checkSize(n, ns)
	vf.Reach("sized")
}

// Both arbitrary within small ranges.
func C04_both_small() {
	n := vf.Int("n", 1, vf.Param("max count", 64, 200))
	ns := vf.Int("ns", 2, vf.Param("max node size", 40, 80))
	ns = vf.Fix(ns)
	checkSize(n, uint16(ns))
	vf.Reach("sized")
}

// Arguments outside the domain are refused by a panic, others never panic.
func C04_domain() {
	n := int(vf.I64("n"))
	ns := vf.U16("ns")
	vf.Assume(vf.Or(n < 1, ns < 2))
	vf.Assert(panics(func() { packedrtree.Size(n, ns) }), "refused")
	vf.Assert(panics(func() { packedrtree.Unmarshal(newSrc(nil, 0), n, ns) }), "unmarshal-refused")
	vf.Reach("refused")
}

// ---- C02, C03

// levelStarts lists, root first, the node index at which each level starts.
func levelStarts(n, ns int) (starts []int, total int) {
	counts := []int{n}
	for c := n; ; {
		c = (c + ns - 1) / ns
		counts = append(counts, c)
		if c == 1 {
			break
		}
	}
	for i := len(counts) - 1; i >= 0; i-- {
		starts = append(starts, total)
		total += counts[i]
	}
	return starts, total
}

func C03_layout_and_roundtrip() {
	n := 1 + vf.Choose("n", vf.Param("max refs", 6, 12))
	ns := 2 + vf.Choose("nodeSize-2", vf.Param("node sizes from 2", 4, 6))
	refs := symRefs(n)
	t, err := packedrtree.New(refs, uint16(ns))
	vf.Assert(err == nil, "new-succeeds")
	var w sink
	k, err := t.Marshal(&w)
	vf.Assert(err == nil, "marshal-succeeds")
	sz, err := packedrtree.Size(n, uint16(ns))
	vf.Assert(err == nil && k == sz && len(w.b) == sz, "exactly-size-bytes")
	starts, total := levelStarts(n, ns)
	vf.Assert(total*40 == sz, "node-count")
	nodeBox := func(i int) packedrtree.Box {
		return packedrtree.Box{XMin: f64at(w.b, 40*i), YMin: f64at(w.b, 40*i+8), XMax: f64at(w.b, 40*i+16), YMax: f64at(w.b, 40*i+24)}
	}
	off := func(i int) int64 { return int64(binary.LittleEndian.Uint64(w.b[40*i+32:])) }
	leaf0 := starts[len(starts)-1]
	for i := 0; i < n; i++ {
		vf.Assert(sameBits(nodeBox(leaf0+i), refs[i].Box), "leaf-box-bits")
		vf.Assert(off(leaf0+i) == refs[i].Offset, "leaf-offset")
	}
	for l := 0; l+1 < len(starts); l++ {
		end := total
		if l+2 < len(starts) {
			end = starts[l+2]
		}
		for i := starts[l]; i < starts[l+1]; i++ {
			c0 := starts[l+1] + (i-starts[l])*ns
			c1 := c0 + ns
			if c1 > end {
				c1 = end
			}
			vf.Assert(off(i) == int64(c0), "interior-first-child")
			var bs []packedrtree.Box
			for c := c0; c < c1; c++ {
				bs = append(bs, nodeBox(c))
			}
			vf.Assert(hullOf(bs, nodeBox(i)), "interior-box-smallest")
		}
	}
	// load again from a stream that goes on behind the index
	s := newSrc(append(append([]byte{}, w.b...), 1, 2, 3), 0)
	t2, err := packedrtree.Unmarshal(s, n, uint16(ns))
	vf.Assert(err == nil, "unmarshal-succeeds")
	vf.Assert(s.pos == sz, "consumes-exactly")
	vf.Assert(t2.NumRefs() == n && t2.NodeSize() == uint16(ns), "counts")
	vf.Assert(sameBits(t2.Bounds(), t.Bounds()), "bounds")
	var w2 sink
	k, err = t2.Marshal(&w2)
	vf.Assert(err == nil && k == sz, "remarshal")
	vf.Assert(eqBytes(w.b, w2.b), "same-bytes")
	vf.Reach("done")
}

// Indexes of sizes around the multiples of usual buffer sizes: everything is
// written and read back, whatever the pieces.
func C03_buffer_sizes() {
	// 102 and 103 nodes are 4080 and 4120 bytes, 512 nodes 5*4096, 1024
	// nodes 5*8192, 1012 nodes 5*8096, 819 and 820 around 32768
	totals := []int{102, 103, 202, 203, 512, 1012, 1024}
	if vf.Thorough() {
		totals = []int{102, 103, 204, 205, 253, 506, 511, 512, 513, 819, 820, 1012, 1013, 1023, 1024, 1025, 1638, 1639, 2048}
	}
	n := totals[vf.Choose("nodes", len(totals))] - 1
	refs := make([]packedrtree.Ref, n)
	for i := range refs {
		x := float64(i)
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: x, YMin: -x, XMax: x + 1, YMax: 1 - x}, Offset: vf.I64("offset")}
	}
	t, err := packedrtree.New(refs, 65535)
	vf.Assert(err == nil, "new-succeeds")
	var w sink
	k, err := t.Marshal(&w)
	vf.Assert(err == nil && k == 40*(n+1) && len(w.b) == k, "exactly-size-bytes")
	want := put64(put64(nil, bits(0)), bits(float64(1-n)))
	want = put64(put64(put64(want, bits(float64(n))), bits(1)), 1)
	for _, r := range refs {
		want = put64(put64(want, bits(r.XMin)), bits(r.YMin))
		want = put64(put64(put64(want, bits(r.XMax)), bits(r.YMax)), uint64(r.Offset))
	}
	vf.Assert(eqBytes(w.b, want), "layout")
	s := newSrc(append(w.b, 1, 2, 3), []int{0, 4096, 777}[vf.Choose("chunk", 3)])
	t2, err := packedrtree.Unmarshal(s, n, 65535)
	vf.Assert(err == nil && s.pos == k, "unmarshal")
	var w2 sink
	_, err = t2.Marshal(&w2)
	vf.Assert(err == nil && eqBytes(w2.b, want), "same-bytes")
	vf.Reach("done")
}

// More nodes than fit in 16 bits: layout and round trip.
func C03_many_refs() {
	vf.Steps(1_000_000_000)
	n := 65530 + vf.Choose("n-65530", vf.Param("counts from 65530 in steps of 5", 1, 3))*5
	ns := []int{16, 300}[vf.Choose("nodeSize", vf.Param("node sizes", 1, 2))]
	refs := manyRefs(n)
	refs[n-1].Offset = vf.I64("offset")
	t, err := packedrtree.New(refs, uint16(ns))
	vf.Assert(err == nil, "new-succeeds")
	var w sink
	k, err := t.Marshal(&w)
	starts, total := levelStarts(n, ns)
	vf.Assert(err == nil && k == 40*total && len(w.b) == k, "exactly-size-bytes")
	sz, err := packedrtree.Size(n, uint16(ns))
	vf.Assert(err == nil && sz == k, "size")
	for l := 0; l+1 < len(starts); l++ {
		for i := starts[l]; i < starts[l+1]; i++ {
			vf.Assert(int64(binary.LittleEndian.Uint64(w.b[40*i+32:])) == int64(starts[l+1]+(i-starts[l])*ns), "interior-first-child")
		}
	}
	leaf0 := starts[len(starts)-1]
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		vf.Assert(f64at(w.b, 40*(leaf0+i)) == float64(i), "leaf-box")
		vf.Assert(int64(binary.LittleEndian.Uint64(w.b[40*(leaf0+i)+32:])) == refs[i].Offset, "leaf-offset")
	}
	t2, err := packedrtree.Unmarshal(newSrc(w.b, 0), n, uint16(ns))
	vf.Assert(err == nil && t2.NumRefs() == n, "unmarshal-succeeds")
	rs := t2.Search(packedrtree.Box{XMin: float64(n - 2), XMax: float64(n), YMax: 1})
	vf.Assert(len(rs) == 2 && rs[0].RefIndex+rs[1].RefIndex == 2*n-3, "search")
	vf.Reach("done")
}

// A loaded index answers like the one that was saved.
func C03_loaded_index_searches() {
	n := 1 + vf.Choose("n", vf.Param("max refs", 4, 6))
	ns := uint16(2 + vf.Choose("nodeSize-2", 2))
	refs := symRefs(n)
	q := symQuery()
	t, err := packedrtree.New(refs, ns)
	vf.Assert(err == nil, "new-succeeds")
	var w sink
	_, err = t.Marshal(&w)
	vf.Assert(err == nil, "marshal-succeeds")
	t2, err := packedrtree.Unmarshal(newSrc(w.b, 0), n, ns)
	vf.Assert(err == nil, "unmarshal-succeeds")
	checkExact(refs, q, t2.Search(q), "search")
	vf.Reach("done")
}

// Every truncation gives an error.
func C03_truncated() {
	cfgs := []cfg{{1, 2}, {2, 2}, {3, 2}, {5, 4}, {4, 16}}
	c := cfgs[vf.Choose("cfg", len(cfgs))]
	sz, err := packedrtree.Size(c.n, c.ns)
	vf.Assert(err == nil, "size")
	cut := vf.Choose("cut", sz)
	if !vf.Thorough() {
		vf.Assume(cut%8 == 0 || cut%40 == 1 || cut%40 == 39 || cut < 4)
	}
	b := make([]byte, cut)
	chunk := []int{0, 1, 13}[vf.Choose("chunk", 3)]
	t, err := packedrtree.Unmarshal(newSrc(b, chunk), c.n, c.ns)
	vf.Assert(err != nil && t == nil, "unmarshal-error")
	vf.Reach("done")
}

// Seek on a serialized index inside a larger stream.
func seekCase(refs []packedrtree.Ref, ns uint16, q packedrtree.Box, chunk, start int, id string) {
	n := len(refs)
	t, err := packedrtree.New(refs, ns)
	vf.Assert(err == nil, "new-succeeds")
	var w sink
	w.b = make([]byte, start)
	sz, err := t.Marshal(&w)
	vf.Assert(err == nil, "marshal-succeeds")
	w.b = append(w.b, 9, 9, 9, 9, 9)
	s := newSeekSrc(w.b, chunk)
	s.pos = start
	rs, err := packedrtree.Seek(s, n, ns, q)
	vf.Assert(err == nil, id+"-succeeds")
	vf.Assert(s.pos == start+sz, id+"-positioned-behind-index")
	vf.Assert(s.hi == 0 || s.lo >= start && s.hi <= start+sz, id+"-reads-only-index")
	byOffset, byLeaf := true, true
	for i := 1; i < len(rs); i++ {
		byOffset = vf.And(byOffset, rs[i-1].Offset <= rs[i].Offset)
		byLeaf = vf.And(byLeaf, rs[i-1].RefIndex < rs[i].RefIndex)
	}
	vf.AssertKnown(byOffset, id+"-sorted-by-offset", byLeaf, "seek-index-order")
	checkExact(refs, q, rs, id)
	vf.Reach("sought")
}

// All boxes, offsets (in any order, equal ones included) and the query arbitrary.
func C02_seek_small() {
	n := 1 + vf.Choose("n", vf.Param("max refs (all symbolic)", 3, 5))
	ns := uint16(2 + vf.Choose("nodeSize-2", 2))
	start := []int{0, 13}[vf.Choose("start", 2)]
	refs := symRefs(n)
	seekCase(refs, ns, symQuery(), 0, start, "seek")
}

// Ascending offsets, arbitrary boxes, several splittings of the stream.
func C02_seek_chunks() {
	n := 1 + vf.Choose("n", vf.Param("max refs", 5, 6))
	ns := uint16(2 + vf.Choose("nodeSize-2", 2))
	chunk := []int{1, 39, 40, 64}[vf.Choose("chunk", 4)]
	start := []int{0, 1, 40}[vf.Choose("start", 3)]
	refs := symRefs(n)
	for i := range refs {
		refs[i].Offset = int64(10 * i)
	}
	// boxes on a line: hits are decided by the x axis alone
	for i := range refs {
		refs[i].YMin, refs[i].YMax = 0, 1
	}
	q := symQuery()
	vf.Assume(vf.And(q.YMin <= 1, q.YMax >= 0))
	seekCase(refs, ns, q, chunk, start, "seek")
}

// Large trees, point query: every leaf reached through relative seeks.
func C02_seek_large() {
	cfgs := []cfg{{17, 16}, {33, 2}, {28, 3}, {65, 4}, {150, 100}}
	if vf.Thorough() {
		cfgs = append(cfgs, cfg{129, 2}, cfg{244, 3}, cfg{258, 4}, cfg{273, 16}, cfg{600, 24})
	}
	c := cfgs[vf.Choose("cfg", len(cfgs))]
	refs := make([]packedrtree.Ref, c.n)
	for i := range refs {
		f := float64(i)
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: f, YMin: -f, XMax: f + 1, YMax: -f}, Offset: int64(1000 + 7*(c.n-i))}
	}
	x := vf.F64("x")
	vf.Assume(notNaN(x))
	q := packedrtree.Box{XMin: x, YMin: -1e9, XMax: x, YMax: 1e9}
	seekCase(refs, c.ns, q, 0, 5, "seek")
}

// lazyIndex is a stream with an index of manyRefs, made up as it is read.
type lazyIndex struct {
	n, ns  int
	starts []int
	total  int
	pos    int // from the start of the index
	first  int // offset of the first reference
	stride int
}

func (s *lazyIndex) Seek(o int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		s.pos = int(o) - 2
	case io.SeekCurrent:
		s.pos += int(o)
	default:
		s.pos = 40*s.total + int(o)
	}
	return int64(s.pos) + 2, nil
}

func (s *lazyIndex) Read(p []byte) (int, error) {
	vf.Assert(s.pos >= 0 && s.pos+len(p) <= 40*s.total, "reads-only-the-index")
	var b []byte
	i := s.pos / 40
	for len(b) < s.pos%40+len(p) {
		b = put(b, s.node(i))
		i++
	}
	copy(p, b[s.pos%40:])
	s.pos += len(p)
	return len(p), nil
}

func (s *lazyIndex) node(i int) []byte {
	l, w := 0, 1
	for l+1 < len(s.starts) && s.starts[l+1] <= i {
		l++
	}
	for j := l + 1; j < len(s.starts); j++ {
		w *= s.ns
	}
	k := i - s.starts[l]
	hi := (k+1)*w - 1
	if hi >= s.n {
		hi = s.n - 1
	}
	off := s.first + s.stride*k
	if l+1 < len(s.starts) {
		off = s.starts[l+1] + k*s.ns
	}
	return put64(put64(put64(put64(put64(nil, bits(float64(k*w))), bits(0)), bits(float64(hi))), bits(1)), uint64(off))
}

// More nodes than fit in 16 bits; the stream makes up what is
// read of it.
func C02_many_refs() {
	vf.Steps(1_000_000_000)
	n := []int{66000, 65536, 54000000, 110000000}[vf.Choose("n", vf.Param("counts 66000, 65536, 54000000, 110000000", 3, 4))]
	ns := []int{16, 2, 70}[vf.Choose("nodeSize", 3)]
	s := &lazyIndex{n: n, ns: ns, first: 1000, stride: 7}
	s.starts, s.total = levelStarts(n, ns)
	s.pos = 0
	x, lo := pointAmong(n)
	rs, err := packedrtree.Seek(s, n, uint16(ns), packedrtree.Box{XMin: x, XMax: x, YMax: 1})
	vf.Assert(err == nil, "seek-succeeds")
	vf.Assert(s.pos == 40*s.total, "at-end-of-index")
	theOne(rs, x, lo)
}

// A stream cut anywhere inside the index: an error, or the full answer when
// no part beyond the cut was needed; never a partial answer.
func C02_seek_truncated() {
	cfgs := []cfg{{2, 2}, {3, 2}, {5, 2}, {5, 4}}
	c := cfgs[vf.Choose("cfg", len(cfgs))]
	refs := make([]packedrtree.Ref, c.n)
	for i := range refs {
		f := float64(i)
		refs[i] = packedrtree.Ref{Box: packedrtree.Box{XMin: f, YMin: 0, XMax: f, YMax: 0}, Offset: int64(i)}
	}
	t, _ := packedrtree.New(refs, c.ns)
	var w sink
	sz, _ := t.Marshal(&w)
	cut := vf.Choose("cut", sz)
	if !vf.Thorough() {
		vf.Assume(cut%40 == 0 || cut%40 == 1 || cut%40 == 39 || cut%40 == 33)
	}
	x := vf.F64("x")
	vf.Assume(notNaN(x))
	q := packedrtree.Box{XMin: x, YMin: 0, XMax: float64(c.n), YMax: 0}
	s := newSeekSrc(w.b[:cut], 0)
	rs, err := packedrtree.Seek(s, c.n, c.ns, q)
	if err == nil {
		checkExact(refs, q, rs, "truncated")
		vf.Reach("answered without the missing part")
	} else {
		vf.Assert(rs == nil, "no-partial-results")
		vf.Reach("error")
	}
}

var _ io.Reader
