package props

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"runtime/metrics"
	"slices"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

// What a hostile input may cost at most, per operation.
const (
	hostileNodes = 250
	hostileDepth = 7
	hostileRead  = 1 << 20 // bytes read of one file
)

type hostileInfo struct {
	opened                bool
	entries, files, bytes int
	errs                  int
}

// allocated is the total of bytes ever allocated on the heap.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// hugeSparse says whether a tar stream declares sparse files of a large size,
// which the package reads through when opening: time in proportion to what is
// declared is allowed, and not spent here.
func hugeSparse(b []byte) bool {
	huge := false
	_ = try(func() {
		tr := tar.NewReader(bytes.NewReader(b))
		for i := 0; i < 10000; i++ {
			h, err := tr.Next()
			if err != nil {
				return
			}
			sparse := h.Typeflag == tar.TypeGNUSparse
			for k := range h.PAXRecords {
				sparse = sparse || strings.HasPrefix(k, "GNU.sparse.")
			}
			if sparse && h.Size > 4<<20 {
				huge = true
				return
			}
		}
	})
	return huge
}

// hostileCheck opens the bytes and goes through everything it can reach. It
// returns what is wrong, or "".
func hostileCheck(kind string, b []byte, probes []string) (bad string, info hostileInfo) {
	ra := &budgetRA{r: &memRA{b: b}}
	maxCalls, maxBytes := int64(20000+2*len(b)), int64(1<<20+64*len(b))
	if kind == "erofs" {
		// 40 links of 2000 components each, and a search for each component
		maxCalls, maxBytes = 4_000_000, 1<<30
	}
	var lastAlloc uint64
	allocLimit := uint64(64<<20 + 2048*len(b))
	op := func(what string, f func() error) error {
		if bad != "" {
			return errors.New("stop")
		}
		ra.calls, ra.bytes, ra.spent = maxCalls, maxBytes, false
		lastAlloc = allocated()
		err := f()
		if err != nil {
			info.errs++
		}
		if ra.spent && bad == "" {
			bad = fmt.Sprintf("%s needs more than %d reads or %d bytes of reads for an input of %d bytes", what, maxCalls, maxBytes, len(b))
		}
		if d := allocated() - lastAlloc; d > allocLimit && bad == "" {
			bad = fmt.Sprintf("%s allocates %d bytes for an input of %d bytes", what, d, len(b))
		}
		return err
	}
	var fsys fs.FS
	if op("Open", func() (err error) { fsys, err = openAs(kind, onlyReaderAt{ra}); return err }) != nil || bad != "" {
		return bad, info
	}
	info.opened = true
	lf, _ := fsys.(linkFS)
	buf := make([]byte, 3000)

	stat := func(p string) (fi fs.FileInfo) {
		_ = op("Stat("+p+")", func() (err error) { fi, err = fs.Stat(fsys, p); return err })
		if lf != nil {
			_ = op("StatLink("+p+")", func() (err error) { _, err = lf.StatLink(p); return err })
			_ = op("ReadLink("+p+")", func() (err error) { _, err = lf.ReadLink(p); return err })
		}
		return fi
	}
	// read opens and reads p, whatever it is.
	read := func(p string) {
		var f fs.File
		if op("Open("+p+")", func() (err error) { f, err = fsys.Open(p); return err }) != nil || f == nil {
			return
		}
		var fi fs.FileInfo
		if op("Stat of open "+p, func() (err error) { fi, err = f.Stat(); return err }) != nil {
			_ = f.Close()
			return
		}
		if fi.Mode().IsRegular() && fi.Size() < 0 && bad == "" {
			bad = fmt.Sprintf("%q is a file of size %d", p, fi.Size())
		}
		// stop early once the walk has read enough
		limit := int64(hostileRead)
		if info.bytes > 8*hostileRead {
			limit = 4096
		}
		var got int64
		var rerr error
		_ = op("reading "+p, func() error {
			empty := 0
			for got < limit && got <= fi.Size() {
				n, err := f.Read(buf)
				if n < 0 || n > len(buf) {
					bad = fmt.Sprintf("Read of %q returns %d for a buffer of %d", p, n, len(buf))
					return nil
				}
				got += int64(n)
				if err != nil {
					rerr = err
					return err
				}
				if n == 0 {
					if empty++; empty > 1000 {
						bad = fmt.Sprintf("Read of %q keeps returning nothing", p)
						return nil
					}
				}
			}
			return nil
		})
		info.bytes += int(got)
		if fi.Mode().IsRegular() && bad == "" {
			info.files++
			switch {
			case got > fi.Size():
				bad = fmt.Sprintf("%q has size %d but delivers more: %d", p, fi.Size(), got)
			case rerr == io.EOF && got < fi.Size():
				bad = fmt.Sprintf("%q has size %d but ends after %d bytes without an error", p, fi.Size(), got)
			case rerr == nil && got < limit && got <= fi.Size():
				bad = fmt.Sprintf("%q has size %d, delivered %d and no end", p, fi.Size(), got)
			}
		}
		if d, ok := f.(fs.ReadDirFile); ok {
			_ = op("paging "+p, func() error {
				for i := 0; i < 50; i++ {
					l, err := d.ReadDir(5)
					if err != nil || len(l) == 0 {
						return err
					}
				}
				return nil
			})
		}
		_ = op("Close of "+p, f.Close)
	}

	nodes := 0
	var walk func(p string, depth int)
	walk = func(p string, depth int) {
		var list []fs.DirEntry
		err := op("ReadDir("+p+")", func() (err error) { list, err = fs.ReadDir(fsys, p); return err })
		if err != nil || bad != "" {
			return
		}
		for _, e := range list {
			name := e.Name()
			if !model.ValidName(name) {
				bad = fmt.Sprintf("ReadDir(%q) yields the name %q, which is not a path element", p, name)
				return
			}
			if nodes++; nodes > hostileNodes {
				return
			}
			info.entries++
			q := path.Join(p, name)
			var fi fs.FileInfo
			_ = op("Type of "+q, func() error { _ = e.Type(); _ = e.IsDir(); return nil })
			ierr := op("Info of "+q, func() (err error) { fi, err = e.Info(); return err })
			if ierr == nil && fi.Mode().IsRegular() && fi.Size() < 0 && bad == "" {
				bad = fmt.Sprintf("%q is listed with size %d", q, fi.Size())
			}
			stat(q)
			read(q)
			if bad != "" {
				return
			}
			if depth < hostileDepth && (e.IsDir() || ierr == nil && fi.IsDir()) {
				walk(q, depth+1)
			}
			if bad != "" || nodes > hostileNodes {
				return
			}
		}
	}
	stat(".")
	read(".")
	walk(".", 0)
	for _, p := range probes {
		stat(p)
		read(p)
		_ = op("ReadDir("+p+")", func() error { _, err := fs.ReadDir(fsys, p); return err })
	}
	return bad, info
}

// runHostile checks one input and counts it.
func runHostile(t *rapid.T, st *ev.Stats, kind string, b []byte, probes []string, what []string) {
	st.Journal(func() string { return fmt.Sprintf("%s: %q\n%q\n%x", kind, what, probes, b) })
	if kind == "tar" && hugeSparse(b) {
		st.Case(false, 0, "declares a huge sparse file, not run")
		return
	}
	var bad string
	var info hostileInfo
	v := watched(30, func() { bad, info = hostileCheck(kind, b, probes) })
	label := "rejected by Open"
	switch {
	case info.opened && info.errs > 3:
		label = "opened, with failing operations"
	case info.opened:
		label = "opened"
	}
	labels := []string{label}
	if len(what) > 0 {
		labels = append(labels, coarse(what[0]))
	}
	st.Label("entries seen", info.entries)
	st.Label("files read", info.files)
	st.Case(info.opened && info.entries > 0 && len(what) > 0, hashOf(b, fmt.Sprint(probes)), labels...)
	st.Sample(func() string { return fmt.Sprintf("%d bytes of %s: %q; %s", len(b), kind, what, label) })
	if v != "" || bad != "" {
		t.Logf("input (%d bytes): %x", len(b), clipBytes(b, 8192))
	}
	verdictFail(t, v, fmt.Sprintf("%s input after %q", kind, what))
	if bad != "" {
		t.Fatalf("%s input of %d bytes after %q: %s", kind, len(b), what, bad)
	}
}

// coarse drops the numbers and quoted values of a description.
func coarse(s string) string {
	var out []string
	for _, w := range strings.Fields(s) {
		if strings.ContainsAny(w, "0123456789\"\\\x27") && w != "C0" {
			break
		}
		out = append(out, w)
		if len(out) == 3 {
			break
		}
	}
	return "edit: " + strings.Join(out, " ")
}

func clipBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// mutator edits bytes.
type mutator struct {
	t     *rapid.T
	b     []byte
	what  []string
	unit  int   // natural block of the format
	spots []int // offsets worth editing
}

func (m *mutator) note(f string, a ...any) { m.what = append(m.what, fmt.Sprintf(f, a...)) }

func (m *mutator) at() int {
	if len(m.b) == 0 {
		return 0
	}
	if len(m.spots) > 0 && rapid.IntRange(0, 3).Draw(m.t, "spot") > 0 {
		o := rapid.SampledFrom(m.spots).Draw(m.t, "spotat") + rapid.IntRange(0, 63).Draw(m.t, "spotoff")
		if o < len(m.b) {
			return o
		}
	}
	return rapid.IntRange(0, len(m.b)-1).Draw(m.t, "at")
}

var ints = []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<62 + 5, 1<<63 - 1, 1<<63 - 4096, 1 << 63, ^uint64(0), 4095, 4096, 4097, 511, 512, 513, 12, 24}

// generic applies a format-blind edit.
func (m *mutator) generic() {
	if len(m.b) == 0 {
		return
	}
	t := m.t
	switch rapid.IntRange(0, 7).Draw(t, "edit") {
	case 0:
		o := m.at()
		m.b[o] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		m.note("bit flip at %d", o)
	case 1:
		o := m.at()
		m.b[o] = byte(rapid.IntRange(0, 255).Draw(t, "byte"))
		m.note("byte set at %d", o)
	case 2:
		o := m.at()
		v := rapid.SampledFrom(ints).Draw(t, "int")
		w := rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "width")
		var x [8]byte
		binary.LittleEndian.PutUint64(x[:], v)
		copy(m.b[o:min(o+w, len(m.b))], x[:w])
		m.note("integer %#x at %d", v, o)
	case 3:
		// copy a piece over another
		n := rapid.IntRange(1, m.unit).Draw(t, "n")
		from, to := m.at(), m.at()
		if rapid.Bool().Draw(t, "aligned") {
			n, from, to = m.unit, from/m.unit*m.unit, to/m.unit*m.unit
		}
		n = min(n, len(m.b)-from, len(m.b)-to)
		copy(m.b[to:to+n], append([]byte{}, m.b[from:from+n]...))
		m.note("copy %d bytes from %d at %d", n, from, to)
	case 4:
		o := m.at() / m.unit * m.unit
		n := min(m.unit, len(m.b)-o)
		m.b = append(append([]byte{}, m.b[:o]...), m.b[o+n:]...)
		m.note("cut %d bytes at %d", n, o)
	case 5:
		o := m.at() / m.unit * m.unit
		ins := model.Bytes(uint64(o), rapid.IntRange(0, 2).Draw(t, "style"), m.unit)
		m.b = append(append(append([]byte{}, m.b[:o]...), ins...), m.b[o:]...)
		m.note("insert %d bytes at %d", m.unit, o)
	case 6:
		o := m.at()
		m.b = m.b[:o]
		m.note("truncate at %d", o)
	default:
		o := m.at()
		n := min(rapid.IntRange(1, 64).Draw(t, "n"), len(m.b)-o)
		fill := rapid.SampledFrom([]byte{0, 0xff, ' ', '0', '/', '.', '7'}).Draw(t, "fill")
		for i := 0; i < n; i++ {
			m.b[o+i] = fill
		}
		m.note("fill %d bytes with %#x at %d", n, fill, o)
	}
}

func hostileProbes(t *rapid.T, root *model.Node) []string {
	ps := model.Probes(t, root, 3)
	for i := rapid.IntRange(0, 2).Draw(t, "odd"); i > 0; i-- {
		ps = append(ps, rapid.SampledFrom([]string{".", "", "/", "a/", "../a", "a/../b", "./a", "a//b", "a/.", strings.Repeat("a/", 200) + "b", strings.Repeat("x", 300), "a\x00b", "\xff", ".."}).Draw(t, "oddprobe"))
	}
	return ps
}

var junkHeads = map[string]string{"tar": strings.Repeat("a", 257) + "ustar\x0000", "ar": "!<arch>\n", "erofs": ""}

// junk draws bytes that mean nothing, perhaps behind the right magic.
func junk(t *rapid.T, kind string) []byte {
	n := rapid.SampledFrom([]int{0, 1, 7, 8, 9, 59, 60, 67, 68, 69, 127, 511, 512, 513, 1023, 1024, 1151, 1152, 1153, 1300, 2048, 4096, 9000}).Draw(t, "len")
	b := model.Bytes(rapid.Uint64Range(0, 1<<30).Draw(t, "seed"), rapid.IntRange(0, 3).Draw(t, "style"), n)
	if kind == "erofs" {
		if len(b) >= 1152 {
			binary.LittleEndian.PutUint32(b[1024:], 0xE0F5E1E2)
			b[1036] = byte(rapid.IntRange(8, 17).Draw(t, "bits"))
			binary.LittleEndian.PutUint32(b[1104:], 0)
			if rapid.Bool().Draw(t, "sum") {
				b[1032] &^= 1
			}
			if rapid.Bool().Draw(t, "meta") {
				binary.LittleEndian.PutUint32(b[1024+40:], 0)
				binary.LittleEndian.PutUint16(b[1024+14:], uint16(rapid.IntRange(0, len(b)/32).Draw(t, "root")))
			}
		}
		return b
	}
	copy(b, junkHeads[kind])
	return b
}

// hostileNames are names a tar stream should not trick the package with.
var hostileNames = []string{"..", "../x", "/..", "a/..", "a/../..", "a/../../b", "./..", "/", "//", "", ".", "./", "./.", "a/.", "a//b", "//a", "a/", "a/b/", "/a/../../c", "a/../b", "..a", "a..", "...", "a/b/../../..", "..\\x", "a\x01b", "\xff\xfe", " ", "/ ", "./ /x", "a/b/c/d/e", "../../../../../etc/passwd", "C:\\x"}

// C17: tar: hostile input is handled or rejected cleanly.
func TestC17(t *testing.T) {
	st := ev.Start(t, "C17", "tar bytes: (a) entries with hostile names (.., absolute, empty), files with children, entries below links, hard links anywhere, any type; (b) a well-formed archive with 1-6 drawn edits (fields, blocks, splices, cuts) and repaired header checksums; (c) junk; then everything listed is statted, followed, opened and read under read, allocation and CPU budgets; non-trivial: opening succeeded and an entry was listed; distinct by bytes")
	check(t, func(t *rapid.T) {
		switch rapid.IntRange(0, 9).Draw(t, "source") {
		case 0:
			b := junk(t, "tar")
			if len(b) >= 512 && rapid.Bool().Draw(t, "sum") {
				enc.TarSum(b)
			}
			runHostile(t, st, "tar", b, []string{"a"}, []string{"junk"})
		case 1, 2, 3, 4:
			hostileTarEntries(t, st)
		default:
			c := genTar(t, tarOpts{MaxSize: 3000, MaxNodes: 8})
			m := &mutator{t: t, b: c.Bytes, unit: 512}
			var heads []int
			for _, e := range c.Entries {
				for o := e.Off; o < e.End && o < e.Off+4096; o += 512 {
					heads = append(heads, o)
				}
			}
			for i := rapid.IntRange(1, 6).Draw(t, "edits"); i > 0; i-- {
				if len(heads) > 0 && rapid.IntRange(0, 3).Draw(t, "field") > 0 {
					o := rapid.SampledFrom(heads).Draw(t, "head")
					if o+512 <= len(m.b) {
						tarField(m, o)
						continue
					}
				}
				m.generic()
			}
			if rapid.IntRange(0, 5).Draw(t, "repair") > 0 {
				repairTar(m.b)
			}
			if rapid.IntRange(0, 7).Draw(t, "concat") == 0 {
				m.b = append(m.b, c.Bytes...)
				m.note("second archive at %d", len(m.b)-len(c.Bytes))
			}
			runHostile(t, st, "tar", m.b, hostileProbes(t, c.Tree), m.what)
		}
		if rare(t, "deep", 3000) {
			st.Label(deepTar(t), 1)
		}
	})
}

func isTarHead(b []byte) bool {
	return bytes.Equal(b[257:262], []byte("ustar")) || b[147] == 0 && b[154] == 0 && b[155] == ' '
}

// repairTar recomputes the checksum of everything that looks like a header.
func repairTar(b []byte) {
	for o := 0; o+512 <= len(b); o += 512 {
		if isTarHead(b[o : o+512]) {
			enc.TarSum(b[o : o+512])
		}
	}
}

// tarField edits one field of the header at o.
func tarField(m *mutator, o int) {
	t := m.t
	h := m.b[o : o+512]
	f := rapid.SampledFrom([]string{"name", "mode", "uid", "size", "size", "mtime", "type", "type", "link", "magic", "major", "prefix", "sparse", "body"}).Draw(t, "tarfield")
	pos := map[string][2]int{"name": {0, 100}, "mode": {100, 108}, "uid": {108, 116}, "size": {124, 136}, "mtime": {136, 148}, "type": {156, 157}, "link": {157, 257}, "magic": {257, 265}, "major": {329, 337}, "prefix": {345, 500}, "sparse": {386, 512}, "body": {0, 512}}[f]
	field := h[pos[0]:pos[1]]
	switch f {
	case "name", "link", "prefix":
		s := rapid.SampledFrom(hostileNames).Draw(t, "name")
		for i := range field {
			field[i] = 0
		}
		copy(field, s)
	case "type":
		field[0] = rapid.SampledFrom([]byte("0\x00123456789SgxLKDMNVXAZ \xff")).Draw(t, "type")
	case "magic":
		copy(field, rapid.SampledFrom([]string{"ustar\x0000", "ustar  \x00", "\x00\x00\x00\x00\x00\x00\x00\x00", "ustar\x00\x00\x00"}).Draw(t, "magic"))
	case "sparse":
		k := rapid.IntRange(0, 3).Draw(t, "sparsefield")
		part := field[k*12 : k*12+12]
		tarNumber(t, part)
		if rapid.IntRange(0, 3).Draw(t, "ext") == 0 {
			h[482] = byte(rapid.IntRange(0, 2).Draw(t, "isext"))
		}
		if rapid.IntRange(0, 3).Draw(t, "real") == 0 {
			tarNumber(t, h[483:495])
		}
	case "body":
		// PAX records, sparse maps, long names
		o := rapid.IntRange(0, 480).Draw(t, "bodyat")
		s := rapid.SampledFrom([]string{"30 GNU.sparse.size=9999999999\n", "12 size=512\n", "11 path=..\n", "19 path=../../../x\n", "22 GNU.sparse.major=1\n", "22 GNU.sparse.minor=0\n", "=", "\n", "-1", "99999999999999999999", "0 ", "13 path=/\x00x\n", "9 path=\n", "16 linkpath=../\n", "20 mtime=1e99999999\n", "15 mtime=-9999.\n"}).Draw(t, "record")
		copy(h[o:], s)
	default:
		tarNumber(t, field)
	}
	m.note("tar %s at %d", f, o)
}

func tarNumber(t *rapid.T, field []byte) {
	switch rapid.IntRange(0, 3).Draw(t, "numform") {
	case 0:
		s := rapid.SampledFrom([]string{"0", "1", "7777777", "77777777777", "777777777777", "-1", "8", " 12 ", "", "0x10", "1777777777777777777777", "00000000511", "512", "1000"}).Draw(t, "octal")
		for i := range field {
			field[i] = 0
		}
		copy(field, s)
	case 1:
		for i := range field {
			field[i] = 0
		}
		v := rapid.SampledFrom(ints).Draw(t, "base256")
		for i := len(field) - 1; i >= 0 && v > 0; i-- {
			field[i] = byte(v)
			v >>= 8
		}
		field[0] = rapid.SampledFrom([]byte{0x80, 0xff, 0xc0}).Draw(t, "base256sign")
	case 2:
		v := rapid.SampledFrom(ints).Draw(t, "oct")
		s := fmt.Sprintf("%0*o", len(field)-1, v)
		copy(field, s[len(s)-(len(field)-1):])
	default:
		copy(field, model.Bytes(rapid.Uint64Range(0, 1000).Draw(t, "rnd"), 0, len(field)))
	}
}

// hostileTarEntries draws entries without any regard for a sane tree.
func hostileTarEntries(t *rapid.T, st *ev.Stats) {
	comps := []string{"a", "b", "c", "..", ".", "", "a", "b"}
	name := func(label string) string {
		if rapid.IntRange(0, 3).Draw(t, label+"kind") == 0 {
			return rapid.SampledFrom(hostileNames).Draw(t, label)
		}
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(comps), 1, 4).Draw(t, label), "/")
	}
	n := rapid.IntRange(1, 9).Draw(t, "entries")
	var es []*enc.TarEntry
	var what []string
	for i := 0; i < n; i++ {
		e := &enc.TarEntry{Name: name("name"), Mode: 0o644, MTime: time.Unix(int64(i), 0), Dialect: enc.TarDialect(rapid.IntRange(0, 3).Draw(t, "dialect"))}
		switch rapid.IntRange(0, 9).Draw(t, "type") {
		case 0, 1, 2:
			e.Type = tar.TypeReg
			e.Data = model.Content(700).Draw(t, "data")
			e.Name = strings.TrimRight(e.Name, "/")
		case 3, 4:
			e.Type = tar.TypeDir
		case 5, 6, 7:
			e.Type, e.Link = tar.TypeSymlink, name("link")
		case 8:
			e.Type, e.Link = tar.TypeLink, name("link")
			if len(es) > 0 && rapid.Bool().Draw(t, "tolisted") {
				e.Link = es[rapid.IntRange(0, len(es)-1).Draw(t, "hardto")].Name
			}
		default:
			e.Type = rapid.SampledFrom([]byte{tar.TypeChar, tar.TypeBlock, tar.TypeFifo, tar.TypeReg, tar.TypeReg}).Draw(t, "odd")
		}
		if !e.CanEncode() {
			continue
		}
		es = append(es, e)
		what = append(what, fmt.Sprintf("entry %c %q -> %q", e.Type, e.Name, e.Link))
	}
	root := model.NewDir("", 0)
	runHostile(t, st, "tar", enc.EncodeTar(es, rapid.SampledFrom([]int{2, 0, 1}).Draw(t, "trailer")), append(hostileProbes(t, root), "a", "a/b", "b/a", "c/c/c", "a/b/c/d"), append([]string{"hostile entries"}, what...))
}

// C18: ar: hostile input is handled or rejected cleanly.
func TestC18(t *testing.T) {
	st := ev.Start(t, "C18", "ar bytes: (a) a well-formed archive with one malformed header field, which Open must reject; (b) a well-formed archive with 1-6 drawn edits (fields with huge, negative and odd numbers, hostile names, splices, cuts); (c) junk behind the magic, or a malformed magic, which Open must reject; then everything is listed, statted and read under read, allocation and CPU budgets; non-trivial: opening succeeded and an entry was listed, or the malformed field came after a good member; distinct by bytes")
	check(t, func(t *rapid.T) {
		switch rapid.IntRange(0, 7).Draw(t, "source") {
		case 0:
			if rapid.IntRange(0, 3).Draw(t, "badmagic") == 0 {
				c := genAr(t, 3, 100)
				b := slices.Clone(c.Bytes)
				var what string
				switch {
				case rapid.IntRange(0, 3).Draw(t, "known") == 0:
					what = rapid.SampledFrom([]string{"!<thin>\n", "<bigaf>\n", "!<arch>\r", "!<ARCH>\n", "\n!<arch>", "!<arch> "}).Draw(t, "magic")
					copy(b, what)
				case rapid.IntRange(0, 3).Draw(t, "short") == 0:
					b = b[:rapid.IntRange(0, 7).Draw(t, "cut")]
				default:
					b[rapid.IntRange(0, 7).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
				}
				st.Case(len(c.Members) > 0, hashOf(b), "malformed magic")
				st.Sample(func() string { return fmt.Sprintf("magic %q", b[:min(len(b), 8)]) })
				var err error
				v := watched(30, func() { _, err = openAr(b) })
				verdictFail(t, v, fmt.Sprintf("ar with magic %q\n%s", b[:min(len(b), 8)], c))
				if err == nil {
					t.Fatalf("Open accepts the magic %q\n%s", b[:min(len(b), 8)], c)
				}
				return
			}
			runHostile(t, st, "ar", junk(t, "ar"), []string{"a"}, []string{"junk"})
		case 1, 2:
			c := genAr(t, 5, 700)
			if len(c.Members) == 0 {
				st.Case(false, 0, "empty archive")
				return
			}
			i := rapid.IntRange(0, len(c.Members)-1).Draw(t, "member")
			b := c.Bytes
			h := b[c.At[i] : c.At[i]+60]
			field := rapid.SampledFrom([]string{"terminator", "terminator", "mode", "size", "mtime", "uid", "gid"}).Draw(t, "badfield")
			val := ""
			if field == "terminator" {
				k := rapid.IntRange(1, 3).Draw(t, "half")
				if k&1 != 0 {
					h[58] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
				}
				if k&2 != 0 {
					h[59] ^= byte(rapid.IntRange(1, 255).Draw(t, "y"))
				}
				val = fmt.Sprintf("%q", h[58:])
			} else {
				pos := map[string][2]int{"mtime": {16, 28}, "uid": {28, 34}, "gid": {34, 40}, "mode": {40, 48}, "size": {48, 58}}[field]
				vals := []string{"12a", "a", "1 2", "1.5", "0x1f", "--1", "1-", "1\x002", "\x00", "1,0", "٣", "1e3", "/"}
				if field == "mode" {
					vals = append(vals, "8", "649", "-644", "6 4")
				}
				if field == "size" {
					vals = append(vals, "-1", "-5", "-60")
				}
				val = rapid.SampledFrom(vals).Draw(t, "bad")
				w := pos[1] - pos[0]
				copy(h[pos[0]:pos[1]], val+strings.Repeat(" ", w))
				if field == "size" && rapid.IntRange(0, 2).Draw(t, "overlap") == 0 {
					// a negative size, and a header where it would continue
					k := rapid.IntRange(1, 14).Draw(t, "back")
					val = fmt.Sprintf("-%d, the next header begins in this one", k)
					copy(h[48:58], fmt.Sprintf("%-10d", -k))
					q := c.At[i] + 60 - k
					if k%2 == 1 && rapid.IntRange(0, 3).Draw(t, "even") > 0 {
						q--
					}
					over := c.At[i] + 60 - q
					next, _ := enc.EncodeAr([]enc.ArMember{{Name: strings.Repeat("n", 16), Mode: "644"}}, false)
					b = append(slices.Clone(b[:c.At[i]+60]), next[8+over:]...)
				}
			}
			st.Case(i > 0, hashOf(b), "malformed "+field)
			st.Sample(func() string { return fmt.Sprintf("member %d: %s %q", i, field, val) })
			var err error
			v := watched(30, func() { _, err = openAr(b) })
			verdictFail(t, v, fmt.Sprintf("ar with malformed %s %q\n%s", field, val, c))
			if err == nil {
				t.Fatalf("Open accepts member %d with a malformed %s %q\n%s", i, field, val, c)
			}
		default:
			c := genAr(t, 5, 700)
			m := &mutator{t: t, b: c.Bytes, unit: rapid.SampledFrom([]int{2, 60, 16}).Draw(t, "unit"), spots: c.At}
			for i := rapid.IntRange(1, 6).Draw(t, "edits"); i > 0; i-- {
				if len(c.Members) > 0 && rapid.IntRange(0, 3).Draw(t, "field") > 0 {
					o := c.At[rapid.IntRange(0, len(c.Members)-1).Draw(t, "member")]
					if o+60 <= len(m.b) {
						arField(m, o)
						continue
					}
				}
				m.generic()
			}
			runHostile(t, st, "ar", m.b, hostileProbes(t, c.Tree), m.what)
		}
	})
}

func arField(m *mutator, o int) {
	t := m.t
	h := m.b[o : o+60]
	f := rapid.SampledFrom([]string{"name", "name", "size", "size", "mode", "mtime", "uid"}).Draw(t, "arfield")
	pos := map[string][2]int{"name": {0, 16}, "mtime": {16, 28}, "uid": {28, 34}, "mode": {40, 48}, "size": {48, 58}}[f]
	w := pos[1] - pos[0]
	var s string
	switch f {
	case "name":
		s = rapid.SampledFrom([]string{"", "/", "//", ".", "..", "./", "../", "./.", "./..", "a/b", "/a", "a//", "../x", "/0", "/16", "#1/20", "\x00", "a\x00", "\xff", ".//", "././a", "a/../b"}).Draw(t, "name")
	case "mode":
		s = rapid.SampledFrom([]string{"0", "100644", "40755", "120777", "77777777", "37777777", "20000", "60000", "10644", "140777"}).Draw(t, "mode")
	default:
		s = rapid.SampledFrom([]string{"0", "1", "9999999999", "99999999", "-1", "-60", "-120", "+1", "00", "2147483647", "4294967296", "59", "60", "61", "", "1000000000", "268435456"}).Draw(t, "number")
		if len(s) > w {
			s = s[:w]
		}
	}
	copy(h[pos[0]:pos[1]], s+strings.Repeat(" ", w))
	m.note("ar %s %q at %d", f, s, o)
}

// C19: EROFS: hostile input is handled or rejected cleanly.
func TestC19(t *testing.T) {
	st := ev.Start(t, "C19", "EROFS bytes: an image (independent encoder or Create) with 1-8 drawn edits (superblock, inode and directory entry fields with boundary values, splices, cuts) and a repaired checksum, or junk behind a good superblock; then everything is listed, statted, looked up, followed, opened and read to a depth of 7 under read, allocation and CPU budgets; non-trivial: opening succeeded and an entry was listed; distinct by bytes")
	check(t, func(t *rapid.T) {
		if rapid.IntRange(0, 9).Draw(t, "source") == 0 {
			b := junk(t, "erofs")
			runHostile(t, st, "erofs", b, []string{"a"}, []string{"junk"})
			return
		}
		to := erofsTreeOpts()
		to.MaxNodes, to.MaxSize, to.BigMax = 7, 5000, 60
		var root *model.Node
		if rapid.IntRange(0, 2).Draw(t, "linkrich") == 0 {
			root = linkTree(t, model.TreeOpts{})
		} else {
			root = model.Tree(to).Draw(t, "tree")
		}
		var b []byte
		if rapid.IntRange(0, 3).Draw(t, "created") == 0 {
			var err error
			b, err = createErofs(model.Source(root, model.SrcOpts{}))
			must(t, err, "Create\n%s", root)
		} else {
			b = encodeErofsCase(t, root).Img.Bytes
		}
		m := &mutator{t: t, b: b, unit: rapid.SampledFrom([]int{32, 12, 512, 4096}).Draw(t, "unit"), spots: erofsSpots(b)}
		for i := rapid.IntRange(1, 8).Draw(t, "edits"); i > 0; i-- {
			if rapid.IntRange(0, 4).Draw(t, "field") > 0 && erofsField(m) {
				continue
			}
			m.generic()
		}
		if len(m.b) > 1152 && m.b[1032]&1 != 0 && rapid.IntRange(0, 9).Draw(t, "seal") > 0 {
			if bits := int(m.b[1036]); bits >= 9 && bits <= 16 {
				if _, hi := enc.ErofsSumRange(bits); hi <= len(m.b) {
					enc.SealErofs(m.b)
				}
			}
		}
		runHostile(t, st, "erofs", m.b, hostileProbes(t, root), m.what)
	})
}

// erofsInodes finds the inodes of an image by following its directories,
// stopping quietly at anything odd.
func erofsInodes(b []byte) (inodes, dirents []int) {
	defer func() { _ = recover() }()
	le := binary.LittleEndian
	if len(b) < 1152 {
		return
	}
	bits := int(b[1036])
	if bits < 9 || bits > 16 {
		return
	}
	bs := 1 << bits
	meta := int(le.Uint32(b[1064:])) << bits
	seen := map[int]bool{}
	var visit func(nid int)
	visit = func(nid int) {
		o := meta + nid*32
		if seen[o] || len(seen) > 300 {
			return
		}
		seen[o] = true
		if o < 0 || o+64 > len(b) {
			return
		}
		inodes = append(inodes, o)
		f := le.Uint16(b[o:])
		if le.Uint16(b[o+4:])&0o170000 != 0o040000 {
			return
		}
		isz, size := 32, int(le.Uint32(b[o+8:]))
		if f&1 != 0 {
			isz = 64
		}
		raw := int(le.Uint32(b[o+16:])) << bits
		for blk := 0; blk*bs < size; blk++ {
			base := raw + blk*bs
			n := min(bs, size-blk*bs)
			if (f>>1)&7 == 2 && n < bs {
				base = o + isz
			}
			cnt := int(le.Uint16(b[base+8:])) / 12
			for i := 0; i < cnt && i < 400; i++ {
				d := base + i*12
				dirents = append(dirents, d)
				visit(int(le.Uint64(b[d:])))
			}
		}
	}
	visit(int(le.Uint16(b[1038:])))
	return
}

func erofsSpots(b []byte) []int {
	i, d := erofsInodes(b)
	return append(append([]int{1024}, i...), d...)
}

// erofsField edits one field of the superblock, an inode or a directory entry.
func erofsField(m *mutator) bool {
	t := m.t
	inodes, dirents := erofsInodes(m.b)
	le := binary.LittleEndian
	nid := func() uint64 {
		if len(inodes) > 0 && rapid.IntRange(0, 3).Draw(t, "realnid") > 0 {
			o := rapid.SampledFrom(inodes).Draw(t, "nidof")
			meta := int(le.Uint32(m.b[1064:])) << m.b[1036]
			return uint64((o - meta) / 32)
		}
		return rapid.SampledFrom(append([]uint64{uint64(len(m.b) / 32), 1<<59 - 1, 1 << 59}, ints...)).Draw(t, "nid")
	}
	switch k := rapid.IntRange(0, 9).Draw(t, "what"); {
	case k < 1:
		if len(m.b) < 1152 {
			return false
		}
		f := rapid.SampledFrom([][2]int{{12, 1}, {14, 2}, {16, 8}, {36, 4}, {40, 4}, {44, 4}, {8, 4}, {13, 1}}).Draw(t, "sbfield")
		v := rapid.SampledFrom(ints).Draw(t, "int")
		if f[0] == 12 {
			v = uint64(rapid.IntRange(8, 17).Draw(t, "bits"))
		}
		if f[0] == 14 {
			v = nid()
		}
		var x [8]byte
		le.PutUint64(x[:], v)
		copy(m.b[1024+f[0]:1024+f[0]+f[1]], x[:f[1]])
		m.note("superblock field %d=%#x at %d", f[0], v, 1024+f[0])
		return true
	case k < 6:
		if len(inodes) == 0 {
			return false
		}
		o := rapid.SampledFrom(inodes).Draw(t, "inode")
		if o+64 > len(m.b) {
			return false
		}
		switch f := rapid.SampledFrom([]string{"format", "format", "size", "size", "size", "raw", "raw", "mode", "xattr", "mtime", "nsec", "owner"}).Draw(t, "inodefield"); f {
		case "format":
			v := rapid.SampledFrom([]uint16{0, 1, 2, 3, 4, 5, 6, 8, 9, 0x10, 0xffff}).Draw(t, "format")
			le.PutUint16(m.b[o:], v)
			m.note("inode format %d at %d", v, o)
		case "size":
			v := rapid.SampledFrom(append([]uint64{uint64(len(m.b)), uint64(len(m.b) + 1), 11, 13, 32, 64, 100}, ints...)).Draw(t, "size")
			if le.Uint16(m.b[o:])&1 != 0 {
				le.PutUint64(m.b[o+8:], v)
			} else {
				le.PutUint32(m.b[o+8:], uint32(v))
			}
			m.note("inode size %#x at %d", v, o)
		case "raw":
			v := rapid.SampledFrom([]uint32{0, 1, 2, 3, uint32(len(m.b) / 512), 0x7fffffff, 0x80000000, 0xffffffff, uint32(len(m.b) >> 12)}).Draw(t, "raw")
			le.PutUint32(m.b[o+16:], v)
			m.note("inode block %#x at %d", v, o)
		case "mode":
			v := rapid.SampledFrom([]uint16{0, 0o100644, 0o040755, 0o120777, 0o020600, 0o060600, 0o010600, 0o140777, 0o177777, 0o050000, 0o104755}).Draw(t, "mode")
			le.PutUint16(m.b[o+4:], v)
			m.note("inode mode %o at %d", v, o)
		case "xattr":
			le.PutUint16(m.b[o+2:], rapid.SampledFrom([]uint16{0, 1, 2, 0xffff}).Draw(t, "xattr"))
			m.note("inode xattr count at %d", o)
		case "mtime":
			le.PutUint64(m.b[o+32:], rapid.SampledFrom(ints).Draw(t, "int"))
			m.note("inode time at %d", o)
		case "nsec":
			le.PutUint32(m.b[o+40:], uint32(rapid.SampledFrom(ints).Draw(t, "int")))
			m.note("inode nanoseconds at %d", o)
		case "owner":
			le.PutUint32(m.b[o+24:], uint32(rapid.SampledFrom(ints).Draw(t, "int")))
			m.note("inode owner at %d", o)
		}
		return true
	default:
		if len(dirents) == 0 {
			return false
		}
		d := rapid.SampledFrom(dirents).Draw(t, "dirent")
		if d+12 > len(m.b) {
			return false
		}
		switch rapid.SampledFrom([]string{"nid", "nid", "nameoff", "nameoff", "type", "name"}).Draw(t, "direntfield") {
		case "nid":
			v := nid()
			le.PutUint64(m.b[d:], v)
			m.note("entry inode %#x at %d", v, d)
		case "nameoff":
			v := rapid.SampledFrom([]uint16{0, 1, 11, 12, 13, 24, 23, 25, 36, 48, 511, 512, 513, 4095, 4096, 0x7fff, 0xffff, 120}).Draw(t, "nameoff")
			if rapid.Bool().Draw(t, "nudge") {
				v = le.Uint16(m.b[d+8:]) + uint16(rapid.IntRange(-13, 13).Draw(t, "by"))
			}
			le.PutUint16(m.b[d+8:], v)
			m.note("entry name offset %d at %d", v, d)
		case "type":
			m.b[d+10] = byte(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 255}).Draw(t, "ft"))
			m.note("entry type %d at %d", m.b[d+10], d)
		case "name":
			o := d + int(le.Uint16(m.b[d+8:])) + rapid.IntRange(-40, 4).Draw(t, "nameat")
			if o < 0 || o >= len(m.b) {
				return false
			}
			s := rapid.SampledFrom([]string{"/", "..", ".", "\x00", "../x", "\x00\x00\x00", "a/"}).Draw(t, "name")
			copy(m.b[o:], s)
			m.note("name bytes %q at %d", s, o)
		}
		return true
	}
}

// deepTar is a small archive of much structure: a path of very many components,
// or a long chain of hard links. Opening it takes no more time than its size
// accounts for.
func deepTar(t *rapid.T) string {
	n := rapid.IntRange(12000, 25000).Draw(t, "n")
	data := []byte("at the end")
	var es []*enc.TarEntry
	add := func(typ byte, name, link string) {
		e := &enc.TarEntry{Type: typ, Name: name, Link: link, Mode: 0o644, Dialect: enc.TarDialect(1 + rapid.IntRange(0, 1).Draw(t, "dialect")), MTime: time.Unix(1, 0)}
		if typ == tar.TypeReg {
			e.Data = data
		}
		es = append(es, e)
	}
	var what, last string
	if rapid.IntRange(0, 2).Draw(t, "shape") > 0 {
		part := rapid.SampledFrom([]string{"a/", "a/", "bc/", "./d/"}).Draw(t, "part")
		what = fmt.Sprintf("a path of %d times %q", n, part)
		dir := strings.Repeat(part, n)
		last = path.Clean(dir) + "/f"
		if rapid.Bool().Draw(t, "named") {
			add(tar.TypeDir, dir, "")
			what += ", a directory"
		}
		add(tar.TypeReg, last, "")
		for i := rapid.IntRange(0, 2).Draw(t, "more"); i > 0; i-- {
			add(tar.TypeReg, strings.Repeat(part, rapid.IntRange(0, n).Draw(t, "depth"))+fmt.Sprintf("more%d", i), "")
		}
	} else {
		n /= 2
		what = fmt.Sprintf("a chain of %d hard links", n)
		order := rapid.IntRange(0, 2).Draw(t, "order")
		for i := range n {
			k := i
			if order == 1 {
				k = n - 1 - i
			} else if order == 2 {
				k = i * 7919 % n
			}
			if k == 0 {
				add(tar.TypeReg, "h0", "")
			} else {
				add(tar.TypeLink, fmt.Sprintf("h%d", k), fmt.Sprintf("h%d", k-1))
			}
		}
		if n%7919 == 0 && order == 2 {
			return "none"
		}
		last = fmt.Sprintf("h%d", n-1)
	}
	b := enc.EncodeTar(es, 2)
	var fsys fs.FS
	var err error
	if v := watched(3, func() { fsys, err = openTar(b) }); v != "" {
		t.Fatalf("opening an archive of %d bytes, %s: %s", len(b), what, v)
	}
	must(t, err, "opening %s", what)
	v := watched(3, func() {
		var fi fs.FileInfo
		if fi, err = fs.Stat(fsys, last); err == nil && fi.Size() != int64(len(data)) {
			err = fmt.Errorf("the file at the end has size %d", fi.Size())
		}
		var got []byte
		if err == nil {
			if got, err = fs.ReadFile(fsys, last); err == nil && !bytes.Equal(got, data) {
				err = errors.New("the file at the end has other contents")
			}
		}
	})
	if v != "" {
		t.Fatalf("the file at the end of %s: %s", what, v)
	}
	must(t, err, "the file at the end of %s", what)
	return "much structure in few bytes"
}
