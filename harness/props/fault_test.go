package props

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

// An ask is one question put to a filesystem.
type ask struct{ op, path string }

func (a ask) String() string { return a.op + " " + a.path }

// failed is the answer of an operation that reports an error.
const failed = "ERR"

// asksFor are the questions about everything the tree holds, and a few more
// paths.
func asksFor(root *model.Node, links bool, more []string) []ask {
	var out []ask
	seen := map[string]bool{}
	add := func(p string) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, op := range []string{"stat", "list", "read"} {
			out = append(out, ask{op, p})
		}
		if links {
			out = append(out, ask{"statlink", p}, ask{"readlink", p})
		}
	}
	root.Walk(func(p string, _ *model.Node) { add(p) })
	for _, p := range more {
		add(p)
	}
	return out
}

func infoText(fi fs.FileInfo, err error) string {
	if err != nil {
		return failed
	}
	return fmt.Sprintf("%q %v %d %d.%09d %s dir=%v", fi.Name(), fi.Mode(), fi.Size(), fi.ModTime().Unix(), fi.ModTime().Nanosecond(), model.OwnerOf(fi, owners), fi.IsDir())
}

// answer puts a question to a filesystem. A part that reports an error reads
// ERR; parts are separated by newlines.
func answer(fsys fs.FS, a ask) string {
	lf, _ := fsys.(linkFS)
	switch a.op {
	case "stat":
		return infoText(fs.Stat(fsys, a.path))
	case "statlink":
		if lf == nil {
			return failed
		}
		return infoText(lf.StatLink(a.path))
	case "readlink":
		if lf == nil {
			return failed
		}
		s, err := lf.ReadLink(a.path)
		if err != nil {
			return failed
		}
		return fmt.Sprintf("%q", s)
	case "list":
		l, err := fs.ReadDir(fsys, a.path)
		if err != nil {
			return failed
		}
		parts := []string{fmt.Sprintf("%q", entryNames(l))}
		for _, e := range l {
			parts = append(parts, infoText(e.Info()))
		}
		return strings.Join(parts, "\n")
	case "read":
		f, err := fsys.Open(a.path)
		if err != nil {
			return failed
		}
		defer f.Close()
		fi, err := f.Stat()
		st := infoText(fi, err)
		if err == nil && fi.IsDir() {
			return st
		}
		data, err := io.ReadAll(f)
		if err != nil {
			return st + "\n" + failed + "\n" + string(data)
		}
		return st + "\ncontents\n" + string(data)
	}
	panic("unknown question")
}

// compatible says whether an answer under faults is the intact one, but for
// parts that report errors.
func compatible(got, intact string) bool {
	if got == intact || got == failed {
		return true
	}
	g, i := strings.SplitN(got, "\n", 3), strings.SplitN(intact, "\n", 3)
	if len(g) == 3 && g[1] == failed && len(i) == 3 && i[1] == "contents" {
		// an open file that fails part of the way
		return (g[0] == failed || g[0] == i[0]) && strings.HasPrefix(i[2], g[2])
	}
	if len(g) == 3 && len(i) == 3 && g[1] == "contents" && i[1] == "contents" {
		return g[0] == failed && g[2] == i[2]
	}
	if strings.HasPrefix(got, "[") && strings.HasPrefix(intact, "[") {
		ga, ia := strings.Split(got, "\n"), strings.Split(intact, "\n")
		if len(ga) != len(ia) || ga[0] != ia[0] {
			return false
		}
		for k := range ga {
			if ga[k] != failed && ga[k] != ia[k] {
				return false
			}
		}
		return true
	}
	return false
}

// answers opens and asks; a failing Open answers everything with ERR.
func answers(kind string, r io.ReaderAt, asks []ask) []string {
	out := make([]string, len(asks))
	fsys, err := openAs(kind, onlyReaderAt{r})
	for i, a := range asks {
		if err != nil {
			out[i] = failed
		} else {
			out[i] = answer(fsys, a)
		}
	}
	return out
}

// firstBad is the first answer that is neither an error nor intact.
func firstBad(asks []ask, got, intact []string) string {
	for i := range asks {
		if !compatible(got[i], intact[i]) {
			return fmt.Sprintf("%v answers %s, the intact archive %s", asks[i], clip(fmt.Sprintf("%q", got[i]), 300), clip(fmt.Sprintf("%q", intact[i]), 300))
		}
	}
	return ""
}

// windows are the cuts that may look like a shorter archive: for a cut in
// [From, To] the archive of the given bytes.
type window struct {
	From, To int
	Short    []byte
	// NL allows the cut only when the last byte left is a newline.
	NL bool
}

// faultCase is an archive with what is known about where its members end.
type faultCase struct {
	kind    string
	raw     []byte
	root    *model.Node
	desc    func() string
	windows []window
	marks   []int // offsets of interest
}

func genFaultCase(t *rapid.T) *faultCase {
	c := &faultCase{kind: rapid.SampledFrom([]string{"tar", "tar", "ar", "erofs", "erofs"}).Draw(t, "kind")}
	switch c.kind {
	case "tar":
		tc := genTar(t, tarOpts{MaxSize: 2500, MaxNodes: 6})
		c.raw, c.root, c.desc = tc.Bytes, tc.Tree, tc.String
		prev := 0
		for _, e := range tc.Entries {
			// bytes before this entry make the shorter archive
			c.windows = append(c.windows, window{From: prev, To: e.Off, Short: append(append([]byte{}, c.raw[:e.Off]...), make([]byte, 1024)...)})
			c.marks = append(c.marks, e.Off, e.DataEnd, e.End)
			for o := e.Off; o < e.End && o < e.Off+4096; o += 512 {
				c.marks = append(c.marks, o)
			}
			prev = e.DataEnd
		}
		c.marks = append(c.marks, 0, len(c.raw)-1024)
		c.windows = append(c.windows, window{From: prev, To: len(c.raw), Short: c.raw})
	case "ar":
		ac := genAr(t, 5, 700)
		c.raw, c.root, c.desc = ac.Bytes, ac.Tree, ac.String
		for i, at := range ac.At {
			from := at
			if i > 0 && len(ac.Members[i-1].Data)%2 == 1 {
				from--
			}
			short := ac.Bytes[:min(at, len(ac.Bytes))]
			c.windows = append(c.windows, window{From: from, To: at, Short: short}, window{From: at + 1, To: at + 1, Short: short, NL: true})
			c.marks = append(c.marks, at, at+60, from)
		}
	case "erofs":
		to := model.TreeOpts{MaxNodes: 6, MaxSize: 6000, Special: true, TimeLevel: 2, BigDirs: true, BigMax: 40}
		// a link whose target takes more than a block, partly within its inode
		long := ""
		draw := func() *model.Node {
			root := model.Tree(to).Draw(t, "tree")
			if rapid.IntRange(0, 3).Draw(t, "longlink") == 0 {
				long = strings.Repeat("./", rapid.IntRange(200, 2047).Draw(t, "long")) + "a"
				l := &model.Node{Name: model.Uniq(root, "longlink", model.NameOpts{}), Kind: model.Link, Mode: 0o777, Target: long}
				root.Add(l)
			}
			return root
		}
		if rapid.IntRange(0, 2).Draw(t, "created") == 0 {
			root := draw()
			b, err := createErofs(model.Source(root, model.SrcOpts{Owner: model.OwnerTar}))
			must(t, err, "Create\n%s", root)
			c.raw, c.root, c.desc = b, root, root.String
		} else {
			ec := encodeErofsCase(t, draw())
			c.raw, c.root, c.desc = ec.Img.Bytes, ec.Tree, ec.String
		}
		ino, de := erofsInodes(c.raw)
		for _, o := range ino {
			c.marks = append(c.marks, o, o+32, o+64)
		}
		c.marks = append(c.marks, de...)
		c.marks = append(c.marks, 1024, 1024+128)
		if at := bytes.Index(c.raw, []byte("././a")); long != "" && at >= 0 {
			c.marks = append(c.marks, at-len(long)/2, at, at+5)
		}
		bs := 1 << c.raw[1036]
		for o := 0; o <= len(c.raw); o += bs {
			c.marks = append(c.marks, o)
		}
	}
	return c
}

// shortOK says whether the answers are those of a shorter archive that a cut
// at this offset may look like.
func (c *faultCase) shortOK(cut int, asks []ask, got []string) bool {
	for _, w := range c.windows {
		if cut < w.From || cut > w.To || w.NL && (cut < 1 || c.raw[cut-1] != '\n') {
			continue
		}
		if firstBad(asks, got, answers(c.kind, &memRA{b: w.Short}, asks)) == "" {
			return true
		}
	}
	return false
}

// C20: truncation and read errors never yield wrong data silently.
func TestC20(t *testing.T) {
	st := ev.Start(t, "C20", "a generated archive or image times every fault of a list: cut at a byte (all of them for small inputs, otherwise all offsets around structures and drawn ones), the n-th read failing once or from then on (enumerated up to a bound, then drawn), all reads of a byte range failing; everything is asked again and compared with the intact answers; evaluations counts faults; non-trivial: at least one answer becomes an error and at least one stays; distinct by archive and fault")
	check(t, func(t *rapid.T) {
		c := genFaultCase(t)
		more := model.Probes(t, c.root, 4)
		if c.kind == "ar" {
			more = append(more, "missing")
		}
		asks := asksFor(c.root, c.kind != "ar", more)
		clean := &faultRA{r: &memRA{b: c.raw}}
		intact := answers(c.kind, clean, asks)
		for i, a := range asks {
			if a.op == "list" && a.path == "." && intact[i] == failed {
				t.Fatalf("cannot list a well-formed %s\n%s", c.kind, c.desc())
			}
		}
		id := hashOf(c.raw)
		st.Sample(func() string {
			return fmt.Sprintf("%s of %d bytes, %d questions, %d reads\n%s", c.kind, len(c.raw), len(asks), clean.calls, c.desc())
		})
		run := func(what string, label string, r io.ReaderAt, okShort func(got []string) bool) {
			st.Journal(func() string { return fmt.Sprintf("%s %s\n%x", c.kind, what, c.raw) })
			var got []string
			if p := try(func() { got = answers(c.kind, r, asks) }); p != "" {
				t.Fatalf("%s with %s: %s\n%s", c.kind, what, p, c.desc())
			}
			errs, same := 0, 0
			for i := range got {
				if intact[i] == failed {
					continue
				}
				if got[i] == intact[i] {
					same++
				} else {
					errs++
				}
			}
			st.Case(errs > 0 && same > 0, id^hashOf(what), c.kind+" "+label)
			bad := firstBad(asks, got, intact)
			if bad == "" || okShort != nil && okShort(got) {
				return
			}
			t.Fatalf("%s with %s: %s\n%s", c.kind, what, bad, c.desc())
		}

		// cuts
		cuts := map[int]bool{}
		size := len(c.raw)
		if c.kind == "ar" && size <= 400 || size <= 150 {
			for i := 0; i < size; i++ {
				cuts[i] = true
			}
		} else {
			for _, m := range rapid.SliceOfN(rapid.SampledFrom(c.marks), 10, 30).Draw(t, "cutmarks") {
				for d := -1; d <= 1; d++ {
					cuts[m+d] = true
				}
			}
			for _, o := range rapid.SliceOfN(rapid.IntRange(0, size-1), 5, 15).Draw(t, "cuts") {
				cuts[o] = true
			}
		}
		for _, cut := range keys(cuts) {
			if cut < 0 || cut >= size {
				continue
			}
			run(fmt.Sprintf("a cut at byte %d of %d", cut, size), "cut", &memRA{b: c.raw[:cut:cut], eager: cut%2 == 1}, func(got []string) bool { return c.shortOK(cut, asks, got) })
		}

		// failing reads
		n := clean.calls
		nth := map[int]bool{}
		for i := 1; i <= min(n, 12); i++ {
			nth[i] = true
		}
		for _, i := range rapid.SliceOfN(rapid.IntRange(1, max(n, 1)), 8, 20).Draw(t, "nth") {
			nth[i] = true
		}
		e := rapid.SampledFrom([]error{model.ErrInjected, io.ErrUnexpectedEOF, syscall.EIO, fs.ErrNotExist, os.ErrDeadlineExceeded}).Draw(t, "readerror")
		for _, i := range keys(nth) {
			for _, sticky := range []bool{false, true} {
				run(fmt.Sprintf("read %d failing (from then on: %v) with %v", i, sticky, e), "failing read", &faultRA{r: &memRA{b: c.raw}, Fail: i, Sticky: sticky, Err: e}, nil)
			}
		}
		for k := rapid.IntRange(1, 4).Draw(t, "ranges"); k > 0 && size > 0; k-- {
			lo := rapid.IntRange(0, size-1).Draw(t, "lo")
			if rapid.Bool().Draw(t, "aligned") {
				lo = lo / 512 * 512
			}
			ln := rapid.SampledFrom([]int{1, 16, 512, 4096}).Draw(t, "badlen")
			part := rapid.Bool().Draw(t, "part")
			run(fmt.Sprintf("unreadable bytes %d to %d (partial reads: %v) with %v", lo, lo+ln, part, e), "unreadable range", &faultRA{r: &memRA{b: c.raw}, Lo: int64(lo), Hi: int64(lo + ln), Part: part, Err: e}, nil)
		}
	})
}

func keys(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// faultW is a destination that fails its n-th write, once or from then on,
// after taking part of it.
type faultW struct {
	memWA
	fail, calls int
	part        int
	sticky, hit bool
	err         error
	seq         int64
}

func (w *faultW) WriteAt(p []byte, off int64) (int, error) {
	w.calls++
	if w.fail > 0 && (w.calls == w.fail || w.sticky && w.calls > w.fail) {
		w.hit = true
		n := min(w.part, len(p))
		if n > 0 {
			_, _ = w.memWA.WriteAt(p[:n], off)
		}
		return n, w.err
	}
	return w.memWA.WriteAt(p, off)
}

// seqW presents it as an io.Writer.
type seqW struct{ w *faultW }

func (s seqW) Write(p []byte) (int, error) {
	n, err := s.w.WriteAt(p, s.w.seq)
	s.w.seq += int64(n)
	return n, err
}

func createTo(kind string, w *faultW, src fs.FS) error {
	switch kind {
	case "tar":
		return tarfs.Create(seqW{w}, src)
	case "ar":
		return arfs.Create(seqW{w}, src)
	}
	return erofs.Create(w, src)
}

// createTree draws a tree that a format holds.
func createTree(t *rapid.T, kind string, small bool) *model.Node {
	nodes, size := 8, 6000
	if small {
		nodes, size = 5, 5000
	}
	switch kind {
	case "tar":
		return model.Tree(model.TreeOpts{MaxNodes: nodes, MaxSize: size, Special: true, TimeLevel: 3, MaxOwner: 1<<31 - 1}).Draw(t, "tree")
	case "ar":
		return arTree(t, nodes, 2000)
	}
	return model.Tree(model.TreeOpts{MaxNodes: nodes, MaxSize: size, Special: true, TimeLevel: 3, BigDirs: !small, BigMax: 60}).Draw(t, "tree")
}

// holdsTree checks that what Create wrote holds the whole tree.
func holdsTree(kind string, b []byte, root *model.Node) string {
	fsys, err := openAs(kind, &memRA{b: b})
	if err != nil {
		return "Open: " + err.Error()
	}
	seen, err := model.Observe(fsys, model.ObserveOpts{Lean: true})
	if err != nil {
		return err.Error()
	}
	return model.Diff(root, seen, model.Want{SkipRoot: true, NoMTime: true, NoPerm: true})
}

// C21: Create never reports success for an archive it failed to write in full.
func TestC21(t *testing.T) {
	st := ev.Start(t, "C21", "a generated source times every fault of a list: the n-th write failing (once or from then on, after part of the bytes; all n up to a bound, then drawn), the n-th source operation failing (all n up to a bound, then drawn; several error values), a file delivering more or fewer bytes than it reports; evaluations counts faults; non-trivial: the fault is hit after at least one byte was written; distinct by source and fault")
	check(t, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"tar", "ar", "erofs"}).Draw(t, "kind")
		root := createTree(t, kind, true)
		so := srcOptsFor(t, true, hasLinks(root))
		id := root.Hash() ^ hashOf(kind, so.String())
		desc := func() string { return root.String() + so.String() }
		create := func(w *faultW, o model.SrcOpts) error {
			var err error
			if p := try(func() { err = createTo(kind, w, model.Source(root, o)) }); p != "" {
				t.Fatalf("%s Create: %s\n%s", kind, p, desc())
			}
			return err
		}
		// without faults
		w := &faultW{}
		ops := 0
		o := so
		o.Fault = func(string, string) error { ops++; return nil }
		must(t, create(w, o), "%s Create\n%s", kind, desc())
		if d := holdsTree(kind, w.image(), root); d != "" {
			t.Fatalf("%s Create succeeds but the archive differs: %s\n%s", kind, d, desc())
		}
		st.Sample(func() string {
			return fmt.Sprintf("%s: %d writes, %d source operations\n%s", kind, w.calls, ops, desc())
		})
		pick := func(n int, label string) []int {
			set := map[int]bool{}
			for i := 1; i <= min(n, 40); i++ {
				set[i] = true
			}
			for i := max(1, n-4); i <= n; i++ {
				set[i] = true
			}
			if n > 44 {
				for _, i := range rapid.SliceOfN(rapid.IntRange(1, n), 10, 20).Draw(t, label) {
					set[i] = true
				}
			}
			return keys(set)
		}
		// writes
		werr := rapid.SampledFrom([]error{model.ErrInjected, syscall.ENOSPC, io.ErrShortWrite, io.ErrClosedPipe, fs.ErrClosed, io.EOF}).Draw(t, "werr")
		part := rapid.SampledFrom([]int{0, 0, 1, 100, 511}).Draw(t, "part")
		sticky := rapid.Bool().Draw(t, "sticky")
		for _, n := range pick(w.calls, "nthwrite") {
			fw := &faultW{fail: n, part: part, sticky: sticky, err: werr}
			err := create(fw, so)
			st.Case(fw.hit && n > 1, id^hashOf("w", n, part, sticky, werr), kind+" write fault")
			if fw.hit && err == nil {
				t.Fatalf("%s Create reports success although write %d of %d failed with %v after %d bytes\n%s", kind, n, w.calls, werr, part, desc())
			}
		}
		// source operations
		serr := rapid.SampledFrom([]error{model.ErrInjected, fs.ErrNotExist, fs.ErrPermission, syscall.EIO, io.ErrUnexpectedEOF, fs.ErrInvalid, fs.ErrClosed, os.ErrDeadlineExceeded}).Draw(t, "serr")
		bare := rapid.Bool().Draw(t, "bare")
		for _, n := range pick(ops, "nthop") {
			k, what := 0, ""
			fo := so
			fo.Bare = bare
			fo.Fault = func(op, p string) error {
				if k++; k == n {
					what = op + " " + p
					return serr
				}
				return nil
			}
			fw := &faultW{}
			err := create(fw, fo)
			st.Case(what != "" && fw.calls > 0, id^hashOf("s", n, serr, bare), kind+" source fault", "op "+strings.SplitN(what+" ", " ", 2)[0])
			if what != "" && err == nil {
				t.Fatalf("%s Create reports success although operation %d (%s) of the source failed with %v\n%s", kind, n, what, serr, desc())
			}
		}
		// lies
		var files []*model.Node
		for _, n := range root.All() {
			if n.Kind == model.File {
				files = append(files, n)
			}
		}
		for i := 0; len(files) > 0 && i < 6; i++ {
			f := rapid.SampledFrom(files).Draw(t, "liar")
			l := len(f.Data)
			d := rapid.SampledFrom([]int{-1, 1, -l, 2, 512, -2, -512, 4096, 1024, 100000, -4096, 513}).Draw(t, "lie")
			if l+d < 0 || d == 0 {
				d = 1
			}
			fo := so
			fo.Lie = map[string]int{f.Path(): l + d}
			fw := &faultW{}
			err := create(fw, fo)
			st.Case(fw.calls > 0, id^hashOf("l", f.Path(), d), kind+" size lie")
			if err == nil {
				t.Fatalf("%s Create reports success although %q reports %d bytes and delivers %d\n%s", kind, f.Path(), l, l+d, desc())
			}
		}
		// a destination file that cannot be written
		if kind == "erofs" && rapid.IntRange(0, 3).Draw(t, "readonly") == 0 {
			dir, err := os.MkdirTemp("", "verif")
			must(t, err, "scratch directory")
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "img")
			must(t, os.WriteFile(p, nil, 0o600), "scratch file")
			f, err := os.Open(p)
			must(t, err, "scratch file")
			err = erofs.Create(f, model.Source(root, so))
			_ = f.Close()
			st.Case(true, id^hashOf("ro"), "erofs read-only file")
			if err == nil {
				t.Fatalf("erofs Create reports success for a file it cannot write\n%s", desc())
			}
		}
	})
}

var (
	_ = tar.TypeReg
	_ = bytes.Equal
	_ = binary.LittleEndian
	_ = errors.Is
	_ = path.Join
	_ = enc.EncodeAr
)
