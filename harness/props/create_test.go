package props

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/bits"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/erofs"
	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

// C22: Create is reproducible.
func TestC22(t *testing.T) {
	st := ev.Start(t, "C22", "a generated source presented in several ways (optional interfaces, size of read pieces, early EOF, other times of access), and archives (independently encoded or created) copied twice with Open and Create; some are made by another process as well (other time zone, locale, parallelism, place and, for a few, a later second); non-trivial: at least 3 nodes and some content; distinct by tree or archive bytes")
	check(t, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"tar", "ar", "erofs"}).Draw(t, "kind")
		if rapid.Bool().Draw(t, "copies") {
			c22copies(t, st, kind)
			return
		}
		root := createTree(t, kind, false)
		if kind != "ar" {
			maybeDeep(t, root)
		}
		bytesIn := 0
		for _, n := range root.All() {
			bytesIn += len(n.Data)
		}
		links := hasLinks(root)
		owner := model.OwnerVia(rapid.IntRange(0, 2).Draw(t, "ownerVia"))
		st.Case(len(root.All()) >= 3 && bytesIn > 0, root.Hash()^hashOf(kind, int(owner)), kind+" sources")
		st.Sample(root.String)
		var first []byte
		var firstOpts model.SrcOpts
		for i := 0; i < 4; i++ {
			so := model.SrcOpts{}
			if i > 0 {
				so = srcOptsFor(t, false, links)
			}
			so.Owner, so.Seen = owner, int64(i)
			b, err := createAs(kind, model.Source(root, so))
			must(t, err, "%s Create\n%s%s", kind, root, so)
			if i == 0 {
				first, firstOpts = b, so
				continue
			}
			if !bytes.Equal(b, first) {
				t.Fatalf("%s Create gives other bytes for the same tree: %s\nfirst source %v\nother source %v\n%s", kind, model.DiffBytes(b, first), firstOpts, so, root)
			}
		}
		if rapid.IntRange(0, 5).Draw(t, "elsewhere") == 3 {
			if rare(t, "later", 600) {
				time.Sleep(1100 * time.Millisecond)
			}
			tree := toPeer(root)
			elsewhere(t, st, peerAsk{Kind: kind, Tree: &tree, Owner: int(owner)}, first, root.String)
		}
	})
}

// elsewhere has another process make the same archive.
func elsewhere(t *rapid.T, st *ev.Stats, q peerAsk, want []byte, desc func() string) {
	st.Label("made by another process as well", 1)
	b, err := askPeer(q)
	must(t, err, "%s Create\n%s", q.Kind, desc())
	if !bytes.Equal(b, want) {
		t.Fatalf("%s Create gives other bytes in another process: %s\n%s", q.Kind, model.DiffBytes(b, want), desc())
	}
}

func c22copies(t *rapid.T, st *ev.Stats, kind string) {
	var a0 []byte
	var desc func() string
	nodes := 0
	how := "encoded"
	if rapid.IntRange(0, 2).Draw(t, "created") == 0 {
		how = "created"
		root := createTree(t, kind, false)
		so := srcOptsFor(t, true, hasLinks(root))
		b, err := createAs(kind, model.Source(root, so))
		must(t, err, "%s Create\n%s%s", kind, root, so)
		a0, desc, nodes = b, root.String, len(root.All())
	} else {
		o := genOpened(t, 5000, kind)
		a0, desc, nodes = o.Raw, o.Desc, len(o.Root.All())
	}
	st.Case(nodes >= 3, hashOf(a0), kind+" copies of "+how)
	st.Sample(func() string { return kind + " copied twice, " + how + "\n" + desc() })
	copyOf := func(b []byte, what string) []byte {
		fsys, err := openAs(kind, &memRA{b: b})
		must(t, err, "opening %s as %s\n%s", what, kind, desc())
		out, err := createAs(kind, fsys)
		must(t, err, "%s Create from %s\n%s", kind, what, desc())
		again, err := createAs(kind, fsys)
		must(t, err, "%s Create from %s again\n%s", kind, what, desc())
		if !bytes.Equal(out, again) {
			t.Fatalf("%s Create from %s gives other bytes the second time: %s\n%s", kind, what, model.DiffBytes(again, out), desc())
		}
		return out
	}
	a1 := copyOf(a0, "the archive")
	if rapid.IntRange(0, 5).Draw(t, "elsewhere") == 3 {
		elsewhere(t, st, peerAsk{Kind: kind, Raw: a0}, a1, desc)
	}
	a2 := copyOf(a1, "its copy")
	if !bytes.Equal(a1, a2) {
		t.Fatalf("the copy of a copied %s differs: %s\n%s", kind, model.DiffBytes(a2, a1), desc())
	}
}

// scribbleRA uses the whole buffer as scratch space, as io.ReaderAt allows.
type scribbleRA struct{ memRA }

func (s *scribbleRA) ReadAt(p []byte, off int64) (int, error) {
	n, err := s.memRA.ReadAt(p, off)
	for i := n; i < len(p); i++ {
		p[i] = 0xA5
	}
	return n, err
}

// tellRA has other methods and notes when they are used to change something.
type tellRA struct {
	memRA
	wrote []string
}

func (r *tellRA) WriteAt(p []byte, off int64) (int, error) {
	r.wrote = append(r.wrote, "WriteAt")
	return len(p), nil
}
func (r *tellRA) Write(p []byte) (int, error) { r.wrote = append(r.wrote, "Write"); return len(p), nil }
func (r *tellRA) Truncate(int64) error        { r.wrote = append(r.wrote, "Truncate"); return nil }
func (r *tellRA) Sync() error                 { r.wrote = append(r.wrote, "Sync"); return nil }

// C24: results do not depend on how the reader behaves or how reads are sized.
func TestC24(t *testing.T) {
	st := ev.Start(t, "C24", "a generated archive or image (sometimes damaged) read through several readers over the same bytes (EOF with the last bytes or after them, scratch use of the buffer, a file, a reader that can also write), all answers compared; then files read with drawn sequences of buffer sizes; non-trivial: a file with content; distinct by archive bytes and buffer sizes")
	check(t, func(t *rapid.T) {
		o := genOpened(t, 5000, "tar", "ar", "erofs")
		raw := o.Raw
		broken := false
		if rapid.IntRange(0, 4).Draw(t, "cut") == 0 && len(raw) > 0 {
			broken = true
			n := rapid.IntRange(0, len(raw)).Draw(t, "cutat")
			if rapid.Bool().Draw(t, "cutblock") {
				n = n / 512 * 512
			}
			raw = raw[:n:n]
		}
		before := append([]byte{}, raw...)
		asks := asksFor(o.Root, o.Kind != "ar", model.Probes(t, o.Root, 3))
		tell := &tellRA{memRA: memRA{b: raw}}
		type variant struct {
			name string
			r    io.ReaderAt
		}
		vs := []variant{
			{"a reader that returns EOF after the last bytes", onlyReaderAt{&memRA{b: raw}}},
			{"a reader that returns EOF with the last bytes", onlyReaderAt{&memRA{b: raw, eager: true}}},
			{"a bytes.Reader", bytes.NewReader(raw)},
			{"a strings.Reader", onlyReaderAt{strings.NewReader(string(raw))}},
			{"a reader that uses the whole buffer", onlyReaderAt{&scribbleRA{memRA{b: raw, eager: rapid.Bool().Draw(t, "eager")}}}},
			{"a reader that can write", tell},
			{"a section of a larger reader", io.NewSectionReader(bytes.NewReader(append(append([]byte("garbage"), raw...), "more"...)), 7, int64(len(raw)))},
		}
		if rapid.IntRange(0, 3).Draw(t, "file") == 0 {
			dir, err := os.MkdirTemp("", "verif")
			must(t, err, "scratch directory")
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "archive")
			must(t, os.WriteFile(p, raw, 0o600), "scratch file")
			f, err := os.Open(p)
			must(t, err, "scratch file")
			defer f.Close()
			// a file elsewhere in its own stream must not matter
			_, _ = f.Seek(3, io.SeekStart)
			vs = append(vs, variant{"a file", f})
		}
		var first []string
		for i, v := range vs {
			var got []string
			if p := try(func() { got = answersRaw(o.Kind, v.r, asks) }); p != "" {
				t.Fatalf("%s with %s: %s\n%s", o.Kind, v.name, p, o.Desc())
			}
			if i == 0 {
				first = got
				continue
			}
			for k := range asks {
				if got[k] != first[k] {
					t.Fatalf("%s of %d bytes (cut: %v), %v with %s answers %s, with %s %s\n%s", o.Kind, len(raw), broken, asks[k], v.name, clip(fmt.Sprintf("%q", got[k]), 300), vs[0].name, clip(fmt.Sprintf("%q", first[k]), 300), o.Desc())
				}
			}
		}
		if len(tell.wrote) > 0 {
			t.Fatalf("opening and reading %s calls %q\n%s", o.Kind, tell.wrote, o.Desc())
		}
		if !bytes.Equal(before, raw) {
			t.Fatalf("opening and reading %s changes the bytes\n%s", o.Kind, o.Desc())
		}

		// sizes of reads
		var files []*model.Node
		for _, n := range o.Root.All() {
			if n.Kind == model.File {
				files = append(files, n)
			}
		}
		var sizes []int
		content := false
		if !broken && len(files) > 0 {
			sizes = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]int{0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 20000}), rapid.IntRange(0, 300)), 1, 12).Draw(t, "sizes")
			for i := 0; i < 3; i++ {
				n := rapid.SampledFrom(files).Draw(t, "file")
				content = content || len(n.Data) > 0
				v := rapid.SampledFrom(vs).Draw(t, "reader")
				fsys, err := openAs(o.Kind, v.r)
				must(t, err, "opening %s\n%s", o.Kind, o.Desc())
				f, err := fsys.Open(n.Path())
				must(t, err, "opening %q of %s\n%s", n.Path(), o.Kind, o.Desc())
				if d := readSized(f, n.Data, sizes); d != "" {
					t.Fatalf("%s with %s, reading %q (%d bytes) in pieces of %v: %s\n%s", o.Kind, v.name, n.Path(), len(n.Data), sizes, d, o.Desc())
				}
				_ = f.Close()
			}
		}
		st.Case(content, hashOf(raw, fmt.Sprint(sizes)), o.Kind, fmt.Sprintf("cut=%v", broken))
		st.Sample(func() string { return fmt.Sprintf("%s, pieces of %v\n%s", o.Kind, sizes, o.Desc()) })
	})
}

// answersRaw is answers without hiding the reader's other methods.
func answersRaw(kind string, r io.ReaderAt, asks []ask) []string {
	out := make([]string, len(asks))
	fsys, err := openAs(kind, r)
	for i, a := range asks {
		if err != nil {
			out[i] = failed
		} else {
			out[i] = answer(fsys, a)
		}
	}
	return out
}

// readSized reads a file to its end with buffers of the given sizes, over and
// over.
func readSized(f io.Reader, want []byte, sizes []int) string {
	off, idle := 0, 0
	sum := 0
	for _, s := range sizes {
		sum += s
	}
	if sum == 0 {
		sizes = append(append([]int{}, sizes...), 7)
	}
	for i := 0; ; i++ {
		buf := bytes.Repeat([]byte{0xEE}, sizes[i%len(sizes)])
		n, err := f.Read(buf)
		if n < 0 || n > len(buf) {
			return fmt.Sprintf("Read returns %d for a buffer of %d", n, len(buf))
		}
		if off+n > len(want) || !bytes.Equal(buf[:n], want[off:off+n]) {
			return fmt.Sprintf("wrong bytes at %d (%d read)", off, n)
		}
		off += n
		if err == io.EOF {
			if off != len(want) {
				return fmt.Sprintf("EOF after %d of %d bytes", off, len(want))
			}
			break
		}
		if err != nil {
			return fmt.Sprintf("error after %d bytes: %v", off, err)
		}
		if n == 0 {
			if idle++; idle > 100+20*len(sizes) {
				return fmt.Sprintf("no progress at %d", off)
			}
		} else {
			idle = 0
		}
	}
	for i := 0; i < 2; i++ {
		if n, err := f.Read(make([]byte, 5)); n != 0 || err != io.EOF {
			return fmt.Sprintf("reading past the end gives %d, %v", n, err)
		}
	}
	return ""
}

// C25: converting between formats keeps the tree.
func TestC25(t *testing.T) {
	st := ev.Start(t, "C25", "a generated tree that starts as a source, an in-memory filesystem or an independently encoded archive and goes through a drawn chain of 1 to 5 formats with Create and Open; non-trivial: at least 3 nodes and at least 2 different formats; distinct by tree and chain")
	check(t, func(t *rapid.T) {
		start := rapid.SampledFrom([]string{"source", "source", "mem", "tar", "erofs", "flat", "ar", "flatmem"}).Draw(t, "start")
		kinds := []string{"tar", "erofs"}
		var cur fs.FS
		var root *model.Node
		want := model.Want{SkipRoot: true, MTime: epoch, MTimeNear: time.Second}
		desc := func() string { return root.String() }
		switch start {
		case "source":
			root = model.Tree(model.TreeOpts{MaxNodes: 12, MaxSize: 9000, Special: true, TimeLevel: 3, BigDirs: true, MaxOwner: 1<<31 - 1}).Draw(t, "tree")
			maybeDeep(t, root)
			cur = model.Source(root, srcOptsFor(t, true, hasLinks(root)))
		case "mem", "flatmem":
			to := model.TreeOpts{MaxNodes: 12, MaxSize: 9000, NoLinks: true, BigDirs: true, BigMax: 60}
			if start == "flatmem" {
				root = arTree(t, 10, 3000)
				for _, n := range root.All() {
					n.Mode &= fs.ModePerm
				}
				kinds = []string{"tar", "erofs", "ar"}
			} else {
				root = model.Tree(to).Draw(t, "tree")
				maybeDeep(t, root)
			}
			m, err := buildMem(root)
			must(t, err, "filling an in-memory filesystem\n%s", root)
			// times are the filesystem's own
			for _, n := range root.All() {
				fi, err := fs.Stat(m, n.Path())
				must(t, err, "Stat(%q) of an in-memory filesystem\n%s", n.Path(), root)
				n.MTime = fi.ModTime()
			}
			cur = m
		case "flat":
			root = arTree(t, 10, 3000)
			kinds = []string{"tar", "erofs", "ar"}
			cur = model.Source(root, srcOptsFor(t, true, false))
		default:
			o := genOpened(t, 5000, start)
			root, cur, desc = o.Root, o.FS, o.Desc
			if start == "ar" {
				kinds = []string{"tar", "erofs", "ar"}
			}
		}
		chain := rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 5).Draw(t, "chain")
		distinct := map[string]bool{start: true}
		for i, k := range chain {
			distinct[k] = true
			b, err := createAs(k, cur)
			must(t, err, "%s then %v: %s Create\n%s", start, chain[:i+1], k, desc())
			cur, err = openAs(k, &memRA{b: b})
			must(t, err, "%s then %v: %s Open\n%s", start, chain[:i+1], k, desc())
		}
		st.Case(len(root.All()) >= 3 && len(distinct) >= 2, root.Hash()^hashOf(start, fmt.Sprint(chain)), "start "+start, "end "+chain[len(chain)-1])
		st.Sample(func() string { return fmt.Sprintf("%s then %v\n%s", start, chain, desc()) })
		seen, err := model.Observe(cur, model.ObserveOpts{Lean: true})
		must(t, err, "reading after %s then %v\n%s", start, chain, desc())
		if d := model.Diff(root, seen, want); d != "" {
			t.Fatalf("after %s then %v the tree differs: %s\n%s", start, chain, d, desc())
		}
	})
}

// C26: what a format cannot hold is refused, never altered or dropped.
func TestC26(t *testing.T) {
	st := ev.Start(t, "C26", "a source the format can hold plus one thing it cannot (special file, name, number, link), at a drawn place, to Create; tar streams with device nodes and pipes to Open; also borderline values, which may be refused or must come back unaltered; non-trivial: other content is present too; distinct by tree and what was added")
	check(t, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"tar", "ar", "ar", "erofs", "erofs", "tar open"}).Draw(t, "kind")
		if kind == "tar open" {
			c26open(t, st)
			return
		}
		if kind == "erofs" && rapid.IntRange(0, 7).Draw(t, "image") == 0 {
			label, desc := hugeImage(t)
			st.Case(true, hashOf(desc), label)
			st.Sample(func() string { return label + ": " + desc })
			return
		}
		if kind == "ar" && rapid.IntRange(0, 15).Draw(t, "widesize") == 0 {
			desc := wideSize(t)
			st.Case(true, hashOf(desc), "ar wide size")
			st.Sample(func() string { return "ar wide size: " + desc })
			return
		}
		root := createTree(t, kind, true)
		so := srcOptsFor(t, true, true)
		dirs := dirsOf(root)
		d := root
		if kind != "ar" {
			d = rapid.SampledFrom(dirs).Draw(t, "dir")
		}
		name := func() string {
			return model.Uniq(d, model.FixName(strings.TrimRight(model.Name(model.NameOpts{MaxLen: 12}).Draw(t, "badname"), " "), model.NameOpts{MaxLen: 12}), model.NameOpts{MaxLen: 12})
		}
		bad := &model.Node{Kind: model.File, Mode: 0o644, MTime: time.Unix(1, 0), Data: []byte{}}
		if rapid.Bool().Draw(t, "badcontent") {
			bad.Data = []byte("content")
		}
		special := map[string]fs.FileMode{
			"block device": fs.ModeDevice, "character device": fs.ModeDevice | fs.ModeCharDevice, "pipe": fs.ModeNamedPipe,
			"socket": fs.ModeSocket, "irregular": fs.ModeIrregular,
		}
		var cases []string
		switch kind {
		case "tar":
			cases = []string{"socket", "irregular", "link"}
		case "erofs":
			cases = []string{"block device", "character device", "pipe", "socket", "irregular", "link", "long name", "slash", "nul", "big owner", "negative owner", "long target", "own link"}
		case "ar":
			cases = []string{"block device", "character device", "pipe", "socket", "irregular", "dir", "own link", "long ar name", "blank end", "slash", "slash end", "wide mtime", "wide uid", "wide gid", "negative wide mtime", "dot slash"}
		}
		what := rapid.SampledFrom(cases).Draw(t, "what")
		if what == "big owner" && bits.UintSize == 32 {
			what = "negative owner" // nothing can ask for it
		}
		so.NoLinks = false
		ownerVia := func() {
			if so.Owner == model.OwnerNone || so.Owner == model.OwnerStat {
				so.Owner = model.OwnerTar
			}
		}
		bad.Name = name()
		switch what {
		case "block device", "character device", "pipe", "socket", "irregular":
			bad.ModeType = special[what]
			if so.Owner == model.OwnerTar {
				// a tar header of the source would name another type
				so.Owner = model.OwnerNone
			}
		case "dir":
			bad.Kind, bad.Kids = model.Dir, map[string]*model.Node{}
		case "link":
			bad.Kind, bad.Target = model.Link, "x"
			so.NoLinks = true
		case "own link":
			if kind == "erofs" {
				// a link without a target that can be read
				bad.Kind, bad.Target = model.Link, "x"
				so.NoLinks = true
			} else {
				bad.Kind, bad.Target = model.Link, "x"
			}
		case "long name":
			n := rapid.SampledFrom([]int{256, 257, 300, 1000, 4000, 5000, 70000}).Draw(t, "namelen")
			bad.Name = strings.Repeat(rapid.SampledFrom([]string{"n", ".", "é"}).Draw(t, "namebase"), n)[:n]
		case "slash":
			bad.Name = rapid.SampledFrom([]string{"a/b", "/", "/a", "../x"}).Draw(t, "slashname")
			so.NoStat, so.NoReadDir = false, false
		case "nul":
			i := rapid.IntRange(0, len(bad.Name)).Draw(t, "nulat")
			bad.Name = bad.Name[:i] + "\x00" + bad.Name[i:]
			if rapid.IntRange(0, 3).Draw(t, "onlynul") == 0 {
				bad.Name = "\x00"
			}
		case "slash end":
			bad.Name = bad.Name + "/"
		case "dot slash":
			bad.Name = "./" + bad.Name
		case "long ar name":
			n := rapid.SampledFrom([]int{17, 18, 20, 100, 255}).Draw(t, "namelen")
			bad.Name = strings.Repeat("n", n)
		case "blank end":
			bad.Name = bad.Name + strings.Repeat(" ", rapid.IntRange(1, 4).Draw(t, "blanks"))
		case "big owner":
			ownerVia()
			v := rapid.SampledFrom(intsOf(1<<32, 1<<32+5, 1<<40)).Draw(t, "owner")
			if rapid.Bool().Draw(t, "gid") {
				bad.GID = v
			} else {
				bad.UID = v
			}
		case "negative owner":
			ownerVia()
			v := -rapid.SampledFrom(intsOf(1, 2, 1<<32)).Draw(t, "owner")
			if rapid.Bool().Draw(t, "gid") {
				bad.GID = v
			} else {
				bad.UID = v
			}
		case "long target":
			n := rapid.SampledFrom([]int{4096, 4097, 5000, 70000}).Draw(t, "targetlen")
			bad.Kind, bad.Target = model.Link, strings.Repeat("t/", n/2+1)[:n]
		case "wide mtime":
			bad.MTime = time.Unix(rapid.SampledFrom([]int64{1000000000000, 1000000000001, 99999999999999}).Draw(t, "mtime"), 0)
		case "negative wide mtime":
			bad.MTime = time.Unix(rapid.SampledFrom([]int64{-100000000000, -999999999999}).Draw(t, "mtime"), 0)
		case "wide uid":
			so.Owner = model.OwnerStat
			bad.UID = rapid.SampledFrom(intsOf(1000000, 1000001, 1<<32-1)).Draw(t, "owner")
		case "wide gid":
			so.Owner = model.OwnerStat
			bad.GID = rapid.SampledFrom(intsOf(1000000, 1000001, 1<<32-1)).Draw(t, "owner")
		}
		if d.Kids[bad.Name] != nil || bad.Kind == model.Link && kind == "tar" && !so.NoLinks {
			t.Skip("name taken")
		}
		others := len(root.All()) - 1
		if bad.Kind == model.Link {
			bad.Data = nil
		}
		d.Add(bad)
		st.Case(others > 0, root.Hash()^hashOf(kind, what, so.String()), kind+" "+what)
		st.Sample(func() string { return fmt.Sprintf("%s, %s\n%s%v", kind, what, root, so) })
		var b []byte
		var err error
		if p := try(func() { b, err = createAs(kind, rawNames{model.Source(root, so), root, so}.fs()) }); p != "" {
			t.Fatalf("%s Create with %s: %s\n%s%s", kind, what, p, root, so)
		}
		if err == nil {
			got := "which does not open"
			if fsys, oerr := openAs(kind, &memRA{b: b}); oerr == nil {
				if seen, serr := model.Observe(fsys, model.ObserveOpts{Lean: true, Owner: owners}); serr == nil {
					got = "which opens with: " + model.Diff(root, seen, model.Want{SkipRoot: true, Owner: so.Owner != model.OwnerNone, MTime: epoch, MTimeNear: time.Second})
				} else {
					got = "which opens but: " + serr.Error()
				}
			}
			t.Fatalf("%s Create with %s %q (%v) reports success and writes an archive of %d bytes, %s\n%s%s", kind, what, clip(bad.Name, 100), bad.FileMode(), len(b), got, root, so)
		}
	})
}

// intsOf are the numbers that an int can tell.
func intsOf(ns ...int64) []int {
	var out []int
	for _, n := range ns {
		if int64(int(n)) == n {
			out = append(out, int(n))
		}
	}
	return out
}

// rawNames is a source whose Open also finds names that are no valid paths.
type rawNames struct {
	fs.FS
	root *model.Node
	o    model.SrcOpts
}

func (r rawNames) fs() fs.FS { return r.FS }

func c26open(t *rapid.T, st *ev.Stats) {
	c := genTar(t, tarOpts{MaxSize: 1200, MaxNodes: 6})
	typ := rapid.SampledFrom([]byte{tar.TypeChar, tar.TypeBlock, tar.TypeFifo}).Draw(t, "type")
	e := &enc.TarEntry{Type: typ, Name: rapid.SampledFrom([]string{"zz-dev", "./zz-dev", "zz-dir/dev", "/zz-dev"}).Draw(t, "name"), Mode: 0o600, MTime: time.Unix(1, 0), Dialect: enc.TarDialect(rapid.IntRange(0, 2).Draw(t, "baddialect"))}
	at := rapid.IntRange(0, len(c.Entries)).Draw(t, "at")
	es := append(c.Entries[:at:at], append([]*enc.TarEntry{e}, c.Entries[at:]...)...)
	if rapid.IntRange(0, 3).Draw(t, "overwritten") == 0 {
		// a later entry of the same name does not make it acceptable
		es = append(es, &enc.TarEntry{Type: tar.TypeReg, Name: e.Name, Mode: 0o600, MTime: time.Unix(1, 0), Data: []byte("x")})
	}
	b := enc.EncodeTar(es, 2)
	st.Case(len(c.Entries) > 0, hashOf(b), fmt.Sprintf("tar open %c", typ))
	st.Sample(func() string { return fmt.Sprintf("entry of type %c at %d of\n%s", typ, at, c) })
	var err error
	if p := try(func() { _, err = openTar(b) }); p != "" {
		t.Fatalf("tar Open with an entry of type %c: %s\n%s", typ, p, c)
	}
	if err == nil {
		t.Fatalf("tar Open accepts an entry of type %c at %d of\n%s", typ, at, c)
	}
}

var _ = erofs.Create
