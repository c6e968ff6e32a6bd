package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/dpeckett/archivefs/memfs"
	"pgregory.net/rapid"

	"verif/ev"
	"verif/model"
)

// opened is one filesystem with what it should hold.
type opened struct {
	Kind string
	FS   fs.FS
	Root *model.Node
	Desc func() string
	Raw  []byte
}

// buildMem fills an in-memory filesystem with the files and directories of a
// tree that has no links.
func buildMem(root *model.Node) (fs.FS, error) {
	m := memfs.New()
	for _, n := range root.All() {
		p := n.Path()
		if n.Kind == model.Dir {
			if err := m.MkdirAll(p, n.Mode); err != nil {
				return nil, err
			}
			continue
		}
		if err := m.WriteFile(p, n.Data, n.Mode); err != nil {
			return nil, err
		}
	}
	return m, nil
}

// genOpened draws a filesystem of any kind.
func genOpened(t *rapid.T, maxSize int, kinds ...string) *opened {
	o := &opened{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	var err error
	switch o.Kind {
	case "tar":
		c := genTar(t, tarOpts{MaxSize: maxSize, LinkRich: rapid.IntRange(0, 3).Draw(t, "linkrich") == 0})
		o.Root, o.Desc, o.Raw = c.Tree, c.String, c.Bytes
		o.FS, err = openTar(c.Bytes)
	case "ar":
		c := genAr(t, 8, maxSize)
		o.Root, o.Desc, o.Raw = c.Tree, c.String, c.Bytes
		o.FS, err = openAr(c.Bytes)
	case "erofs":
		var root *model.Node
		if rapid.IntRange(0, 3).Draw(t, "linkrich") == 0 {
			root = linkTree(t, model.TreeOpts{})
		} else {
			to := erofsTreeOpts()
			to.MaxSize = maxSize
			root = model.Tree(to).Draw(t, "tree")
		}
		c := encodeErofsCase(t, root)
		o.Root, o.Desc, o.Raw = c.Tree, c.String, c.Img.Bytes
		o.FS, err = openErofs(c.Img.Bytes)
	case "mem":
		o.Root = model.Tree(model.TreeOpts{MaxNodes: 12, MaxSize: maxSize, NoLinks: true, BigDirs: true, BigMax: 60}).Draw(t, "tree")
		o.Desc = o.Root.String
		o.FS, err = buildMem(o.Root)
	}
	must(t, err, "opening a well-formed %s\n%s", o.Kind, o.Desc())
	return o
}

// linksPlain says that every link resolves the same way lexically and by POSIX
// rules and without too many hops.
func linksPlain(root *model.Node) bool {
	for _, n := range root.All() {
		if n.Kind == model.Link {
			r := root.Resolve(n.Path(), true)
			if r.Lax || r.Hops > 12 {
				return false
			}
		}
	}
	return true
}

func entryNames(l []fs.DirEntry) []string {
	out := []string{}
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out
}

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C16: all filesystems honour the io/fs contract.
func TestC16(t *testing.T) {
	st := ev.Start(t, "C16", "a generated tree served as tar, ar, EROFS or in-memory filesystem, and every operation of io/fs on it (listings, pages of drawn sizes, Stat, handles, missing paths, WalkDir, Glob with drawn patterns, Sub, ReadFile, testing/fstest for the in-memory one) against the reference tree; non-trivial: at least 3 nodes and a directory that needs more than one page; distinct by content and kind")
	check(t, func(t *rapid.T) {
		o := genOpened(t, 5000, "tar", "erofs", "ar", "mem")
		fsys, root := o.FS, o.Root
		ref := model.Source(root, model.SrcOpts{})
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s: %s\n%s", o.Kind, fmt.Sprintf(f, a...), o.Desc())
		}
		page := rapid.IntRange(1, 7).Draw(t, "page")
		wide := false
		for _, n := range root.All() {
			wide = wide || len(n.Kids) > page
		}
		st.Case(len(root.All()) >= 3 && wide, root.Hash()^hashOf(o.Kind, page), o.Kind)
		st.Sample(func() string { return o.Kind + "\n" + o.Desc() })

		// listings, Stat, StatLink and handles agree
		seen, err := model.Observe(fsys, observeOpts(o.Kind))
		if err != nil {
			fail("%v", err)
		}
		if d := model.Diff(root, seen, model.Want{SkipRoot: true, NoPerm: true, NoMTime: true}); d != "" {
			fail("%s", d)
		}

		// the root works everywhere
		lf, hasLink := fsys.(linkFS)
		for op, f := range map[string]func() (fs.FileInfo, error){
			"Stat": func() (fs.FileInfo, error) { return fs.Stat(fsys, ".") },
			"Open and Stat": func() (fs.FileInfo, error) {
				f, err := fsys.Open(".")
				if err != nil {
					return nil, err
				}
				defer f.Close()
				return f.Stat()
			},
			"StatLink": func() (fs.FileInfo, error) {
				if !hasLink {
					return fs.Stat(fsys, ".")
				}
				return lf.StatLink(".")
			},
		} {
			fi, err := f()
			if err != nil || fi == nil {
				fail("%s of '.': %v", op, err)
			} else if rs := seen["."]; rs != nil && (fi.Mode() != rs.Mode || !fi.ModTime().Equal(rs.MTime)) {
				fail("%s of '.' gives mode %v and time %v, elsewhere %v and %v", op, fi.Mode(), fi.ModTime(), rs.Mode, rs.MTime)
			} else if !fi.IsDir() || !fi.Mode().IsDir() || fi.Name() != "." {
				fail("%s of '.' gives name %q mode %v", op, fi.Name(), fi.Mode())
			}
		}
		if hasLink {
			if tgt, err := lf.ReadLink("."); err == nil {
				fail("ReadLink of '.' gives %q", tgt)
			}
		}

		// a listing belongs to the caller
		if l, err := fs.ReadDir(fsys, "."); err != nil {
			fail("ReadDir of '.': %v", err)
		} else {
			clear(l)
			_ = append(l, nil, nil)
		}
		if l, err := fs.ReadDir(fsys, "."); err != nil || !eqs(entryNames(l), root.Names()) {
			fail("ReadDir of '.' after a caller wrote over an earlier listing gives %q, %v", entryNames(l), err)
		}

		// pages
		dirs := dirsOf(root)
		if len(dirs) > 6 {
			dirs = dirs[:6]
		}
		for _, d := range dirs {
			pages(t, fsys, d, page, seen, o.Kind, fail)
		}
		// DirEntry.Type
		for _, d := range dirs {
			l, err := fs.ReadDir(fsys, d.Path())
			if err != nil {
				fail("ReadDir(%q): %v", d.Path(), err)
			}
			for _, e := range l {
				if e.Type() == e.Type().Type() {
					continue
				}
				fi, err := e.Info()
				if err == nil && o.Kind == "erofs" && e.Type() == fi.Mode() && ev.Listed("C16", "erofs-direntry-type-perm") {
					st.KnownFinding("erofs-direntry-type-perm", "Type of an EROFS directory entry carries the permission bits besides the type bits")
					continue
				}
				fail("entry %q of %q: Type %v has more than type bits", e.Name(), d.Path(), e.Type())
			}
		}

		// missing paths
		for _, p := range model.Probes(t, root, 6) {
			r := root.Resolve(p, true)
			if r.Hops > 0 || !fs.ValidPath(p) {
				continue
			}
			ops := map[string]func() error{
				"Open":     func() error { _, err := fsys.Open(p); return err },
				"Stat":     func() error { _, err := fs.Stat(fsys, p); return err },
				"ReadDir":  func() error { _, err := fs.ReadDir(fsys, p); return err },
				"ReadFile": func() error { _, err := fs.ReadFile(fsys, p); return err },
			}
			if hasLink {
				ops["ReadLink"] = func() error { _, err := lf.ReadLink(p); return err }
				ops["StatLink"] = func() error { _, err := lf.StatLink(p); return err }
			}
			for _, op := range []string{"Open", "Stat", "ReadDir", "ReadFile", "ReadLink", "StatLink"} {
				f := ops[op]
				if f == nil {
					continue
				}
				switch {
				case r.Err == model.ErrNoEnt:
					if err := f(); !errors.Is(err, fs.ErrNotExist) {
						fail("%s of the missing %q gives %v, not ErrNotExist", op, p, err)
					}
					st.Label("missing path", 1)
				case r.Err == model.ErrNotDir:
					if err := f(); err == nil {
						fail("%s of %q below a file succeeds", op, p)
					}
					st.Label("path below a file", 1)
				case r.Node.Kind == model.File && op == "ReadDir":
					if err := f(); err == nil {
						fail("ReadDir of the file %q succeeds", p)
					} else if errors.Is(err, fs.ErrNotExist) {
						fail("ReadDir of the file %q says it does not exist: %v", p, err)
					}
					st.Label("ReadDir of a file", 1)
				case r.Node.Kind != model.Link && op == "ReadLink":
					if err := f(); err == nil {
						fail("ReadLink of %q, which is no link, succeeds", p)
					} else if errors.Is(err, fs.ErrNotExist) {
						fail("ReadLink of %q, which is no link, says it does not exist: %v", p, err)
					}
					st.Label("ReadLink of no link", 1)
				}
			}
		}

		// helpers
		type step struct {
			p   string
			dir bool
		}
		walk := func(fsys fs.FS) (out []string, err error) {
			err = fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
				if err != nil {
					return err
				}
				out = append(out, fmt.Sprintf("%v %q %q", d.IsDir(), p, d.Name()))
				return nil
			})
			return
		}
		want, _ := walk(ref)
		got, err := walk(fsys)
		if err != nil {
			fail("WalkDir: %v", err)
		}
		if !eqs(got, want) {
			fail("WalkDir visits %q, expected %q", got, want)
		}
		if linksPlain(root) {
			for i := 0; i < 3; i++ {
				p := globPattern(t, root)
				if strings.Count(p, "/") > 8 {
					continue // links to parents make the matches too many
				}
				want, werr := fs.Glob(ref, p)
				got, gerr := fs.Glob(fsys, p)
				sort.Strings(want)
				sort.Strings(got)
				if (werr == nil) != (gerr == nil) || !eqs(got, want) {
					fail("Glob(%q) gives %q, %v; expected %q, %v", p, got, gerr, want, werr)
				}
				st.Label("glob matches", b2i(len(want) > 0))
			}
		}
		for _, n := range root.All() {
			if n.Kind != model.File {
				continue
			}
			b, err := fs.ReadFile(fsys, n.Path())
			if err != nil || !bytes.Equal(b, n.Data) {
				fail("ReadFile(%q): %v, %s", n.Path(), err, model.DiffBytes(b, n.Data))
			}
		}
		d := rapid.SampledFrom(dirsOf(root)).Draw(t, "sub")
		sub, err := fs.Sub(fsys, d.Path())
		if err != nil {
			fail("Sub(%q): %v", d.Path(), err)
		}
		l, err := fs.ReadDir(sub, ".")
		if err != nil || !eqs(entryNames(l), d.Names()) {
			fail("listing Sub(%q) gives %q, %v; expected %q", d.Path(), entryNames(l), err, d.Names())
		}
		fi, err := fs.Stat(sub, ".")
		if err != nil || !fi.IsDir() {
			fail("Stat of '.' in Sub(%q): %v", d.Path(), err)
		}
		for _, k := range d.All() {
			if k.Kind == model.File {
				rel := relPath(d, k)
				b, err := fs.ReadFile(sub, rel)
				if err != nil || !bytes.Equal(b, k.Data) {
					fail("ReadFile(%q) in Sub(%q): %v, %s", rel, d.Path(), err, model.DiffBytes(b, k.Data))
				}
			}
		}
		if o.Kind == "mem" {
			var exp []string
			plain := true
			for _, n := range root.All() {
				// fstest quotes names itself but trips over some in its own patterns
				plain = plain && !strings.ContainsAny(n.Name, "\\[]*?\n\t")
				if n.Parent != nil {
					exp = append(exp, n.Path())
				}
			}
			if plain && len(exp) > 0 && len(exp) < 30 {
				if err := fstest.TestFS(fsys, exp...); err != nil {
					fail("testing/fstest: %v", err)
				}
				st.Label("fstest.TestFS", 1)
			}
		}
	})
}

func relPath(d, n *model.Node) string {
	if n == d {
		return "."
	}
	if d.Parent == nil {
		return n.Path()
	}
	return strings.TrimPrefix(n.Path(), d.Path()+"/")
}

// pages lists a directory through an open handle in pages.
func pages(t *rapid.T, fsys fs.FS, d *model.Node, page int, seen model.Seen, kind string, fail func(string, ...any)) {
	p := d.Path()
	open := func() fs.ReadDirFile {
		f, err := fsys.Open(p)
		if err != nil {
			fail("Open(%q): %v", p, err)
		}
		r, ok := f.(fs.ReadDirFile)
		if !ok {
			fail("Open(%q) gives no ReadDirFile", p)
		}
		return r
	}
	want := d.Names()
	checkEntries := func(l []fs.DirEntry) {
		for _, e := range l {
			q := path.Join(p, e.Name())
			fi, err := e.Info()
			if err != nil {
				fail("Info of the paged %q: %v", q, err)
			}
			s := seen[q]
			if s == nil || fi.Mode() != s.Mode || fi.Size() != s.Size || !fi.ModTime().Equal(s.MTime) || fi.Name() != e.Name() || e.IsDir() != fi.IsDir() {
				fail("the paged entry %q differs from the listed one", q)
			}
		}
	}
	// all at once, then nothing; there is nothing to read in it either
	f := open()
	buf := []byte("untouched")
	if n, err := f.Read(buf); n != 0 || err == nil || string(buf) != "untouched" {
		fail("reading the open directory %q gives %d, %v", p, n, err)
	}
	l, err := f.ReadDir(-1)
	if err != nil || !eqs(entryNames(l), want) {
		fail("ReadDir(-1) of open %q gives %q, %v; expected %q", p, entryNames(l), err, want)
	}
	checkEntries(l)
	if l, err = f.ReadDir(0); err != nil || len(l) > 0 {
		fail("ReadDir(0) at the end of open %q gives %q, %v", p, entryNames(l), err)
	}
	if l, err = f.ReadDir(1); err != io.EOF || len(l) > 0 {
		fail("ReadDir(1) at the end of open %q gives %q, %v", p, entryNames(l), err)
	}
	if err := f.Close(); err != nil {
		fail("Close of %q: %v", p, err)
	}
	// in pages
	f = open()
	var got []string
	for i := 0; ; i++ {
		k := page
		if i%3 == 1 {
			k = 1
		}
		l, err := f.ReadDir(k)
		if len(l) > k {
			fail("ReadDir(%d) of open %q gives %d entries", k, p, len(l))
		}
		checkEntries(l)
		got = append(got, entryNames(l)...)
		// a page belongs to the caller, who may well write over it
		full := l
		for range min(len(l), 3) {
			l = append(l, fs.FileInfoToDirEntry(nil))
		}
		clear(full)
		l = l[:len(full)]
		if len(l) > 0 && err != nil {
			fail("ReadDir(%d) of open %q gives entries and %v", k, p, err)
		}
		if len(l) == 0 {
			if err != io.EOF {
				fail("ReadDir(%d) at the end of open %q gives %v, not io.EOF", k, p, err)
			}
			break
		}
		if len(got) > len(want)+100 {
			fail("paging through open %q does not end", p)
		}
	}
	if !eqs(got, want) && len(want) > 0 {
		fail("paging through open %q gives %q, expected %q", p, got, want)
	}
	if l, err := f.ReadDir(page); err != io.EOF || len(l) > 0 {
		fail("ReadDir after the end of open %q gives %q, %v", p, entryNames(l), err)
	}
	// a page, then the rest
	_ = f.Close()
	f = open()
	l1, err1 := f.ReadDir(page)
	l2, err2 := f.ReadDir(-1)
	if err2 != nil || err1 != nil && !(err1 == io.EOF && len(want) == 0) {
		fail("a page of open %q and the rest give %v, %v", p, err1, err2)
	}
	if got := append(entryNames(l1), entryNames(l2)...); !eqs(got, want) {
		fail("a page of open %q and the rest give %q, expected %q", p, got, want)
	}
	_ = f.Close()
}

// globPattern draws a pattern related to the names of the tree.
func globPattern(t *rapid.T, root *model.Node) string {
	n := rapid.SampledFrom(root.All()).Draw(t, "globof")
	parts := strings.Split(n.Path(), "/")
	esc := strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`)
	for i, c := range parts {
		switch rapid.IntRange(0, 5).Draw(t, "globpart") {
		case 0, 1:
			parts[i] = "*"
		case 2:
			r := []rune(c)
			parts[i] = esc.Replace(string(r[:len(r)/2])) + "*"
		case 3:
			r := []rune(c)
			parts[i] = "?" + esc.Replace(string(r[1:]))
		case 4:
			parts[i] = "[a-c.]*"
		default:
			parts[i] = esc.Replace(c)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "deeper") == 0 {
		parts = append(parts, "*")
	}
	return strings.Join(parts, "/")
}
