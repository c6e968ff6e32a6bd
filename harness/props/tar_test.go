package props

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

// C01: exactly the archived paths, with exactly the archived bytes.
func TestC01(t *testing.T) {
	st := ev.Start(t, "C01", "a tar stream of generated entries (all dialects, orders, implied parents, hard links, repeated entries, sparse files, global headers); non-trivial: at least 3 entries and one of long header, sparse, implied parent, shuffled order, prefixed or odd name; distinct by archive bytes")
	check(t, func(t *rapid.T) {
		c := genTar(t, tarOpts{Remains: true, Deep: true})
		odd := false
		c.Tree.Walk(func(p string, n *model.Node) {
			if n.Parent != nil && (n.Name[0] == '.' || n.Name[0] == ' ' || len(n.Name) > 90 || strings.TrimSpace(n.Name) != n.Name || n.Name[0] >= 0x80) {
				odd = true
			}
		})
		if odd {
			c.label("oddname")
		}
		delete(c.Labels, "")
		st.Case(len(c.Entries) >= 3 && len(c.Labels) > 0, hashOf(c.Bytes), c.labels()...)
		st.Sample(c.String)
		fsys, err := openTar(c.Bytes)
		must(t, err, "Open of a well-formed tar\n%s", c)
		seen, err := model.Observe(fsys, model.ObserveOpts{Lean: true})
		must(t, err, "reading a well-formed tar\n%s", c)
		if d := model.Diff(c.Tree, seen, model.Want{NoPerm: true, NoMTime: true, NoTarget: true}); d != "" {
			t.Fatalf("the filesystem differs from the archive: %s\n%s", d, c)
		}
		if rare(t, "huge", 1200) {
			st.Label(hugeEntries(t), 1)
		}
	})
}

// hugeEntries looks at an archive of entries around and beyond the sizes that
// 32 bits and the octal size field can tell.
func hugeEntries(t *rapid.T) string {
	var segs []enc.Seg
	var off int64
	n := rapid.IntRange(1, 4).Draw(t, "entries")
	sizes := make([]int64, n)
	pieces := make([][]enc.Seg, n)
	var formats []tar.Format
	for i := range sizes {
		format := rapid.SampledFrom([]tar.Format{tar.FormatGNU, tar.FormatPAX, tar.FormatUSTAR}).Draw(t, "format")
		switch rapid.IntRange(0, 3).Draw(t, "sizesort") {
		case 0:
			sizes[i] = rapid.Int64Range(0, 2000).Draw(t, "size")
		case 1:
			sizes[i] = 1<<31 + rapid.Int64Range(-512, 512).Draw(t, "size")
		case 2:
			sizes[i] = 1<<32 + rapid.Int64Range(-512, 512).Draw(t, "size")
		default:
			sizes[i] = 1<<33 + rapid.Int64Range(-512, 512).Draw(t, "size")
			if format == tar.FormatUSTAR {
				sizes[i] = 1<<33 - 1
			}
		}
		formats = append(formats, format)
		var b bytes.Buffer
		if err := tar.NewWriter(&b).WriteHeader(&tar.Header{Typeflag: tar.TypeReg, Name: fmt.Sprintf("f%d", i), Mode: 0o644, Size: sizes[i], Format: format}); err != nil {
			panic(err)
		}
		segs = append(segs, enc.Seg{Off: off, Data: b.Bytes()})
		off += int64(b.Len())
		for _, at := range []int64{0, 1<<31 - 3, 1<<32 - 3, sizes[i] - 8} {
			p := enc.Seg{Off: at, Data: []byte(fmt.Sprintf("<%d@%d>", i, at%100))}
			clash := at < 0 || at+int64(len(p.Data)) > sizes[i]
			for _, q := range pieces[i] {
				clash = clash || q.Off < at+10 && at < q.Off+10
			}
			if !clash {
				pieces[i] = append(pieces[i], p)
				segs = append(segs, enc.Seg{Off: off + at, Data: p.Data})
			}
		}
		off += (sizes[i] + 511) / 512 * 512
	}
	desc := fmt.Sprintf("entries f0, f1, ... of %d bytes in formats %v", sizes, formats)
	fsys, err := openAs("tar", onlyReaderAt{&enc.Sparse{Segs: segs, Size: off + 1024}})
	must(t, err, "Open of a well-formed tar; %s", desc)
	list, err := fs.ReadDir(fsys, ".")
	must(t, err, "ReadDir; %s", desc)
	if len(list) != n {
		t.Fatalf("ReadDir gives %d entries; %s", len(list), desc)
	}
	label := "huge entries, start read"
	all := rapid.IntRange(0, n-1).Draw(t, "readall")
	for i, size := range sizes {
		name := fmt.Sprintf("f%d", i)
		info, err := list[i].Info()
		must(t, err, "Info; %s", desc)
		fi, err := fs.Stat(fsys, name)
		must(t, err, "Stat(%q); %s", name, desc)
		if list[i].Name() != name || info.Size() != size || fi.Size() != size {
			t.Fatalf("%q: listed as %q of %d bytes, Stat says %d; %s", name, list[i].Name(), info.Size(), fi.Size(), desc)
		}
		f, err := fsys.Open(name)
		must(t, err, "Open(%q); %s", name, desc)
		limit := int64(1 << 14)
		if i == all {
			limit, label = 1<<62, "huge entries, one all read"
		}
		readHoles(t, f, size, pieces[i], limit, fmt.Sprintf("reading %q; %s", name, desc))
		must(t, f.Close(), "Close; %s", desc)
	}
	return label
}

// C02: every path reports the metadata of its own entry.
func TestC02(t *testing.T) {
	st := ev.Start(t, "C02", "a tar stream of generated entries as in C01 with all metadata compared exactly, implied directories as 0755; non-trivial: an explicit directory entry that is not its parent's or child's neighbour in lexical order (shuffled or reversed), an implied directory, a special mode bit, a time outside 1970-2038 or with a fraction; distinct by archive bytes")
	check(t, func(t *rapid.T) {
		c := genTar(t, tarOpts{MaxSize: 1500})
		c.Tree.Walk(func(p string, n *model.Node) {
			if n.Mode&model.SpecialBits != 0 {
				c.label("special")
			}
			if n.MTime.Nanosecond() != 0 {
				c.label("nanoseconds")
			}
			if s := n.MTime.Unix(); !n.MTime.IsZero() && (s < 0 || s > 1<<31) {
				c.label("far time")
			}
		})
		st.Case(len(c.Labels) > 0 && len(c.Entries) >= 2, hashOf(c.Bytes), c.labels()...)
		st.Sample(c.String)
		fsys, err := openTar(c.Bytes)
		must(t, err, "Open of a well-formed tar\n%s", c)
		seen, err := model.Observe(fsys, model.ObserveOpts{Owner: owners})
		must(t, err, "reading a well-formed tar\n%s", c)
		if d := model.Diff(c.Tree, seen, model.Want{SkipRoot: c.Labels["rootentry"], Owner: true, NoData: true}); d != "" {
			t.Fatalf("the filesystem differs from the archive: %s\n%s", d, c)
		}
	})
}

// resolver checks one probe against the model. identify returns whether the
// info is that of the node.
func probe(t *rapid.T, fsys fs.FS, root *model.Node, p string, identify func(fs.FileInfo, *model.Node) string, desc func() string) (crossed int) {
	fail := func(f string, a ...any) { t.Fatalf("%s\n%s", fmt.Sprintf(f, a...), desc()) }
	r := root.Resolve(p, true)
	if !r.Lax {
		crossed = r.Hops
		fi, serr := fs.Stat(fsys, p)
		f, oerr := fsys.Open(p)
		list, lerr := fs.ReadDir(fsys, p)
		switch {
		case r.Err != nil:
			if serr == nil {
				fail("Stat(%q) succeeds (%v), but resolution gives %v", p, fi.Name(), r.Err)
			}
			if oerr == nil {
				fail("Open(%q) succeeds, but resolution gives %v", p, r.Err)
			}
			if lerr == nil {
				fail("ReadDir(%q) succeeds, but resolution gives %v", p, r.Err)
			}
		case r.Hops > 32 && (serr != nil || oerr != nil || lerr != nil):
		default:
			if serr != nil {
				fail("Stat(%q): %v, expected %q", p, serr, r.Node.Path())
			}
			if d := identify(fi, r.Node); d != "" {
				fail("Stat(%q) is not that of %q: %s", p, r.Node.Path(), d)
			}
			if oerr != nil {
				fail("Open(%q): %v, expected %q", p, oerr, r.Node.Path())
			}
			hi, err := f.Stat()
			if err != nil {
				fail("Stat of open %q: %v", p, err)
			}
			if d := identify(hi, r.Node); d != "" {
				fail("Stat of open %q is not that of %q: %s", p, r.Node.Path(), d)
			}
			if r.Node.Kind == model.File {
				b, err := io.ReadAll(f)
				if err != nil || !bytes.Equal(b, r.Node.Data) {
					fail("reading %q gives %q, %v; expected the contents of %q", p, clip(string(b), 60), err, r.Node.Path())
				}
				if lerr == nil {
					fail("ReadDir(%q) of a file succeeds", p)
				}
			} else {
				if lerr != nil {
					fail("ReadDir(%q): %v, expected %q", p, lerr, r.Node.Path())
				}
				var got []string
				for _, e := range list {
					got = append(got, e.Name())
				}
				if strings.Join(got, "/") != strings.Join(r.Node.Names(), "/") {
					fail("ReadDir(%q) gives %q, expected those of %q: %q", p, got, r.Node.Path(), r.Node.Names())
				}
			}
			_ = f.Close()
		}
	}
	lf, ok := fsys.(linkFS)
	if !ok {
		fail("the filesystem has no ReadLink and StatLink")
	}
	l := root.Resolve(p, false)
	if l.Lax {
		return
	}
	fi, serr := lf.StatLink(p)
	tgt, rerr := lf.ReadLink(p)
	switch {
	case l.Err != nil:
		if serr == nil {
			fail("StatLink(%q) succeeds, but resolution gives %v", p, l.Err)
		}
		if rerr == nil {
			fail("ReadLink(%q) succeeds, but resolution gives %v", p, l.Err)
		}
	case l.Hops > 32 && serr != nil:
	default:
		if serr != nil {
			fail("StatLink(%q): %v, expected %q", p, serr, l.Node.Path())
		}
		if d := identify(fi, l.Node); d != "" {
			fail("StatLink(%q) is not that of %q: %s", p, l.Node.Path(), d)
		}
		if l.Node.Kind == model.Link {
			if rerr != nil || tgt != l.Node.Target {
				fail("ReadLink(%q) gives %q, %v; expected %q", p, tgt, rerr, l.Node.Target)
			}
		} else if rerr == nil {
			fail("ReadLink(%q) of a %v gives %q", p, l.Node.FileMode(), tgt)
		}
	}
	return
}

// linkProbes are all paths of the tree, all of them extended by a name through
// every link, and drawn ones.
func linkProbes(t *rapid.T, root *model.Node) []string {
	var out []string
	root.Walk(func(p string, n *model.Node) {
		if len(out) > 60 {
			return
		}
		out = append(out, p)
		if n.Kind == model.Link {
			out = append(out, path.Join(p, "a"))
			if r := root.Resolve(p, true); r.Err == nil && r.Node.Kind == model.Dir {
				for i, k := range r.Node.Names() {
					if i < 3 {
						out = append(out, p+"/"+k)
					}
				}
			}
		}
	})
	return append(out, model.Probes(t, root, 8)...)
}

func linkLabels(root *model.Node, p string) []string {
	var out []string
	r := root.Resolve(p, true)
	if r.Hops > 0 {
		switch {
		case r.Err == model.ErrLoop:
			out = append(out, "probe: cycle")
		case r.Err != nil:
			out = append(out, "probe: dangling")
		case r.Hops >= 3:
			out = append(out, "probe: 3+ links")
		default:
			out = append(out, "probe: links")
		}
	}
	return out
}

// C03: symbolic links resolve as on a POSIX filesystem, and always terminate.
func TestC03(t *testing.T) {
	st := ev.Start(t, "C03", "a tar stream with many symbolic links (relative, absolute, with '..', through other links, chains, cycles, dangling) and about 30 lookups through every method against a POSIX path walk over the tree; non-trivial: a lookup crosses at least one link; distinct by archive and lookups")
	check(t, func(t *rapid.T) {
		c := genTar(t, tarOpts{LinkRich: true, IDOwner: true, NoHard: true, NoDup: true, NoSparse: true})
		ps := linkProbes(t, c.Tree)
		desc := func() string { return c.Tree.String() }
		st.Journal(func() string { return fmt.Sprintf("lookups %q in\n%s", ps, desc()) })
		crossed := false
		for _, p := range ps {
			ls := linkLabels(c.Tree, p)
			for _, l := range ls {
				st.Label(l, 1)
				crossed = true
			}
		}
		st.Case(crossed, hashOf(c.Bytes, fmt.Sprint(ps)))
		st.Sample(desc)
		fsys, err := openTar(c.Bytes)
		must(t, err, "Open of a well-formed tar\n%s", c)
		verdictFail(t, watched(20, func() {
			for _, p := range ps {
				probe(t, fsys, c.Tree, p, func(fi fs.FileInfo, n *model.Node) string {
					if fi.Mode().Type() != n.FileMode().Type() {
						return fmt.Sprintf("mode %v", fi.Mode())
					}
					if n.Parent == nil {
						return ""
					}
					if got := model.OwnerOf(fi, nil); !strings.HasPrefix(got, fmt.Sprintf("%d:", n.UID)) {
						return fmt.Sprintf("found the entry with uid %s, expected %d", got, n.UID)
					}
					return ""
				}, desc)
			}
		}), "links in\n"+c.Tree.String())
	})
}

// C04: hard links alias their target, and the last of repeated entries wins.
func TestC04(t *testing.T) {
	st := ev.Start(t, "C04", "a tar stream with hard links (chains, any order, to links), repeated entries (of other types too), and hard links to nothing or in a circle; non-trivial: a hard link or a repeated entry is present; distinct by archive bytes")
	check(t, func(t *rapid.T) {
		c := genTar(t, tarOpts{MaxSize: 1200, MaxNodes: 7})
		bad := rapid.IntRange(0, 5).Draw(t, "bad")
		add := func(name, to string) {
			es := c.Entries
			e := &enc.TarEntry{Type: tar.TypeLink, Name: name, Link: to, MTime: time.Unix(1, 0), Dialect: enc.TarDialect(rapid.IntRange(0, 3).Draw(t, "baddialect"))}
			at := rapid.IntRange(0, len(es)).Draw(t, "badat")
			c.Entries = append(es[:at:at], append([]*enc.TarEntry{e}, es[at:]...)...)
		}
		expectErr := false
		switch bad {
		case 0:
			name, to := "zz-hard", rapid.SampledFrom([]string{"zz-missing", "zz-missing/x", "./zz-missing"}).Draw(t, "missing")
			// targets count from the root of the archive, not from the link
			for _, n := range c.Tree.All() {
				if n.Parent != nil && n.Parent != c.Tree && c.Tree.Get(n.Name) == nil && rapid.IntRange(0, 2).Draw(t, "missingnear") == 0 {
					name, to = n.Parent.Path()+"/zz-hard", rapid.SampledFrom([]string{"", "./"}).Draw(t, "neardot")+n.Name
					c.label("hard link to a neighbour's name")
					break
				}
			}
			add(name, to)
			expectErr = true
			c.label("hard link to nothing")
		case 1:
			k := rapid.IntRange(1, 3).Draw(t, "circle")
			for i := 0; i < k; i++ {
				add(fmt.Sprintf("zz-c%d", i), fmt.Sprintf("zz-c%d", (i+1)%k))
			}
			expectErr = true
			c.label("hard links in a circle")
		}
		c.Bytes = enc.EncodeTar(c.Entries, 2)
		st.Case(len(c.Hard) > 0 || len(c.Duped) > 0 || expectErr, hashOf(c.Bytes), c.labels()...)
		st.Sample(c.String)
		var prev string
		for i := 0; i < 4; i++ {
			var out string
			fsys, err := openTar(c.Bytes)
			if err != nil {
				if !expectErr {
					t.Fatalf("Open of a well-formed tar: %v\n%s", err, c)
				}
				out = "error"
			} else {
				if expectErr {
					t.Fatalf("Open succeeds although a hard link has no target\n%s", c)
				}
				seen, err := model.Observe(fsys, model.ObserveOpts{Owner: owners, Lean: true})
				must(t, err, "reading a well-formed tar\n%s", c)
				only := map[string]bool{}
				for h, tgt := range c.Hard {
					only[h.Path()], only[tgt.Path()] = true, true
				}
				for p := range c.Duped {
					only[p] = true
				}
				if d := model.Diff(c.Tree, seen, model.Want{SkipRoot: true, Owner: true, Only: func(p string) bool { return only[p] }}); d != "" {
					t.Fatalf("the filesystem differs from the archive: %s\n%s", d, c)
				}
				// Stat and listing of the links under their own names
				for h := range c.Hard {
					if h.Kind != model.File {
						continue
					}
					fi, err := fs.Stat(fsys, h.Path())
					must(t, err, "Stat of hard link %q\n%s", h.Path(), c)
					if fi.Name() != h.Name {
						t.Fatalf("Stat of hard link %q has name %q\n%s", h.Path(), fi.Name(), c)
					}
				}
			}
			if i > 0 && out != prev {
				t.Fatalf("opening again gives another outcome\n%s", c)
			}
			prev = out
		}
	})
}

// srcOptsFor draws how a source behaves.
func srcOptsFor(t *rapid.T, owner bool, links bool) model.SrcOpts {
	o := model.SrcOpts{
		NoReadDir:   rapid.Bool().Draw(t, "noReadDir"),
		NoStat:      rapid.Bool().Draw(t, "noStat"),
		Chunk:       rapid.SampledFrom([]int{0, 0, 1, 7, 512, 4096}).Draw(t, "chunk"),
		EOFWithData: rapid.Bool().Draw(t, "eofWithData"),
		ZeroReads:   rapid.IntRange(0, 3).Draw(t, "zeroReads") == 0,
	}
	if owner {
		o.Owner = model.OwnerVia(rapid.IntRange(0, 2).Draw(t, "ownerVia"))
	}
	if !links && rapid.IntRange(0, 2).Draw(t, "noLinks") == 0 {
		o.NoLinks = true
	}
	return o
}

func hasLinks(root *model.Node) bool {
	for _, n := range root.All() {
		if n.Kind == model.Link {
			return true
		}
	}
	return false
}

// epoch maps the zero time to the Unix epoch, as formats without an unset time
// record it.
func epoch(x time.Time) time.Time {
	if x.IsZero() {
		return time.Unix(0, 0)
	}
	return x
}

// C05: tar Create writes an archive equal to its source.
func TestC05(t *testing.T) {
	st := ev.Start(t, "C05", "a generated source tree behind a source with drawn capabilities; the archive is read back by archive/tar and by the package; non-trivial: at least 2 nodes and a directory with content, a link, a special bit, or a large owner; distinct by tree and source")
	check(t, func(t *rapid.T) {
		root := model.Tree(model.TreeOpts{MaxNodes: 12, MaxSize: 9000, Special: true, TimeLevel: 3, MaxOwner: 1<<31 - 1, BigDirs: true}).Draw(t, "tree")
		maybeDeep(t, root)
		so := srcOptsFor(t, true, hasLinks(root))
		nodes := root.All()
		special := false
		for _, n := range nodes {
			if n.Mode&model.SpecialBits != 0 || n.Kind == model.Link || len(n.Kids) > 0 && n != root || n.UID > 0o7777777 {
				special = true
			}
		}
		st.Case(len(nodes) > 2 && special, root.Hash()^hashOf(so.String()), fmt.Sprintf("owner%d", so.Owner))
		st.Sample(func() string { return root.String() + so.String() })
		b, err := createTar(model.Source(root, so))
		must(t, err, "Create\n%s%s", root, so)

		// whole blocks, and the end-of-archive marker
		if len(b)%512 != 0 || len(b) < 1024 || len(bytes.Trim(b[len(b)-1024:], "\x00")) > 0 {
			t.Fatalf("the archive of %d bytes does not end in two blocks of zeros\n%s", len(b), root)
		}
		// independent reader
		tr := tar.NewReader(bytes.NewReader(b))
		order := map[string]int{}
		for i := 0; ; i++ {
			h, err := tr.Next()
			if errors.Is(err, io.EOF) {
				break
			}
			must(t, err, "reading the archive\n%s", root)
			name := strings.TrimSuffix(h.Name, "/")
			if strings.HasSuffix(h.Name, "/") && h.Typeflag != tar.TypeDir {
				t.Fatalf("entry %q of type %c ends in a slash\n%s", h.Name, h.Typeflag, root)
			}
			if _, dup := order[name]; dup {
				t.Fatalf("path %q is in the archive twice\n%s", name, root)
			}
			order[name] = i
			n := root.Get(name)
			if name == "." || name == "" || n == nil {
				t.Fatalf("entry %q is not in the source\n%s", h.Name, root)
			}
			if dir := path.Dir(name); dir != "." {
				if _, ok := order[dir]; !ok {
					t.Fatalf("entry %q precedes its parent\n%s", name, root)
				}
			}
			wantType := map[model.Kind]byte{model.File: tar.TypeReg, model.Dir: tar.TypeDir, model.Link: tar.TypeSymlink}[n.Kind]
			if h.Typeflag != wantType {
				t.Fatalf("entry %q has type %c, expected %c\n%s", name, h.Typeflag, wantType, root)
			}
			if fs.FileMode(h.FileInfo().Mode()) != n.FileMode() {
				t.Fatalf("entry %q has mode %v, expected %v\n%s", name, h.FileInfo().Mode(), n.FileMode(), root)
			}
			if n.Kind == model.Link && h.Linkname != n.Target {
				t.Fatalf("entry %q links to %q, expected %q\n%s", name, h.Linkname, n.Target, root)
			}
			data, err := io.ReadAll(tr)
			must(t, err, "reading %q from the archive\n%s", name, root)
			if n.Kind == model.File && !bytes.Equal(data, n.Data) || n.Kind != model.File && len(data) > 0 {
				t.Fatalf("entry %q has wrong contents: %s\n%s", name, model.DiffBytes(data, n.Data), root)
			}
			if d := h.ModTime.Sub(epoch(n.MTime)); d <= -time.Second || d >= time.Second {
				t.Fatalf("entry %q has time %v, expected %v\n%s", name, h.ModTime, n.MTime, root)
			}
			if so.Owner != model.OwnerNone && (h.Uid != n.UID || h.Gid != n.GID) {
				t.Fatalf("entry %q has owner %d:%d, expected %d:%d\n%s", name, h.Uid, h.Gid, n.UID, n.GID, root)
			}
		}
		if len(order) != len(nodes)-1 {
			for _, n := range nodes {
				if _, ok := order[n.Path()]; !ok && n != root {
					t.Fatalf("%q is missing from the archive\n%s", n.Path(), root)
				}
			}
		}

		fsys, err := openTar(b)
		must(t, err, "Open of the created archive\n%s", root)
		seen, err := model.Observe(fsys, model.ObserveOpts{Owner: owners, Lean: true})
		must(t, err, "reading the created archive\n%s", root)
		if d := model.Diff(root, seen, model.Want{SkipRoot: true, Owner: so.Owner != model.OwnerNone, MTime: epoch, MTimeNear: time.Second}); d != "" {
			t.Fatalf("the created archive opens as something else: %s\n%s%s", d, root, so)
		}
		if rare(t, "huge", 1200) {
			st.Label(hugeCreate(t, "tar"), 1)
		}
	})
}
