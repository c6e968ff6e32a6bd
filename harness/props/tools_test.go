package props

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/tarfs"
	"pgregory.net/rapid"

	"verif/ev"
	"verif/model"
)

// disk is a directory that looks like a tree.
type disk struct {
	dir  string
	root *model.Node
	hard map[*model.Node]bool // files with another name
}

func (d *disk) path(n *model.Node) string { return filepath.Join(d.dir, filepath.FromSlash(n.Path())) }

// put makes a node, or another name for old.
func (d *disk) put(n *model.Node, old *model.Node) error {
	p := d.path(n)
	if old != nil {
		d.hard[n], d.hard[old] = true, true
		return os.Link(d.path(old), p)
	}
	switch n.Kind {
	case model.Dir:
		if n.Parent == nil {
			return nil
		}
		return os.Mkdir(p, 0o700)
	case model.Link:
		return os.Symlink(n.Target, p)
	}
	// with holes where there are long runs of zeros
	f, err := os.Create(p)
	if err != nil {
		return err
	}
	for off := 0; off < len(n.Data); off += 4096 {
		c := n.Data[off:min(off+4096, len(n.Data))]
		if len(bytes.Trim(c, "\x00")) == 0 {
			continue
		}
		if _, err := f.WriteAt(c, int64(off)); err != nil {
			return err
		}
	}
	return errors.Join(f.Truncate(int64(len(n.Data))), f.Close())
}

// settle gives everything its metadata and notes what came of it.
func (d *disk) settle() error {
	all := d.root.All()
	slices.Reverse(all)
	for _, n := range all {
		p := d.path(n)
		if err := os.Lchown(p, n.UID, n.GID); err != nil {
			return err
		}
		if n.Kind == model.Link {
			continue
		}
		if err := errors.Join(os.Chmod(p, n.Mode), os.Chtimes(p, n.MTime, n.MTime)); err != nil {
			return err
		}
	}
	for _, n := range all {
		fi, err := os.Lstat(d.path(n))
		if err != nil {
			return err
		}
		st := fi.Sys().(*syscall.Stat_t)
		n.Mode, n.MTime, n.UID, n.GID = fi.Mode()&^fs.ModeType, fi.ModTime(), int(st.Uid), int(st.Gid)
	}
	return nil
}

// run runs a tool in the directory and gives what it prints.
func (d *disk) run(stdin []byte, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = d.dir
	c.Stdin = bytes.NewReader(stdin)
	c.Env = []string{"PATH=" + os.Getenv("PATH"), "LC_ALL=C.UTF-8", "TZ=UTC", "TMPDIR=" + os.TempDir()}
	var out, bad bytes.Buffer
	c.Stdout, c.Stderr = &out, &bad
	if err := c.Run(); err != nil {
		return out.String(), fmt.Errorf("%s %q: %w: %s", name, args, err, bad.String())
	}
	return out.String(), nil
}

// asSource is a directory on disk as a source of archives.
type asSource struct{ fs.FS }

func (s asSource) ReadDir(name string) ([]fs.DirEntry, error) { return fs.ReadDir(s.FS, name) }

func (s asSource) ReadLink(name string) (string, error) {
	return s.FS.(interface {
		ReadLink(name string) (string, error)
	}).ReadLink(name)
}

func (s asSource) StatLink(name string) (fs.FileInfo, error) {
	return s.FS.(interface {
		Lstat(name string) (fs.FileInfo, error)
	}).Lstat(name)
}

var tarFormats = []string{"v7", "oldgnu", "gnu", "ustar", "posix"}

// C33: directories on disk, and the archives that the usual tools make of them
// and read.
func TestC33(t *testing.T) {
	for _, tool := range []string{"tar", "ar"} {
		if _, err := exec.LookPath(tool); err != nil {
			t.Fatalf("this check needs %s: %v", tool, err)
		}
	}
	missing := map[string]bool{}
	for tool, kinds := range map[string][]string{"python3": {"tar by python"}, "dpkg-deb": {"deb by dpkg-deb", "deb by Create"}} {
		if _, err := exec.LookPath(tool); err != nil {
			for _, k := range kinds {
				missing[k] = true
			}
		}
	}
	st := ev.Start(t, "C33", "a generated tree put on disk (holes, hard links, owners, times): archived by GNU tar (every format, whole or by drawn names in any order, sparse, appended to with -r), by Python (every format), by ar (updated with r, d, m) or as a package by dpkg-deb, and opened, or archived by Create and read by these tools (tar -d and -t, Python, ar t, p and tv, dpkg-deb), or made an EROFS image; all compared with what is on disk; non-trivial: at least 3 nodes; distinct by tree, kind and arguments")
	check(t, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"tar by tar", "tar by tar", "tar by tar", "tar by Create", "ar by ar", "ar by Create", "erofs by Create", "tar by python", "deb by dpkg-deb", "deb by Create"}).Draw(t, "kind")
		if missing[kind] {
			t.Skip("no tool")
		}
		var root *model.Node
		if strings.HasPrefix(kind, "ar") {
			root = arNames(t)
		} else {
			o := model.TreeOpts{MaxNodes: 9, MaxSize: 30000, Special: true, TimeLevel: 2, MaxOwner: model.MaxOwner, BigDirs: kind == "erofs by Create", BigMax: 60}
			root = model.Tree(o).Draw(t, "tree")
		}
		tmp, err := os.MkdirTemp("", "c33-")
		must(t, err, "a place for a directory")
		defer os.RemoveAll(tmp)
		d := &disk{dir: filepath.Join(tmp, "d"), root: root, hard: map[*model.Node]bool{}}
		must(t, os.Mkdir(d.dir, 0o700), "a directory")
		file := filepath.Join(tmp, "archive")
		for _, n := range root.All() {
			if n.Kind == model.Link && n.Target == "" {
				n.Target = "x"
			}
			// the largest number means no change
			n.UID, n.GID = min(n.UID, model.MaxOwner-1), min(n.GID, model.MaxOwner-1)
			must(t, d.put(n, nil), "putting %q on disk", n.Path())
		}
		if !strings.HasPrefix(kind, "ar") {
			d.link(t)
		}
		must(t, d.settle(), "metadata")

		var did []string
		var b []byte
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s: %s\n%s\n%s", kind, fmt.Sprintf(f, a...), strings.Join(did, "\n"), root)
		}
		tool := func(name string, args ...string) (string, error) {
			did = append(did, fmt.Sprintf("%s %q", name, args))
			return d.run(nil, name, args...)
		}
		compare := func(fsys fs.FS, k string, w model.Want) {
			t.Helper()
			o := observeOpts(k)
			if k == "disk" {
				o.Owner = func(sys any) (int, int, bool) {
					st, ok := sys.(*syscall.Stat_t)
					if !ok {
						return 0, 0, false
					}
					return int(st.Uid), int(st.Gid), true
				}
			}
			seen, err := model.Observe(fsys, o)
			if err != nil {
				fail("%v", err)
			}
			if diff := model.Diff(root, seen, w); diff != "" {
				fail("%s", diff)
			}
		}
		defer func() {
			st.Case(len(root.All()) > 2, root.Hash()^hashOf(kind, strings.Join(did, "\n")), kind)
			st.Sample(func() string {
				return fmt.Sprintf("%s\n%s%s", kind, root, strings.ReplaceAll(strings.Join(did, "\n"), tmp, "TMP"))
			})
		}()
		src := asSource{os.DirFS(d.dir)}
		switch kind {
		case "tar by tar":
			implied := d.byTar(t, file, tool, fail, func(l string) { st.Label(l, 1) })
			if b, err = os.ReadFile(file); err != nil {
				fail("%v", err)
			}
			fsys, err := tarfs.Open(bytes.NewReader(b))
			if err != nil {
				fail("Open: %v", err)
			}
			seen, err := model.Observe(fsys, observeOpts("tar"))
			if err != nil {
				fail("%v", err)
			}
			for p := range implied {
				if r := seen[p]; r != nil {
					n := root.Get(p)
					r.Mode, r.MTime, r.Owner = n.FileMode(), n.MTime, fmt.Sprintf("%d:%d", n.UID, n.GID)
				}
			}
			if diff := model.Diff(root, seen, model.Want{SkipRoot: true, Owner: true, MTimeNear: time.Second}); diff != "" {
				fail("%s", diff)
			}
		case "tar by Create":
			for _, n := range root.All() {
				n.MTime = n.MTime.Truncate(time.Second)
			}
			must(t, d.settle(), "whole seconds")
			if b, err = createTar(src); err != nil {
				fail("Create: %v", err)
			}
			must(t, os.WriteFile(file, b, 0o600), "saving the archive")
			if out, err := tool("tar", "-df", file, "-C", d.dir); err != nil || out != "" {
				fail("tar finds differences: %s %v", out, err)
			}
			out, err := tool("tar", "--quoting-style=escape", "-tf", file)
			if n := strings.Count(out, "\n"); err != nil || n != len(root.All())-1 {
				fail("tar lists %d members, expected %d: %v\n%s", n, len(root.All())-1, err, out)
			}
			if !missing["tar by python"] && rapid.IntRange(0, 3).Draw(t, "readbypython") == 0 {
				out, err := tool("python3", "-X", "utf8", "-c", pyRead, file)
				if want := pyLines(root); err != nil || out != want {
					fail("python reads\n%s, expected\n%s: %v", out, want, err)
				}
				st.Label("read by python", 1)
			}
		case "tar by python":
			format := rapid.SampledFrom([]string{"0", "1", "2"}).Draw(t, "pyformat")
			// Python has its own way to write a time next to the epoch
			for _, n := range root.All() {
				if n.MTime.Unix() == 0 || n.MTime.Unix() == -1 {
					n.MTime = n.MTime.Truncate(time.Second)
				}
			}
			must(t, d.settle(), "metadata")
			_, err := tool("python3", "-X", "utf8", "-c", pyWrite, file, format)
			if err != nil && format == "0" {
				// not everything fits
				st.Label("refused by python", 1)
				_, err = tool("python3", "-X", "utf8", "-c", pyWrite, file, "1")
			}
			if err != nil {
				fail("%v", err)
			}
			if b, err = os.ReadFile(file); err != nil {
				fail("%v", err)
			}
			fsys, err := openTar(b)
			if err != nil {
				fail("Open: %v", err)
			}
			compare(fsys, "tar", model.Want{SkipRoot: true, Owner: true, MTimeNear: time.Second})
		case "deb by dpkg-deb":
			if root.Kids["DEBIAN"] != nil {
				t.Skip("a name that means something")
			}
			packed := rapid.SampledFrom([]string{"none", "gzip"}).Draw(t, "packed")
			must(t, os.Mkdir(filepath.Join(d.dir, "DEBIAN"), 0o755), "a directory")
			must(t, os.WriteFile(filepath.Join(d.dir, "DEBIAN", "control"), []byte(debControl), 0o644), "a file")
			if _, err := tool("env", "SOURCE_DATE_EPOCH=99999999999", "dpkg-deb", "--nocheck", "-Z"+packed, "-b", d.dir, file); err != nil {
				fail("%v", err)
			}
			if b, err = os.ReadFile(file); err != nil {
				fail("%v", err)
			}
			pkg, err := openAr(b)
			if err != nil {
				fail("Open of the package: %v", err)
			}
			list, err := fs.ReadDir(pkg, ".")
			if err != nil || len(list) != 3 || list[2].Name() != "debian-binary" {
				fail("the package holds %v: %v", list, err)
			}
			if v, err := fs.ReadFile(pkg, "debian-binary"); err != nil || string(v) != "2.0\n" {
				fail("debian-binary holds %q: %v", v, err)
			}
			member := func(name string) fs.FS {
				var r io.Reader
				f, err := pkg.Open(name + map[string]string{"none": "", "gzip": ".gz"}[packed])
				if err != nil {
					fail("Open(%q): %v", name, err)
				}
				r = f
				if packed == "gzip" {
					if r, err = gzip.NewReader(f); err != nil {
						fail("%q: %v", name, err)
					}
				}
				b, err := io.ReadAll(r)
				if err != nil {
					fail("reading %q: %v", name, err)
				}
				fsys, err := openTar(b)
				if err != nil {
					fail("Open of %q: %v", name, err)
				}
				return fsys
			}
			if c, err := fs.ReadFile(member("control.tar"), "control"); err != nil || string(c) != debControl {
				fail("control holds %q: %v", c, err)
			}
			compare(member("data.tar"), "tar", model.Want{SkipRoot: true, Owner: true, MTimeNear: time.Second})
		case "deb by Create":
			for _, n := range root.All() {
				n.MTime = n.MTime.Truncate(time.Second)
			}
			must(t, d.settle(), "whole seconds")
			data, err := createTar(src)
			if err != nil {
				fail("Create: %v", err)
			}
			ctl := model.NewDir("", 0o755)
			ctl.Add(&model.Node{Name: "control", Mode: 0o644, MTime: time.Unix(1, 0), Data: []byte(debControl)})
			control, err := createTar(model.Source(ctl, model.SrcOpts{}))
			if err != nil {
				fail("Create: %v", err)
			}
			members := model.NewDir("", 0o755)
			for i, part := range [][]byte{[]byte("2.0\n"), control, data} {
				members.Add(&model.Node{Name: debMembers[i], Mode: 0o644, MTime: time.Unix(2, 0), Data: part})
			}
			if b, err = createAr(debSource{model.Source(members, model.SrcOpts{})}); err != nil {
				fail("Create: %v", err)
			}
			must(t, os.WriteFile(file, b, 0o600), "saving the package")
			if out, err := tool("dpkg-deb", "--fsys-tarfile", file); err != nil || out != string(data) {
				fail("dpkg-deb gives other data: %s %v", model.DiffBytes([]byte(out), data), err)
			}
			if out, err := tool("dpkg-deb", "-f", file); err != nil || out != debControl {
				fail("dpkg-deb gives %q for control: %v", out, err)
			}
			there := filepath.Join(tmp, "there")
			if _, err := tool("dpkg-deb", "-x", file, there); err != nil {
				fail("%v", err)
			}
			compare(asSource{os.DirFS(there)}, "disk", model.Want{SkipRoot: true, Owner: true, MTimeNear: time.Second})
		case "ar by ar":
			owners := d.byAr(t, file, tool, fail)
			if b, err = os.ReadFile(file); err != nil {
				fail("%v", err)
			}
			fsys, err := arfs.Open(bytes.NewReader(b))
			if err != nil {
				fail("Open: %v", err)
			}
			compare(fsys, "ar", model.Want{SkipRoot: true, Owner: owners, NoMTime: !owners, NoPerm: !owners, MTimeNear: time.Second})
		case "ar by Create":
			if b, err = createAr(src); err != nil {
				fail("Create: %v", err)
			}
			must(t, os.WriteFile(file, b, 0o600), "saving the archive")
			var names, lines, data string
			for _, k := range root.Names() {
				n := root.Kids[k]
				names += k + "\n"
				data += string(n.Data)
				m := n.Mode.Perm().String()[1:]
				lines += fmt.Sprintf("%s %d/%d %6d %s %s\n", m, n.UID, n.GID, len(n.Data), n.MTime.UTC().Format("Jan _2 15:04 2006"), k)
			}
			if out, err := tool("ar", "t", file); err != nil || out != names {
				fail("ar lists %q, expected %q: %v", out, names, err)
			}
			if out, err := tool("ar", "p", file); len(root.Kids) > 0 && (err != nil || out != data) {
				fail("ar prints something else: %s %v", model.DiffBytes([]byte(out), []byte(data)), err)
			}
			if out, err := tool("ar", "tv", file); err != nil || out != lines {
				fail("ar shows\n%s, expected\n%s: %v", out, lines, err)
			}
		case "erofs by Create":
			if b, err = createErofs(src); err != nil {
				fail("Create: %v", err)
			}
			fsys, err := openErofs(b)
			if err != nil {
				fail("Open: %v", err)
			}
			compare(fsys, "erofs", model.Want{Owner: true})
		}
	})
}

const debControl = "Package: x\nVersion: 1\nArchitecture: all\nMaintainer: a <a@b>\nDescription: x\n"

var debMembers = []string{"debian-binary", "control.tar", "data.tar"}

// debSource lists the members of a package in the order that counts.
type debSource struct{ fs.FS }

func (s debSource) ReadDir(name string) ([]fs.DirEntry, error) {
	list, err := fs.ReadDir(s.FS, name)
	slices.SortFunc(list, func(a, b fs.DirEntry) int {
		return slices.Index(debMembers, a.Name()) - slices.Index(debMembers, b.Name())
	})
	return list, err
}

const pyWrite = `
import sys, tarfile
with tarfile.open(sys.argv[1], "w", format=int(sys.argv[2]), errors="surrogateescape") as t:
    t.add(".", arcname=".")
`

const pyRead = `
import sys, tarfile, zlib
with tarfile.open(sys.argv[1], errors="surrogateescape") as t:
    for m in t:
        d = t.extractfile(m).read() if m.isreg() else b""
        print(ascii(m.name.rstrip("/").encode("utf-8", "surrogateescape").hex()), m.type.decode(), oct(m.mode & 0o7777), m.uid, m.gid, int(m.mtime), m.size, zlib.crc32(d), ascii(m.linkname.encode("utf-8", "surrogateescape").hex()))
`

// pyLines is what pyRead prints.
func pyLines(root *model.Node) string {
	var b strings.Builder
	root.Walk(func(p string, n *model.Node) {
		if n == root {
			return
		}
		typ := map[model.Kind]int{model.File: 0, model.Link: 2, model.Dir: 5}[n.Kind]
		mode := uint32(n.Mode.Perm())
		for bit, m := range map[fs.FileMode]uint32{fs.ModeSetuid: 0o4000, fs.ModeSetgid: 0o2000, fs.ModeSticky: 0o1000} {
			if n.Mode&bit != 0 {
				mode |= m
			}
		}
		fmt.Fprintf(&b, "'%x' %d 0o%o %d %d %d %d %d '%x'\n", p, typ, mode, n.UID, n.GID, n.MTime.Round(time.Second).Unix(), len(n.Data), crc32.ChecksumIEEE(n.Data), n.Target)
	})
	return b.String()
}

// link gives some files another name.
func (d *disk) link(t *rapid.T) {
	var files, dirs []*model.Node
	for _, n := range d.root.All() {
		switch n.Kind {
		case model.File:
			files = append(files, n)
		case model.Dir:
			dirs = append(dirs, n)
		}
	}
	if len(files) == 0 {
		return
	}
	for range rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "links") {
		old := rapid.SampledFrom(files).Draw(t, "old")
		to := rapid.SampledFrom(dirs).Draw(t, "to")
		n := old.Clone()
		n.Name = model.Uniq(to, model.Name(model.NameOpts{}).Draw(t, "newname"), model.NameOpts{})
		to.Add(n)
		must(t, d.put(n, old), "linking %q to %q", n.Path(), old.Path())
	}
}

// byTar has tar archive the directory, or parts of it. The result are the
// directories that are only there as parents.
func (d *disk) byTar(t *rapid.T, file string, tool func(string, ...string) (string, error), fail func(string, ...any), label func(string)) map[string]bool {
	format := rapid.SampledFrom(tarFormats).Draw(t, "format")
	opts := []string{}
	for _, o := range []string{"--sparse", "--numeric-owner", "--blocking-factor=1", "--sort=name", "--absolute-names", "--record-size=10240"} {
		if rapid.IntRange(0, 2).Draw(t, "option") == 0 {
			opts = append(opts, o)
		}
	}
	if format == "posix" {
		opts = append(opts, rapid.SampledFrom([]string{"--sparse-version=1.0", "--sparse-version=0.0", "--sparse-version=0.1",
			"--pax-option=delete=atime,delete=ctime", "--pax-option=globexthdr.name=g,comment=c", "--pax-option=exthdr.name=%d/x/%f"}).Draw(t, "posix"))
	}
	whole := rapid.Bool().Draw(t, "whole")
	var names []string
	implied := map[string]bool{}
	arg := func(n *model.Node) string {
		if rapid.IntRange(0, 2).Draw(t, "dot") == 0 {
			return "./" + n.Path()
		}
		return n.Path()
	}
	if whole {
		names = []string{"."}
	} else {
		// one by one, in any order; what holds something may be left out
		opts = append(opts, "--no-recursion")
		for _, n := range rapid.Permutation(d.root.All()[1:]).Draw(t, "order") {
			if len(n.Kids) > 0 && rapid.IntRange(0, 2).Draw(t, "leave out") == 0 {
				implied[n.Path()] = true
				continue
			}
			names = append(names, arg(n))
		}
		if len(names) == 0 {
			names = []string{"."}
		}
	}
	create := func(format string) error {
		_ = os.Remove(file)
		_, err := tool("tar", slices.Concat([]string{"-cf", file, "-C", d.dir, "--format=" + format}, opts, []string{"--no-unquote", "--"}, names)...)
		return err
	}
	if err := create(format); err != nil {
		// not every format can hold everything
		label("refused by tar as " + format)
		opts = slices.DeleteFunc(opts, func(o string) bool { return strings.HasPrefix(o, "--sparse-v") || strings.HasPrefix(o, "--pax") })
		format = "gnu"
		if err := create(format); err != nil {
			fail("%v", err)
		}
	}
	label(format)
	if !whole || len(d.hard) > 0 {
		return implied
	}
	add := func(name string) {
		if _, err := tool("tar", "-rf", file, "-C", d.dir, "--format="+format, "--no-unquote", "--", name); err == nil {
			return
		}
		// such as a name too long for the format
		format = "gnu"
		if _, err := tool("tar", "-cf", file, "-C", d.dir, "--format=gnu", "."); err != nil {
			fail("%v", err)
		}
	}
	// afterwards
	for range rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "rounds") {
		all := d.root.All()[1:]
		if len(all) == 0 {
			break
		}
		switch n := rapid.SampledFrom(all).Draw(t, "changed"); rapid.IntRange(0, 2).Draw(t, "how") {
		case 0, 1: // something else in its place, or in it
			must(t, os.RemoveAll(d.path(n)), "removing %q", n.Path())
			c := &model.Node{Name: n.Name, Kind: model.Kind(rapid.IntRange(0, 2).Draw(t, "newkind")), Mode: 0o640, MTime: time.Unix(rapid.Int64Range(0, 1<<31).Draw(t, "newtime"), 0)}
			if n.Kind == model.Dir {
				// what was in it would still be in the archive
				c.Kind = model.Dir
			}
			switch c.Kind {
			case model.File:
				c.Data = model.Content(9000).Draw(t, "newdata")
			case model.Dir:
				c.Mode, c.Kids = 0o750, map[string]*model.Node{}
				for _, k := range n.Names() {
					c.Add(n.Kids[k])
				}
				f := &model.Node{Name: model.Uniq(c, "new", model.NameOpts{}), Mode: 0o600, MTime: time.Unix(5, 0), Data: []byte("new")}
				c.Add(f)
			case model.Link:
				c.Target = "new/target"
			}
			n.Parent.Add(c)
			for _, x := range c.All() {
				must(t, d.put(x, nil), "putting %q on disk", x.Path())
			}
			must(t, d.settle(), "metadata")
			label("appended")
			add(arg(c))
		default: // all again
			must(t, d.settle(), "metadata")
			label("all again")
			add(".")
		}
	}
	return implied
}

// arNames draws files for ar, whose names are short and plain.
func arNames(t *rapid.T) *model.Node {
	root := model.NewDir("", 0o755)
	root.MTime = time.Unix(0, 0)
	for range rapid.IntRange(0, 7).Draw(t, "files") {
		name := rapid.StringMatching(`[A-Za-z0-9_+~.-]{1,15}`).Draw(t, "name")
		if name == "." || name == ".." || name[0] == '-' || root.Kids[name] != nil {
			continue
		}
		// ar takes a time of 0 for now, and does not tell owners of six digits from
		// what comes after
		root.Add(&model.Node{Name: name, Mode: model.Perm(false).Draw(t, "perm"), MTime: time.Unix(rapid.Int64Range(1, 1<<33).Draw(t, "time"), 0),
			UID: model.Owner(99999).Draw(t, "uid"), GID: model.Owner(99999).Draw(t, "gid"), Data: model.Content(3000).Draw(t, "data")})
	}
	return root
}

// byAr has ar archive the files and change the archive. The result tells whether
// it holds the metadata of the files.
func (d *disk) byAr(t *rapid.T, file string, tool func(string, ...string) (string, error), fail func(string, ...any)) bool {
	det := rapid.SampledFrom([]string{"D", "U"}).Draw(t, "deterministic")
	run := func(args ...string) {
		if _, err := tool("ar", args...); err != nil {
			fail("%v", err)
		}
	}
	names := d.root.Names()
	if len(names) > 0 {
		names = rapid.Permutation(names).Draw(t, "order")
	}
	cut := rapid.IntRange(0, len(names)).Draw(t, "first")
	run(append([]string{"rcS" + det, file}, names[:cut]...)...)
	if cut < len(names) {
		if rapid.Bool().Draw(t, "before") && cut > 0 {
			run(append([]string{"rbS" + det, names[0], file}, names[cut:]...)...)
		} else {
			run(append([]string{rapid.SampledFrom([]string{"rS", "qS"}).Draw(t, "add") + det, file}, names[cut:]...)...)
		}
	}
	for range rapid.IntRange(0, 3).Draw(t, "rounds") {
		if len(d.root.Kids) == 0 {
			break
		}
		name := rapid.SampledFrom(d.root.Names()).Draw(t, "name")
		n := d.root.Kids[name]
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			n.Data = model.Content(3000).Draw(t, "newdata")
			must(t, d.put(n, nil), "writing %q", name)
			must(t, d.settle(), "metadata")
			run("rS"+det, file, name)
		case 1:
			delete(d.root.Kids, name)
			run("dS"+det, file, name)
		default:
			run("mS"+det, file, name)
		}
	}
	return det == "U"
}
