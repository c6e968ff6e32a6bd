package props

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/memfs"
	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

// change is one change of a source, made before its op-th operation.
type change struct {
	at   int
	desc string
	do   func(root *model.Node) bool
	undo bool // goes back to what was there before the last change
}

// live is a tree that changes while it is in use.
type live struct {
	root     *model.Node
	plan     []change
	ops      int
	done     []string
	versions []*model.Node
	// delivered are the contents that were found by opening a path.
	delivered map[string]map[string]bool
	// follow makes changes elsewhere too.
	follow func(p string, n *model.Node)
}

func newLive(root *model.Node) *live {
	return &live{root: root.Clone(), versions: []*model.Node{root.Clone()}, delivered: map[string]map[string]bool{}}
}

// set makes the tree look like v.
func (l *live) set(v *model.Node) {
	c := v.Clone()
	l.root.Kids, l.root.Mode, l.root.MTime, l.root.UID, l.root.GID = map[string]*model.Node{}, c.Mode, c.MTime, c.UID, c.GID
	for _, k := range c.Kids {
		l.root.Add(k)
	}
	l.versions = append(l.versions, v)
}

// step is called before every operation.
func (l *live) step(op, p string) error {
	l.ops++
	for _, c := range l.plan {
		if c.at != l.ops {
			continue
		}
		if c.undo {
			if len(l.versions) > 1 {
				l.set(l.versions[len(l.versions)-2])
				l.done = append(l.done, fmt.Sprintf("before %s %q (%d): all as before that", op, p, l.ops))
			}
			continue
		}
		v := l.versions[len(l.versions)-1].Clone()
		if c.do(v) {
			l.set(v)
			l.done = append(l.done, fmt.Sprintf("before %s %q (%d): %s", op, p, l.ops, c.desc))
		}
	}
	if op == "open" {
		if r := l.root.Resolve(p, true); r.Err == nil && r.Node.Kind == model.File {
			if l.delivered[p] == nil {
				l.delivered[p] = map[string]bool{}
			}
			l.delivered[p][string(r.Node.Data)] = true
		}
	}
	return nil
}

func (l *live) String() string { return strings.Join(l.done, "\n") }

// newNode draws something to put somewhere.
func newNode(t *rapid.T, name string, kinds int) *model.Node {
	n := &model.Node{Name: name, Mode: 0o640, MTime: time.Unix(rapid.Int64Range(1, 9).Draw(t, "newtime"), 0)}
	n.Kind = model.Kind(rapid.IntRange(0, kinds-1).Draw(t, "newkind"))
	switch n.Kind {
	case model.File:
		n.Data = bytes.Repeat([]byte{byte(rapid.IntRange('a', 'e').Draw(t, "newbyte"))}, rapid.SampledFrom([]int{0, 0, 1, 5, 512, 1024, 1025, 4096, 5000}).Draw(t, "newlen"))
	case model.Dir:
		n.Mode, n.Kids = 0o750, map[string]*model.Node{}
		if rapid.Bool().Draw(t, "newkid") {
			n.Add(newNode(t, "kid", kinds))
		}
	default:
		n.Mode = 0o777
		n.Target = rapid.SampledFrom([]string{"a", "b", "missing", "."}).Draw(t, "newtarget")
	}
	return n
}

// genChange draws a change of something below the root.
func genChange(t *rapid.T, paths, dirs []string, mem, flat bool) (string, func(*model.Node) bool) {
	p := rapid.SampledFrom(paths).Draw(t, "path")
	d := rapid.SampledFrom(dirs).Draw(t, "dir")
	kinds := []string{"rewrite", "rewrite", "add", "remove", "replace", "retarget", "touch", "swap", "rename"}
	nodes := 3 // files, directories, links
	if flat {
		nodes = 1
	}
	if mem {
		nodes = min(nodes, 2)
		kinds = []string{"rewrite", "rewrite", "add"}
	}
	switch kind := rapid.SampledFrom(kinds).Draw(t, "change"); kind {
	case "rewrite":
		by := rapid.SampledFrom([]int{0, 0, -1, 1, 1000, -1 << 30}).Draw(t, "by")
		c := byte(rapid.IntRange('0', '9').Draw(t, "byte"))
		return fmt.Sprintf("%q is rewritten with %+d bytes of %q", p, by, c), func(root *model.Node) bool {
			n := root.Get(p)
			if n == nil || n.Kind != model.File {
				return false
			}
			n.Data = bytes.Repeat([]byte{c}, max(0, len(n.Data)+by))
			return true
		}
	case "add":
		n := newNode(t, rapid.SampledFrom([]string{"a", "n1", "n2", "zz"}).Draw(t, "newname"), nodes)
		return fmt.Sprintf("%v %q (%d bytes) comes to be in %q", n.FileMode(), n.Name, len(n.Data), d), func(root *model.Node) bool {
			to := root.Get(d)
			if to == nil || to.Kind != model.Dir || to.Kids[n.Name] != nil {
				return false
			}
			to.Add(n.Clone())
			return true
		}
	case "remove":
		return fmt.Sprintf("%q is removed", p), func(root *model.Node) bool {
			n := root.Get(p)
			if n == nil {
				return false
			}
			delete(n.Parent.Kids, n.Name)
			return true
		}
	case "replace":
		n := newNode(t, "", 3)
		return fmt.Sprintf("%q becomes %v (%d bytes)", p, n.FileMode(), len(n.Data)), func(root *model.Node) bool {
			old := root.Get(p)
			if old == nil {
				return false
			}
			c := n.Clone()
			c.Name = old.Name
			if c.Kind == model.File && old.Kind == model.Link && len(old.Target)%2 == 0 {
				c.Data = bytes.Repeat([]byte("l"), len(old.Target))
			}
			old.Parent.Add(c)
			return true
		}
	case "retarget":
		same := rapid.Bool().Draw(t, "samelen")
		return fmt.Sprintf("the target of %q changes (same length: %v)", p, same), func(root *model.Node) bool {
			n := root.Get(p)
			if n == nil || n.Kind != model.Link {
				return false
			}
			if same {
				n.Target = strings.Repeat("q", len(n.Target))
			} else {
				n.Target += "/longer"
			}
			return true
		}
	case "touch":
		m := rapid.SampledFrom([]fs.FileMode{0, 0o400, 0o777}).Draw(t, "newmode")
		return fmt.Sprintf("%q has its mode and time changed", p), func(root *model.Node) bool {
			n := root.Get(p)
			if n == nil || n.Kind == model.Link {
				return false
			}
			n.Mode, n.MTime = m, time.Unix(1234567, 0)
			return true
		}
	case "swap":
		q := rapid.SampledFrom(paths).Draw(t, "with")
		return fmt.Sprintf("%q and %q change places", p, q), func(root *model.Node) bool {
			a, b := root.Get(p), root.Get(q)
			if a == nil || b == nil || a == b || a.Parent != b.Parent {
				return false
			}
			a.Name, b.Name = b.Name, a.Name
			a.Parent.Add(a)
			b.Parent.Add(b)
			return true
		}
	default:
		to := rapid.SampledFrom([]string{"a", "n1", "zz"}).Draw(t, "rename to")
		same := rapid.Bool().Draw(t, "samelen")
		return fmt.Sprintf("%q is renamed (same length: %v)", p, same), func(root *model.Node) bool {
			n := root.Get(p)
			if n == nil {
				return false
			}
			name := to
			if same {
				name = strings.Repeat("r", len(n.Name))
			}
			if n.Parent.Kids[name] != nil {
				return false
			}
			delete(n.Parent.Kids, n.Name)
			n.Name = name
			n.Parent.Add(n)
			return true
		}
	}
}

// liveMem is an in-memory filesystem that calls step before every operation.
type liveMem struct {
	fs.FS
	l *live
}

func (m liveMem) Open(name string) (fs.File, error) {
	_ = m.l.step("open", name)
	f, err := m.FS.Open(name)
	if d, ok := f.(fs.ReadDirFile); ok && err == nil {
		return liveMemDir{d, m.l, name}, nil
	}
	return liveMemFile{f, m.l, name}, err
}

type liveMemFile struct {
	fs.File
	l *live
	p string
}

func (f liveMemFile) Read(b []byte) (int, error) { _ = f.l.step("read", f.p); return f.File.Read(b) }
func (f liveMemFile) Stat() (fs.FileInfo, error) { _ = f.l.step("fstat", f.p); return f.File.Stat() }

type liveMemDir struct {
	fs.ReadDirFile
	l *live
	p string
}

func (f liveMemDir) ReadDir(n int) ([]fs.DirEntry, error) {
	_ = f.l.step("freaddir", f.p)
	return f.ReadDirFile.ReadDir(n)
}

// C32: archives of a source that changes.
func TestC32(t *testing.T) {
	st := ev.Start(t, "C32", "a generated source, or in-memory filesystem, that is changed before drawn operations of Create (rewritten with the same or another size, added, removed, replaced by another type, retargeted, renamed, swapped, and all back again); if Create reports success the archive must open, be consistent, hold only what was there and all that was there throughout; non-trivial: a change happened while Create ran; distinct by tree, changes and kind")
	check(t, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"tar", "ar", "erofs", "erofs"}).Draw(t, "kind")
		mem := rapid.IntRange(0, 4).Draw(t, "mem") == 0
		tree := createTree(t, kind, rapid.Bool().Draw(t, "small"))
		so := srcOptsFor(t, true, hasLinks(tree))
		so.NoLinks = false
		so.LazyInfo = rapid.Bool().Draw(t, "lazyInfo")
		if mem {
			for _, n := range tree.All() {
				if n.Kind == model.Link {
					delete(n.Parent.Kids, n.Name)
				}
			}
		}
		start := func(plan []change) (*live, fs.FS) {
			l := newLive(tree)
			l.plan = plan
			if !mem {
				o := so
				o.Fault = l.step
				return l, model.Source(l.root, o)
			}
			src, err := buildMem(tree)
			must(t, err, "filling an in-memory filesystem\n%s", tree)
			// changes are made to both
			for i := range l.plan {
				do := l.plan[i].do
				l.plan[i].do = func(root *model.Node) bool {
					before := map[string]string{}
					root.Walk(func(p string, n *model.Node) { before[p] = string(n.Data) })
					if !do(root) {
						return false
					}
					m := src.(*memfs.FS)
					root.Walk(func(p string, n *model.Node) {
						old, ok := before[p]
						switch {
						case ok && (n.Kind == model.Dir || old == string(n.Data)):
						case n.Kind == model.Dir:
							must(t, m.MkdirAll(p, n.Mode), "MkdirAll(%q)", p)
						default:
							must(t, m.WriteFile(p, n.Data, n.Mode), "WriteFile(%q)", p)
						}
					})
					return true
				}
			}
			return l, liveMem{src, l}
		}
		dry, src := start(nil)
		if _, err := createAs(kind, src); err != nil {
			t.Fatalf("%s Create: %v\n%s%v", kind, err, tree, so)
		}
		var paths, dirs []string
		tree.Walk(func(p string, n *model.Node) {
			if p != "." {
				paths = append(paths, p)
			}
			if n.Kind == model.Dir {
				dirs = append(dirs, p)
			}
		})
		paths = append(paths, "a", "n1")
		var plan []change
		for i := rapid.IntRange(1, 3).Draw(t, "changes"); i > 0; i-- {
			c := change{at: rapid.IntRange(1, dry.ops+1).Draw(t, "at")}
			c.desc, c.do = genChange(t, paths, dirs, mem, kind == "ar")
			plan = append(plan, c)
			if !mem && rapid.IntRange(0, 2).Draw(t, "back") == 0 {
				plan = append(plan, change{at: rapid.IntRange(c.at, min(dry.ops+1, c.at+12)).Draw(t, "backat"), undo: true})
			}
		}
		l, src := start(plan)
		var b []byte
		var err error
		if p := watched(maxCPU, func() { b, err = createAs(kind, src) }); p != "" {
			t.Fatalf("%s Create of a source that changes: %s\n%s%v\n%s", kind, p, tree, so, l)
		}
		end := "refused"
		if err == nil {
			end = "archived"
		}
		labels := []string{kind + " " + end}
		if mem {
			labels = append(labels, "memfs "+end)
		}
		st.Case(len(l.done) > 0, tree.Hash()^hashOf(kind, mem, l.String(), so.String()), labels...)
		st.Sample(func() string { return fmt.Sprintf("%s of\n%s%s: %v", kind, tree, l, err) })
		if err != nil {
			return
		}
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s Create of a source that changes reports success, but %s\n%s%v\n%s", kind, fmt.Sprintf(f, a...), tree, so, l)
		}
		fsys, err := openAs(kind, &memRA{b: b})
		if err != nil {
			fail("the archive does not open: %v", err)
		}
		seen, err := model.Observe(fsys, observeOpts(kind))
		if err != nil {
			fail("the archive cannot be read: %v", err)
		}
		if kind == "ar" {
			if _, err := enc.ParseAr(b); err != nil {
				fail("the archive is malformed: %v", err)
			}
		}
		if kind == "erofs" {
			if _, bad := enc.Fsck(b); len(bad) > 0 {
				for _, x := range bad {
					if !fsckOfChange(x) {
						fail("the image is not valid: %s", strings.Join(bad, "; "))
					}
				}
			}
		}
		for p, r := range seen {
			if p == "." {
				continue
			}
			// what a link points to is asked for on its own
			there, target, why := false, r.Mode.Type() != fs.ModeSymlink, "was never there"
			for _, v := range l.versions {
				// a directory that has become a link is read through the link
				res := v.Resolve(p, false)
				if res.Err != nil {
					continue
				}
				n := res.Node
				d := r.MTime.Sub(epoch(n.MTime))
				target = target || n.Kind == model.Link && n.Target == r.Target
				switch {
				case n.FileMode().Type() != r.Mode.Type():
					why = fmt.Sprintf("was never %v", r.Mode)
				case !mem && n.Kind != model.Link && n.FileMode() != r.Mode:
					why = fmt.Sprintf("never had the mode %v", r.Mode)
				case !mem && (d <= -time.Second || d >= time.Second):
					why = fmt.Sprintf("never had the time %v", r.MTime)
				default:
					there = true
				}
			}
			if !there {
				fail("%q %s", p, why)
			}
			if !target {
				fail("%q never had the target %q", p, r.Target)
			}
			if r.Mode.IsRegular() && !l.delivered[p][string(r.Data)] && len(r.Data) > 0 {
				fail("%q holds %d bytes it never delivered", p, len(r.Data))
			}
		}
		for p := range steady(l.versions) {
			if seen[p] == nil {
				fail("%q, which was there throughout, is missing", p)
			}
		}
		_ = io.EOF
	})
}

// steady are the paths that are in every version, with the same type and as
// all their parents are.
func steady(vs []*model.Node) map[string]bool {
	out := map[string]bool{}
	vs[0].Walk(func(p string, n *model.Node) {
		if n.Parent != nil && n.Parent.Parent != nil && !out[n.Parent.Path()] {
			return
		}
		for _, v := range vs {
			if c := v.Get(p); c == nil || c.FileMode().Type() != n.FileMode().Type() {
				return
			}
		}
		out[p] = true
	})
	return out
}

// fsckOfChange tells what an image of a changing source may be blamed for: link
// counts are taken from listings of their own, and what is in none of the last
// listings has an inode all the same.
func fsckOfChange(msg string) bool {
	return strings.Contains(msg, "link count") || strings.Contains(msg, "are reachable")
}
