package model

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"
)

// LinkFS is what archivefs.ReadLinkFS asks for.
type LinkFS interface {
	fs.FS
	ReadLink(name string) (string, error)
	StatLink(name string) (fs.FileInfo, error)
}

// Rec is what a filesystem shows of one path.
type Rec struct {
	Mode   fs.FileMode
	Size   int64
	MTime  time.Time
	Owner  string
	Data   []byte
	Target string
}

// Seen is everything a filesystem shows.
type Seen map[string]*Rec

// OwnerOf extracts "uid:gid" from a FileInfo, or "".
func OwnerOf(fi fs.FileInfo, extra func(sys any) (int, int, bool)) string {
	switch s := fi.Sys().(type) {
	case *tar.Header:
		return fmt.Sprintf("%d:%d", s.Uid, s.Gid)
	default:
		if extra != nil {
			if u, g, ok := extra(s); ok {
				return fmt.Sprintf("%d:%d", u, g)
			}
		}
	}
	return ""
}

// Observe walks the whole filesystem through its public methods, checking on
// the way that listings, Stat, StatLink and handles agree. looseType ignores
// permission bits in DirEntry.Type.
type ObserveOpts struct {
	Owner     func(sys any) (int, int, bool)
	LooseType bool
	MaxNodes  int
	// NoHandleDirs skips opening directories.
	NoHandleDirs bool
	// Lean only collects: what listings say and what files deliver, without
	// comparing the different ways to ask.
	Lean bool
}

var errTooMany = errors.New("observe: too many or too deep directories")

func Observe(fsys fs.FS, o ObserveOpts) (Seen, error) {
	seen := Seen{}
	if o.MaxNodes == 0 {
		o.MaxNodes = 100000
	}
	fi, err := fs.Stat(fsys, ".")
	if err != nil {
		return nil, fmt.Errorf("Stat(.): %w", err)
	}
	if !fi.IsDir() || fi.Mode().Type() != fs.ModeDir {
		return nil, fmt.Errorf("Stat(.): not a directory: %v", fi.Mode())
	}
	seen["."] = &Rec{Mode: fi.Mode(), Size: fi.Size(), MTime: fi.ModTime(), Owner: OwnerOf(fi, o.Owner)}
	if err := observeDir(fsys, ".", o, seen); err != nil {
		return nil, err
	}
	return seen, nil
}

func observeDir(fsys fs.FS, dir string, o ObserveOpts, seen Seen) error {
	list, err := fs.ReadDir(fsys, dir)
	if err != nil {
		return fmt.Errorf("ReadDir(%q): %w", dir, err)
	}
	for i, e := range list {
		if len(seen) > o.MaxNodes || strings.Count(dir, "/") > 600 {
			return fmt.Errorf("%w in %q", errTooMany, dir[:min(len(dir), 200)])
		}
		name := e.Name()
		if !ValidName(name) {
			return fmt.Errorf("ReadDir(%q): entry name %q is not a single path element", dir, name)
		}
		if i > 0 && list[i-1].Name() >= name {
			return fmt.Errorf("ReadDir(%q): %q listed before %q", dir, list[i-1].Name(), name)
		}
		p := path.Join(dir, name)
		fi, err := e.Info()
		if err != nil {
			return fmt.Errorf("Info of %q: %w", p, err)
		}
		if fi.Name() != name {
			return fmt.Errorf("Info of %q has name %q", p, fi.Name())
		}
		et := e.Type()
		if o.LooseType {
			et = et.Type()
		}
		if !o.Lean && et != fi.Mode().Type() {
			return fmt.Errorf("entry %q: Type %v, Info mode %v", p, e.Type(), fi.Mode())
		}
		if !o.Lean && (e.IsDir() != fi.IsDir() || fi.IsDir() != fi.Mode().IsDir()) {
			return fmt.Errorf("entry %q: IsDir %v, Info IsDir %v, mode %v", p, e.IsDir(), fi.IsDir(), fi.Mode())
		}
		rec := &Rec{Mode: fi.Mode(), Size: fi.Size(), MTime: fi.ModTime(), Owner: OwnerOf(fi, o.Owner)}
		if lf, ok := fsys.(LinkFS); ok && o.Lean {
			if fi.Mode().Type() == fs.ModeSymlink {
				rec.Target, _ = lf.ReadLink(p)
			}
		} else if ok {
			li, err := lf.StatLink(p)
			if err != nil {
				return fmt.Errorf("StatLink(%q): %w", p, err)
			}
			if err := sameInfo(fi, li, name, o); err != nil {
				return fmt.Errorf("listing and StatLink(%q) differ: %w", p, err)
			}
			if fi.Mode().Type() == fs.ModeSymlink {
				if rec.Target, err = lf.ReadLink(p); err != nil {
					return fmt.Errorf("ReadLink(%q): %w", p, err)
				}
			} else if tgt, err := lf.ReadLink(p); err == nil {
				return fmt.Errorf("ReadLink(%q) of a %v gives %q", p, fi.Mode(), tgt)
			}
		}
		seen[p] = rec
		switch {
		case fi.Mode().Type() == fs.ModeSymlink:
		case fi.IsDir():
			si, err := fs.Stat(fsys, p)
			if err != nil {
				return fmt.Errorf("Stat(%q): %w", p, err)
			}
			if err := sameInfo(fi, si, name, o); err != nil {
				return fmt.Errorf("listing and Stat(%q) differ: %w", p, err)
			}
			if !o.NoHandleDirs && !o.Lean {
				f, err := fsys.Open(p)
				if err != nil {
					return fmt.Errorf("Open(%q): %w", p, err)
				}
				hi, err := f.Stat()
				if err != nil {
					return fmt.Errorf("Stat of open %q: %w", p, err)
				}
				if err := sameInfo(fi, hi, name, o); err != nil {
					return fmt.Errorf("listing and Stat of open directory %q differ: %w", p, err)
				}
				if err := f.Close(); err != nil {
					return fmt.Errorf("Close of %q: %w", p, err)
				}
			}
			if err := observeDir(fsys, p, o, seen); err != nil {
				return err
			}
		case fi.Mode().IsRegular():
			si, err := fs.Stat(fsys, p)
			if err != nil {
				return fmt.Errorf("Stat(%q): %w", p, err)
			}
			if err := sameInfo(fi, si, name, o); err != nil {
				return fmt.Errorf("listing and Stat(%q) differ: %w", p, err)
			}
			f, err := fsys.Open(p)
			if err != nil {
				return fmt.Errorf("Open(%q): %w", p, err)
			}
			hi, err := f.Stat()
			if err != nil {
				return fmt.Errorf("Stat of open %q: %w", p, err)
			}
			if err := sameInfo(fi, hi, name, o); err != nil {
				return fmt.Errorf("listing and Stat of open file %q differ: %w", p, err)
			}
			rec.Data, err = io.ReadAll(f)
			if err != nil {
				return fmt.Errorf("reading %q: %w", p, err)
			}
			if int64(len(rec.Data)) != fi.Size() {
				return fmt.Errorf("%q has size %d but delivers %d bytes", p, fi.Size(), len(rec.Data))
			}
			if n, err := f.Read(make([]byte, 4)); n != 0 || err != io.EOF {
				return fmt.Errorf("reading %q past its end gives %d, %v", p, n, err)
			}
			if err := f.Close(); err != nil {
				return fmt.Errorf("Close of %q: %w", p, err)
			}
		default:
			si, err := fs.Stat(fsys, p)
			if err != nil {
				return fmt.Errorf("Stat(%q): %w", p, err)
			}
			if err := sameInfo(fi, si, name, o); err != nil {
				return fmt.Errorf("listing and Stat(%q) differ: %w", p, err)
			}
		}
	}
	return nil
}

func sameInfo(a, b fs.FileInfo, name string, o ObserveOpts) error {
	if o.Lean {
		return nil
	}
	switch {
	case b.Name() != name:
		return fmt.Errorf("name %q", b.Name())
	case a.Mode() != b.Mode():
		return fmt.Errorf("mode %v and %v", a.Mode(), b.Mode())
	case a.Size() != b.Size():
		return fmt.Errorf("size %d and %d", a.Size(), b.Size())
	case !a.ModTime().Equal(b.ModTime()):
		return fmt.Errorf("time %v and %v", a.ModTime(), b.ModTime())
	case a.IsDir() != b.IsDir():
		return fmt.Errorf("IsDir %v and %v", a.IsDir(), b.IsDir())
	case OwnerOf(a, o.Owner) != OwnerOf(b, o.Owner):
		return fmt.Errorf("owner %s and %s", OwnerOf(a, o.Owner), OwnerOf(b, o.Owner))
	}
	return nil
}

// ValidName says whether s can be one path element.
func ValidName(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.Contains(s, "/")
}

// Want shapes what a filesystem should show of a tree.
type Want struct {
	SkipRoot  bool // ignore the root's metadata
	Owner     bool // compare owners
	NoMTime   bool
	NoPerm    bool // compare only the type bits of modes
	NoData    bool
	NoTarget  bool
	Only      func(p string) bool       // restricts the comparison
	MTime     func(time.Time) time.Time // expected time of a node
	MTimeNear time.Duration             // tolerance, exclusive
	FlatMode  bool                      // compare permissions only (no setuid etc.)
}

// Diff compares what was seen with the tree, "" when equal.
func Diff(root *Node, seen Seen, w Want) string {
	var d []string
	add := func(f string, a ...any) {
		if len(d) < 8 {
			d = append(d, fmt.Sprintf(f, a...))
		}
	}
	want := map[string]*Node{}
	root.Walk(func(p string, n *Node) { want[p] = n })
	var paths []string
	for p := range want {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		n, s := want[p], seen[p]
		if w.Only != nil && !w.Only(p) {
			continue
		}
		if s == nil {
			add("%q is missing (expected %v)", p, n.FileMode())
			continue
		}
		if p == "." && w.SkipRoot {
			continue
		}
		wm, sm := n.FileMode(), s.Mode
		if w.FlatMode {
			wm &^= SpecialBits
			sm &^= SpecialBits
		}
		if w.NoPerm {
			wm, sm = wm.Type(), sm.Type()
		}
		if wm != sm {
			add("%q has mode %v, expected %v", p, sm, wm)
		}
		switch n.Kind {
		case File:
			if s.Size != n.Size() {
				add("%q has size %d, expected %d", p, s.Size, n.Size())
			}
			if !w.NoData && !bytes.Equal(s.Data, n.Data) {
				add("%q has wrong contents: %s", p, DiffBytes(s.Data, n.Data))
			}
		case Link:
			if !w.NoTarget && s.Target != n.Target {
				add("%q links to %q, expected %q", p, s.Target, n.Target)
			}
		}
		if !w.NoMTime {
			exp := n.MTime
			if w.MTime != nil {
				exp = w.MTime(exp)
			}
			delta := s.MTime.Sub(exp)
			if delta < 0 {
				delta = -delta
			}
			if w.MTimeNear > 0 {
				if delta >= w.MTimeNear {
					add("%q has time %v, expected %v", p, s.MTime.UTC(), exp.UTC())
				}
			} else if !s.MTime.Equal(exp) {
				add("%q has time %v, expected %v", p, s.MTime.UTC(), exp.UTC())
			}
		}
		if w.Owner {
			if exp := fmt.Sprintf("%d:%d", n.UID, n.GID); s.Owner != exp {
				add("%q has owner %s, expected %s", p, s.Owner, exp)
			}
		}
	}
	var extra []string
	for p := range seen {
		if want[p] == nil && (w.Only == nil || w.Only(p)) {
			extra = append(extra, p)
		}
	}
	sort.Strings(extra)
	for _, p := range extra {
		add("%q should not exist (%v)", p, seen[p].Mode)
	}
	return strings.Join(d, "; ")
}

// DiffSeen compares two observations.
func DiffSeen(a, b Seen) string {
	var d []string
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, y := a[k], b[k]
		if len(d) > 8 {
			break
		}
		if x == nil || y == nil {
			d = append(d, fmt.Sprintf("%q is in only one of them", k))
			continue
		}
		if x.Mode != y.Mode || x.Size != y.Size || !x.MTime.Equal(y.MTime) || x.Owner != y.Owner || x.Target != y.Target || !bytes.Equal(x.Data, y.Data) {
			d = append(d, fmt.Sprintf("%q: %v %d %v %s %q / %v %d %v %s %q; data %s", k, x.Mode, x.Size, x.MTime.UTC(), x.Owner, x.Target, y.Mode, y.Size, y.MTime.UTC(), y.Owner, y.Target, DiffBytes(x.Data, y.Data)))
		}
	}
	return strings.Join(d, "; ")
}

// DiffBytes describes the first difference of two byte strings.
func DiffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return "equal"
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, expected %d, first difference at %d", len(got), len(want), i)
}
