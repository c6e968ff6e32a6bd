package model

import (
	"archive/tar"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"path"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"syscall"
	"time"
)

// OwnerVia says how a source exposes owners.
type OwnerVia int

const (
	OwnerNone OwnerVia = iota
	OwnerTar
	OwnerStat
)

// SrcOpts shapes a source filesystem over a tree.
type SrcOpts struct {
	Owner OwnerVia
	// OwnerNames, if set, starts the user and group names in tar headers.
	OwnerNames string
	// Seen tells how often the source was read before: times of access and
	// change and the number of the device move with it, nothing else.
	Seen      int64
	NoReadDir bool // no ReadDir method on the filesystem, only on handles
	NoStat    bool // no Stat method on the filesystem
	NoLinks   bool // no ReadLink / StatLink methods
	// LazyInfo makes the entries of a listing look their path up again when
	// asked for more than the type, as those of package os do.
	LazyInfo bool
	// HardTar marks files as hard links in the tar headers, as a reader that
	// keeps the header of every entry does.
	HardTar bool
	// LinkOnly gives the file system a ReadLink method but no StatLink.
	LinkOnly bool
	// Chunk is the most bytes one Read delivers, 0 means no limit.
	Chunk int
	// EOFWithData returns io.EOF together with the last bytes.
	EOFWithData bool
	// ZeroReads makes every other Read return 0, nil.
	ZeroReads bool
	// Fault is called before every operation; an error it returns is what the
	// operation returns.
	Fault func(op, p string) error
	// Bare returns injected errors as they are, not in a *fs.PathError.
	Bare bool
	// Lie maps a path to the number of bytes it delivers instead of its size.
	Lie map[string]int
	// Track, if set, records what is asked of the source.
	Track *Track
}

// Track records what is asked of a source.
type Track struct {
	Opened int
	// Left are the open handles.
	Left map[*srcFile]bool
	// Invalid are the invalid paths that were asked for.
	Invalid []string
	// Headers are the tar headers that were handed out, with copies of them.
	Headers map[*tar.Header]tar.Header
}

// NewTrack starts recording.
func NewTrack() *Track {
	return &Track{Left: map[*srcFile]bool{}, Headers: map[*tar.Header]tar.Header{}}
}

// Names tells the paths of the handles left open.
func (k *Track) Names() []string {
	var out []string
	for f := range k.Left {
		out = append(out, f.p)
	}
	sort.Strings(out)
	return out
}

// Changed tells what was handed out and then changed by the caller.
func (k *Track) Changed() string {
	for h, c := range k.Headers {
		if !reflect.DeepEqual(*h, c) {
			return fmt.Sprintf("the header of %q, now %+v, was %+v", c.Name, *h, c)
		}
	}
	return ""
}

// ErrInjected is the error faults return.
var ErrInjected = errors.New("injected fault")

type core struct {
	root *Node
	o    SrcOpts
}

func (c *core) fault(op, p string) error {
	if c.o.Fault == nil {
		return nil
	}
	if err := c.o.Fault(op, p); err != nil {
		if c.o.Bare {
			return err
		}
		return &fs.PathError{Op: op, Path: p, Err: err}
	}
	return nil
}

type srcBase struct{ *core }

// Source builds an fs.FS over the tree with exactly the capabilities asked for.
func Source(root *Node, o SrcOpts) fs.FS {
	c := &core{root, o}
	b := srcBase{c}
	dir := mReadDir{c}
	st := mStat{c}
	ln := mLink{c}
	sl := mStatLink{c}
	switch {
	case o.NoLinks && o.NoReadDir && o.NoStat:
		return b
	case o.NoLinks && o.NoReadDir:
		return struct {
			srcBase
			mStat
		}{b, st}
	case o.NoLinks && o.NoStat:
		return struct {
			srcBase
			mReadDir
		}{b, dir}
	case o.NoLinks:
		return struct {
			srcBase
			mReadDir
			mStat
		}{b, dir, st}
	case o.LinkOnly:
		return struct {
			srcBase
			mReadDir
			mStat
			mLink
		}{b, dir, st, ln}
	case o.NoReadDir && o.NoStat:
		return struct {
			srcBase
			mLink
			mStatLink
		}{b, ln, sl}
	case o.NoReadDir:
		return struct {
			srcBase
			mStat
			mLink
			mStatLink
		}{b, st, ln, sl}
	case o.NoStat:
		return struct {
			srcBase
			mReadDir
			mLink
			mStatLink
		}{b, dir, ln, sl}
	default:
		return struct {
			srcBase
			mReadDir
			mStat
			mLink
			mStatLink
		}{b, dir, st, ln, sl}
	}
}

func (c *core) find(op, name string, follow bool) (*Node, error) {
	if !fs.ValidPath(name) {
		if c.o.Track != nil {
			c.o.Track.Invalid = append(c.o.Track.Invalid, name)
		}
		return nil, &fs.PathError{Op: op, Path: name, Err: fs.ErrInvalid}
	}
	r := c.root.Resolve(name, follow)
	if r.Err != nil {
		return nil, &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
	}
	return r.Node, nil
}

func (s srcBase) Open(name string) (fs.File, error) {
	c := s.core
	if err := c.fault("open", name); err != nil {
		return nil, err
	}
	n, err := c.find("open", name, true)
	if err != nil {
		return nil, err
	}
	data := n.Data
	if k, ok := c.o.Lie[name]; ok {
		if k <= len(data) {
			data = data[:k]
		} else {
			data = append(append([]byte{}, data...), Bytes(7, 0, k-len(data))...)
		}
	}
	f := &srcFile{c: c, n: n, p: name, data: data}
	if k := c.o.Track; k != nil {
		k.Opened++
		k.Left[f] = true
	}
	return f, nil
}

type mReadDir struct{ c *core }

func (m mReadDir) ReadDir(name string) ([]fs.DirEntry, error) {
	if err := m.c.fault("readdir", name); err != nil {
		return nil, err
	}
	n, err := m.c.find("readdir", name, true)
	if err != nil {
		return nil, err
	}
	return m.c.list(n, name)
}

func (c *core) list(n *Node, p string) ([]fs.DirEntry, error) {
	if n.Kind != Dir {
		return nil, &fs.PathError{Op: "readdir", Path: p, Err: errors.New("not a directory")}
	}
	out := make([]fs.DirEntry, 0, len(n.Kids))
	for _, k := range n.Names() {
		out = append(out, srcEntry{c, n.Kids[k], path.Join(p, k)})
	}
	return out, nil
}

type mStat struct{ c *core }

func (m mStat) Stat(name string) (fs.FileInfo, error) {
	if err := m.c.fault("stat", name); err != nil {
		return nil, err
	}
	n, err := m.c.find("stat", name, true)
	if err != nil {
		return nil, err
	}
	return srcInfo{m.c, n, path.Base(name)}, nil
}

type mLink struct{ c *core }

func (m mLink) ReadLink(name string) (string, error) {
	if err := m.c.fault("readlink", name); err != nil {
		return "", err
	}
	n, err := m.c.find("readlink", name, false)
	if err != nil {
		return "", err
	}
	if n.Kind != Link {
		return "", &fs.PathError{Op: "readlink", Path: name, Err: fs.ErrInvalid}
	}
	return n.Target, nil
}

type mStatLink struct{ c *core }

func (m mStatLink) StatLink(name string) (fs.FileInfo, error) {
	if err := m.c.fault("statlink", name); err != nil {
		return nil, err
	}
	n, err := m.c.find("statlink", name, false)
	if err != nil {
		return nil, err
	}
	return srcInfo{m.c, n, path.Base(name)}, nil
}

// Lstat as in Go's own fs.ReadLinkFS.
func (m mStatLink) Lstat(name string) (fs.FileInfo, error) { return m.StatLink(name) }

type srcEntry struct {
	c *core
	n *Node
	p string
}

func (e srcEntry) Name() string      { return e.n.Name }
func (e srcEntry) IsDir() bool       { return e.n.FileMode().IsDir() }
func (e srcEntry) Type() fs.FileMode { return e.n.FileMode().Type() }
func (e srcEntry) Info() (fs.FileInfo, error) {
	if err := e.c.fault("info", e.p); err != nil {
		return nil, err
	}
	if e.c.o.LazyInfo {
		n, err := e.c.find("lstat", e.p, false)
		if err != nil {
			return nil, err
		}
		return srcInfo{e.c, n, e.n.Name}, nil
	}
	return srcInfo{e.c, e.n, e.n.Name}, nil
}

type srcInfo struct {
	c    *core
	n    *Node
	name string
}

func (i srcInfo) Name() string { return i.name }
func (i srcInfo) Size() int64 {
	switch i.n.Kind {
	case File:
		return int64(len(i.n.Data))
	case Link:
		return int64(len(i.n.Target))
	}
	return 0
}
func (i srcInfo) Mode() fs.FileMode  { return i.n.FileMode() }
func (i srcInfo) ModTime() time.Time { return i.n.MTime }
func (i srcInfo) IsDir() bool        { return i.n.FileMode().IsDir() }
func (i srcInfo) Sys() any {
	switch i.c.o.Owner {
	case OwnerTar:
		h := &tar.Header{Name: i.name, Uid: i.n.UID, Gid: i.n.GID, Mode: int64(i.n.Mode.Perm()), Size: i.Size(), ModTime: i.n.MTime}
		if s := i.c.o.OwnerNames; s != "" {
			h.Uname, h.Gname = s+strconv.Itoa(i.n.UID%7), s+strconv.Itoa(i.n.GID%7)
		}
		switch i.n.Kind {
		case Dir:
			h.Typeflag = tar.TypeDir
		case Link:
			h.Typeflag, h.Linkname = tar.TypeSymlink, i.n.Target
		default:
			h.Typeflag = tar.TypeReg
			if i.c.o.HardTar {
				h.Typeflag, h.Linkname = tar.TypeLink, "elsewhere"
			}
		}
		if k := i.c.o.Track; k != nil {
			for old, c := range k.Headers {
				if c.Name == h.Name && reflect.DeepEqual(c, *h) {
					return old
				}
			}
			k.Headers[h] = *h
		}
		return h
	case OwnerStat:
		st := &syscall.Stat_t{Uid: uint32(i.n.UID), Gid: uint32(i.n.GID), Nlink: 1, Size: i.Size()}
		// Files with links elsewhere, on filesystems that number them alike.
		h := fnv.New64a()
		h.Write([]byte(i.n.Path()))
		st.Dev, st.Ino = h.Sum64()+uint64(i.c.o.Seen), h.Sum64()%3+2
		st.Atim = syscall.NsecToTimespec(1e18 + 1e9*i.c.o.Seen)
		st.Ctim = syscall.NsecToTimespec(1e18 + 7e8*i.c.o.Seen)
		if i.n.Kind == File {
			st.Nlink = 2
		}
		return st
	}
	return nil
}

type srcFile struct {
	c      *core
	n      *Node
	p      string
	data   []byte
	off    int
	reads  int
	dirPos int
	closed bool
}

func (f *srcFile) Stat() (fs.FileInfo, error) {
	if err := f.c.fault("fstat", f.p); err != nil {
		return nil, err
	}
	return srcInfo{f.c, f.n, path.Base(f.p)}, nil
}

func (f *srcFile) Read(b []byte) (int, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	if err := f.c.fault("read", f.p); err != nil {
		return 0, err
	}
	if f.n.Kind == Dir {
		return 0, &fs.PathError{Op: "read", Path: f.p, Err: errors.New("is a directory")}
	}
	f.reads++
	if f.c.o.ZeroReads && f.reads%2 == 0 {
		return 0, nil
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= len(f.data) {
		return 0, io.EOF
	}
	n := len(f.data) - f.off
	if n > len(b) {
		n = len(b)
	}
	if k := f.c.o.Chunk; k > 0 && n > k {
		n = k
	}
	copy(b, f.data[f.off:f.off+n])
	f.off += n
	if f.c.o.EOFWithData && f.off == len(f.data) {
		return n, io.EOF
	}
	return n, nil
}

func (f *srcFile) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	if k := f.c.o.Track; k != nil {
		delete(k.Left, f)
	}
	return nil
}

func (f *srcFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.c.fault("freaddir", f.p); err != nil {
		return nil, err
	}
	l, err := f.c.list(f.n, f.p)
	if err != nil {
		return nil, err
	}
	// only fs.ReadDir sorts; a handle gives its entries in any order
	l = slices.Clone(l)
	slices.Reverse(l)
	l = append(l[len(l)/3:], l[:len(l)/3]...)
	l = l[min(f.dirPos, len(l)):]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	f.dirPos += len(l)
	return l, nil
}

// String names the shape of a source, for reports.
func (o SrcOpts) String() string {
	return fmt.Sprintf("{owner:%d noReadDir:%v noStat:%v noLinks:%v linkOnly:%v chunk:%d eofWithData:%v zeroReads:%v lies:%v hardTar:%v lazyInfo:%v}",
		o.Owner, o.NoReadDir, o.NoStat, o.NoLinks, o.LinkOnly, o.Chunk, o.EOFWithData, o.ZeroReads, o.Lie, o.HardTar, o.LazyInfo)
}
