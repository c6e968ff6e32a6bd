package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"testing"

	"github.com/dpeckett/archivefs/memfs"
	"pgregory.net/rapid"

	"verif/ev"
	"verif/model"
)

// getNode walks a valid path that holds no links.
func getNode(root *model.Node, p string) (*model.Node, error) {
	if p == "." {
		return root, nil
	}
	cur := root
	for _, c := range strings.Split(p, "/") {
		if cur.Kind != model.Dir {
			return nil, model.ErrNotDir
		}
		if cur = cur.Kids[c]; cur == nil {
			return nil, model.ErrNoEnt
		}
	}
	return cur, nil
}

func modelMkdirAll(root *model.Node, p string, perm fs.FileMode) error {
	if !fs.ValidPath(p) {
		return fs.ErrInvalid
	}
	if p == "." {
		return nil
	}
	cur := root
	for _, c := range strings.Split(p, "/") {
		next := cur.Kids[c]
		if next == nil {
			next = cur.Add(model.NewDir(c, perm))
		}
		if next.Kind != model.Dir {
			return model.ErrNotDir
		}
		cur = next
	}
	return nil
}

func modelWriteFile(root *model.Node, p string, data []byte, perm fs.FileMode) error {
	if !fs.ValidPath(p) || p == "." {
		return fs.ErrInvalid
	}
	d, err := getNode(root, path.Dir(p))
	if err != nil {
		return err
	}
	if d.Kind != model.Dir {
		return model.ErrNotDir
	}
	f := d.Kids[path.Base(p)]
	if f == nil {
		f = d.Add(&model.Node{Name: path.Base(p), Kind: model.File, Mode: perm})
	}
	if f.Kind == model.Dir {
		return fs.ErrExist
	}
	f.Data = append([]byte{}, data...)
	return nil
}

// memFS is what can be written to.
type memFS interface {
	fs.FS
	MkdirAll(string, fs.FileMode) error
	WriteFile(string, []byte, fs.FileMode) error
}

type memHandle struct {
	f      fs.File
	p      string
	node   *model.Node
	data   []byte // version at Open
	mode   fs.FileMode
	off    int
	closed bool
	// directories
	listed  []string
	openSet map[string]bool
	done    bool
}

type memView struct {
	fsys fs.FS
	root *model.Node
	name string
}

// C14: MemFS behaves as an in-memory map of files and directories.
func TestC14(t *testing.T) {
	st := ev.Start(t, "C14", "a history of about 30 MkdirAll, WriteFile, Open, Stat, ReadDir, Sub, read, page, close and buffer-scribbling steps over colliding names, answers compared step by step with a map model and the whole tree compared at the end; non-trivial: the history holds a failed operation, a rewrite of a file and an open handle across a write; distinct by history")
	check(t, func(t *rapid.T) {
		m := memfs.New()
		root := model.NewDir("", 0)
		views := []*memView{{m, root, ""}}
		var handles []*memHandle
		var buffers [][]byte
		var log []string
		var failed, rewrote, across bool
		names := []string{"a", "b", "c", "ab", ".x", "é", "a b", "a\x00", "a\x00b", "...", "a\\b", "A", "a.b", "a-", "B:", strings.Repeat("long", 70)}
		comp := rapid.OneOf(rapid.SampledFrom(names[:3]), rapid.SampledFrom(names[:3]), rapid.SampledFrom(names))
		pathGen := rapid.Custom(func(t *rapid.T) string {
			switch rapid.IntRange(0, 24).Draw(t, "kind") {
			case 0:
				return "."
			case 1:
				return rapid.SampledFrom([]string{"", "/", "/a", "a/", "a//b", "./a", "a/.", "..", "a/..", "a/../b", "../a", "a/./b", "\xff", "a/\xc3", "a/b\xfe/c"}).Draw(t, "bad")
			}
			n := rapid.IntRange(1, 4).Draw(t, "depth")
			if rare(t, "deep", 400) {
				n = rapid.SampledFrom([]int{9, 16, 17, 33, 65, 130, 260}).Draw(t, "deeper")
			}
			var ps []string
			for i := 0; i < n; i++ {
				ps = append(ps, comp.Draw(t, "c"))
			}
			return strings.Join(ps, "/")
		})
		// paths that exist already are drawn often
		anyPath := func(v *memView) string {
			if rapid.Bool().Draw(t, "existing") {
				var ps []string
				v.root.Walk(func(p string, _ *model.Node) { ps = append(ps, relTo(v.root, p)) })
				p := rapid.SampledFrom(ps).Draw(t, "path")
				if rapid.IntRange(0, 3).Draw(t, "below") == 0 {
					p = path.Join(p, comp.Draw(t, "c"))
				}
				return p
			}
			return pathGen.Draw(t, "path")
		}
		desc := func() string { return strings.Join(log, "\n") }
		fail := func(f string, a ...any) { t.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(f, a...), desc()) }
		run := func(step string, f func()) {
			log = append(log, step)
			if v := watched(20, f); v != "" {
				verdictFail(t, v, step+" after\n"+desc())
			}
		}
		// sameErr compares outcomes.
		sameErr := func(step string, got, want error) {
			if want != nil {
				failed = true
			}
			if (got == nil) != (want == nil) {
				fail("%s gives error %v, expected %v", step, got, want)
			}
		}
		checkInfo := func(what string, fi fs.FileInfo, n *model.Node, size int64) {
			if n.Parent != nil && fi.Name() != n.Name {
				fail("%s: name %q, expected %q", what, fi.Name(), n.Name)
			}
			if fi.IsDir() != (n.Kind == model.Dir) || fi.Mode().Type() != n.FileMode().Type() {
				fail("%s: mode %v, expected %v", what, fi.Mode(), n.FileMode())
			}
			if n.Parent != nil && fi.Mode() != n.FileMode() {
				fail("%s: mode %v, expected %v", what, fi.Mode(), n.FileMode())
			}
			if n.Kind == model.File && fi.Size() != size {
				fail("%s: size %d, expected %d", what, fi.Size(), size)
			}
		}
		checkEntry := func(what string, e fs.DirEntry, n *model.Node) {
			fi, err := e.Info()
			if err != nil {
				fail("%s: Info of %q: %v", what, e.Name(), err)
			}
			if e.Name() != n.Name || e.IsDir() != (n.Kind == model.Dir) || e.Type() != n.FileMode().Type() {
				fail("%s: entry %q IsDir=%v Type=%v, expected %q %v", what, e.Name(), e.IsDir(), e.Type(), n.Name, n.FileMode())
			}
			checkInfo(what+" entry "+e.Name(), fi, n, n.Size())
		}
		drawView := func() *memView { return views[rapid.IntRange(0, len(views)-1).Draw(t, "view")] }
		openHandles := func(dir bool) []*memHandle {
			var out []*memHandle
			for _, h := range handles {
				if (h.node.Kind == model.Dir) == dir {
					out = append(out, h)
				}
			}
			return out
		}

		writeFile := func(v *memView, p string) {
			perm := fs.FileMode(rapid.SampledFrom([]uint32{0o644, 0o600, 0o666, 0, 0o755, 0o755 | uint32(fs.ModeSetuid)}).Draw(t, "perm"))
			w, ok := v.fsys.(memFS)
			if !ok {
				return
			}
			data := model.Content(300).Draw(t, "data")
			if rapid.IntRange(0, 3).Draw(t, "nil") == 0 {
				data = data[:0]
			}
			if rare(t, "large", 1500) {
				data = model.Bytes(rapid.Uint64().Draw(t, "largeseed"), 0, rapid.SampledFrom([]int{4097, 32769, 65535, 65536, 65537, 200001}).Draw(t, "largesize"))
			}
			buf := append(make([]byte, 0, len(data)+8), data...)
			step := fmt.Sprintf("%sWriteFile(%q, %d bytes, %o)", v.name, p, len(data), perm)
			if n, err := getNode(v.root, p); fs.ValidPath(p) && err == nil && n.Kind == model.File {
				rewrote = true
			}
			for _, h := range handles {
				across = across || !h.closed
			}
			want := modelWriteFile(v.root, p, data, perm)
			var got error
			run(step, func() { got = w.WriteFile(p, buf, perm) })
			sameErr(step, got, want)
			buffers = append(buffers, buf)
		}

		steps := map[string]func(*rapid.T){
			"MkdirAll": func(*rapid.T) {
				v := drawView()
				p := anyPath(v)
				perm := fs.FileMode(rapid.SampledFrom([]uint32{0o755, 0o700, 0o777, 0, 0o511, 0o777 | uint32(fs.ModeSticky)}).Draw(t, "perm"))
				w, ok := v.fsys.(memFS)
				if !ok {
					return
				}
				step := fmt.Sprintf("%sMkdirAll(%q, %o)", v.name, p, perm)
				before := v.root.Hash()
				want := modelMkdirAll(v.root, p, perm)
				if want != nil && before != v.root.Hash() {
					t.Fatalf("the model changed state in a failed operation")
				}
				var got error
				run(step, func() { got = w.MkdirAll(p, perm) })
				sameErr(step, got, want)
			},
			"WriteFile": func(*rapid.T) {
				v := drawView()
				writeFile(v, anyPath(v))
			},
			"write new": func(*rapid.T) {
				v := drawView()
				var ps []string
				v.root.Walk(func(q string, n *model.Node) {
					if n.Kind == model.Dir {
						ps = append(ps, relTo(v.root, q))
					}
				})
				writeFile(v, path.Join(rapid.SampledFrom(ps).Draw(t, "dir"), comp.Draw(t, "c")))
			},
			"rewrite": func(*rapid.T) {
				v := drawView()
				var ps []string
				v.root.Walk(func(q string, n *model.Node) {
					if n.Kind == model.File {
						ps = append(ps, relTo(v.root, q))
					}
				})
				if len(ps) > 0 {
					writeFile(v, rapid.SampledFrom(ps).Draw(t, "file"))
				}
			},
			"scribble": func(*rapid.T) {
				if len(buffers) == 0 {
					return
				}
				b := buffers[rapid.IntRange(0, len(buffers)-1).Draw(t, "buffer")]
				log = append(log, "the caller overwrites a buffer it passed to WriteFile")
				for i := range b {
					b[i] ^= 0x5a
				}
				_ = append(b, 1, 2, 3)
			},
			"Open": func(*rapid.T) {
				v := drawView()
				p := anyPath(v)
				step := fmt.Sprintf("%sOpen(%q)", v.name, p)
				var f fs.File
				var got error
				run(step, func() { f, got = v.fsys.Open(p) })
				if !fs.ValidPath(p) {
					sameErr(step, got, fs.ErrInvalid)
					return
				}
				n, want := getNode(v.root, p)
				sameErr(step, got, want)
				if want == model.ErrNoEnt && !errors.Is(got, fs.ErrNotExist) {
					fail("%s gives %v, expected ErrNotExist", step, got)
				}
				if want != nil {
					return
				}
				h := &memHandle{f: f, p: p, node: n, data: append([]byte{}, n.Data...), mode: n.FileMode(), openSet: map[string]bool{}}
				for k := range n.Kids {
					h.openSet[k] = true
				}
				handles = append(handles, h)
			},
			"Stat": func(*rapid.T) {
				v := drawView()
				p := anyPath(v)
				step := fmt.Sprintf("%sStat(%q)", v.name, p)
				var fi fs.FileInfo
				var got error
				run(step, func() { fi, got = fs.Stat(v.fsys, p) })
				if !fs.ValidPath(p) {
					sameErr(step, got, fs.ErrInvalid)
					return
				}
				n, want := getNode(v.root, p)
				sameErr(step, got, want)
				if want == nil && p != "." {
					checkInfo(step, fi, n, n.Size())
				}
			},
			"ReadFile": func(*rapid.T) {
				v := drawView()
				p := anyPath(v)
				step := fmt.Sprintf("%sReadFile(%q)", v.name, p)
				var b []byte
				var got error
				run(step, func() { b, got = fs.ReadFile(v.fsys, p) })
				if !fs.ValidPath(p) {
					sameErr(step, got, fs.ErrInvalid)
					return
				}
				n, want := getNode(v.root, p)
				if want == nil && n.Kind == model.Dir {
					want = errors.New("is a directory")
				}
				sameErr(step, got, want)
				if want == nil && !bytes.Equal(b, n.Data) {
					fail("%s: %s", step, model.DiffBytes(b, n.Data))
				}
				// the returned bytes belong to the caller
				for i := range b {
					b[i] ^= 0xa5
				}
			},
			"ReadDir": func(*rapid.T) {
				v := drawView()
				p := anyPath(v)
				step := fmt.Sprintf("%sReadDir(%q)", v.name, p)
				var l []fs.DirEntry
				var got error
				run(step, func() { l, got = fs.ReadDir(v.fsys, p) })
				if !fs.ValidPath(p) {
					sameErr(step, got, fs.ErrInvalid)
					return
				}
				n, want := getNode(v.root, p)
				if want == nil && n.Kind != model.Dir {
					want = model.ErrNotDir
				}
				sameErr(step, got, want)
				if want != nil {
					return
				}
				if len(l) != len(n.Kids) {
					fail("%s gives %d entries, expected %q", step, len(l), n.Names())
				}
				for i, k := range n.Names() {
					if l[i].Name() != k {
						fail("%s: entry %d is %q, expected %q", step, i, l[i].Name(), k)
					}
					checkEntry(step, l[i], n.Kids[k])
				}
			},
			"Sub": func(*rapid.T) {
				if len(views) > 4 {
					return
				}
				v := drawView()
				p := anyPath(v)
				step := fmt.Sprintf("%sSub(%q)", v.name, p)
				var sub fs.FS
				var got error
				direct, ok := v.fsys.(fs.SubFS)
				if ok && rapid.Bool().Draw(t, "direct") {
					run(step, func() { sub, got = direct.Sub(p) })
				} else {
					run(step, func() { sub, got = fs.Sub(v.fsys, p) })
				}
				if !fs.ValidPath(p) {
					sameErr(step, got, fs.ErrInvalid)
					return
				}
				n, want := getNode(v.root, p)
				if want == nil && n.Kind != model.Dir {
					want = model.ErrNotDir
				}
				sameErr(step, got, want)
				if want == nil {
					views = append(views, &memView{sub, n, fmt.Sprintf("%sSub(%q).", v.name, p)})
				}
			},
			"read": func(*rapid.T) {
				hs := openHandles(false)
				if len(hs) == 0 {
					return
				}
				h := hs[rapid.IntRange(0, len(hs)-1).Draw(t, "handle")]
				b := make([]byte, rapid.SampledFrom([]int{0, 1, 7, 64, 512}).Draw(t, "len"))
				step := fmt.Sprintf("read %d from handle of %q", len(b), h.p)
				var n int
				var err error
				run(step, func() { n, err = h.f.Read(b) })
				if h.closed {
					if err == nil || n != 0 {
						fail("%s after Close gives %d, %v", step, n, err)
					}
					failed = true
					return
				}
				rest := h.data[h.off:]
				if n < 0 || n > len(rest) || n > len(b) || !bytes.Equal(b[:n], rest[:n]) {
					fail("%s: %d bytes differ from the version opened", step, n)
				}
				h.off += n
				if err != nil && (err != io.EOF || h.off < len(h.data)) {
					fail("%s: %v with %d bytes left", step, err, len(h.data)-h.off)
				}
				if len(b) > 0 && n == 0 && err == nil {
					fail("%s: nothing read and no error", step)
				}
				// the buffer is the caller's
				for i := range b {
					b[i] = 0xee
				}
			},
			"fstat": func(*rapid.T) {
				if len(handles) == 0 {
					return
				}
				h := handles[rapid.IntRange(0, len(handles)-1).Draw(t, "handle")]
				step := fmt.Sprintf("Stat of handle of %q", h.p)
				var fi fs.FileInfo
				var err error
				run(step, func() { fi, err = h.f.Stat() })
				if h.closed {
					if err == nil && h.node.Kind == model.File {
						fail("%s after Close succeeds", step)
					}
					return
				}
				if err != nil {
					fail("%s: %v", step, err)
				}
				if fi.Mode().Type() != h.mode.Type() || h.node.Parent != nil && fi.Mode() != h.mode {
					fail("%s: mode %v, expected %v", step, fi.Mode(), h.mode)
				}
				if h.node.Kind == model.File && fi.Size() != int64(len(h.data)) {
					fail("%s: size %d, but it was opened with %d bytes", step, fi.Size(), len(h.data))
				}
			},
			"page": func(*rapid.T) {
				hs := openHandles(true)
				if len(hs) == 0 {
					return
				}
				h := hs[rapid.IntRange(0, len(hs)-1).Draw(t, "handle")]
				k := rapid.SampledFrom([]int{1, 2, 3, 100, -1, 0}).Draw(t, "n")
				step := fmt.Sprintf("ReadDir(%d) on handle of %q", k, h.p)
				rd, ok := h.f.(fs.ReadDirFile)
				if !ok {
					fail("the handle of directory %q has no ReadDir", h.p)
				}
				var l []fs.DirEntry
				var err error
				run(step, func() { l, err = rd.ReadDir(k) })
				if h.closed {
					if len(l) > 0 {
						fail("%s after Close gives entries", step)
					}
					return
				}
				if k > 0 && len(l) == 0 && err != io.EOF || k > 0 && len(l) > 0 && err != nil || k <= 0 && err != nil || k > 0 && len(l) > k {
					fail("%s: %d entries, error %v", step, len(l), err)
				}
				for _, e := range l {
					c := h.node.Kids[e.Name()]
					if c == nil {
						fail("%s lists %q, which does not exist", step, e.Name())
					}
					if e.IsDir() != (c.Kind == model.Dir) {
						fail("%s: %q IsDir=%v", step, e.Name(), e.IsDir())
					}
					for _, o := range h.listed {
						if o == e.Name() {
							fail("%s lists %q for the second time", step, o)
						}
					}
					h.listed = append(h.listed, e.Name())
				}
				if err == io.EOF || k <= 0 {
					for o := range h.openSet {
						if i := sort.SearchStrings(sorted(h.listed), o); i >= len(h.listed) || sorted(h.listed)[i] != o {
							fail("%s: the pages ended without %q", step, o)
						}
					}
				}
			},
			"close": func(*rapid.T) {
				if len(handles) == 0 {
					return
				}
				h := handles[rapid.IntRange(0, len(handles)-1).Draw(t, "handle")]
				step := fmt.Sprintf("close handle of %q", h.p)
				var err error
				run(step, func() { err = h.f.Close() })
				if err != nil && !h.closed {
					fail("%s: %v", step, err)
				}
				if err == nil && h.closed && h.node.Kind == model.File {
					fail("%s twice succeeds", step)
				}
				h.closed = true
			},
		}
		t.Repeat(steps)

		st.Case(failed && rewrote && across, hashOf(desc()))
		st.Label("with sub views", b2i(len(views) > 1))
		st.Label("failed operation", b2i(failed))
		st.Label("rewrite", b2i(rewrote))
		st.Label("handle across a write", b2i(across))
		st.Label("steps", len(log))
		st.Sample(desc)

		for _, v := range views {
			var seen model.Seen
			var err error
			run(v.name+"observe", func() { seen, err = model.Observe(v.fsys, model.ObserveOpts{}) })
			if err != nil {
				fail("%sobserve: %v", v.name, err)
			}
			sub := v.root.Clone()
			if d := model.Diff(sub, seen, model.Want{SkipRoot: true, NoMTime: true}); d != "" {
				fail("%s in the end: %s", v.name, d)
			}
		}
		for _, h := range handles {
			if h.closed || h.node.Kind == model.Dir {
				continue
			}
			var b []byte
			var err error
			run("read the rest of handle of "+h.p, func() { b, err = io.ReadAll(h.f) })
			if err != nil || !bytes.Equal(b, h.data[h.off:]) {
				fail("the rest of handle of %q: %v, %s", h.p, err, model.DiffBytes(b, h.data[h.off:]))
			}
		}
	})
}

func sorted(s []string) []string {
	o := append([]string{}, s...)
	sort.Strings(o)
	return o
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// relTo makes an absolute model path relative to a directory.
func relTo(root *model.Node, p string) string {
	base := root.Path()
	if base == "." {
		return p
	}
	if p == base {
		return "."
	}
	return strings.TrimPrefix(p, base+"/")
}
