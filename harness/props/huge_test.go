package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
	"pgregory.net/rapid"

	"verif/enc"
	"verif/model"
)

// hugeSrc is a flat filesystem of files full of holes.
type hugeSrc []hugeFileInfo

type hugeFileInfo struct {
	name   string
	size   int64
	mtime  time.Time
	pieces []enc.Seg
	// seeks makes the file skip its holes where it can, and otherwise deliver
	// no more than the first of it.
	seeks bool
}

func (f hugeFileInfo) Name() string               { return f.name }
func (f hugeFileInfo) Size() int64                { return f.size }
func (f hugeFileInfo) Mode() fs.FileMode          { return 0o644 }
func (f hugeFileInfo) Type() fs.FileMode          { return 0 }
func (f hugeFileInfo) ModTime() time.Time         { return f.mtime }
func (f hugeFileInfo) IsDir() bool                { return false }
func (f hugeFileInfo) Sys() any                   { return nil }
func (f hugeFileInfo) Info() (fs.FileInfo, error) { return f, nil }

type hugeRoot struct{}

func (hugeRoot) Name() string       { return "." }
func (hugeRoot) Size() int64        { return 0 }
func (hugeRoot) Mode() fs.FileMode  { return fs.ModeDir | 0o755 }
func (hugeRoot) ModTime() time.Time { return time.Unix(0, 0) }
func (hugeRoot) IsDir() bool        { return true }
func (hugeRoot) Sys() any           { return nil }

type hugeHandle struct {
	io.Reader
	info fs.FileInfo
	list []fs.DirEntry
}

func (h *hugeHandle) Stat() (fs.FileInfo, error) { return h.info, nil }
func (h *hugeHandle) Close() error               { return nil }
func (h *hugeHandle) Read(p []byte) (int, error) {
	if h.Reader == nil {
		return 0, fs.ErrInvalid
	}
	return h.Reader.Read(p)
}
func (h *hugeHandle) ReadDir(n int) ([]fs.DirEntry, error) {
	if n <= 0 {
		l := h.list
		h.list = nil
		return l, nil
	}
	if len(h.list) == 0 {
		return nil, io.EOF
	}
	n = min(n, len(h.list))
	l := h.list[:n]
	h.list = h.list[n:]
	return l, nil
}

func (s hugeSrc) Open(name string) (fs.File, error) {
	if name == "." {
		h := &hugeHandle{info: hugeRoot{}}
		for _, f := range s {
			h.list = append(h.list, f)
		}
		return h, nil
	}
	for _, f := range s {
		if f.name == name {
			if f.seeks {
				return &seekingHandle{hugeHandle{info: f}, f, 0}, nil
			}
			return &hugeHandle{info: f, Reader: io.NewSectionReader(&enc.Sparse{Segs: f.pieces, Size: f.size}, 0, f.size)}, nil
		}
	}
	return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
}

var errTooMuch = errors.New("more was asked for than the check can afford")

// seekingHandle writes itself without its holes.
type seekingHandle struct {
	hugeHandle
	f   hugeFileInfo
	pos int64
}

func (h *seekingHandle) Read(p []byte) (int, error) {
	n, err := (&enc.Sparse{Segs: h.f.pieces, Size: h.f.size}).ReadAt(p, h.pos)
	h.pos += int64(n)
	if h.pos > 1<<22 {
		return 0, errTooMuch
	}
	return n, err
}

func (h *seekingHandle) WriteTo(w io.Writer) (int64, error) {
	s, ok := w.(io.Seeker)
	if !ok {
		return io.Copy(w, struct{ io.Reader }{h})
	}
	start, err := s.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	for _, p := range h.f.pieces {
		if _, err := s.Seek(start+p.Off, io.SeekStart); err != nil {
			return 0, err
		}
		if n, err := w.Write(p.Data); err != nil {
			return int64(n), err
		}
	}
	_, err = s.Seek(start+h.f.size, io.SeekStart)
	return h.f.size, err
}

// hugeImage asks for an image with about as many blocks as 32 bits count.
func hugeImage(t *rapid.T) (label, desc string) {
	const most = 1<<32 - 1 // blocks
	n := rapid.IntRange(1, 5).Draw(t, "files")
	big := rapid.IntRange(0, n-1).Draw(t, "bigone")
	src := make(hugeSrc, n)
	var blocks int64
	for i := range src {
		f := &src[i]
		f.name, f.mtime, f.seeks = fmt.Sprintf("f%d", i), time.Unix(rapid.SampledFrom([]int64{0, 0, 1700000000}).Draw(t, "mtime"), 0), true
		f.size = rapid.SampledFrom([]int64{0, 5, 1000, 5000, 40000, 1 << 40}).Draw(t, "size")
		if i != big && f.size > 1024 {
			blocks += (f.size + 4095) / 4096
		}
	}
	f := &src[big]
	over := rapid.SampledFrom([]int64{-1000, -100, -10, -5, -4, -3, -2, -1, 0, 1, 2, 3, 10, 1000, 1 << 20, 1 << 32, 1<<51 - 1<<34}).Draw(t, "over")
	f.size = (most-blocks+over)*4096 - rapid.SampledFrom([]int64{0, 1, 4095}).Draw(t, "tail")
	blocks += (f.size + 4095) / 4096
	var sizes []int64
	for i := range src {
		f := &src[i]
		sizes = append(sizes, f.size)
		for _, at := range []int64{0, 1 << 20, f.size - 20} {
			if at >= 0 && at+20 <= f.size && (len(f.pieces) == 0 || f.pieces[len(f.pieces)-1].Off+20 <= at) {
				f.pieces = append(f.pieces, enc.Seg{Off: at, Data: []byte(fmt.Sprintf("<%d@%d>", i, at%100))})
			}
		}
	}
	desc = fmt.Sprintf("files f0, f1, ... of %d bytes, %d blocks besides the metadata", sizes, blocks)
	sink := &holeSink{}
	var err error
	if p := try(func() { err = erofs.Create(sink, src) }); p != "" {
		t.Fatalf("Create: %s; %s", p, desc)
	}
	switch {
	case blocks >= most && err == nil:
		t.Fatalf("Create reports success, but an image has at most %d blocks; %s", int64(most), desc)
	case blocks >= most:
		return "erofs too many blocks", desc
	case errors.Is(err, errTooMuch):
		return "erofs too long to write", desc
	case err != nil && blocks > most-100:
		return "erofs no room for the metadata", desc
	}
	must(t, err, "Create; %s", desc)
	var le [4]byte
	_, _ = (&enc.Sparse{Segs: sink.segs, Size: sink.size}).ReadAt(le[:], 1060)
	size := int64(binary.LittleEndian.Uint32(le[:])) * 4096
	if size < blocks*4096 || size < sink.size {
		t.Fatalf("the image declares blocks of %d bytes altogether, but %d have been written; %s", size, sink.size, desc)
	}
	fsys, err := openAs("erofs", onlyReaderAt{&enc.Sparse{Segs: sink.segs, Size: size}})
	must(t, err, "Open of what Create wrote; %s", desc)
	for _, s := range src {
		fi, err := fs.Stat(fsys, s.name)
		must(t, err, "Stat(%q); %s", s.name, desc)
		if fi.Size() != s.size {
			t.Fatalf("%q: Stat says %d; %s", s.name, fi.Size(), desc)
		}
		f, err := fsys.Open(s.name)
		must(t, err, "Open(%q); %s", s.name, desc)
		readHoles(t, f, s.size, s.pieces, 1<<20, fmt.Sprintf("reading %q; %s", s.name, desc))
		must(t, f.Close(), "Close; %s", desc)
	}
	return "erofs nearly too many blocks", desc
}

// wideSize asks for an archive of a member whose size takes more digits than
// its column has.
func wideSize(t *rapid.T) (desc string) {
	n := rapid.IntRange(1, 4).Draw(t, "files")
	src := make(hugeSrc, n)
	big := rapid.IntRange(0, n-1).Draw(t, "bigone")
	var sizes []int64
	for i := range src {
		src[i] = hugeFileInfo{name: fmt.Sprintf("f%d", i), mtime: time.Unix(7, 0), seeks: true, size: rapid.Int64Range(0, 9).Draw(t, "size")}
		if i == big {
			src[i].size = rapid.SampledFrom([]int64{10000000000, 10000000001, 12345678901, 99999999999, 100000000000, 1 << 40, 1 << 62}).Draw(t, "bigsize")
		}
		sizes = append(sizes, src[i].size)
	}
	desc = fmt.Sprintf("files f0, f1, ... of %d bytes", sizes)
	var err error
	if p := try(func() { err = arfs.Create(&seekSink{}, src) }); p != "" {
		t.Fatalf("Create: %s; %s", p, desc)
	}
	if err == nil {
		t.Fatalf("Create reports success, but no header tells that size; %s", desc)
	}
	return desc
}

// seekSink drops everything.
type seekSink struct{ pos int64 }

func (s *seekSink) Write(p []byte) (int, error) { s.pos += int64(len(p)); return len(p), nil }
func (s *seekSink) Seek(off int64, whence int) (int64, error) {
	if whence == io.SeekCurrent {
		off += s.pos
	}
	s.pos = off
	return off, nil
}

// holeSink keeps what is not zero.
type holeSink struct {
	segs []enc.Seg
	pos  int64
	size int64
}

var zeros = make([]byte, 1<<16)

func (h *holeSink) WriteAt(p []byte, off int64) (int, error) {
	h.size = max(h.size, off+int64(len(p)))
	for rest, at := p, off; len(rest) > 0; {
		k := min(len(rest), len(zeros))
		if !bytes.Equal(rest[:k], zeros[:k]) {
			h.segs = append(h.segs, enc.Seg{Off: at, Data: bytes.Clone(rest[:k])})
		} else {
			// what was there is gone
			for _, g := range h.segs {
				if lo, hi := max(g.Off, at), min(g.Off+int64(len(g.Data)), at+int64(k)); lo < hi {
					clear(g.Data[lo-g.Off : hi-g.Off])
				}
			}
		}
		rest, at = rest[k:], at+int64(k)
	}
	return len(p), nil
}

func (h *holeSink) Write(p []byte) (int, error) {
	n, err := h.WriteAt(p, h.pos)
	h.pos += int64(n)
	return n, err
}

// hugeCreate writes files beyond what 32 bits can tell and reads them back.
func hugeCreate(t *rapid.T, kind string) string {
	n := rapid.SampledFrom([]int{2, 3, 1, 2, 3}).Draw(t, "files")
	var src hugeSrc
	var sizes []int64
	bigs := []int64{1 << 31, 1 << 32, 1 << 32, 1<<33 - 1}
	if kind == "erofs" {
		bigs = append(bigs, 1<<27, 1<<28, 1<<28) // counted in 16 bits of blocks
	}
	big := 0 // what comes after it lies far away
	if rapid.IntRange(0, 2).Draw(t, "bigelsewhere") == 2 {
		big = rapid.IntRange(0, n-1).Draw(t, "bigone")
	}
	for i := 0; i < n; i++ {
		f := hugeFileInfo{name: fmt.Sprintf("f%d", i), mtime: time.Unix(rapid.SampledFrom([]int64{0, 0, 1700000000}).Draw(t, "mtime"), 0)}
		f.size = rapid.Int64Range(0, 20000).Draw(t, "size")
		if rapid.IntRange(0, 3).Draw(t, "blocks") != 3 {
			f.size = max(f.size, 4096+f.size%4000) // not inside its inode
		}
		if i == big {
			f.size = rapid.SampledFrom(bigs).Draw(t, "bigsize") + rapid.Int64Range(-3, 5000).Draw(t, "sizeoff")
		}
		for _, at := range []int64{0, 1<<31 - 3, 1<<32 - 3, f.size - 8} {
			p := enc.Seg{Off: at, Data: []byte(fmt.Sprintf("<%d@%d>", i, at%100))}
			clash := at < 0 || at+int64(len(p.Data)) > f.size
			for _, q := range f.pieces {
				clash = clash || q.Off < at+10 && at < q.Off+10
			}
			if !clash {
				f.pieces = append(f.pieces, p)
			}
		}
		sizes = append(sizes, f.size)
		src = append(src, f)
	}
	sort.Slice(src, func(i, j int) bool { return src[i].name < src[j].name })
	desc := fmt.Sprintf("files f0, f1, ... of %d bytes", sizes)
	sink := &holeSink{}
	var err error
	switch kind {
	case "tar":
		err = tarfs.Create(sink, src)
	case "ar":
		err = arfs.Create(sink, src)
	default:
		err = erofs.Create(sink, src)
		sink.size = (sink.size + 4095) / 4096 * 4096
	}
	must(t, err, "Create; %s", desc)
	if kind == "erofs" {
		var n [4]byte
		_, _ = (&enc.Sparse{Segs: sink.segs, Size: sink.size}).ReadAt(n[:], 1060)
		if d := int64(binary.LittleEndian.Uint32(n[:])) * 4096; d != sink.size {
			t.Fatalf("the image declares blocks of %d bytes altogether, but %d have been written; %s", d, sink.size, desc)
		}
	}
	fsys, err := openAs(kind, onlyReaderAt{&enc.Sparse{Segs: sink.segs, Size: sink.size}})
	must(t, err, "Open of what Create wrote; %s", desc)
	list, err := fs.ReadDir(fsys, ".")
	must(t, err, "ReadDir; %s", desc)
	if len(list) != n {
		t.Fatalf("ReadDir gives %d entries; %s", len(list), desc)
	}
	for i, s := range src {
		info, err := list[i].Info()
		must(t, err, "Info; %s", desc)
		fi, err := fs.Stat(fsys, s.name)
		must(t, err, "Stat(%q); %s", s.name, desc)
		if list[i].Name() != s.name || info.Size() != s.size || fi.Size() != s.size {
			t.Fatalf("%q: listed as %q of %d bytes, Stat says %d; %s", s.name, list[i].Name(), info.Size(), fi.Size(), desc)
		}
		f, err := fsys.Open(s.name)
		must(t, err, "Open(%q); %s", s.name, desc)
		readHoles(t, f, s.size, s.pieces, 1<<62, fmt.Sprintf("reading %q; %s", s.name, desc))
		must(t, f.Close(), "Close; %s", desc)
	}
	return "huge files"
}

// giantDirectory writes a directory of more subdirectories than 16 bits count.
func giantDirectory(t *rapid.T) string {
	n := rapid.SampledFrom([]int{65533, 65534, 65534, 65534, 65535, 65536, 66001}).Draw(t, "subdirectories")
	old := rapid.IntRange(0, 2).Draw(t, "oldtime") != 0
	root := model.NewDir(".", 0o755)
	dir := root.Add(model.NewDir("d", 0o755))
	if !old {
		dir.MTime = time.Unix(1700000000, 0)
	}
	for i := range n {
		dir.Add(model.NewDir(fmt.Sprintf("%x", i), 0o700))
	}
	desc := fmt.Sprintf("a directory of %d empty directories, time %s", n, dir.MTime)
	img, err := createErofs(model.Source(root, model.SrcOpts{}))
	must(t, err, "Create; %s", desc)
	if _, bad := enc.FsckTight(img); len(bad) > 0 {
		t.Fatalf("the image is not valid: %s; %s", strings.Join(bad, "; "), desc)
	}
	fsys, err := openErofs(img)
	must(t, err, "Open of what Create wrote; %s", desc)
	list, err := fs.ReadDir(fsys, "d")
	must(t, err, "ReadDir; %s", desc)
	if len(list) != n {
		t.Fatalf("ReadDir gives %d entries; %s", len(list), desc)
	}
	for i, e := range list {
		if _, ok := dir.Kids[e.Name()]; !ok || !e.IsDir() || i > 0 && list[i-1].Name() >= e.Name() {
			t.Fatalf("ReadDir gives %q in place %d; %s", e.Name(), i, desc)
		}
	}
	return "giant directory"
}

// giantMetadata writes an image whose metadata takes more blocks than 16 bits
// count, with files that do not fit between the inodes after it.
func giantMetadata(t *rapid.T) string {
	n := rapid.SampledFrom([]int{65533, 65535, 65600, 66500}).Draw(t, "small files")
	size := rapid.SampledFrom([]int{3900, 4000, 4032}).Draw(t, "size")
	old := rapid.Bool().Draw(t, "oldtime")
	text := model.Bytes(rapid.Uint64().Draw(t, "content"), 0, 20000)
	root := model.NewDir(".", 0o755)
	file := func(dir *model.Node, name string, at, n int) {
		f := dir.Add(&model.Node{Name: name, Mode: 0o644, Data: text[at : at+n]})
		if !old {
			f.MTime = time.Unix(1700000000, 0)
		}
	}
	for i := range n {
		file(root, fmt.Sprintf("m%05d", i), i%9973, size)
	}
	for i := range 3 {
		file(root, fmt.Sprintf("a%d", i), i*17, 5000+i*4000)
		file(root, fmt.Sprintf("z%d", i), i*19, 4033+i*4000)
	}
	sub := root.Add(model.NewDir("zz", 0o700))
	for i := range 300 {
		file(sub, fmt.Sprintf("long name of a file, number %d", i), i, i*40)
	}
	desc := fmt.Sprintf("%d files of %d bytes, some larger ones, and a directory zz; time %v", n, size, !old)
	sink := &memWA{b: make([]byte, 0, (n+4000)*4096)}
	must(t, erofs.Create(sink, model.Source(root, model.SrcOpts{})), "Create; %s", desc)
	img := sink.image()
	if _, bad := enc.FsckTight(img); len(bad) > 0 {
		t.Fatalf("the image is not valid: %s; %s", strings.Join(bad[:min(len(bad), 5)], "; "), desc)
	}
	fsys, err := openErofs(img)
	must(t, err, "Open of what Create wrote; %s", desc)
	list, err := fs.ReadDir(fsys, ".")
	must(t, err, "ReadDir; %s", desc)
	if len(list) != len(root.Kids) {
		t.Fatalf("ReadDir gives %d entries instead of %d; %s", len(list), len(root.Kids), desc)
	}
	for _, d := range []*model.Node{root, sub} {
		for _, k := range d.Kids {
			if k.Kind != model.File {
				continue
			}
			got, err := fs.ReadFile(fsys, k.Path())
			must(t, err, "ReadFile(%q); %s", k.Path(), desc)
			if !bytes.Equal(got, k.Data) {
				t.Fatalf("%q is read as something else than its %d bytes; %s", k.Path(), len(k.Data), desc)
			}
		}
	}
	return "giant metadata"
}
