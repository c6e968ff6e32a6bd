package props

import (
	"fmt"
	"io"
	"io/fs"
	"math"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
)

// countRA counts what is read.
type countRA struct {
	r     io.ReaderAt
	bytes atomic.Int64
}

func (c *countRA) ReadAt(p []byte, off int64) (int, error) {
	n, err := c.r.ReadAt(p, off)
	c.bytes.Add(int64(n))
	return n, err
}

// C29: contents are streamed.
func TestC29(t *testing.T) {
	st := ev.Start(t, "C29", "a flat source of a few files of drawn sizes up to 24 MiB (full of holes), archived by Create while counting allocations; the archive is opened, listed and asked for metadata, and files are read in part and as a whole, while counting the bytes read from the archive and the allocations; non-trivial: the contents are at least four times the bytes allowed for metadata; distinct by kind, sizes and reads")
	check(t, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"tar", "ar", "erofs"}).Draw(t, "kind")
		n := rapid.IntRange(1, 6).Draw(t, "files")
		var src hugeSrc
		var sizes []int64
		var total int64
		for i := 0; i < n; i++ {
			f := hugeFileInfo{name: fmt.Sprintf("f%d", i), mtime: time.Unix(rapid.SampledFrom([]int64{0, 1700000000}).Draw(t, "mtime"), 0)}
			f.size = rapid.OneOf(rapid.Int64Range(0, 9000), rapid.Int64Range(1<<20, 24<<20)).Draw(t, "size")
			if i == 0 {
				f.size = rapid.Int64Range(8<<20, 24<<20).Draw(t, "bigsize")
			}
			f.pieces = []enc.Seg{{Off: 0, Data: []byte("start")[:min(5, f.size)]}}
			sizes = append(sizes, f.size)
			total += f.size
			src = append(src, f)
		}
		const perFile, fixed = 64 << 10, 512 << 10
		budget := int64(fixed + n*perFile)
		desc := fmt.Sprintf("%s of files of %d bytes", kind, sizes)
		st.Case(total >= 4*budget, hashOf(desc), kind)
		st.Sample(func() string { return desc })

		within := func(what string, used, limit int64) {
			t.Helper()
			if used > limit {
				t.Fatalf("%s: %s takes %d bytes, allowed are %d", desc, what, used, limit)
			}
		}
		sink := &holeSink{segs: make([]enc.Seg, 0, 4096)}
		var err error
		mem := int64(allocated())
		switch kind {
		case "tar":
			err = tarfs.Create(sink, src)
		case "ar":
			err = arfs.Create(sink, src)
		default:
			err = erofs.Create(sink, src)
			sink.size = (sink.size + 4095) / 4096 * 4096
		}
		mem = int64(allocated()) - mem
		must(t, err, "Create; %s", desc)
		// the harness itself keeps what is not zero
		within("memory allocated by Create", mem, 2<<20+int64(n)*(512<<10))

		ra := &countRA{r: &enc.Sparse{Segs: sink.segs, Size: sink.size}}
		mem = int64(allocated())
		fsys, err := openAs(kind, onlyReaderAt{ra})
		must(t, err, "Open; %s", desc)
		opening := budget
		if kind == "tar" {
			// a tar stream has no index, it may be read through once
			opening += sink.size
		}
		within("Open: read", ra.bytes.Load(), opening)
		within("Open: memory allocated", int64(allocated())-mem, budget)
		ra.bytes.Store(0)
		list, err := fs.ReadDir(fsys, ".")
		must(t, err, "ReadDir; %s", desc)
		if len(list) != n {
			t.Fatalf("%s: %d entries listed", desc, len(list))
		}
		for i, e := range list {
			fi, err := e.Info()
			must(t, err, "Info; %s", desc)
			fi2, err := fs.Stat(fsys, e.Name())
			must(t, err, "Stat; %s", desc)
			f, err := fsys.Open(e.Name())
			must(t, err, "Open; %s", desc)
			fi3, err := f.Stat()
			must(t, err, "File.Stat; %s", desc)
			must(t, f.Close(), "Close; %s", desc)
			if fi.Size() != sizes[i] || fi2.Size() != sizes[i] || fi3.Size() != sizes[i] {
				t.Fatalf("%s: %q has sizes %d, %d, %d", desc, e.Name(), fi.Size(), fi2.Size(), fi3.Size())
			}
		}
		within("listing, Stat and opening every file: read", ra.bytes.Load(), 2*budget)
		within("Open, listing, Stat and opening every file: memory allocated", int64(allocated())-mem, 3*budget)

		for k := rapid.IntRange(1, 3).Draw(t, "reads"); k > 0; k-- {
			i := rapid.IntRange(0, n-1).Draw(t, "file")
			k := rapid.OneOf(rapid.Just(math.MaxInt/2), rapid.IntRange(0, 200000)).Draw(t, "bytes")
			name := src[i].name
			want := min(int64(k), sizes[i])
			before, mem := ra.bytes.Load(), int64(allocated())
			f, err := fsys.Open(name)
			must(t, err, "Open; %s", desc)
			got, err := io.Copy(struct{ io.Writer }{io.Discard}, io.LimitReader(f, int64(k)))
			must(t, err, "reading %q; %s", name, desc)
			if got != want {
				t.Fatalf("%s: reading %d bytes of %q gives %d", desc, k, name, got)
			}
			must(t, f.Close(), "Close; %s", desc)
			within(fmt.Sprintf("reading %d bytes of %q: read", want, name), ra.bytes.Load()-before, want+fixed)
			within(fmt.Sprintf("reading %d bytes of %q: memory allocated", want, name), int64(allocated())-mem, 2*fixed)
			st.Label(kind+" read", 1)
		}
	})
}
