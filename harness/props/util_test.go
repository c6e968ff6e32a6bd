package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/arfs"
	"github.com/dpeckett/archivefs/erofs"
	"github.com/dpeckett/archivefs/tarfs"
	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

func TestMain(m *testing.M) {
	debug.SetMaxStack(64 << 20)
	if os.Getenv("VERIF_PEER") != "" {
		os.Exit(servePeer())
	}
	os.Exit(m.Run())
}

// thorough says whether this is the deep tier.
var thorough = os.Getenv("VERIF_TIER") == "thorough"

// onlyReaderAt hides every method but ReadAt.
type onlyReaderAt struct{ r io.ReaderAt }

func (o onlyReaderAt) ReadAt(p []byte, off int64) (int, error) { return o.r.ReadAt(p, off) }

// memRA is an io.ReaderAt over bytes that returns io.EOF together with the
// last bytes when eager is set, and nil otherwise.
type memRA struct {
	b     []byte
	eager bool
}

func (m *memRA) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(m.b)) {
		if len(p) == 0 && !m.eager {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, m.b[off:])
	if n < len(p) || (m.eager && off+int64(n) == int64(len(m.b))) {
		return n, io.EOF
	}
	return n, nil
}

// errBudget is what a budgeted reader reports once it is used up.
var errBudget = errors.New("read budget used up")

// budgetRA bounds the number and the bytes of reads.
type budgetRA struct {
	r            io.ReaderAt
	calls, bytes int64
	spent        bool
}

func (b *budgetRA) ReadAt(p []byte, off int64) (int, error) {
	if b.calls <= 0 || b.bytes < 0 {
		b.spent = true
		return 0, errBudget
	}
	b.calls--
	n, err := b.r.ReadAt(p, off)
	b.bytes -= int64(n)
	return n, err
}

// faultRA fails reads: the calls from number Fail on (Sticky) or just that one,
// or every read touching a byte in [Lo, Hi).
type faultRA struct {
	r      io.ReaderAt
	calls  int
	Fail   int
	Sticky bool
	Lo, Hi int64
	Part   bool // deliver what precedes the bad range
	Err    error
	hit    bool
}

func (f *faultRA) ReadAt(p []byte, off int64) (int, error) {
	f.calls++
	fault := f.Err
	if fault == nil {
		fault = model.ErrInjected
	}
	if f.Fail > 0 && (f.calls == f.Fail || f.Sticky && f.calls >= f.Fail) {
		f.hit = true
		return 0, fault
	}
	if f.Hi > f.Lo && off < f.Hi && off+int64(len(p)) > f.Lo {
		f.hit = true
		if f.Part && off < f.Lo {
			n, err := f.r.ReadAt(p[:f.Lo-off], off)
			if err == nil {
				err = fault
			}
			return n, err
		}
		return 0, fault
	}
	return f.r.ReadAt(p, off)
}

// memWA is an io.WriterAt in memory. Fault may fail a call.
type memWA struct {
	b     []byte
	fault func(off int64, n int) error
}

func (m *memWA) WriteAt(p []byte, off int64) (int, error) {
	if m.fault != nil {
		if err := m.fault(off, len(p)); err != nil {
			return 0, err
		}
	}
	if need := int(off) + len(p); need > len(m.b) {
		if need <= cap(m.b) {
			m.b = m.b[:need]
		} else {
			nb := make([]byte, need, need*2)
			copy(nb, m.b)
			m.b = nb
		}
	}
	copy(m.b[off:], p)
	return len(p), nil
}

// image is what was written, extended with zeros to whole blocks.
func (m *memWA) image() []byte {
	b := m.b
	if len(b) >= 1024+40 {
		want := int64(binary.LittleEndian.Uint32(b[1024+36:])) * 4096
		if want > int64(len(b)) && want-int64(len(b)) <= 4096 {
			b = append(append(make([]byte, 0, want), b...), make([]byte, want-int64(len(b)))...)
		}
	}
	return b
}

type linkFS interface {
	fs.FS
	ReadLink(name string) (string, error)
	StatLink(name string) (fs.FileInfo, error)
}

// owners extracts owners from the package-specific Sys values.
func owners(sys any) (int, int, bool) {
	switch s := sys.(type) {
	case *erofs.Inode:
		return int(s.UID()), int(s.GID()), true
	case *arfs.Entry:
		return int(s.Uid), int(s.Gid), true
	}
	return 0, 0, false
}

func nidOf(fi fs.FileInfo) (uint64, bool) {
	if i, ok := fi.Sys().(*erofs.Inode); ok {
		return i.Nid(), true
	}
	return 0, false
}

func createTar(src fs.FS) ([]byte, error) {
	var b bytes.Buffer
	err := tarfs.Create(&b, src)
	return b.Bytes(), err
}

func createAr(src fs.FS) ([]byte, error) {
	var b bytes.Buffer
	err := arfs.Create(&b, src)
	return b.Bytes(), err
}

func createErofs(src fs.FS) ([]byte, error) {
	w := &memWA{}
	err := erofs.Create(w, src)
	return w.image(), err
}

func openTar(b []byte) (fs.FS, error)   { return tarfs.Open(onlyReaderAt{bytes.NewReader(b)}) }
func openAr(b []byte) (fs.FS, error)    { return arfs.Open(onlyReaderAt{bytes.NewReader(b)}) }
func openErofs(b []byte) (fs.FS, error) { return erofs.Open(onlyReaderAt{bytes.NewReader(b)}) }

func openAs(kind string, r io.ReaderAt) (fs.FS, error) {
	switch kind {
	case "tar":
		return tarfs.Open(r)
	case "ar":
		return arfs.Open(r)
	}
	return erofs.Open(r)
}

func createAs(kind string, src fs.FS) ([]byte, error) {
	switch kind {
	case "tar":
		return createTar(src)
	case "ar":
		return createAr(src)
	}
	return createErofs(src)
}

func hashOf(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			s := sha256.Sum256(v)
			h.Write(s[:])
		case string:
			io.WriteString(h, v)
			h.Write([]byte{0})
		default:
			fmt.Fprintf(h, "%v\x00", v)
		}
	}
	return h.Sum64()
}

func sum(b []byte) string {
	s := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), s[:8])
}

// pickFrom adapts rapid to enc.Pick.
func pickFrom(t *rapid.T) func(string, int, int) int {
	return func(label string, lo, hi int) int {
		if lo >= hi {
			return lo
		}
		return rapid.IntRange(lo, hi).Draw(t, label)
	}
}

// try runs f and turns a panic into an error text.
func try(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			if isRapid(r) {
				panic(r)
			}
			panicked = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 2500))
		}
	}()
	f()
	return ""
}

// isRapid recognises rapid's own control-flow panics.
func isRapid(r any) bool {
	s := fmt.Sprintf("%T", r)
	return strings.Contains(s, "rapid.")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// cpuSeconds is the CPU time this process has used.
func cpuSeconds() float64 {
	var r syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &r) != nil {
		return 0
	}
	return float64(r.Utime.Sec+r.Stime.Sec) + float64(r.Utime.Usec+r.Stime.Usec)/1e6
}

// watched runs f in its own goroutine and reports when it never ends: when all
// the goroutines it stands for are blocked on each other (a deadlock), or when
// it burns more than cpu seconds of processor time. Waiting alone, however
// long, is not a verdict. It returns a panic of f as text.
func watched(cpu float64, f func()) (verdict string) {
	return watchedMany(cpu, []func(){f})
}

func watchedMany(cpu float64, fs []func()) (verdict string) {
	type end struct {
		p any
		s string
	}
	ch := make(chan end, len(fs))
	for _, f := range fs {
		go opGoroutine(f, func(p any) {
			s := ""
			if p != nil {
				s = clip(string(debug.Stack()), 2500)
			}
			ch <- end{p, s}
		})
	}
	start := cpuSeconds()
	left := len(fs)
	blocked := 0
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for left > 0 {
		select {
		case e := <-ch:
			left--
			blocked = 0
			if e.p != nil && verdict == "" {
				if isRapid(e.p) {
					panic(e.p)
				}
				verdict = fmt.Sprintf("panic: %v\n%s", e.p, e.s)
				if left > 0 && len(fs) > 1 {
					// others may wait for what the dead one held
					continue
				}
			}
		case <-tick.C:
			n, dump := blockedOps()
			if n == left {
				if blocked++; blocked >= 4 {
					if verdict != "" {
						return verdict
					}
					return "deadlock: every operation is blocked\n" + clip(dump, 2500)
				}
			} else {
				blocked = 0
			}
			if cpuSeconds()-start > cpu {
				return fmt.Sprintf("no end after %.0f CPU seconds\n%s", cpu, clip(dump, 2500))
			}
		}
	}
	return verdict
}

//go:noinline
func opGoroutine(f func(), done func(any)) {
	defer func() { done(recover()) }()
	f()
}

// blockedOps counts the operation goroutines that are blocked on
// synchronisation. Leaked goroutines of earlier deadlocks are not counted as
// they only exist while a failure is being shrunk; see leaked.
func blockedOps() (int, string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	var dump []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "props.opGoroutine") {
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		if leaked[gid(head)] {
			continue
		}
		dump = append(dump, g)
		for _, s := range []string{"sync.Mutex.Lock", "sync.RWMutex", "semacquire", "chan receive", "chan send", "sync.Cond.Wait", "sync.WaitGroup.Wait", "select"} {
			if strings.Contains(head, "["+s) {
				n++
				break
			}
		}
	}
	return n, strings.Join(dump, "\n\n")
}

var leaked = map[string]bool{}

// forgetBlocked marks the goroutines that are blocked now as leaked.
func forgetBlocked() {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "props.opGoroutine") {
			head, _, _ := strings.Cut(g, "\n")
			leaked[gid(head)] = true
		}
	}
}

func gid(head string) string {
	f := strings.Fields(head)
	if len(f) > 1 {
		return f[1]
	}
	return head
}

// verdictFail reports a verdict of watched.
func verdictFail(t *rapid.T, v, what string) {
	if v == "" {
		return
	}
	forgetBlocked()
	t.Fatalf("%s: %s", what, v)
}

// must stops the test on an error.
func must(t *rapid.T, err error, f string, a ...any) {
	if err != nil {
		t.Fatalf("%s: %v", fmt.Sprintf(f, a...), err)
	}
}

// maxCPU is the processor time after which a single case is taken not to end.
// The most expensive ones take a few seconds.
const maxCPU = 100

// check runs a property, and ends the process when a case never ends.
func check(t *testing.T, f func(t *rapid.T)) {
	var mu sync.Mutex
	var started float64
	cases, running := 0, false
	go func() {
		last, blocked := -1, 0
		for range time.Tick(time.Second) {
			mu.Lock()
			cpu, n, on := cpuSeconds()-started, cases, running
			mu.Unlock()
			if !on || n != last {
				last, blocked = n, 0
				continue
			}
			why := ""
			if cpu > maxCPU {
				why = fmt.Sprintf("no end after %d CPU seconds", maxCPU)
			}
			if all, inside := allBlocked(); all && inside {
				if blocked++; blocked >= 20 {
					why = "deadlock: every goroutine is blocked"
				}
			} else {
				blocked = 0
			}
			if why != "" {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Printf("--- FAIL: %s\nVIOLATES: case %d: %s\n%s\n", t.Name(), n, why, buf)
				os.Exit(1)
			}
		}
	}()
	// On a slow machine stop after some time with what was explored.
	soft, _ := strconv.Atoi(os.Getenv("VERIF_SOFT"))
	begin, skipped, failed := time.Now(), 0, false
	defer func() {
		if skipped > 0 {
			fmt.Printf("stopped after %d s, %d cases were not run\n", soft, skipped)
		}
	}()
	rapid.Check(t, func(t *rapid.T) {
		if soft > 0 && !failed && time.Since(begin) > time.Duration(soft)*time.Second {
			skipped++
			return
		}
		ended := false
		defer func() { failed = failed || !ended }()
		mu.Lock()
		cases++
		running, started = true, cpuSeconds()
		mu.Unlock()
		defer func() {
			mu.Lock()
			running = false
			mu.Unlock()
		}()
		f(t)
		ended = true
	})
}

// allBlocked says whether every goroutine but the calling one waits for
// another, and whether one of them is inside the code under test.
func allBlocked() (all, inside bool) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		head, rest, _ := strings.Cut(g, "\n")
		if i == 0 || leaked[gid(head)] {
			continue // this one comes first
		}
		waits := false
		for _, s := range []string{"sync.", "semacquire", "chan ", "select"} {
			waits = waits || strings.Contains(head, "["+s)
		}
		if !waits {
			return false, false
		}
		inside = inside || strings.Contains(rest, "dpeckett/archivefs/")
	}
	return true, inside
}

var _ = ev.Start

// looseObserve are the options under which erofs is observed: its directory
// entries' Type carries the permission bits, which an existing test pins down.
func observeOpts(kind string) model.ObserveOpts {
	return model.ObserveOpts{Owner: owners, LooseType: kind == "erofs"}
}

// readHoles reads a file that is zero outside the given pieces, up to a limit.
func readHoles(t *rapid.T, f fs.File, size int64, pieces []enc.Seg, limit int64, desc string) {
	buf := make([]byte, 1<<15)
	want := make([]byte, 1<<15)
	var done int64
	for done < limit {
		k, err := f.Read(buf)
		w := want[:k]
		clear(w)
		if done+int64(k) > size {
			t.Fatalf("read past the end: %d bytes; %s", done+int64(k), desc)
		}
		for _, p := range pieces {
			if lo, hi := max(p.Off, done), min(p.Off+int64(len(p.Data)), done+int64(k)); lo < hi {
				copy(w[lo-done:], p.Data[lo-p.Off:hi-p.Off])
			}
		}
		if !bytes.Equal(w, buf[:k]) {
			t.Fatalf("wrong bytes between %d and %d; %s", done, done+int64(k), desc)
		}
		done += int64(k)
		if err == io.EOF {
			if done != size {
				t.Fatalf("the file ends after %d bytes; %s", done, desc)
			}
			return
		}
		must(t, err, "Read at %d; %s", done, desc)
	}
}

// maybeDeep sometimes adds a deep chain of directories somewhere.
func maybeDeep(t *rapid.T, root *model.Node) {
	if rare(t, "deeptree", 300) {
		model.AddDeep(t, rapid.SampledFrom(dirsOf(root)).Draw(t, "deepbelow"))
	}
}

// rare is true in about one of n draws; small draws are far more frequent than
// others.
func rare(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, n/2).Draw(t, label) == n*3/8
}
