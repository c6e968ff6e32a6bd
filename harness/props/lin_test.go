package props

import (
	"fmt"
	"io"
	"io/fs"
	"path"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/dpeckett/archivefs/memfs"
	"pgregory.net/rapid"

	"verif/ev"
	"verif/model"
	"verif/yield"
)

const linMax = 14

// linUniverse are the paths histories are about; index 0 is the root.
var linUniverse = []string{".", "a", "b", "a/c", "a/d", "b/c", "a/c/e", "a/c/f", "a/d/e", "b/c/e", "a/c/e/g", "x", "y", "a/x"}

var linParent, linKids = func() ([linMax]int, [linMax][]int) {
	idx := map[string]int{}
	for i, p := range linUniverse {
		idx[p] = i
	}
	var par [linMax]int
	var kids [linMax][]int
	for i, p := range linUniverse {
		if i > 0 {
			par[i] = idx[path.Dir(p)]
			kids[par[i]] = append(kids[par[i]], i)
		}
	}
	return par, kids
}()

// linState is the sequential specification's state.
type linState struct {
	kind [linMax]uint8 // 0 absent, 1 directory, 2 file
	ver  [linMax]uint16
	perm [linMax]uint16
}

type linOp struct {
	op   string // mkdir, write, read, stat, list
	p    int
	ver  uint16
	perm uint16
	sub  int // 0: on the filesystem, 1: on a Sub of its parent, 2: of a farther one
}

// linFS is what the filesystem and its subtrees offer.
type linFS interface {
	fs.FS
	MkdirAll(path string, perm fs.FileMode) error
	WriteFile(path string, data []byte, perm fs.FileMode) error
}

// linIn is one step for the checker; a MkdirAll becomes one step per component.
type linIn struct {
	op   string
	p    int
	ver  uint16
	perm uint16
}

type linOut struct {
	ok   bool
	dir  bool
	ver  uint16 // version read
	size int64
	perm uint16
	mask uint32 // children listed
	dirs uint32 // of these, directories
}

func linStep(lens []int) func(st, in, out any) (bool, any) {
	return func(state, input, output any) (bool, any) {
		s, in, out := state.(linState), input.(linIn), output.(linOut)
		k := s.kind[in.p]
		switch in.op {
		case "mkdir1": // one component of a MkdirAll that succeeded
			if k == 2 || in.p > 0 && s.kind[linParent[in.p]] != 1 {
				return false, s
			}
			if k == 0 {
				s.kind[in.p], s.perm[in.p] = 1, in.perm
			}
			return true, s
		case "maybe": // one component of a MkdirAll that failed
			if k == 0 && s.kind[linParent[in.p]] == 1 {
				s.kind[in.p], s.perm[in.p] = 1, in.perm
			}
			return true, s
		case "mkdirfail":
			for q := in.p; q > 0; q = linParent[q] {
				if s.kind[q] == 2 {
					return true, s
				}
			}
			return false, s
		case "write":
			legal := in.p > 0 && s.kind[linParent[in.p]] == 1 && k != 1
			if legal != out.ok {
				return false, s
			}
			if legal {
				if k == 0 {
					s.perm[in.p] = in.perm
				}
				s.kind[in.p], s.ver[in.p] = 2, in.ver
			}
			return true, s
		case "read", "stat":
			if (k != 0) != out.ok {
				return false, s
			}
			if k == 0 {
				return true, s
			}
			if (k == 1) != out.dir {
				return false, s
			}
			if in.p > 0 && s.perm[in.p] != out.perm {
				return false, s
			}
			if k == 2 {
				if out.size != int64(lens[s.ver[in.p]]) {
					return false, s
				}
				if in.op == "read" && out.ver != s.ver[in.p] {
					return false, s
				}
			}
			return true, s
		case "list":
			if (k == 1) != out.ok {
				return false, s
			}
			if k == 1 {
				var mask, dirs uint32
				for _, c := range linKids[in.p] {
					if s.kind[c] != 0 {
						mask |= 1 << c
					}
					if s.kind[c] == 1 {
						dirs |= 1 << c
					}
				}
				if mask != out.mask || dirs != out.dirs {
					return false, s
				}
			}
			return true, s
		}
		panic(in.op)
	}
}

type linRec struct {
	who       int
	op        linOp
	call, ret int64
	out       linOut
	bad       string
}

func (r linRec) String() string {
	return fmt.Sprintf("[%d..%d] goroutine %d: %s(%q) version %d perm %o -> %+v", r.call, r.ret, r.who, r.op.op, linUniverse[r.op.p], r.op.ver, r.op.perm, r.out)
}

// C15: MemFS is linearizable under concurrent use.
func TestC15(t *testing.T) {
	st := ev.Start(t, "C15", "a program of 2-6 goroutines with 2-6 operations each over 13 colliding paths, run several times under perturbed schedules (yields between the statements of memfs) with the race detector; every history checked by porcupine against a sequential map; non-trivial: two operations of different goroutines on the same path or parent overlap in time; distinct by program")
	check(t, func(t *rapid.T) {
		// versions: number -> contents; equal contents share a number
		contents := [][]byte{{}}
		intern := map[string]uint16{"": 0}
		newVersion := func(size int) uint16 {
			b := model.Bytes(uint64(len(contents)), 0, size)
			copy(b, fmt.Sprintf("<%d>", len(contents)))
			if v, ok := intern[string(b)]; ok {
				return v
			}
			v := uint16(len(contents))
			contents = append(contents, b)
			intern[string(b)] = v
			return v
		}
		viaSub := false
		drawOp := func(focus int) linOp {
			o := linOp{op: rapid.SampledFrom([]string{"mkdir", "write", "write", "write", "read", "read", "read", "stat", "list", "list", "pages"}).Draw(t, "op")}
			o.p = rapid.IntRange(1, len(linUniverse)-1).Draw(t, "path")
			if rapid.IntRange(0, 2).Draw(t, "focus") > 0 {
				o.p = focus
			}
			if (o.op == "list" || o.op == "pages") && rapid.IntRange(0, 3).Draw(t, "parent") > 0 {
				o.p = linParent[o.p]
			}
			if viaSub {
				o.sub = rapid.IntRange(0, 2).Draw(t, "sub")
			}
			o.perm = uint16(rapid.SampledFrom([]int{0o644, 0o600, 0o755}).Draw(t, "perm"))
			if o.op == "write" {
				o.ver = newVersion(rapid.SampledFrom([]int{0, 1, 40, 3000, 70000}).Draw(t, "size"))
			}
			return o
		}
		viaSub = rapid.IntRange(0, 2).Draw(t, "subs") == 0
		focus := rapid.IntRange(1, len(linUniverse)-1).Draw(t, "focused")
		var setup []linOp
		if rapid.IntRange(0, 3).Draw(t, "withparent") > 0 && linParent[focus] != 0 {
			setup = append(setup, linOp{op: "mkdir", p: linParent[focus], perm: 0o755})
		}
		for i := rapid.IntRange(0, 3).Draw(t, "setup"); i > 0; i-- {
			o := drawOp(focus)
			if o.op == "mkdir" || o.op == "write" {
				setup = append(setup, o)
			}
		}
		workers := rapid.IntRange(2, 6).Draw(t, "goroutines")
		progs := make([][]linOp, workers)
		for w := range progs {
			for i := rapid.IntRange(2, 6).Draw(t, "ops"); i > 0; i-- {
				progs[w] = append(progs[w], drawOp(focus))
			}
		}
		desc := func() string {
			var b strings.Builder
			line := func(who string, ops []linOp) {
				fmt.Fprintf(&b, "%s:", who)
				for _, o := range ops {
					fmt.Fprintf(&b, " %s(%s", o.op, linUniverse[o.p])
					if o.sub > 0 {
						fmt.Fprintf(&b, " by Sub %d", o.sub)
					}
					if o.op == "write" {
						fmt.Fprintf(&b, ", %d bytes", len(contents[o.ver]))
					}
					b.WriteString(")")
				}
				b.WriteString("\n")
			}
			line("before", setup)
			for w, p := range progs {
				line(fmt.Sprintf("goroutine %d", w), p)
			}
			return b.String()
		}
		st.Journal(desc)
		lens := make([]int, len(contents))
		for i, c := range contents {
			lens[i] = len(c)
		}
		overlap := false
		reps := 4
		for rep := 0; rep < reps; rep++ {
			whole := memfs.New()
			subs := map[int]linFS{} // of the directories there are before the goroutines start
			start := time.Now()
			do := func(who int, o linOp) linRec {
				r := linRec{who: who, op: o}
				p := linUniverse[o.p]
				m := linFS(whole)
				for q, up := linParent[o.p], o.sub; q > 0; q = linParent[q] {
					if sub, ok := subs[q]; ok && up > 0 {
						m, p = sub, strings.TrimPrefix(linUniverse[o.p], linUniverse[q]+"/")
						up--
					}
				}
				if sub, ok := subs[o.p]; ok && o.sub == 1 && (o.op == "list" || o.op == "pages") {
					m, p = sub, "."
				}
				r.call = int64(time.Since(start))
				switch o.op {
				case "mkdir":
					r.out.ok = m.MkdirAll(p, fs.FileMode(o.perm)) == nil
				case "write":
					r.out.ok = m.WriteFile(p, contents[o.ver], fs.FileMode(o.perm)) == nil
				case "read", "stat":
					f, err := m.Open(p)
					if err != nil {
						break
					}
					r.out.ok = true
					fi, err := f.Stat()
					if err != nil {
						r.bad = fmt.Sprintf("Stat of an open handle: %v", err)
						break
					}
					r.out.dir, r.out.size, r.out.perm = fi.IsDir(), fi.Size(), uint16(fi.Mode().Perm())
					if o.op == "read" && !fi.IsDir() {
						b, err := io.ReadAll(f)
						if err != nil {
							r.bad = fmt.Sprintf("reading: %v", err)
							break
						}
						v, known := intern[string(b)]
						if !known {
							r.bad = fmt.Sprintf("read %d bytes that no WriteFile wrote (Stat size %d)", len(b), fi.Size())
						}
						r.out.ver = v
					}
					if err := f.Close(); err != nil {
						r.bad = fmt.Sprintf("Close: %v", err)
					}
				case "list", "pages":
					var l []fs.DirEntry
					var err error
					if o.op == "list" {
						l, err = fs.ReadDir(m, p)
					} else {
						l, err = inPages(m, p, int(o.perm)%3+1)
					}
					if err != nil {
						break
					}
					r.out.ok = true
					prev := ""
					for _, e := range l {
						if e.Name() <= prev {
							r.bad = fmt.Sprintf("listing has %q after %q", e.Name(), prev)
						}
						prev = e.Name()
						found := false
						for _, c := range linKids[o.p] {
							if path.Base(linUniverse[c]) != e.Name() {
								continue
							}
							found = true
							r.out.mask |= 1 << c
							if e.IsDir() {
								r.out.dirs |= 1 << c
								continue
							}
							fi, err := e.Info()
							if err != nil {
								r.bad = fmt.Sprintf("Info: %v", err)
								continue
							}
							if !linSizeKnown(setup, progs, c, fi.Size(), lens) {
								r.bad = fmt.Sprintf("%q is listed with size %d, which no version has", linUniverse[c], fi.Size())
							}
						}
						if !found {
							r.bad = fmt.Sprintf("listing of %q has %q", p, e.Name())
						}
					}
				}
				r.ret = int64(time.Since(start))
				return r
			}
			var recs []linRec
			yield.Set(0)
			for _, o := range setup {
				r := do(workers, o)
				recs = append(recs, r)
			}
			if viaSub {
				for i, p := range linUniverse {
					if sub, err := fs.Sub(whole, p); err == nil && i > 0 {
						if m, ok := sub.(linFS); ok {
							subs[i] = m
							st.Label("Sub", 1)
						}
					}
				}
			}
			rate := uint32([]int{0, 80, 300, 700}[rep%4])
			yield.Set(rate)
			results := make([][]linRec, workers)
			var fns []func()
			var gate sync.WaitGroup
			gate.Add(workers)
			for w := range progs {
				fns = append(fns, func() {
					gate.Done()
					for gateOpen := false; !gateOpen; {
						runtime.Gosched()
						gate.Wait()
						gateOpen = true
					}
					out := make([]linRec, 0, len(progs[w]))
					for _, o := range progs[w] {
						out = append(out, do(w, o))
					}
					results[w] = out
				})
			}
			v := watchedMany(30, fns)
			yield.Set(0)
			if v != "" {
				verdictFail(t, v, "concurrent use\n"+desc())
			}
			for _, rs := range results {
				recs = append(recs, rs...)
			}
			// the end state as a last round of reads
			for i := range linUniverse {
				recs = append(recs, do(workers, linOp{op: "read", p: i}), do(workers, linOp{op: "list", p: i}))
			}
			var ops []porcupine.Operation
			for i, r := range recs {
				if r.bad != "" {
					t.Fatalf("%s\n%s\n%s", r.bad, r, desc())
				}
				add := func(op string) {
					ops = append(ops, porcupine.Operation{ClientId: r.who, Input: linIn{op, r.op.p, r.op.ver, r.op.perm}, Call: r.call * 2, Output: r.out, Return: r.ret*2 + 1})
				}
				if r.op.op == "pages" {
					if bad := linPages(recs, r); bad != "" {
						t.Fatalf("%s\n%s\n%s", bad, r, desc())
					}
					continue
				}
				if r.op.op == "mkdir" {
					kind := "mkdir1"
					if !r.out.ok {
						kind = "maybe"
						add("mkdirfail")
					}
					for q := r.op.p; q > 0; q = linParent[q] {
						ops = append(ops, porcupine.Operation{ClientId: r.who, Input: linIn{kind, q, 0, r.op.perm}, Call: r.call * 2, Output: r.out, Return: r.ret*2 + 1})
					}
				} else {
					add(r.op.op)
				}
				for _, q := range recs[:i] {
					if q.who != r.who && q.who < workers && r.who < workers && q.call < r.ret && r.call < q.ret && (q.op.p == r.op.p || linParent[q.op.p] == r.op.p || linParent[r.op.p] == q.op.p) {
						overlap = true
					}
				}
			}
			st.Label("histories", 1)
			m2 := porcupine.Model{
				Init:  func() any { return linState{kind: [linMax]uint8{0: 1}} },
				Step:  linStep(lens),
				Equal: func(a, b any) bool { return a == b },
			}
			switch porcupine.CheckOperationsTimeout(m2, ops, 20*time.Second) {
			case porcupine.Illegal:
				var b strings.Builder
				for _, r := range recs {
					fmt.Fprintln(&b, r)
				}
				t.Fatalf("no sequential order explains this history:\n%s\n%s", b.String(), desc())
			case porcupine.Unknown:
				st.Label("undecided histories", 1)
			}
		}
		st.Case(overlap, hashOf(desc()))
		st.Label("goroutines", workers)
		st.Sample(desc)
	})
	st.Label("yield points passed", int(yield.Points.Load()))
}

func linSizeKnown(setup []linOp, progs [][]linOp, p int, size int64, lens []int) bool {
	for _, ops := range append([][]linOp{setup}, progs...) {
		for _, o := range ops {
			if o.op == "write" && o.p == p && int64(lens[o.ver]) == size {
				return true
			}
		}
	}
	return false
}

// inPages lists a directory through a handle, a few entries at a time.
func inPages(fsys fs.FS, p string, n int) ([]fs.DirEntry, error) {
	f, err := fsys.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	d, ok := f.(fs.ReadDirFile)
	if !ok {
		return nil, fs.ErrInvalid
	}
	var all []fs.DirEntry
	for {
		l, err := d.ReadDir(n)
		all = append(all, l...)
		if err != nil || len(l) == 0 {
			return all, nil
		}
		for range 5 {
			yield.Point() // time for others
		}
	}
}

// linPages says what is wrong with a listing in pages: it takes time, but what
// was there before has to be in it, and nothing that came after.
func linPages(recs []linRec, r linRec) string {
	if !r.out.ok {
		return ""
	}
	for _, c := range linKids[r.op.p] {
		before, maybe := false, false
		for _, q := range recs {
			made := q.op.op == "write" && q.op.p == c && q.out.ok
			if q.op.op == "mkdir" {
				for a := q.op.p; a > 0; a = linParent[a] {
					made = made || a == c
				}
			}
			if !made {
				continue
			}
			before = before || q.out.ok && q.ret < r.call
			maybe = maybe || q.call < r.ret
		}
		switch in := r.out.mask&(1<<c) != 0; {
		case before && !in:
			return fmt.Sprintf("the listing in pages misses %q, which was there before", linUniverse[c])
		case in && !maybe:
			return fmt.Sprintf("the listing in pages has %q, which was not there yet", linUniverse[c])
		}
	}
	return ""
}
