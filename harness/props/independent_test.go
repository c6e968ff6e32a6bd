package props

import (
	"fmt"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
	"verif/yield"
)

// job is one use of a package, from start to end.
type job struct {
	kind string
	root *model.Node
	so   model.SrcOpts
	// raw is an archive to open and ask, nil for a Create
	raw  []byte
	asks []ask
	name string
}

// run does the job; between is called before every operation of the source or
// the reader.
func (j *job) run(between func()) string {
	if j.kind == "mem" {
		between()
		m, err := buildMem(j.root)
		if err != nil {
			return "error: " + err.Error()
		}
		between()
		var b strings.Builder
		for _, a := range j.asks {
			fmt.Fprintf(&b, "%v %q\n", a, answer(m, a))
		}
		return b.String()
	}
	if j.raw == nil {
		so := j.so
		so.Fault = func(string, string) error { between(); return nil }
		w := &faultW{}
		if err := createTo(j.kind, w, model.Source(j.root, so)); err != nil {
			return "error: " + err.Error()
		}
		return string(w.image())
	}
	fsys, err := openAs(j.kind, hookRA{&memRA{b: j.raw}, between})
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	for _, a := range j.asks {
		fmt.Fprintf(&b, "%v %q\n", a, answer(fsys, a))
	}
	return b.String()
}

// hookRA calls a function before every read.
type hookRA struct {
	r  *memRA
	fn func()
}

func (h hookRA) ReadAt(p []byte, off int64) (int, error) {
	h.fn()
	return h.r.ReadAt(p, off)
}

func genJob(t *rapid.T, i int) *job {
	switch rapid.IntRange(0, 4).Draw(t, "job") {
	case 0, 1, 2:
		j := &job{kind: rapid.SampledFrom([]string{"tar", "ar", "erofs", "erofs"}).Draw(t, "create")}
		j.root = createTree(t, j.kind, true)
		j.so = srcOptsFor(t, true, hasLinks(j.root))
		j.name = fmt.Sprintf("job %d: %s Create of\n%s%s", i, j.kind, j.root, j.so)
		return j
	case 3:
		o := genOpened(t, 2000, "tar", "ar", "erofs")
		return &job{kind: o.Kind, root: o.Root, raw: o.Raw, asks: asksFor(o.Root, o.Kind != "ar", nil), name: fmt.Sprintf("job %d: open and ask %s\n%s", i, o.Kind, o.Desc())}
	}
	root := model.Tree(model.TreeOpts{MaxNodes: 6, MaxSize: 2000, NoLinks: true}).Draw(t, "tree")
	return &job{kind: "mem", root: root, asks: asksFor(root, false, nil), name: fmt.Sprintf("job %d: in-memory filesystem\n%s", i, root)}
}

// related draws a tree like another one: some of its nodes have other
// content, other metadata or another name.
func related(t *rapid.T, root *model.Node, maxName int) *model.Node {
	out := root.Clone()
	for _, n := range out.All() {
		switch rapid.IntRange(0, 10).Draw(t, "change") {
		case 0, 1:
			if n.Kind == model.File && len(n.Data) > 0 {
				n.Data = append([]byte{}, n.Data...)
				n.Data[rapid.IntRange(0, len(n.Data)-1).Draw(t, "byte")] ^= 1
			}
		case 2:
			n.Mode ^= 1 << rapid.IntRange(0, 8).Draw(t, "permission")
		case 3:
			if s := n.MTime.Unix(); s > 0 {
				n.MTime = n.MTime.Add(-time.Hour)
			} else if !n.MTime.IsZero() {
				n.MTime = n.MTime.Add(time.Hour)
			}
		case 4:
			n.UID ^= 1
		case 5:
			n.GID ^= 1
		case 6, 7:
			if n.Parent != nil {
				up := n.Parent
				delete(up.Kids, n.Name)
				no := model.NameOpts{MaxLen: maxName}
				_, k := utf8.DecodeLastRuneInString(n.Name)
				n.Name = model.Uniq(up, n.Name[:len(n.Name)-k]+rapid.SampledFrom([]string{"a", "b", "~"}).Draw(t, "last"), no)
				up.Add(n)
			}
		}
	}
	return out
}

// genRelated draws two to four related jobs: Create of related trees, or
// questions to related archives.
func genRelated(t *rapid.T) []peerAsk {
	kind := rapid.SampledFrom([]string{"tar", "ar", "erofs"}).Draw(t, "kind")
	root := createTree(t, kind, true)
	longest := 255
	if kind == "ar" {
		longest = 16
	}
	create := rapid.IntRange(0, 2).Draw(t, "creates") == 0
	o := enc.ErofsOpts{BlkBits: rapid.SampledFrom([]int{9, 12}).Draw(t, "blkbits"), Pick: func(_ string, lo, _ int) int { return lo }}
	var out []peerAsk
	for i := rapid.IntRange(2, 4).Draw(t, "related"); i > 0; i-- {
		tree := toPeer(root)
		q := peerAsk{Kind: kind, Tree: &tree, Owner: int(model.OwnerTar), Asks: []peerQ{{"stat", "."}}, Names: rapid.SampledFrom([]string{"", "user", "root"}).Draw(t, "names")}
		if !create {
			var err error
			if kind == "erofs" {
				q.Raw = enc.EncodeErofs(root, o).Bytes
			} else if q.Raw, err = createAs(kind, model.Source(root, model.SrcOpts{Owner: model.OwnerTar, OwnerNames: q.Names})); err != nil {
				t.Fatalf("%s Create: %v\n%s", kind, err, root)
			}
			for _, a := range asksFor(root, kind != "ar", nil) {
				q.Asks = append(q.Asks, peerQ{a.op, a.path})
			}
		}
		out = append(out, q)
		root = related(t, root, longest)
	}
	return out
}

// C30: separate calls do not influence one another.
func TestC30(t *testing.T) {
	st := ev.Start(t, "C30", "two to five generated jobs (Create of a tree, Open of an archive with questions, an in-memory filesystem), each first done alone; or two to four related ones (Create of trees, or questions to archives, that are alike but for some content, metadata or names), each first done in a process that has done nothing before, and then one after another; then either one is done inside the other, at a drawn operation of its source or reader, or all run at once in goroutines with the race detector and yield points; all results must be those of the jobs alone; non-trivial: the inner job ran while the outer one was under way, or at least two goroutines; distinct by jobs and places")
	check(t, func(t *rapid.T) {
		n := rapid.IntRange(2, 5).Draw(t, "jobs")
		nested := rapid.IntRange(0, 2).Draw(t, "nested") != 0
		if nested {
			n = min(n, 3)
		}
		var jobs []*job
		var want []string
		var ops []int
		desc := func() string {
			var b strings.Builder
			for _, j := range jobs {
				b.WriteString(j.name + "\n")
			}
			return b.String()
		}
		differ := func(i int, how, got string) {
			t.Helper()
			if got != want[i] {
				t.Fatalf("job %d %s gives another result than alone: %s\n%s", i, how, model.DiffBytes([]byte(got), []byte(want[i])), desc())
			}
		}
		run := func(i int) (got string) {
			k := 0
			if p := try(func() { got = jobs[i].run(func() { k++ }) }); p != "" {
				t.Fatalf("%s\n%s", p, desc())
			}
			if len(ops) == i {
				ops = append(ops, k)
			}
			return got
		}
		kin := rapid.IntRange(0, 3).Draw(t, "kin") == 0
		if kin {
			// each first in a process of its own
			qs := genRelated(t)
			n = len(qs)
			for i, q := range qs {
				j := q.job()
				j.name = fmt.Sprintf("job %d: %s of %d bytes to open and ask, or to create (names %q) from\n%s", i, q.Kind, len(q.Raw), q.Names, j.root)
				jobs = append(jobs, j)
				w, err := fresh(q)
				must(t, err, "job %d\n%s", i, desc())
				want = append(want, w)
			}
			// and then one after another
			for i := range jobs {
				differ(i, "after related ones", run(i))
			}
		} else {
			for i := 0; i < n; i++ {
				if i > 0 && rapid.IntRange(0, 4).Draw(t, "again") == 0 {
					jobs = append(jobs, jobs[rapid.IntRange(0, i-1).Draw(t, "which")])
				} else {
					jobs = append(jobs, genJob(t, i))
				}
				want = append(want, run(i))
			}
		}
		id := hashOf(fmt.Sprint(want))
		st.Sample(desc)
		if nested {
			// each inside the one before it
			var at []int
			for i := range jobs {
				at = append(at, rapid.IntRange(1, max(1, ops[i])).Draw(t, "at"))
			}
			got := make([]string, n)
			inside := false
			var do func(i int)
			do = func(i int) {
				k := 0
				got[i] = jobs[i].run(func() {
					if k++; k == at[i] && i+1 < n {
						inside = true
						do(i + 1)
					}
				})
			}
			if v := watched(60, func() { do(0) }); v != "" {
				verdictFail(t, v, "jobs inside one another\n"+desc())
			}
			st.Case(inside, id^hashOf(fmt.Sprint(at)), "nested", kinLabel(kin))
			for i := range jobs {
				if i == 0 || inside && got[i] != "" {
					differ(i, fmt.Sprintf("with the next inside at operation %d", at[i]), got[i])
				}
			}
			return
		}
		rate := rapid.SampledFrom([]int{0, 30, 200, 600}).Draw(t, "yieldrate")
		st.Case(true, id, "concurrent", kinLabel(kin))
		st.Journal(func() string { return desc() })
		got := make([]string, n)
		var fns []func()
		start := make(chan struct{})
		for i := range jobs {
			fns = append(fns, func() {
				<-start
				got[i] = jobs[i].run(func() {})
			})
		}
		yield.Set(uint32(rate))
		close(start)
		v := watchedMany(60, fns)
		yield.Set(0)
		verdictFail(t, v, "separate jobs at once\n"+desc())
		for i := range jobs {
			differ(i, "beside the others", got[i])
		}
		// and alone once more
		for i := range jobs {
			differ(i, "afterwards", jobs[i].run(func() {}))
		}
	})
}

func kinLabel(kin bool) string {
	if kin {
		return "related"
	}
	return "unrelated"
}
