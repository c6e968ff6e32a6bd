package props

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/ev"
	"verif/model"
	"verif/yield"
)

// C23: opened archives can be used concurrently, and handles are independent.
func TestC23(t *testing.T) {
	st := ev.Start(t, "C23", "a generated archive or image; several goroutines ask drawn questions about a freshly opened filesystem at once, share directory entries and infos, and (in the same case, without concurrency) several handles are read in a drawn interleaving and closed in a drawn order; the build has the race detector and yield points between the statements of the packages; non-trivial: at least 2 goroutines ask about the same path, or at least 2 handles are open together on content; distinct by archive and questions")
	check(t, func(t *rapid.T) {
		o := genOpened(t, 3000, "tar", "ar", "erofs", "erofs")
		asks := asksFor(o.Root, o.Kind != "ar", model.Probes(t, o.Root, 3))
		want := answers(o.Kind, &memRA{b: o.Raw}, asks)
		if rapid.IntRange(0, 2).Draw(t, "mode") == 0 {
			handles(t, st, o)
			return
		}
		workers := rapid.IntRange(2, 6).Draw(t, "goroutines")
		var plans [][]int
		count := map[int]int{}
		shared := false
		hot := rapid.SliceOfN(rapid.IntRange(0, len(asks)-1), 1, 4).Draw(t, "hot")
		for i := 0; i < workers; i++ {
			p := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(hot), rapid.IntRange(0, len(asks)-1)), 1, 8).Draw(t, "plan")
			plans = append(plans, p)
			mine := map[int]bool{}
			for _, k := range p {
				if !mine[k] {
					mine[k] = true
					if count[k]++; count[k] > 1 {
						shared = true
					}
				}
			}
		}
		rate := rapid.SampledFrom([]int{0, 30, 200, 600}).Draw(t, "yieldrate")
		desc := func() string {
			var b strings.Builder
			for i, p := range plans {
				fmt.Fprintf(&b, "goroutine %d:", i)
				for _, k := range p {
					fmt.Fprintf(&b, " %v;", asks[k])
				}
				b.WriteString("\n")
			}
			return b.String() + o.Desc()
		}
		st.Case(shared, hashOf(o.Raw, fmt.Sprint(plans)), o.Kind, "concurrent")
		st.Sample(desc)
		st.Journal(func() string { return o.Kind + "\n" + desc() })
		fsys, err := openAs(o.Kind, &memRA{b: o.Raw})
		must(t, err, "opening %s\n%s", o.Kind, o.Desc())

		// directory entries and infos that all share
		list, err := fs.ReadDir(fsys, ".")
		must(t, err, "listing %s\n%s", o.Kind, o.Desc())
		shareEntries := len(list) > 0 && rapid.Bool().Draw(t, "shareEntries")
		var entryWant []string
		if shareEntries {
			l2, err := fs.ReadDir(fsys, ".")
			must(t, err, "listing %s again\n%s", o.Kind, o.Desc())
			for _, e := range l2 {
				entryWant = append(entryWant, entryText(e))
			}
		}
		bad := make([]string, workers)
		start := make(chan struct{})
		var fns []func()
		for i := range plans {
			fns = append(fns, func() {
				<-start
				for _, k := range plans[i] {
					if got := answer(fsys, asks[k]); got != want[k] && bad[i] == "" {
						bad[i] = fmt.Sprintf("%v answers %s, alone %s", asks[k], clip(fmt.Sprintf("%q", got), 300), clip(fmt.Sprintf("%q", want[k]), 300))
					}
				}
				if shareEntries {
					for j := range list {
						j = (j + i) % len(list)
						if got := entryText(list[j]); got != entryWant[j] && bad[i] == "" {
							bad[i] = fmt.Sprintf("entry %d is %s, alone %s", j, got, entryWant[j])
						}
					}
				}
			})
		}
		yield.Set(uint32(rate))
		close(start)
		v := watchedMany(60, fns)
		yield.Set(0)
		verdictFail(t, v, "concurrent use of "+o.Kind+"\n"+desc())
		for i, b := range bad {
			if b != "" {
				t.Fatalf("%s, goroutine %d: %s\n%s", o.Kind, i, b, desc())
			}
		}
		// and the filesystem still answers as before
		for k, a := range asks {
			if got := answer(fsys, a); got != want[k] {
				t.Fatalf("%s after concurrent use, %v answers %s, before %s\n%s", o.Kind, a, clip(fmt.Sprintf("%q", got), 300), clip(fmt.Sprintf("%q", want[k]), 300), desc())
			}
		}
	})
}

func entryText(e fs.DirEntry) string {
	return fmt.Sprintf("%q %v %v %s", e.Name(), e.Type(), e.IsDir(), infoText(e.Info()))
}

// handles reads several handles in a drawn interleaving.
func handles(t *rapid.T, st *ev.Stats, o *opened) {
	var nodes []*model.Node
	for _, n := range o.Root.All() {
		if n.Kind != model.Link {
			nodes = append(nodes, n)
		}
	}
	fsys, err := openAs(o.Kind, &memRA{b: o.Raw})
	must(t, err, "opening %s\n%s", o.Kind, o.Desc())
	type handle struct {
		n      *model.Node
		f      fs.File
		got    []byte
		names  []string
		done   bool
		closed bool
	}
	var hs []*handle
	var log []string
	together := 0
	steps := rapid.IntRange(4, 40).Draw(t, "steps")
	fail := func(f string, a ...any) {
		t.Fatalf("%s: %s\nsteps: %s\n%s", o.Kind, fmt.Sprintf(f, a...), strings.Join(log, "; "), o.Desc())
	}
	for i := 0; i < steps; i++ {
		var open []*handle
		full := 0
		for _, h := range hs {
			if !h.closed {
				open = append(open, h)
				if len(h.n.Data) > 0 || len(h.n.Kids) > 0 {
					full++
				}
			}
		}
		together = max(together, full)
		act := rapid.IntRange(0, 9).Draw(t, "act")
		if len(open) == 0 || act == 0 || act == 1 && len(open) < 4 {
			n := rapid.SampledFrom(nodes).Draw(t, "node")
			if len(hs) > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 0 {
				n = hs[len(hs)-1].n
			}
			f, err := fsys.Open(n.Path())
			log = append(log, fmt.Sprintf("open %q as %d", n.Path(), len(hs)))
			if err != nil {
				fail("Open(%q): %v", n.Path(), err)
			}
			hs = append(hs, &handle{n: n, f: f})
			continue
		}
		h := rapid.SampledFrom(open).Draw(t, "handle")
		id := 0
		for j := range hs {
			if hs[j] == h {
				id = j
			}
		}
		if act == 2 {
			log = append(log, fmt.Sprintf("close %d", id))
			if err := h.f.Close(); err != nil {
				fail("Close of %q: %v", h.n.Path(), err)
			}
			h.closed = true
			continue
		}
		if h.n.Kind == model.Dir {
			k := rapid.SampledFrom([]int{1, 2, 5, -1}).Draw(t, "page")
			log = append(log, fmt.Sprintf("page %d of %d", k, id))
			d, ok := h.f.(fs.ReadDirFile)
			if !ok {
				fail("open directory %q has no ReadDir", h.n.Path())
			}
			l, err := d.ReadDir(k)
			h.names = append(h.names, entryNames(l)...)
			if err != nil && err != io.EOF {
				fail("ReadDir of open %q: %v", h.n.Path(), err)
			}
			all := h.n.Names()
			if len(h.names) > len(all) || !eqs(h.names, all[:len(h.names)]) || (err == io.EOF || k < 0) && len(h.names) != len(all) {
				fail("open directory %q yields %q (%v), it holds %q", h.n.Path(), h.names, err, all)
			}
			continue
		}
		buf := make([]byte, rapid.SampledFrom([]int{1, 7, 100, 512, 700, 5000}).Draw(t, "buf"))
		log = append(log, fmt.Sprintf("read %d of %d", len(buf), id))
		n, err := h.f.Read(buf)
		h.got = append(h.got, buf[:n]...)
		if !bytes.HasPrefix(h.n.Data, h.got) {
			fail("handle %d of %q delivers wrong bytes: %s", id, h.n.Path(), model.DiffBytes(h.got, h.n.Data))
		}
		if err != nil && err != io.EOF {
			fail("reading handle %d of %q: %v", id, h.n.Path(), err)
		}
		if err == io.EOF && len(h.got) != len(h.n.Data) {
			fail("handle %d of %q ends after %d of %d bytes", id, h.n.Path(), len(h.got), len(h.n.Data))
		}
	}
	// the rest of every handle
	for i, h := range hs {
		if h.closed || h.n.Kind == model.Dir {
			continue
		}
		rest, err := io.ReadAll(h.f)
		if err != nil || !bytes.Equal(append(h.got, rest...), h.n.Data) {
			fail("the rest of handle %d of %q: %v, %s", i, h.n.Path(), err, model.DiffBytes(append(h.got, rest...), h.n.Data))
		}
	}
	st.Case(together >= 2, hashOf(o.Raw, strings.Join(log, ";")), o.Kind, "handles")
	st.Sample(func() string { return o.Kind + " " + strings.Join(log, "; ") + "\n" + o.Desc() })
}
