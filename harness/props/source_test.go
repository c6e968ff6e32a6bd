package props

import (
	"fmt"
	"io/fs"
	"testing"

	"pgregory.net/rapid"

	"verif/ev"
	"verif/model"
)

// C28: Create gives back what it takes from its source.
func TestC28(t *testing.T) {
	st := ev.Start(t, "C28", "a generated source that records what is asked of it times every fault of a list (none; the n-th source operation failing, the n-th write failing, a file of another length than it reports: all n up to a bound, then drawn), and an opened archive as source, observed before and after; evaluations counts Create calls; non-trivial: files were opened, and for faults the fault was hit after one was; distinct by source and fault")
	check(t, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"tar", "ar", "erofs"}).Draw(t, "kind")
		if rapid.IntRange(0, 3).Draw(t, "archive") == 3 {
			archiveSource(t, st, kind)
			return
		}
		root := createTree(t, kind, true)
		so := srcOptsFor(t, true, hasLinks(root))
		id := root.Hash() ^ hashOf(kind, so.String())
		desc := func() string { return root.String() + so.String() }
		st.Sample(func() string { return kind + "\n" + desc() })
		run := func(what, label string, w *faultW, o model.SrcOpts) (bool, int) {
			o.Track = model.NewTrack()
			var err error
			if p := try(func() { err = createTo(kind, w, model.Source(root, o)) }); p != "" {
				t.Fatalf("%s Create with %s: %s\n%s", kind, what, p, desc())
			}
			k := o.Track
			st.Case(k.Opened > 0 && (what == "no fault" || err != nil), id^hashOf(what), kind+" "+label)
			if l := k.Names(); len(l) > 0 {
				t.Fatalf("%s Create with %s ends with %v and leaves open %q\n%s", kind, what, err, l, desc())
			}
			if len(k.Invalid) > 0 {
				t.Fatalf("%s Create with %s asks the source for invalid paths: %q\n%s", kind, what, k.Invalid, desc())
			}
			if c := k.Changed(); c != "" {
				t.Fatalf("%s Create with %s changes what belongs to the source: %s\n%s", kind, what, c, desc())
			}
			return err == nil, k.Opened
		}
		ops := 0
		o := so
		o.Fault = func(string, string) error { ops++; return nil }
		w := &faultW{}
		if ok, _ := run("no fault", "no fault", w, o); !ok {
			t.Fatalf("%s Create fails\n%s", kind, desc())
		}
		pick := func(n int, label string) []int {
			set := map[int]bool{}
			for i := 1; i <= min(n, 24); i++ {
				set[i] = true
			}
			for i := 0; n > 24 && i < 10; i++ {
				set[rapid.IntRange(1, n).Draw(t, label)] = true
			}
			return keys(set)
		}
		for _, n := range pick(ops, "nthop") {
			k := 0
			fo := so
			fo.Fault = func(op, p string) error {
				if k++; k == n {
					return model.ErrInjected
				}
				return nil
			}
			run(fmt.Sprintf("source operation %d of %d failing", n, ops), "source fault", &faultW{}, fo)
		}
		for _, n := range pick(w.calls, "nthwrite") {
			run(fmt.Sprintf("write %d of %d failing", n, w.calls), "write fault", &faultW{fail: n, err: model.ErrInjected}, so)
		}
		for _, n := range root.All() {
			if n.Kind != model.File || rapid.IntRange(0, 1).Draw(t, "lies") == 0 {
				continue
			}
			for _, l := range []int{len(n.Data) + 1, max(0, len(n.Data)-1)} {
				fo := so
				fo.Lie = map[string]int{n.Path(): l}
				run(fmt.Sprintf("%q of %d bytes delivering %d", n.Path(), len(n.Data), l), "size lie", &faultW{}, fo)
			}
		}
	})
}

// archiveSource makes an archive from an opened archive and looks at that again.
func archiveSource(t *rapid.T, st *ev.Stats, kind string) {
	var o *opened
	if kind == "ar" {
		o = genOpened(t, 3000, "ar")
	} else {
		o = genOpened(t, 3000, "tar", "erofs", "ar", "mem")
	}
	before, err := model.Observe(o.FS, observeOpts(o.Kind))
	must(t, err, "reading a well-formed %s\n%s", o.Kind, o.Desc())
	f, err := o.FS.Open(".")
	must(t, err, "Open of the root of %s\n%s", o.Kind, o.Desc())
	defer f.Close()
	w := &faultW{err: model.ErrInjected}
	if rapid.Bool().Draw(t, "fails") {
		w.fail = rapid.IntRange(1, 12).Draw(t, "nthwrite")
	}
	var cerr error
	if p := try(func() { cerr = createTo(kind, w, o.FS) }); p != "" {
		t.Fatalf("%s Create from an opened %s: %s\n%s", kind, o.Kind, p, o.Desc())
	}
	st.Case(len(before) > 2, hashOf(o.Raw, kind, w.fail)^o.Root.Hash(), kind+" from "+o.Kind)
	st.Sample(func() string { return fmt.Sprintf("%s from %s: %v\n%s", kind, o.Kind, cerr, o.Desc()) })
	after, err := model.Observe(o.FS, observeOpts(o.Kind))
	must(t, err, "reading the %s again after a %s Create from it\n%s", o.Kind, kind, o.Desc())
	if d := model.DiffSeen(before, after); d != "" {
		t.Fatalf("after a %s Create from it (%v) the %s differs: %s\n%s", kind, cerr, o.Kind, d, o.Desc())
	}
	// handles opened before are still good
	if d, ok := f.(fs.ReadDirFile); ok {
		l, err := d.ReadDir(-1)
		if err != nil || !eqs(entryNames(l), o.Root.Names()) {
			t.Fatalf("after a %s Create a root handle of the %s opened before lists %q, %v; expected %q\n%s", kind, o.Kind, entryNames(l), err, o.Root.Names(), o.Desc())
		}
	}
}
