package props

import (
	"bytes"
	"flag"
	"testing"

	"pgregory.net/rapid"

	"verif/enc"
	"verif/model"
)

// fuzzHostile searches the bytes of one format, guided by coverage. The flag
// says whether checksums are repaired first.
func fuzzHostile(f *testing.F, kind string, fix func([]byte), seed func(t *rapid.T) []byte) {
	fuzzing := flag.Lookup("test.fuzz").Value.String() != ""
	g := rapid.Custom(seed)
	for i := 0; i < 40; i++ {
		if b := g.Example(i); len(b) <= 1<<15 {
			f.Add(true, b)
			f.Add(false, b)
		}
	}
	f.Fuzz(func(t *testing.T, repair bool, b []byte) {
		if len(b) > 1<<16 {
			return
		}
		b = bytes.Clone(b)
		if repair {
			fix(b)
		}
		if kind == "tar" && hugeSparse(b) {
			return
		}
		var bad string
		look := func() { bad, _ = hostileCheck(kind, b, []string{"a", "a/b", ".", "", "../a", "a/../b"}) }
		v := ""
		if fuzzing {
			// what does not end is found out by the engine
			look()
		} else {
			v = watched(30, look)
		}
		if v != "" || bad != "" {
			t.Fatalf("VIOLATES: %s input of %d bytes: %s%s", kind, len(b), v, bad)
		}
	})
}

func FuzzTar(f *testing.F) {
	fuzzHostile(f, "tar", repairTar, func(t *rapid.T) []byte { return genTar(t, tarOpts{MaxSize: 600, MaxNodes: 5}).Bytes })
}

func FuzzAr(f *testing.F) {
	fuzzHostile(f, "ar", func([]byte) {}, func(t *rapid.T) []byte { return genAr(t, 4, 100).Bytes })
}

func FuzzErofs(f *testing.F) {
	fuzzHostile(f, "erofs", func(b []byte) {
		if len(b) < 1152 {
			return
		}
		if bits := int(b[1036]); b[1032]&1 != 0 && bits >= 9 && bits <= 16 {
			if _, hi := enc.ErofsSumRange(bits); hi <= len(b) {
				enc.SealErofs(b)
			}
		}
	}, func(t *rapid.T) []byte {
		to := erofsTreeOpts()
		to.MaxNodes, to.MaxSize, to.BigMax = 6, 1500, 40
		return encodeErofsCase(t, model.Tree(to).Draw(t, "tree")).Img.Bytes
	})
}
