package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/erofs"
	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

// direntData makes files hold what would be the contents of a
// directory.
func direntData(t *rapid.T, root *model.Node) {
	names := []string{".", "..", "a", "b", "cc"}[:rapid.IntRange(1, 5).Draw(t, "direntnames")]
	var head, tail []byte
	for _, n := range names {
		head = binary.LittleEndian.AppendUint64(head, 36)
		head = binary.LittleEndian.AppendUint16(head, uint16(12*len(names)+len(tail)))
		head = append(head, byte(rapid.IntRange(1, 2).Draw(t, "direnttype")), 0)
		tail = append(tail, n...)
	}
	data := append(head, tail...)
	k := 0
	for _, n := range root.All() {
		if n.Kind == model.File && n.ModeType == 0 && rapid.Bool().Draw(t, "isdirents") {
			n.Data = data
			k++
		}
	}
	if k == 0 {
		root.Add(&model.Node{Name: model.Uniq(root, "dirents", model.NameOpts{}), Mode: 0o644, Data: data, MTime: time.Unix(1, 0)})
	}
}

// C27: the image interface of EROFS reports what the image records.
func TestC27(t *testing.T) {
	st := ev.Start(t, "C27", "a generated tree (special files, hard links, far parts) laid out by an independent encoder; the exported Image and Inode methods are asked about the superblock and every inode, and compared with what was encoded; non-trivial: at least 3 inodes of at least 2 types; distinct by image bytes")
	check(t, func(t *rapid.T) {
		root := model.Tree(erofsTreeOpts()).Draw(t, "tree")
		specialFiles(t, root)
		if rapid.IntRange(0, 3).Draw(t, "direntdata") == 0 {
			direntData(t, root)
		}
		c := encodeErofsWith(t, root, func(o *enc.ErofsOpts) { farParts(t, o) })
		types := map[fs.FileMode]bool{}
		for _, n := range root.All() {
			types[n.FileMode().Type()] = true
		}
		st.Case(len(root.All()) >= 3 && len(types) > 1, hashOf(c.Img.Bytes), c.labels()...)
		st.Sample(c.String)

		im, err := erofs.OpenImage(onlyReaderAt{c.Img.Reader()})
		must(t, err, "OpenImage of a valid image\n%s", c)
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\n%s", fmt.Sprintf(f, a...), c)
		}

		// the superblock
		sb, raw, le := im.SuperBlock(), c.Img.Bytes[1024:], binary.LittleEndian
		for what, v := range map[string][2]uint64{
			"Magic":           {uint64(sb.Magic), uint64(le.Uint32(raw))},
			"Checksum":        {uint64(sb.Checksum), uint64(le.Uint32(raw[4:]))},
			"FeatureCompat":   {uint64(sb.FeatureCompat), uint64(le.Uint32(raw[8:]))},
			"BlockSizeBits":   {uint64(sb.BlockSizeBits), uint64(raw[12])},
			"RootNid":         {im.RootNid(), c.Img.NID[root]},
			"Inodes":          {sb.Inodes, le.Uint64(raw[16:])},
			"BuildTime":       {sb.BuildTime, c.Opts.BuildTime},
			"BuildTimeNsec":   {uint64(sb.BuildTimeNsec), uint64(c.Opts.BuildNsec)},
			"Blocks":          {uint64(sb.Blocks), uint64(le.Uint32(raw[36:]))},
			"Image.Blocks":    {uint64(im.Blocks()), uint64(le.Uint32(raw[36:]))},
			"MetaBlockAddr":   {uint64(sb.MetaBlockAddr), uint64(le.Uint32(raw[40:]))},
			"FeatureIncompat": {uint64(sb.FeatureIncompat), uint64(le.Uint32(raw[80:]))},
			"BlockSize":       {uint64(im.BlockSize()), 1 << c.Opts.BlkBits},
			"sb.BlockSize":    {uint64(sb.BlockSize()), 1 << c.Opts.BlkBits},
			"MetaOffset":      {uint64(sb.MetaOffset()), uint64(le.Uint32(raw[40:])) << c.Opts.BlkBits},
			"ExtSlots":        {uint64(sb.ExtSlots), uint64(raw[13])},
		} {
			if v[0] != v[1] {
				fail("superblock: %s is %d, the image records %d", what, v[0], v[1])
			}
		}

		if got, want := string(sb.UUID[:])+string(sb.VolumeName[:]), string(raw[48:80]); got != want {
			fail("superblock: UUID and volume name are %q, the image records %q", got, want)
		}
		for _, a := range []uint32{0, 1, rapid.Uint32().Draw(t, "addr"), 1<<32 - 1} {
			if got, want := uint64(sb.BlockAddrToOffset(a)), uint64(a)<<c.Opts.BlkBits; got != want {
				fail("block %d is at %d, expected %d", a, got, want)
			}
		}

		// the inodes
		for _, n := range root.All() {
			if got, want := uint64(sb.NidToOffset(c.Img.NID[n])), uint64(le.Uint32(raw[40:]))<<c.Opts.BlkBits+c.Img.NID[n]*32; got != want {
				fail("%q is at %d, expected %d", n.Path(), got, want)
			}
			p, nid := n.Path(), c.Img.NID[n]
			ino, err := im.Inode(nid)
			if err != nil {
				fail("Inode(%d), which is %q: %v", nid, p, err)
			}
			mtime, nsec := uint64(n.MTime.Unix()), uint64(n.MTime.Nanosecond())
			size := uint64(len(n.Data) + len(n.Target))
			layout, dataLayout := uint64(1), uint64(0)
			if c.Img.Compact[n] {
				layout = 0
			}
			if c.Img.Inline[n] {
				dataLayout = 2
			}
			if n.Kind == model.Dir {
				size = ino.Size() // the listing says whether it is right
			}
			type pair struct {
				what      string
				got, want uint64
			}
			pairs := []pair{
				{"Nid", ino.Nid(), nid},
				{"Size", ino.Size(), size},
				{"Nlink", uint64(ino.Nlink()), uint64(c.Img.Nlink[n])},
				{"Mtime", ino.Mtime(), mtime},
				{"MtimeNsec", uint64(ino.MtimeNsec()), nsec},
				{"UID", uint64(ino.UID()), uint64(n.UID)},
				{"GID", uint64(ino.GID()), uint64(n.GID)},
				{"Mode", uint64(ino.Mode()), uint64(n.FileMode())},
				{"Layout", uint64(ino.Layout()), layout},
				{"DataLayout", uint64(ino.DataLayout()), dataLayout},
			}
			ty := n.FileMode().Type()
			is := func(what string, got bool, t fs.FileMode) {
				pairs = append(pairs, pair{what, uint64(b2i(got)), uint64(b2i(ty == t))})
			}
			is("IsRegular", ino.IsRegular(), 0)
			is("IsDir", ino.IsDir(), fs.ModeDir)
			is("IsSymlink", ino.IsSymlink(), fs.ModeSymlink)
			is("IsCharDev", ino.IsCharDev(), fs.ModeDevice|fs.ModeCharDevice)
			is("IsBlockDev", ino.IsBlockDev(), fs.ModeDevice)
			is("IsFIFO", ino.IsFIFO(), fs.ModeNamedPipe)
			is("IsSocket", ino.IsSocket(), fs.ModeSocket)
			for _, q := range pairs {
				if q.got != q.want {
					fail("%q (nid %d): %s is %d, the image records %d", p, nid, q.what, q.got, q.want)
				}
			}

			// contents
			if ty == 0 {
				r, err := ino.Data()
				if err != nil {
					fail("Data of %q: %v", p, err)
				}
				b, err := io.ReadAll(r)
				if err != nil || !bytes.Equal(b, n.Data) {
					fail("Data of %q: %v, %s", p, err, model.DiffBytes(b, n.Data))
				}
			}
			tgt, err := ino.Readlink()
			if n.Kind == model.Link && (err != nil || tgt != n.Target) {
				fail("Readlink of %q gives %q, %v; expected %q", p, tgt, err, n.Target)
			}
			if n.Kind != model.Link && err == nil {
				fail("Readlink of %q, which is no link, gives %q", p, tgt)
			}
			var names []string
			want := map[string]*model.Node{".": n, "..": n}
			if n.Parent != nil {
				want[".."] = n.Parent
			}
			for k, v := range n.Kids {
				want[k] = v
			}
			wrong := ""
			err = ino.IterDirents(func(name string, typ uint8, id uint64) error {
				names = append(names, name)
				if w := want[name]; w == nil {
					wrong = fmt.Sprintf("yields the unknown %q", name)
				} else if id != c.Img.NID[w] || typ != fileType(w) {
					wrong = fmt.Sprintf("yields %q with nid %d and type %d, the image records %d and %d", name, id, typ, c.Img.NID[w], fileType(w))
				}
				return nil
			})
			if n.Kind != model.Dir {
				if err == nil {
					fail("IterDirents of %q, which is no directory, succeeds with %q", p, names)
				}
				if d, err := ino.Lookup("."); err == nil {
					fail("Lookup in %q, which is no directory, gives nid %d", p, d.Nid)
				}
				continue
			}
			if err != nil || wrong != "" {
				fail("IterDirents of %q: %v %s", p, err, wrong)
			}
			if len(names) != len(want) || !sort.StringsAreSorted(names) {
				fail("IterDirents of %q gives %q, expected the %d names of the directory in order", p, names, len(want))
			}
			// a callback that has enough
			stop, calls := errors.New("enough"), 0
			after := rapid.IntRange(1, len(names)).Draw(t, "stop")
			err = ino.IterDirents(func(string, uint8, uint64) error {
				if calls++; calls == after {
					return stop
				}
				return nil
			})
			if !errors.Is(err, stop) || calls != after {
				fail("IterDirents of %q with a callback that fails on entry %d of %d makes %d calls and gives %v", p, after, len(names), calls, err)
			}
			for name, w := range want {
				d, err := ino.Lookup(name)
				if err != nil || d.Nid != c.Img.NID[w] || d.FileType != fileType(w) {
					fail("Lookup(%q) in %q gives nid %d type %d, %v; the image records %d and %d", name, p, d.Nid, d.FileType, err, c.Img.NID[w], fileType(w))
				}
			}
			if d, err := ino.Lookup("no such name"); n.Kids["no such name"] == nil && !errors.Is(err, fs.ErrNotExist) {
				fail("Lookup of a missing name in %q gives nid %d, %v", p, d.Nid, err)
			}
		}
	})
}

// fileType is the type in a directory entry.
func fileType(n *model.Node) uint8 {
	switch n.FileMode().Type() {
	case 0:
		return 1
	case fs.ModeDir:
		return 2
	case fs.ModeDevice | fs.ModeCharDevice:
		return 3
	case fs.ModeDevice:
		return 4
	case fs.ModeNamedPipe:
		return 5
	case fs.ModeSocket:
		return 6
	}
	return 7
}
