package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/erofs"
	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

type erofsCase struct {
	Tree *model.Node
	Img  enc.ErofsImage
	Opts enc.ErofsOpts
}

func (c *erofsCase) String() string {
	return fmt.Sprintf("block bits %d checksum %v build time %d.%09d layout %v far %+v\n%s", c.Opts.BlkBits, c.Opts.Checksum, c.Opts.BuildTime, c.Opts.BuildNsec, c.Img.Stats, c.Opts.Far, c.Tree)
}

func (c *erofsCase) labels() []string {
	var out []string
	for k, v := range c.Img.Stats {
		if v > 0 {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	if len(c.Opts.Alias) > 0 {
		out = append(out, "hardLinks")
	}
	return append(out, fmt.Sprintf("bits%d", c.Opts.BlkBits))
}

// encodeErofsCase draws a layout for a tree.
func encodeErofsCase(t *rapid.T, root *model.Node) *erofsCase {
	return encodeErofsWith(t, root, func(*enc.ErofsOpts) {})
}

// farParts moves parts of an image up to the ends of what its fields can tell.
func farParts(t *rapid.T, o *enc.ErofsOpts) {
	if rapid.IntRange(0, 3).Draw(t, "far") != 0 {
		return
	}
	o.DataFirst = false
	block := func(label string) uint32 {
		switch rapid.IntRange(0, 3).Draw(t, label) {
		case 0:
			return 0
		case 1: // around 2^31 and 2^32 bytes
			b := uint32(1) << (rapid.SampledFrom([]int{31, 32, 33}).Draw(t, label+"shift") - o.BlkBits)
			return b - uint32(rapid.IntRange(0, 4).Draw(t, label+"before"))
		case 2: // around 2^31 blocks
			return 1<<31 - uint32(rapid.IntRange(0, 8).Draw(t, label+"before"))
		}
		// close to 2^32 blocks
		return 1<<32 - 1 - uint32(rapid.IntRange(2000, 5000).Draw(t, label+"before"))
	}
	o.Far.Data = block("fardata")
	o.Far.Meta = block("farmeta")
	per := uint64(1) << (o.BlkBits - 5) // slots in a block
	switch rapid.IntRange(0, 3).Draw(t, "farnid") {
	case 1:
		o.Far.NID = 1 << rapid.SampledFrom([]int{16, 26, 27, 31, 32, 33, 40}).Draw(t, "nidshift") / per * per
	case 2:
		o.Far.NID = (1<<32 - uint64(rapid.IntRange(0, 300).Draw(t, "nidbefore"))) / per * per
	case 3:
		o.Far.NID = rapid.Uint64Range(0, 1<<56).Draw(t, "nid") / per * per
	}
	if o.Far.NID > 0 && o.Far.NID < per*4096 {
		o.Far.NID = 0 // too close: the parts could overlap
	}
	// keep the parts apart
	meta := int64(o.Far.Meta) << o.BlkBits
	data := int64(o.Far.Data) << o.BlkBits
	nids := meta + int64(o.Far.NID)*32
	const apart = 64 << 20
	for _, p := range [][2]int64{{meta, data}, {nids, data}} {
		if d := p[0] - p[1]; p[0]|p[1] != 0 && p[0] != p[1] && d < apart && d > -apart {
			o.Far.Data = 0
			if meta < apart {
				o.Far.Meta = 0
			}
			break
		}
	}
}

func encodeErofsWith(t *rapid.T, root *model.Node, more func(*enc.ErofsOpts)) *erofsCase {
	o := enc.ErofsOpts{
		BlkBits:   rapid.SampledFrom([]int{12, 12, 12, 9, 10, 11, 13, 14, 16}).Draw(t, "blkbits"),
		Checksum:  rapid.Bool().Draw(t, "checksum"),
		Garbage:   rapid.Bool().Draw(t, "garbage"),
		DataFirst: rapid.IntRange(0, 2).Draw(t, "datafirst") == 0,
		BuildTime: rapid.SampledFrom([]uint64{0, 1700000000, 1}).Draw(t, "buildtime"),
		BuildNsec: rapid.SampledFrom([]uint32{0, 0, 5, 999999999}).Draw(t, "buildnsec"),
		Pick:      pickFrom(t),
	}
	if rapid.IntRange(0, 5).Draw(t, "volume") == 0 {
		style := rapid.IntRange(0, 3).Draw(t, "volumestyle")
		o.Volume = model.Bytes(rapid.Uint64().Draw(t, "volumeseed"), style, 32)
		if style == 1 {
			o.Volume = []byte("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xffsixteen letters!")
		}
	}
	links := 0
	for _, n := range root.All() {
		links += b2i(n.Kind == model.Link)
		if len(n.Kids) > 256 && len(n.Names()[256]) > 240 {
			o.BlkBits = 9 // a block for each
		}
	}
	more(&o)
	long := rapid.IntRange(0, 3).Draw(t, "longlink") == 3 && links <= 3
	for _, n := range root.All() {
		// a target around the size of a block, with the same meaning
		if long && n.Kind == model.Link && (o.BlkBits <= 10 || o.BlkBits <= 12 && links == 1) && !strings.HasPrefix(n.Target, "/") && n.Target != "" && rapid.Bool().Draw(t, "thislink") {
			long = false
			want := 1<<o.BlkBits + rapid.SampledFrom([]int{-65, -64, -33, -32, -2, -1, 0, 1, 2, 40, 447, 448, 449, 480, 600}).Draw(t, "longlinklen")
			if k := min(want, 4095) - len(n.Target); k > 0 {
				n.Target = strings.Repeat("./", k/2) + n.Target
				if k%2 == 1 {
					n.Target = "./" + strings.Replace(n.Target, "./", ".//", 1)[2:]
				}
			}
		}
		// make some nodes eligible for compact inodes
		if n.UID <= 0xffff && n.GID <= 0xffff && rapid.IntRange(0, 2).Draw(t, "compactable") == 0 {
			n.MTime = time.Unix(int64(o.BuildTime), int64(o.BuildNsec))
		}
	}
	// hard links: several names of one inode
	if rapid.IntRange(0, 3).Draw(t, "hardlinks") == 3 {
		var files []*model.Node
		for _, n := range root.All() {
			if n.Kind != model.Dir {
				files = append(files, n)
			}
		}
		o.Alias = map[*model.Node]*model.Node{}
		for i := 1; i < len(files); i++ {
			if rapid.IntRange(0, 2).Draw(t, "same") != 2 {
				continue
			}
			n, a := files[i], files[rapid.IntRange(0, i-1).Draw(t, "as")]
			if b := o.Alias[a]; b != nil {
				a = b
			}
			up, name := n.Parent, n.Name
			*n = *a
			n.Parent, n.Name = up, name
			o.Alias[n] = a
		}
	}
	return &erofsCase{Tree: root, Opts: o, Img: enc.EncodeErofs(root, o)}
}

func erofsTreeOpts() model.TreeOpts {
	return model.TreeOpts{MaxNodes: 12, MaxSize: 12288, Special: true, TimeLevel: 2, MaxOwner: model.MaxOwner, BigDirs: true, BigMax: 150}
}

func nontrivialErofs(c *erofsCase) bool {
	s := c.Img.Stats
	return len(c.Tree.All()) >= 4 && (s["multiBlockDir"] > 0 || s["inlineAfterBlocks"] > 0 || s["dotsNotFirst"] > 0 || s["inodeCrossesBlock"] > 0 || s["compact"] > 0 && s["extended"] > 0 || c.Opts.BlkBits != 12)
}

// specialFiles turns some files into devices, pipes and sockets.
func specialFiles(t *rapid.T, root *model.Node) {
	for _, n := range root.All() {
		if n.Kind == model.File && rapid.IntRange(0, 9).Draw(t, "special") == 7 {
			n.ModeType = rapid.SampledFrom([]fs.FileMode{fs.ModeDevice, fs.ModeDevice | fs.ModeCharDevice, fs.ModeNamedPipe, fs.ModeSocket}).Draw(t, "type")
			n.Data = nil
		}
	}
}

// C06: every valid image is served exactly.
func TestC06(t *testing.T) {
	st := ev.Start(t, "C06", "a generated tree laid out by an independent encoder with drawn block size, inode formats, data layouts, directory splits, gaps, placement and checksum; non-trivial: at least 4 nodes and one of several directory blocks, tail-packed data after blocks, names before '.', an inode crossing a block, both inode formats, another block size; distinct by image bytes")
	check(t, func(t *rapid.T) {
		root := model.Tree(erofsTreeOpts()).Draw(t, "tree")
		maybeDeep(t, root)
		specialFiles(t, root)
		if rare(t, "crowded", 60) {
			addCrowd(t, root)
		}
		if rapid.IntRange(0, 15).Draw(t, "xattrs") == 11 {
			xattrImage(t, st, root)
			return
		}
		c := encodeErofsWith(t, root, func(o *enc.ErofsOpts) { farParts(t, o) })
		st.Case(nontrivialErofs(c), hashOf(c.Img.Bytes), c.labels()...)
		st.Sample(c.String)
		if c.Img.Segs == nil && len(c.Opts.Alias) == 0 {
			if _, bad := enc.Fsck(c.Img.Bytes); len(bad) > 0 {
				panic(fmt.Sprintf("harness: the encoder made a bad image: %q\n%s", bad, c))
			}
		}
		fsys, err := openAs("erofs", c.Img.Reader())
		must(t, err, "Open of a valid image\n%s", c)
		seen, err := model.Observe(fsys, observeOpts("erofs"))
		must(t, err, "reading a valid image\n%s", c)
		if d := model.Diff(c.Tree, seen, model.Want{Owner: true}); d != "" {
			t.Fatalf("the filesystem differs from the image: %s\n%s", d, c)
		}
		if c.Img.Segs == nil && rapid.IntRange(0, 7).Draw(t, "huge") == 0 {
			if label := hugeFile(t, c); label != "" {
				st.Label(label, 1)
			}
		}
	})
}

// hugeFile makes a file of the image huge and looks at it.
func hugeFile(t *rapid.T, c *erofsCase) string {
	var cand []*model.Node
	for _, n := range c.Tree.All() {
		if n.Kind == model.File && n.ModeType == 0 && !c.Img.Compact[n] && c.Img.Nlink[n] == 1 {
			cand = append(cand, n)
		}
	}
	if len(cand) == 0 {
		return ""
	}
	n := rapid.SampledFrom(cand).Draw(t, "which")
	img := bytes.Clone(c.Img.Bytes)
	bs := int64(1) << c.Opts.BlkBits
	le := binary.LittleEndian
	sb := img[1024:]
	at := int64(le.Uint32(sb[40:]))*bs + int64(c.Img.NID[n])*32
	ino := img[at:]
	inline := le.Uint16(ino)>>1 == 2
	var size int64
	tail := int64(len(n.Data)) % bs
	// an inline tail must stay inside its block
	switch rapid.IntRange(0, 3).Draw(t, "hugesize") {
	case 0:
		size = 1 << 31
	case 1, 2:
		size = 1 << 32
	default:
		size = rapid.Int64Range(1<<32, 1<<43).Draw(t, "bytes")
	}
	if inline {
		size = size/bs*bs + tail
	} else {
		size += rapid.Int64Range(-bs, 2*bs).Draw(t, "sizeoff")
	}
	blk := int64(rapid.SampledFrom([]uint32{1 << 20, 1 << 23, 1<<31 - 1, 1 << 31, 1<<32 - 1<<27}).Draw(t, "hugeblk"))
	segs := []enc.Seg{{Off: 0, Data: img}}
	var pieces []enc.Seg
	end := size
	if inline {
		end = size - tail
		if tail > 0 {
			pieces = append(pieces, enc.Seg{Off: end, Data: n.Data[int64(len(n.Data))-tail:]})
		}
	}
	for i := 0; i < 3; i++ {
		off := rapid.SampledFrom([]int64{0, 4000, 1<<31 - 3, 1<<32 - 5, end - 7}).Draw(t, "pieceoff")
		b := []byte(fmt.Sprintf("<%d>", i))
		clash := off < 0 || off+int64(len(b)) > end
		for _, p := range pieces {
			clash = clash || p.Off < end && p.Off < off+10 && off < p.Off+10
		}
		if !clash {
			pieces = append(pieces, enc.Seg{Off: off, Data: b})
			segs = append(segs, enc.Seg{Off: blk*bs + off, Data: b})
		}
	}
	segs = append(segs, enc.Seg{Off: blk*bs + (end+bs-1)/bs*bs})
	le.PutUint64(ino[8:], uint64(size))
	le.PutUint32(ino[16:], uint32(blk))
	if le.Uint32(sb[8:])&1 != 0 {
		enc.SealErofs(img)
	}
	im := enc.ErofsImage{Segs: segs}
	desc := fmt.Sprintf("file %q of %d bytes at block %d, inline %v, pieces %v\n%s", n.Path(), size, blk, inline, pieces, c)
	fsys, err := openAs("erofs", onlyReaderAt{im.Reader()})
	must(t, err, "Open of a valid image; %s", desc)
	fi, err := fs.Stat(fsys, n.Path())
	must(t, err, "Stat; %s", desc)
	if fi.Size() != size {
		t.Fatalf("Stat says %d bytes; %s", fi.Size(), desc)
	}
	f, err := fsys.Open(n.Path())
	must(t, err, "Open; %s", desc)
	defer f.Close()
	fi, err = f.Stat()
	must(t, err, "File.Stat; %s", desc)
	if fi.Size() != size {
		t.Fatalf("File.Stat says %d bytes; %s", fi.Size(), desc)
	}
	limit := int64(1 << 16)
	label := "huge file, start read"
	if size < 9<<30 && rare(t, "readall", 60) {
		limit, label = 1<<62, "huge file, all read"
	}
	readHoles(t, f, size, pieces, limit, desc)
	return label
}

// erofsName is biased to names around '.', '..' and block boundaries.
func manyNames(t *rapid.T) []string {
	set := map[string]bool{}
	no := model.NameOpts{}
	sort4 := rapid.IntRange(0, 3).Draw(t, "namesort")
	if rapid.IntRange(0, 24).Draw(t, "crowded") == 17 {
		return crowd(t)
	}
	switch sort4 {
	case 0:
		for _, n := range rapid.SliceOfN(model.Name(no), 0, 12).Draw(t, "names") {
			set[n] = true
		}
	case 1:
		// many of one length, so that blocks are filled exactly
		l := rapid.SampledFrom([]int{1, 2, 4, 8, 20, 52, 100, 243, 244, 255}).Draw(t, "len")
		cnt := rapid.IntRange(1, 200).Draw(t, "count")
		for i := 0; i < cnt; i++ {
			s := fmt.Sprintf("%0*d", min(l, 4), i)
			if len(s) > l {
				s = s[:l]
			}
			set[model.FixName(s+strings.Repeat("n", max(0, l-len(s))), no)] = true
		}
	case 2:
		first := rapid.SampledFrom([]string{"-", "!", " ", "+", ".", "a", "#"}).Draw(t, "first")
		cnt := rapid.IntRange(1, 150).Draw(t, "count")
		l := rapid.IntRange(1, 120).Draw(t, "len")
		for i := 0; i < cnt; i++ {
			s := fmt.Sprintf("%s%d", first, i*7919%1000)
			if i%3 == 0 {
				s = fmt.Sprintf("%d%s", i, first)
			}
			if i%2 == 0 && len(s) < l {
				s += strings.Repeat("-", l-len(s))
			}
			set[model.FixName(s, no)] = true
		}
	default:
		for _, n := range rapid.SliceOfN(rapid.StringOfN(rapid.RuneFrom([]rune("-./.!ab\x01")), 1, 4, -1), 0, 80).Draw(t, "short") {
			set[model.FixName(n, no)] = true
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// crowd is many names, so short that a block of 4 KiB or more takes over 256, or
// so long that small blocks take one each.
func crowd(t *rapid.T) []string {
	cnt := rapid.IntRange(257, 700).Draw(t, "crowd")
	const digits = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
	step := rapid.SampledFrom([]int{1, 5, 7}).Draw(t, "crowdstep")
	rest := ""
	if rapid.IntRange(0, 2).Draw(t, "crowdlong") == 2 {
		rest = strings.Repeat("n", rapid.IntRange(247, 253).Draw(t, "crowdlen"))
	}
	var out []string
	for i := 0; i < cnt; i++ {
		k := i * step
		out = append(out, string([]byte{digits[k/62%62], digits[k%62]})+rest)
	}
	sort.Strings(out)
	return out
}

// addCrowd puts a crowd of empty files into a directory.
func addCrowd(t *rapid.T, root *model.Node) {
	var dirs []*model.Node
	for _, n := range root.All() {
		if n.Kind == model.Dir && n.ModeType == 0 {
			dirs = append(dirs, n)
		}
	}
	dir := rapid.SampledFrom(dirs).Draw(t, "crowdin")
	for _, n := range crowd(t) {
		if dir.Kids[n] == nil {
			dir.Add(&model.Node{Name: n, Mode: 0o644, MTime: time.Unix(0, 0)})
		}
	}
}

// nameNeighbours are names next to n in order.
func nameNeighbours(n string) []string {
	out := []string{n + "\x01", n + "a", n + "n", "-" + n, strings.ToUpper(n)}
	if len(n) > 1 {
		out = append(out, n[:len(n)-1], n[1:])
	}
	b := []byte(n)
	b[len(b)-1]++
	out = append(out, string(b))
	b[len(b)-1] -= 2
	return append(out, string(b))
}

// C07: looking a name up and listing the directory always agree.
func TestC07(t *testing.T) {
	st := ev.Start(t, "C07", "a directory of generated names (many blocks, names around '.', exact block fills) in an image by the independent encoder or by Create; every listed name, its neighbours and drawn names are looked up through Inode.Lookup and Stat; non-trivial: more than one directory block or a name before '..'; distinct by name list and layout")
	check(t, func(t *rapid.T) {
		root := model.NewDir("", 0o755)
		root.MTime = time.Unix(0, 0)
		dir := root
		if rapid.Bool().Draw(t, "sub") {
			dir = root.Add(model.NewDir("d", 0o755))
			dir.MTime = time.Unix(0, 0)
			root.Add(&model.Node{Name: "-f", Mode: 0o644, MTime: time.Unix(0, 0), Data: []byte("x")})
		}
		names := manyNames(t)
		for i, n := range names {
			if dir.Kids[n] != nil || dir == root && n == "d" {
				continue
			}
			k := &model.Node{Name: n, Kind: []model.Kind{model.File, model.File, model.Dir, model.Link}[i%4], Mode: 0o644, Data: []byte{byte(i)}, MTime: time.Unix(0, 0)}
			switch k.Kind {
			case model.Dir:
				k.Kids = map[string]*model.Node{}
				k.Data = nil
			case model.Link:
				k.Target, k.Data = "t", nil
			}
			dir.Add(k)
		}
		created := rapid.Bool().Draw(t, "created")
		var img []byte
		var err error
		label := "image by Create"
		if created {
			img, err = createErofs(model.Source(root, model.SrcOpts{}))
			must(t, err, "Create\n%s", clip(root.String(), 2000))
		} else {
			c := encodeErofsCase(t, root)
			img = c.Img.Bytes
			label = "image by encoder"
		}
		early := false
		total := 0
		for n := range dir.Kids {
			early = early || n < ".."
			total += 12 + len(n)
		}
		st.Case(total > 4000 || early, hashOf(img), label)
		st.Sample(func() string { return fmt.Sprintf("%s: %d names %q", label, len(names), clip(fmt.Sprint(names), 300)) })

		im, err := erofs.OpenImage(onlyReaderAt{bytes.NewReader(img)})
		must(t, err, "OpenImage")
		fsys, err := openErofs(img)
		must(t, err, "Open")
		desc := fmt.Sprintf("%s, names %q", label, names)
		var walk func(n *model.Node, nid, up uint64)
		walk = func(n *model.Node, nid, up uint64) {
			ino, err := im.Inode(nid)
			must(t, err, "Inode(%d) of %q; %s", nid, n.Path(), desc)
			type ent struct {
				nid uint64
				typ uint8
			}
			got := map[string]ent{}
			err = ino.IterDirents(func(name string, typ uint8, nid uint64) error {
				if _, dup := got[name]; dup {
					return fmt.Errorf("%q comes twice", name)
				}
				got[name] = ent{nid, typ}
				return nil
			})
			must(t, err, "IterDirents of %q; %s", n.Path(), desc)
			want := append(n.Names(), ".", "..")
			for _, w := range want {
				if _, ok := got[w]; !ok {
					t.Fatalf("listing %q does not yield %q; %s", n.Path(), w, desc)
				}
			}
			if len(got) != len(want) {
				t.Fatalf("listing %q yields %d names, expected %d; %s", n.Path(), len(got), len(want), desc)
			}
			asked := map[string]bool{}
			ask := func(q string) {
				if q == "" || asked[q] {
					return
				}
				asked[q] = true
				d, err := ino.Lookup(q)
				e, listed := got[q]
				switch {
				case listed && err != nil:
					t.Fatalf("Lookup(%q) in %q: %v, but it is listed; %s", q, n.Path(), err, desc)
				case !listed && err == nil:
					t.Fatalf("Lookup(%q) in %q finds nid %d, but it is not listed; %s", q, n.Path(), d.Nid, desc)
				case listed && (d.Nid != e.nid || d.FileType != e.typ):
					t.Fatalf("Lookup(%q) in %q gives nid %d type %d, listing gives %d type %d; %s", q, n.Path(), d.Nid, d.FileType, e.nid, e.typ, desc)
				}
			}
			for w := range got {
				ask(w)
				for _, q := range nameNeighbours(w) {
					ask(q)
				}
			}
			for _, q := range []string{"\x00", "\x01", "-", "..-", "...", "~", "zzzz", "\xff\xff", strings.Repeat("x", 256)} {
				ask(q)
			}
			if e := got["."]; e.nid != nid || e.typ != erofs.FT_DIR {
				t.Fatalf("'.' of %q is nid %d type %d, expected %d; %s", n.Path(), e.nid, e.typ, nid, desc)
			}
			if e := got[".."]; e.nid != up || e.typ != erofs.FT_DIR {
				t.Fatalf("'..' of %q is nid %d type %d, expected %d; %s", n.Path(), e.nid, e.typ, up, desc)
			}
			for _, k := range n.Names() {
				c := n.Kids[k]
				e := got[k]
				lf := fsys.(linkFS)
				fi, err := lf.StatLink(c.Path())
				must(t, err, "StatLink(%q); %s", c.Path(), desc)
				if id, ok := nidOf(fi); ok && id != e.nid {
					t.Fatalf("StatLink(%q) is inode %d, listing says %d; %s", c.Path(), id, e.nid, desc)
				}
				wt := map[model.Kind]uint8{model.File: erofs.FT_REG_FILE, model.Dir: erofs.FT_DIR, model.Link: erofs.FT_SYMLINK}[c.Kind]
				if e.typ != wt {
					t.Fatalf("%q has type %d, expected %d; %s", c.Path(), e.typ, wt, desc)
				}
				if c.Kind == model.Dir && len(c.Kids) > 0 || c == dir {
					walk(c, e.nid, nid)
				}
			}
		}
		walk(root, im.RootNid(), im.RootNid())
	})
}

// C08: symbolic links resolve as on a POSIX filesystem, and always terminate.
func TestC08(t *testing.T) {
	st := ev.Start(t, "C08", "an image (independent encoder or Create) with many symbolic links and about 30 lookups through every method against a POSIX path walk over the tree; non-trivial: a lookup crosses at least one link; distinct by image and lookups")
	check(t, func(t *rapid.T) {
		root := linkTree(t, model.TreeOpts{})
		root.MTime = time.Unix(0, 0)
		var img []byte
		nids := map[*model.Node]uint64{}
		if rapid.IntRange(0, 2).Draw(t, "created") == 0 {
			b, err := createErofs(model.Source(root, model.SrcOpts{}))
			must(t, err, "Create\n%s", root)
			img = b
		} else {
			c := encodeErofsCase(t, root)
			img, nids = c.Img.Bytes, c.Img.NID
		}
		ps := linkProbes(t, root)
		desc := func() string { return root.String() }
		st.Journal(func() string { return fmt.Sprintf("lookups %q in\n%s", ps, desc()) })
		crossed := false
		for _, p := range ps {
			for _, l := range linkLabels(root, p) {
				st.Label(l, 1)
				crossed = true
			}
		}
		st.Case(crossed, hashOf(img, fmt.Sprint(ps)))
		st.Sample(desc)
		fsys, err := openErofs(img)
		must(t, err, "Open of a valid image\n%s", root)
		verdictFail(t, watched(20, func() {
			for _, p := range ps {
				probe(t, fsys, root, p, func(fi fs.FileInfo, n *model.Node) string {
					if fi.Mode().Type() != n.FileMode().Type() {
						return fmt.Sprintf("mode %v", fi.Mode())
					}
					id, ok := nidOf(fi)
					want, known := nids[n]
					if known && ok && id != want {
						return fmt.Sprintf("found inode %d, expected %d", id, want)
					}
					if n.Kind == model.File && fi.Size() != n.Size() {
						return fmt.Sprintf("size %d, expected %d", fi.Size(), n.Size())
					}
					if n.Kind == model.Link && !fi.ModTime().Equal(n.MTime) {
						return fmt.Sprintf("time %v, expected %v", fi.ModTime(), n.MTime)
					}
					return ""
				}, desc)
			}
		}), "links in\n"+root.String())
	})
}

// erofsSrcTree are trees an EROFS image can hold.
func erofsSrcTree(t *rapid.T) *model.Node {
	root := model.Tree(model.TreeOpts{MaxNodes: 12, MaxSize: 12288, Special: true, TimeLevel: 3, MaxOwner: model.MaxOwner, BigDirs: true, BigMax: 300}).Draw(t, "tree")
	if rare(t, "crowded", 100) {
		addCrowd(t, root)
	}
	maybeDeep(t, root)
	return root
}

func treeLabels(root *model.Node) (labels []string, rich bool) {
	set := map[string]bool{}
	for _, n := range root.All() {
		switch {
		case n.Kind == model.File && len(n.Data) == 0:
			set["empty file"] = true
		case n.Kind == model.File && len(n.Data) > 1000 && len(n.Data) < 4200:
			set["file around the inline or block limit"] = true
		case n.Kind == model.File && len(n.Data) > 4200:
			set["file of several blocks"] = true
		case n.Kind == model.Link:
			set["link"] = true
		}
		if n.Mode&model.SpecialBits != 0 {
			set["special bits"] = true
		}
		if n.UID > 0xffff || n.GID > 0xffff {
			set["large owner"] = true
		}
		if n.MTime.IsZero() {
			set["zero time"] = true
		}
		sz := 0
		for k := range n.Kids {
			sz += 12 + len(k)
			if k < ".." {
				set["name before '..'"] = true
			}
		}
		if sz > 1000 && sz < 4096 {
			set["directory of 1-4 KiB"] = true
		}
		if sz > 4096 {
			set["directory of several blocks"] = true
		}
	}
	for k := range set {
		labels = append(labels, k)
	}
	sort.Strings(labels)
	return labels, len(set) >= 2 && len(root.All()) >= 3
}

// C09: EROFS Create followed by Open gives back the source tree.
func TestC09(t *testing.T) {
	st := ev.Start(t, "C09", "a generated source tree behind a source with drawn capabilities (also opened EROFS images and a destination file with old contents), written by Create and read by Open; non-trivial: at least 3 nodes and two of empty file, file at a layout limit, several blocks, link, special bits, large owner, unset time, name before '..', large directory; distinct by tree, source and destination")
	check(t, func(t *rapid.T) {
		root := erofsSrcTree(t)
		so := srcOptsFor(t, true, hasLinks(root))
		so.HardTar = rapid.IntRange(0, 5).Draw(t, "hardTar") == 0
		if rapid.IntRange(0, 4).Draw(t, "linkOnly") == 0 {
			so.NoLinks, so.LinkOnly = false, true
		}
		var src fs.FS = model.Source(root, so)
		ownerKnown := so.Owner != model.OwnerNone
		labels, rich := treeLabels(root)
		dest := rapid.IntRange(0, 3).Draw(t, "dest")
		if rapid.IntRange(0, 3).Draw(t, "viaErofs") == 0 {
			for _, n := range root.All() {
				n.MTime = epoch(n.MTime)
			}
			c := encodeErofsCase(t, root)
			fsys, err := openErofs(c.Img.Bytes)
			must(t, err, "Open of a valid image\n%s", c)
			src, ownerKnown = fsys, true
			labels = append(labels, "source is an image")
		}
		st.Case(rich, root.Hash()^hashOf(so.String(), dest), append(labels, fmt.Sprintf("destination %d", dest))...)
		st.Sample(func() string { return root.String() + so.String() })
		img := writeErofs(t, dest, src, root.String()+so.String())
		fsys, err := openErofs(img)
		must(t, err, "Open of the created image\n%s%s", root, so)
		seen, err := model.Observe(fsys, model.ObserveOpts{Owner: owners, Lean: true})
		must(t, err, "reading the created image\n%s%s", root, so)
		if d := model.Diff(root, seen, model.Want{Owner: ownerKnown, MTime: epoch}); d != "" {
			t.Fatalf("the created image opens as something else: %s\n%s%s", d, root, so)
		}
		if rare(t, "huge", 800) {
			st.Label(hugeCreate(t, "erofs"), 1)
		}
		if rare(t, "giant", 1500) {
			st.Label(giantDirectory(t), 1)
		}
		if rare(t, "giantmeta", 12000) {
			st.Label(giantMetadata(t), 1)
		}
	})
}

// writeErofs creates an image in a destination: 0 and 1 empty memory, 2 memory
// with old contents, 3 a file with old contents.
func writeErofs(t *rapid.T, dest int, src fs.FS, desc string) []byte {
	switch dest {
	case 2:
		w := &memWA{b: model.Bytes(77, 0, rapid.SampledFrom([]int{100, 4096, 20000, 70000}).Draw(t, "oldlen"))}
		must(t, erofs.Create(w, src), "Create\n%s", desc)
		return w.image()
	case 3:
		dir, err := os.MkdirTemp("", "verif")
		must(t, err, "scratch directory")
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "img")
		must(t, os.WriteFile(p, model.Bytes(78, 0, rapid.SampledFrom([]int{0, 1, 5000, 70000, 400000}).Draw(t, "oldlen")), 0o600), "scratch file")
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		must(t, err, "scratch file")
		err = erofs.Create(f, src)
		_ = f.Close()
		must(t, err, "Create\n%s", desc)
		b, err := os.ReadFile(p)
		must(t, err, "scratch file")
		if len(b) < 1064 || int64(len(b)) != int64(binary.LittleEndian.Uint32(b[1060:]))*4096 {
			t.Fatalf("the destination file has %d bytes, not the declared number of blocks\n%s", len(b), desc)
		}
		return b
	}
	b, err := createErofs(src)
	must(t, err, "Create\n%s", desc)
	return b
}

// C10: EROFS Create writes a structurally valid image.
func TestC10(t *testing.T) {
	st := ev.Start(t, "C10", "an image written by Create from a generated source (memory or file destination, old contents) parsed by an independent strict checker; non-trivial as in C09; distinct by tree and destination")
	check(t, func(t *rapid.T) {
		root := erofsSrcTree(t)
		so := srcOptsFor(t, true, hasLinks(root))
		so.HardTar = rapid.IntRange(0, 5).Draw(t, "hardTar") == 0
		labels, rich := treeLabels(root)
		dest := rapid.IntRange(0, 3).Draw(t, "dest")
		st.Case(rich, root.Hash()^hashOf(so.String(), dest), append(labels, fmt.Sprintf("destination %d", dest))...)
		st.Sample(func() string { return root.String() })
		img := writeErofs(t, dest, model.Source(root, so), root.String()+so.String())
		if dest == 2 {
			// only what the image declares counts
			if n := int64(binary.LittleEndian.Uint32(img[1060:])) * 4096; n <= int64(len(img)) {
				img = img[:n]
			}
		}
		_, bad := enc.FsckTight(img)
		if len(bad) > 0 {
			t.Fatalf("the image is not valid: %s\n%s", strings.Join(bad, "; "), root)
		}
		if d := int64(binary.LittleEndian.Uint32(img[1060:])) * 4096; dest < 2 && d != (int64(len(img))+4095)/4096*4096 {
			t.Fatalf("the image declares blocks of %d bytes altogether, but %d have been written\n%s", d, len(img), root)
		}
		if rare(t, "huge", 2000) {
			st.Label(hugeCreate(t, "erofs"), 1)
		}
		if rare(t, "giant", 1500) {
			st.Label(giantDirectory(t), 1)
		}
	})
}

// sbExpect says whether a superblock must be accepted (1), refused (-1) or may
// be either (0).
func sbExpect(img []byte) int {
	le := binary.LittleEndian
	if len(img) < 1152 {
		return -1
	}
	sb := img[1024:]
	if le.Uint32(sb) != 0xE0F5E1E2 || le.Uint32(sb[80:]) != 0 {
		return -1
	}
	bits := int(sb[12])
	if bits < 9 || bits >= 32 {
		return -1
	}
	exp := 1
	if bits > 16 {
		exp = 0
	}
	if le.Uint32(sb[8:])&1 != 0 {
		if bits > 26 {
			return 0
		}
		_, hi := enc.ErofsSumRange(bits)
		if len(img) < hi || enc.ErofsSum(img, bits) != le.Uint32(sb[4:]) {
			return -1
		}
	}
	return exp
}

// C11: a superblock that is damaged or asks for unknown features is refused.
func TestC11(t *testing.T) {
	st := ev.Start(t, "C11", "a valid image (encoder or Create) with drawn edits of the superblock block: bit flips anywhere in it, field values, with and without the checksum repaired, and changes outside it; expected outcome from an independent CRC32C; non-trivial: the edit changes the bytes; distinct by edited image")
	check(t, func(t *rapid.T) {
		root := model.Tree(model.TreeOpts{MaxNodes: 3, MaxSize: 300, TimeLevel: 1}).Draw(t, "tree")
		var img []byte
		if rapid.Bool().Draw(t, "created") {
			b, err := createErofs(model.Source(root, model.SrcOpts{}))
			must(t, err, "Create\n%s", root)
			img = b
			if binary.LittleEndian.Uint32(img[1032:])&1 == 0 {
				// Create leaves the feature off; turn it on as mkfs would
				if rapid.IntRange(0, 3).Draw(t, "turnOn") > 0 {
					binary.LittleEndian.PutUint32(img[1032:], 1)
					enc.SealErofs(img)
				}
			}
		} else {
			img = encodeErofsCase(t, root).Img.Bytes
		}
		if sbExpect(img) != 1 {
			t.Fatalf("harness: base image not acceptable")
		}
		orig := append([]byte{}, img...)
		bits := int(img[1036])
		lo, hi := enc.ErofsSumRange(bits)
		kind := rapid.IntRange(0, 8).Draw(t, "edit")
		what := ""
		switch kind {
		case 0:
			what = "none"
		case 1, 2:
			off := lo + rapid.IntRange(0, 127).Draw(t, "off")
			bit := rapid.IntRange(0, 7).Draw(t, "bit")
			img[off] ^= 1 << bit
			what = fmt.Sprintf("flip superblock byte %d bit %d", off-1024, bit)
		case 3:
			off := rapid.IntRange(lo, hi-1).Draw(t, "off")
			bit := rapid.IntRange(0, 7).Draw(t, "bit")
			img[off] ^= 1 << bit
			what = fmt.Sprintf("flip block byte %d bit %d", off-1024, bit)
		case 4:
			off := rapid.IntRange(0, 1023).Draw(t, "off")
			img[off] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
			what = fmt.Sprintf("change byte %d before the superblock", off)
		case 5:
			bit := rapid.IntRange(0, 31).Draw(t, "bit")
			binary.LittleEndian.PutUint32(img[1104:], 1<<bit)
			what = fmt.Sprintf("incompatible feature bit %d", bit)
		case 6:
			bit := rapid.IntRange(1, 31).Draw(t, "bit")
			v := binary.LittleEndian.Uint32(img[1032:]) | 1<<bit
			binary.LittleEndian.PutUint32(img[1032:], v)
			what = fmt.Sprintf("compatible feature bit %d", bit)
		case 7:
			nb := rapid.SampledFrom([]int{0, 1, 5, 7, 8, 9, 10, 11, 12, 13, 14, 16, 32, 33, 63, 64, 128, 255}).Draw(t, "bits")
			img[1036] = byte(nb)
			what = fmt.Sprintf("block size bits %d", nb)
		case 8:
			img[1024+rapid.IntRange(0, 3).Draw(t, "m")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
			what = "magic"
		}
		seal := rapid.Bool().Draw(t, "seal")
		if seal && img[1036] >= 9 && img[1036] <= 16 {
			if _, h := enc.ErofsSumRange(int(img[1036])); h <= len(img) {
				enc.SealErofs(img)
				what += ", checksum repaired"
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "cut") == 0 {
			n := rapid.IntRange(0, min(len(img), hi+10)).Draw(t, "cutat")
			img = img[:n]
			what += fmt.Sprintf(", cut to %d bytes", n)
		}
		exp := sbExpect(img)
		st.Case(!bytes.Equal(orig, img), hashOf(img), map[int]string{1: "must open", 0: "either", -1: "must be refused"}[exp], fmt.Sprintf("edit %d", kind))
		st.Sample(func() string { return what })
		var err error
		if p := try(func() { _, err = openErofs(img) }); p != "" {
			t.Fatalf("Open after %s: %s", what, p)
		}
		_, err2 := erofs.OpenImage(onlyReaderAt{bytes.NewReader(img)})
		if (err == nil) != (err2 == nil) {
			t.Fatalf("after %s Open gives %v, OpenImage %v", what, err, err2)
		}
		if exp == 1 && err != nil {
			t.Fatalf("Open after %s (bits %d): %v", what, bits, err)
		}
		if exp == -1 && err == nil {
			t.Fatalf("Open accepts a superblock after %s (bits %d)", what, bits)
		}
	})
}

// xattrImage is an image in which some inodes have extended attributes, or data
// in a layout that this package does not know. It may refuse those with
// extended attributes, and must refuse the data of the others, but does not
// serve anything as something else, and neither the rest.
func xattrImage(t *rapid.T, st *ev.Stats, root *model.Node) {
	has := map[*model.Node][]byte{}
	all := root.All()
	for i := rapid.IntRange(1, 3).Draw(t, "xattrs"); i > 0; i-- {
		n := all[rapid.IntRange(0, len(all)-1).Draw(t, "xattrof")]
		if n.Parent == nil && rapid.IntRange(0, 3).Draw(t, "xattrroot") > 0 {
			continue
		}
		area := make([]byte, 12) // name filter and the number of shared attributes
		for k := rapid.IntRange(0, 3).Draw(t, "inline xattrs"); k > 0; k-- {
			val := model.Bytes(uint64(k), 1, rapid.IntRange(0, 40).Draw(t, "xattrlen"))
			e := append([]byte{4, 1, byte(len(val)), 0}, "name"...)
			e = append(e, val...)
			area = append(append(area, e...), make([]byte, -len(e)&3)...)
		}
		has[n] = area
	}
	c := encodeErofsWith(t, root, func(o *enc.ErofsOpts) { o.Xattr = has })
	img := c.Img.Bytes
	unknown := map[*model.Node]bool{}
	if rapid.IntRange(0, 2).Draw(t, "layouts") == 0 {
		for i := rapid.IntRange(1, 2).Draw(t, "unknown layouts"); i > 0; i-- {
			n := all[rapid.IntRange(1, max(1, len(all)-1)).Draw(t, "layoutof")%len(all)]
			if c.Opts.Alias[n] != nil || n.ModeType != 0 || n.Kind != model.Dir && size(n) == 0 {
				continue
			}
			// compressed in two ways, in chunks, and not yet assigned
			layout := rapid.SampledFrom([]uint16{1, 3, 4, 4, 5, 6, 7}).Draw(t, "layout")
			at := int(binary.LittleEndian.Uint32(img[1024+40:]))<<c.Opts.BlkBits + int(c.Img.NID[n])*32
			f := binary.LittleEndian.Uint16(img[at:])
			binary.LittleEndian.PutUint16(img[at:], f&1|layout<<1)
			unknown[n] = true
			has[n] = []byte{}
		}
		if c.Opts.Checksum {
			enc.SealErofs(img)
		}
	}
	of := func(n *model.Node) *model.Node {
		if a := c.Opts.Alias[n]; a != nil {
			return a
		}
		return n
	}
	marked := func(n *model.Node) bool {
		for ; n != nil; n = n.Parent {
			if has[of(n)] != nil {
				return true
			}
		}
		return false
	}
	st.Case(len(root.All()) > 3 && len(has) > 0, hashOf(c.Img.Bytes), append(c.labels(), fmt.Sprintf("extended attributes, unknown layouts: %v", len(unknown) > 0))...)
	st.Sample(c.String)
	fsys, err := openErofs(c.Img.Bytes)
	if err != nil {
		if !marked(root) {
			t.Fatalf("Open of a valid image: %v\n%s", err, c)
		}
		return
	}
	links := fsys.(linkFS)
	for _, n := range root.All() {
		p := n.Path()
		ok := func(err error, op string) bool {
			if err != nil && !marked(n) {
				t.Fatalf("%s(%q): %v, but no inode on the way has extended attributes\n%s", op, p, err, c)
			}
			return err == nil
		}
		fi, err := links.StatLink(p)
		if ok(err, "StatLink") {
			uid, gid, known := owners(fi.Sys())
			if fi.Mode() != n.FileMode() || !fi.ModTime().Equal(n.MTime) || n.Kind != model.Dir && n.ModeType == 0 && fi.Size() != int64(size(n)) || known && (uid != n.UID || gid != n.GID) {
				t.Fatalf("StatLink(%q) gives %v %d %v %d:%d\n%s", p, fi.Mode(), fi.Size(), fi.ModTime(), uid, gid, c)
			}
		}
		refused := func(err error) {
			if err == nil && unknown[of(n)] {
				t.Fatalf("the data of %q is served, but its layout is unknown\n%s", p, c)
			}
		}
		switch {
		case n.Kind == model.Link:
			to, err := links.ReadLink(p)
			refused(err)
			if ok(err, "ReadLink") && to != n.Target {
				t.Fatalf("ReadLink(%q) gives %q\n%s", p, to, c)
			}
		case n.Kind == model.Dir:
			list, err := fs.ReadDir(fsys, p)
			refused(err)
			if ok(err, "ReadDir") {
				var names []string
				for _, e := range list {
					names = append(names, e.Name())
				}
				if !slices.Equal(names, n.Names()) {
					t.Fatalf("ReadDir(%q) gives %q\n%s", p, names, c)
				}
			}
		case n.ModeType == 0:
			b, err := fs.ReadFile(fsys, p)
			refused(err)
			if ok(err, "ReadFile") && !bytes.Equal(b, n.Data) {
				t.Fatalf("ReadFile(%q) gives %d bytes, %s\n%s", p, len(b), model.DiffBytes(b, n.Data), c)
			}
		}
	}
}

func size(n *model.Node) int {
	if n.Kind == model.Link {
		return len(n.Target)
	}
	return len(n.Data)
}
