// Package enc holds encoders and decoders for the archive formats that are
// independent of the packages under test: written from the format
// descriptions, and sharing no code with them.
package enc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"sort"

	"verif/model"
)

// Pick chooses an integer in [lo, hi].
type Pick func(label string, lo, hi int) int

// ErofsOpts shapes an image.
type ErofsOpts struct {
	BlkBits   int
	Checksum  bool
	BuildTime uint64
	BuildNsec uint32
	Garbage   bool // fill unused space with garbage instead of zeros
	DataFirst bool // data blocks before the metadata area
	Pick      Pick
	// Far moves parts of the image apart: the data by Far.Data blocks, the
	// metadata by Far.Meta blocks, and some inodes by Far.NID slots, which must
	// be whole blocks.
	Far struct {
		Data, Meta uint32
		NID        uint64
	}
	// Alias maps a node to the node whose inode it shares (hard links).
	Alias map[*model.Node]*model.Node
	// Volume is the UUID and the volume name, 32 bytes.
	Volume []byte
	// Xattr is the area for extended attributes that the inode of a node has.
	Xattr map[*model.Node][]byte
}

// ErofsImage is an encoded image.
type ErofsImage struct {
	Bytes []byte
	NID   map[*model.Node]uint64
	// Compact tells which nodes got a compact inode.
	Compact map[*model.Node]bool
	Stats   map[string]int
	// Nlink and Inline say how the inode of a node is recorded.
	Nlink  map[*model.Node]int
	Inline map[*model.Node]bool
	// Segs says where the parts of Bytes belong if Far was asked for.
	Segs []Seg
}

// Seg is a piece of a file full of holes.
type Seg struct {
	Off  int64
	Data []byte
}

// Sparse is a reader of a file that is zero outside its segments.
type Sparse struct {
	Segs []Seg
	Size int64
}

func (s *Sparse) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("negative offset %d", off)
	}
	if off >= s.Size {
		return 0, io.EOF
	}
	var err error
	if off+int64(len(p)) > s.Size || off+int64(len(p)) < off {
		p, err = p[:s.Size-off], io.EOF
	}
	clear(p)
	for _, g := range s.Segs {
		if g.Off < off+int64(len(p)) && g.Off+int64(len(g.Data)) > off {
			if g.Off >= off {
				copy(p[g.Off-off:], g.Data)
			} else {
				copy(p, g.Data[off-g.Off:])
			}
		}
	}
	return len(p), err
}

// Reader reads the image.
func (i *ErofsImage) Reader() io.ReaderAt {
	segs := i.Segs
	if segs == nil {
		segs = []Seg{{0, i.Bytes}}
	}
	var size int64
	for _, g := range segs {
		size = max(size, g.Off+int64(len(g.Data)))
	}
	return &Sparse{segs, size}
}

const (
	eSBOff  = 1024
	eSBSize = 128
	eSlot   = 32
)

type eIno struct {
	n       *model.Node
	size    int
	isz     int
	xattr   []byte
	compact bool
	inline  bool
	slot    uint64 // place in the image
	nid     uint64
	raw     uint32
	split   []int // entries per directory block
	pad     int   // NULs after the last name of the last block
	nlink   int
}

type eEnt struct {
	name string
	n    *model.Node
}

func eEntries(n *model.Node) []eEnt {
	up := n.Parent
	if up == nil {
		up = n
	}
	l := []eEnt{{".", n}, {"..", up}}
	for _, k := range n.Names() {
		l = append(l, eEnt{k, n.Kids[k]})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

// ErofsMode is the on-disk mode of a node.
func ErofsMode(m fs.FileMode) uint16 {
	o := uint16(m.Perm())
	switch m.Type() {
	case 0:
		o |= 0o100000
	case fs.ModeDir:
		o |= 0o040000
	case fs.ModeSymlink:
		o |= 0o120000
	case fs.ModeDevice:
		o |= 0o060000
	case fs.ModeDevice | fs.ModeCharDevice:
		o |= 0o020000
	case fs.ModeNamedPipe:
		o |= 0o010000
	case fs.ModeSocket:
		o |= 0o140000
	}
	if m&fs.ModeSetuid != 0 {
		o |= 0o4000
	}
	if m&fs.ModeSetgid != 0 {
		o |= 0o2000
	}
	if m&fs.ModeSticky != 0 {
		o |= 0o1000
	}
	return o
}

func erofsFT(m uint16) uint8 {
	switch m & 0o170000 {
	case 0o100000:
		return 1
	case 0o040000:
		return 2
	case 0o020000:
		return 3
	case 0o060000:
		return 4
	case 0o010000:
		return 5
	case 0o140000:
		return 6
	case 0o120000:
		return 7
	}
	return 0
}

// EncodeErofs lays the tree out as an EROFS image.
func EncodeErofs(root *model.Node, o ErofsOpts) ErofsImage {
	bs := 1 << o.BlkBits
	pick := o.Pick
	if pick == nil {
		pick = func(_ string, lo, hi int) int { return lo }
	}
	st := map[string]int{}
	real := func(n *model.Node) *model.Node {
		if a := o.Alias[n]; a != nil {
			return a
		}
		return n
	}

	// order of the inodes: root first or anywhere
	var order []*model.Node
	for _, n := range root.All() {
		if real(n) == n {
			order = append(order, n)
		}
	}
	if pick("rotate", 0, 2) == 0 && len(order) > 1 {
		k := pick("rot", 1, len(order)-1)
		order = append(append([]*model.Node{}, order[k:]...), order[:k]...)
		st["rootNotFirst"]++
	}
	links := map[*model.Node]int{}
	for _, n := range root.All() {
		links[real(n)]++
		if n.Kind == model.Dir {
			links[n]++
			for _, k := range n.Kids {
				if k.Kind == model.Dir {
					links[n]++
				}
			}
		}
	}

	inos := map[*model.Node]*eIno{}
	for _, n := range order {
		in := &eIno{n: n, nlink: links[n]}
		switch n.Kind {
		case model.Dir:
			ents := eEntries(n)
			// split into blocks
			used, cnt := 0, 0
			early := pick("early", 0, 3) == 0
			for _, e := range ents {
				need := 12 + len(e.name)
				if cnt > 0 && (used+need > bs || (early && pick("cut", 0, 3) == 0)) {
					in.split = append(in.split, cnt)
					used, cnt = 0, 0
				}
				used += need
				cnt++
			}
			in.split = append(in.split, cnt)
			if free := bs - used; free > 0 {
				switch pick("dirpad", 0, 3) {
				case 0:
					in.pad = free
				case 1:
					in.pad = min(free, pick("padn", 1, 4))
				}
			}
			in.size = (len(in.split)-1)*bs + used + in.pad
			if len(in.split) > 1 {
				st["multiBlockDir"]++
			}
			if ents[0].name != "." || (len(ents) > 1 && ents[1].name != "..") {
				st["dotsNotFirst"]++
			}
		case model.Link:
			in.size = len(n.Target)
		default:
			in.size = len(n.Data)
		}
		in.compact = n.UID <= 0xffff && n.GID <= 0xffff && n.UID >= 0 && n.GID >= 0 &&
			n.MTime.Unix() == int64(o.BuildTime) && uint32(n.MTime.Nanosecond()) == o.BuildNsec && in.nlink <= 0xffff &&
			pick("compact", 0, 3) != 0
		in.isz = 64
		if in.compact {
			in.isz = 32
			st["compact"]++
		} else {
			st["extended"]++
		}
		in.xattr = o.Xattr[n]
		in.isz += len(in.xattr)
		tail := in.size % bs
		canInline := tail != 0 && in.isz+tail <= bs
		in.inline = canInline && pick("inline", 0, 2) != 0
		if in.inline {
			st["inline"]++
			if in.size > bs {
				st["inlineAfterBlocks"]++
			}
		} else {
			st["plain"]++
		}
		inos[n] = in
	}

	// place data blocks, relative
	dataBlocks := 0
	dataAt := map[*model.Node]int{}
	perm := append([]*model.Node{}, order...)
	if pick("dataorder", 0, 1) == 1 {
		for i, j := 0, len(perm)-1; i < j; i, j = i+1, j-1 {
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	for _, n := range perm {
		in := inos[n]
		full := in.size / bs
		if !in.inline && in.size%bs != 0 {
			full++
		}
		if full == 0 {
			continue
		}
		if pick("dgap", 0, 5) == 0 {
			dataBlocks += pick("dgapn", 1, 2)
		}
		dataAt[n] = dataBlocks
		dataBlocks += full
	}
	first := (eSBOff + eSBSize + bs - 1) / bs
	if o.BlkBits < 12 && pick("sbslack", 0, 1) == 1 {
		first = max(first, 4096/bs)
	}
	// place inodes, relative to the metadata area
	cur := 0
	metaUsed := 0
	for i, n := range order {
		in := inos[n]
		if i > 0 || pick("lead", 0, 2) == 0 {
			if pick("igap", 0, 4) == 0 {
				cur += eSlot * pick("igapn", 1, 5)
			}
		}
		if o.Far.NID != 0 && i > 0 && i == len(order)/2 {
			cur = (cur + bs - 1) / bs * bs
		}
		need := in.isz
		if in.inline {
			need += in.size % bs
			if cur%bs+need > bs {
				cur = (cur + bs - 1) / bs * bs
			}
		} else if cur%bs+need > bs {
			if pick("cross", 0, 1) == 0 {
				cur = (cur + bs - 1) / bs * bs
			} else {
				st["inodeCrossesBlock"]++
			}
		}
		in.slot = uint64(cur / eSlot)
		in.nid = in.slot
		metaUsed = cur + need
		cur = (metaUsed + eSlot - 1) / eSlot * eSlot
	}
	metaBlocks := (metaUsed + bs - 1) / bs
	metaBlk, dataBlk := first, first+metaBlocks
	if o.DataFirst {
		dataBlk = first
		metaBlk = first + dataBlocks + pick("mgap", 0, 2)
	} else if metaBlk > 0 && pick("metazero", 0, 3) == 0 {
		// the metadata address may be 0: inode numbers then count from the start
		off := uint64(metaBlk) * uint64(bs) / eSlot
		if inos[root].nid+off <= 0xffff {
			for _, in := range inos {
				in.slot += off
				in.nid = in.slot
			}
			metaBlk = 0
			st["metaAtZero"]++
		}
	}
	var segs []int // where the far inodes start
	far := o.Far
	if far.Data|far.Meta != 0 || far.NID != 0 {
		if o.DataFirst || metaBlk != first {
			far.Data, far.Meta, far.NID = 0, 0, 0
		}
		if far.NID != 0 {
			cut := pick("cutblock", 1, max(1, metaBlocks)) * bs
			for _, in := range inos {
				at := int(in.slot) * eSlot
				need := in.isz
				if in.inline {
					need += in.size % bs
				}
				if at < cut && at+need > cut || in.n == root && at >= cut {
					cut = 0
				}
			}
			for _, in := range inos {
				if cut > 0 && int(in.slot)*eSlot >= cut {
					in.nid += far.NID
					st["farNID"]++
				}
			}
			segs = append(segs, cut)
		}
		if far.Data > 0 && dataBlocks > 0 {
			st["farData"]++
		}
		if far.Meta > 0 {
			st["farMeta"]++
		}
	}
	metaOff := metaBlk * bs
	total := max(dataBlk+dataBlocks, first+metaBlocks)
	if o.DataFirst {
		total = metaBlk + metaBlocks
	}
	if inos[root].nid > 0xffff {
		panic("root inode number too large")
	}
	img := make([]byte, total*bs)
	if o.Garbage {
		copy(img, model.Bytes(99, 0, len(img)))
	}

	// with small blocks there is room before the superblock
	var boot *model.Node
	if free := eSBOff / bs; free > 0 && far.Data|far.Meta == 0 && far.NID == 0 {
		for _, n := range order {
			if _, ok := dataAt[n]; !ok {
				continue
			}
			blocks := (inos[n].size + bs - 1) / bs
			if inos[n].inline {
				blocks = inos[n].size / bs
			}
			if blocks <= free && pick("boot", 0, 2) == 0 {
				boot = n
				st["dataAtZero"]++
				break
			}
		}
	}

	put := func(off int, b []byte) { copy(img[off:off+len(b)], b) }
	le := binary.LittleEndian
	for _, n := range order {
		in := inos[n]
		var content []byte
		switch n.Kind {
		case model.Dir:
			content = encodeDir(n, in, bs, func(m *model.Node) (uint64, uint8) {
				m = real(m)
				return inos[m].nid, erofsFT(ErofsMode(m.FileMode()))
			})
		case model.Link:
			content = []byte(n.Target)
		default:
			content = n.Data
		}
		if len(content) != in.size {
			panic(fmt.Sprintf("size of %s: %d, planned %d", n.Path(), len(content), in.size))
		}
		if at, ok := dataAt[n]; ok {
			in.raw = uint32(dataBlk+at) + far.Data
			if n == boot {
				in.raw = 0
			}
		} else if pick("rawjunk", 0, 1) == 1 {
			in.raw = 0xffffffff // "no blocks", as mkfs writes it
		}
		if n.ModeType != 0 {
			in.raw = 0x0103 // rdev
		}
		off := metaOff + int(in.slot)*eSlot
		b := make([]byte, in.isz)
		format := uint16(0)
		if !in.compact {
			format |= 1
		}
		if in.inline {
			format |= 2 << 1
		}
		le.PutUint16(b[0:], format)
		le.PutUint16(b[4:], ErofsMode(n.FileMode()))
		if in.compact {
			le.PutUint16(b[6:], uint16(in.nlink))
			le.PutUint32(b[8:], uint32(in.size))
			le.PutUint32(b[16:], in.raw)
			le.PutUint32(b[20:], uint32(in.nid))
			le.PutUint16(b[24:], uint16(n.UID))
			le.PutUint16(b[26:], uint16(n.GID))
		} else {
			le.PutUint64(b[8:], uint64(in.size))
			le.PutUint32(b[16:], in.raw)
			le.PutUint32(b[20:], uint32(in.nid))
			le.PutUint32(b[24:], uint32(n.UID))
			le.PutUint32(b[28:], uint32(n.GID))
			le.PutUint64(b[32:], uint64(n.MTime.Unix()))
			le.PutUint32(b[40:], uint32(n.MTime.Nanosecond()))
			le.PutUint32(b[44:], uint32(in.nlink))
		}
		if k := len(in.xattr); k > 0 {
			// a header of 12 bytes and words of 4
			le.PutUint16(b[2:], uint16((k-12)/4+1))
			copy(b[in.isz-k:], in.xattr)
		}
		put(off, b)
		if in.inline {
			t := in.size % bs
			put(off+in.isz, content[in.size-t:])
			content = content[:in.size-t]
		}
		if len(content) > 0 {
			put(int(in.raw-far.Data)*bs, content)
		}
	}
	res := ErofsImage{Bytes: img, NID: map[*model.Node]uint64{}, Compact: map[*model.Node]bool{}, Nlink: map[*model.Node]int{}, Inline: map[*model.Node]bool{}, Stats: st}
	for _, n := range root.All() {
		res.Nlink[n] = inos[real(n)].nlink
		res.Inline[n] = inos[real(n)].inline
		res.NID[n] = inos[real(n)].nid
		res.Compact[n] = inos[real(n)].compact
	}
	sb := img[eSBOff : eSBOff+eSBSize]
	for i := range sb {
		sb[i] = 0
	}
	le.PutUint32(sb[0:], 0xE0F5E1E2)
	sb[12] = byte(o.BlkBits)
	le.PutUint16(sb[14:], uint16(inos[root].nid))
	le.PutUint64(sb[16:], uint64(len(order)))
	le.PutUint64(sb[24:], o.BuildTime)
	le.PutUint32(sb[32:], o.BuildNsec)
	le.PutUint32(sb[36:], uint32(min(int64(total)+int64(max(far.Data, far.Meta)), 1<<32-1)))
	le.PutUint32(sb[40:], uint32(metaBlk)+far.Meta)
	copy(sb[48:], "0123456789abcdef")
	copy(sb[64:], "volume")
	if len(o.Volume) > 0 {
		clear(sb[48:80])
		copy(sb[48:80], o.Volume)
	}
	if o.Checksum {
		le.PutUint32(sb[8:], 1)
		SealErofs(img)
	}
	if far.Data|far.Meta != 0 || far.NID != 0 {
		b := int64(bs)
		m := int64(first) + int64(far.Meta)
		cut := metaBlocks * bs
		if len(segs) > 0 && segs[0] > 0 {
			cut = min(segs[0], cut)
		}
		meta := img[first*bs : (first+metaBlocks)*bs]
		res.Segs = []Seg{
			{0, img[:first*bs]},
			{m * b, meta[:cut]},
			{m*b + int64(cut) + int64(far.NID)*eSlot, meta[cut:]},
			{(int64(dataBlk) + int64(far.Data)) * b, img[min(dataBlk*bs, len(img)):]},
		}
	}
	return res
}

func encodeDir(n *model.Node, in *eIno, bs int, nid func(*model.Node) (uint64, uint8)) []byte {
	ents := eEntries(n)
	var out bytes.Buffer
	at := 0
	for bi, cnt := range in.split {
		blk := ents[at : at+cnt]
		at += cnt
		off := 12 * cnt
		start := out.Len()
		for _, e := range blk {
			var d [12]byte
			id, ft := nid(e.n)
			binary.LittleEndian.PutUint64(d[0:], id)
			binary.LittleEndian.PutUint16(d[8:], uint16(off))
			d[10] = ft
			out.Write(d[:])
			off += len(e.name)
		}
		for _, e := range blk {
			out.WriteString(e.name)
		}
		if bi < len(in.split)-1 {
			out.Write(make([]byte, bs-(out.Len()-start)))
		} else {
			out.Write(make([]byte, in.pad))
		}
	}
	return out.Bytes()
}

// ErofsSumRange is the byte range the superblock checksum covers.
func ErofsSumRange(blkBits int) (int, int) {
	l := 1 << blkBits
	if l > eSBOff {
		l -= eSBOff
	}
	return eSBOff, eSBOff + l
}

// ErofsSum computes the checksum field of an image.
func ErofsSum(img []byte, blkBits int) uint32 {
	lo, hi := ErofsSumRange(blkBits)
	b := append([]byte{}, img[lo:hi]...)
	b[4], b[5], b[6], b[7] = 0, 0, 0, 0
	return ^crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli))
}

// SealErofs stores the checksum.
func SealErofs(img []byte) {
	binary.LittleEndian.PutUint32(img[eSBOff+4:], ErofsSum(img, int(img[eSBOff+12])))
}
