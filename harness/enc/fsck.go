package enc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"time"

	"verif/model"
)

// Fsck parses an image strictly and returns the tree it encodes, with every
// deviation from the on-disk format it finds.
func Fsck(img []byte) (*model.Node, []string) {
	c := &checker{img: img, seen: map[uint64]string{}}
	root := c.run()
	return root, c.bad
}

// FsckTight is Fsck for images that must not declare blocks beyond the last
// one in use.
func FsckTight(img []byte) (*model.Node, []string) {
	c := &checker{img: img, seen: map[uint64]string{}}
	root := c.run()
	used := int64(0)
	for _, e := range c.ext {
		used = max(used, e.hi)
	}
	if root != nil && c.blocks != (used+c.bs-1)/c.bs {
		c.errf("%d blocks are declared, the last one in use is %d", c.blocks, (used+c.bs-1)/c.bs-1)
	}
	return root, c.bad
}

type extent struct {
	lo, hi int64
	what   string
}

type checker struct {
	img     []byte
	bad     []string
	bs      int64
	meta    int64
	blocks  int64
	ext     []extent
	seen    map[uint64]string
	nInodes int
	btime   uint64
	bnsec   uint32
}

func (c *checker) errf(f string, a ...any) {
	if len(c.bad) < 10 {
		c.bad = append(c.bad, fmt.Sprintf(f, a...))
	}
}

func (c *checker) run() *model.Node {
	le := binary.LittleEndian
	if len(c.img) < eSBOff+eSBSize {
		c.errf("image has only %d bytes", len(c.img))
		return nil
	}
	sb := c.img[eSBOff:]
	if m := le.Uint32(sb); m != 0xE0F5E1E2 {
		c.errf("magic %#x", m)
		return nil
	}
	if sb[12] < 9 || sb[12] > 16 {
		c.errf("block size bits %d", sb[12])
		return nil
	}
	c.bs = 1 << sb[12]
	rootNid := uint64(le.Uint16(sb[14:]))
	inodes := le.Uint64(sb[16:])
	c.btime, c.bnsec = le.Uint64(sb[24:]), le.Uint32(sb[32:])
	c.blocks = int64(le.Uint32(sb[36:]))
	c.meta = int64(le.Uint32(sb[40:])) * c.bs
	if f := le.Uint32(sb[80:]); f != 0 {
		c.errf("incompatible features %#x", f)
	}
	_, hi := ErofsSumRange(int(sb[12]))
	full := c.img
	if len(full) < hi {
		full = append(append([]byte{}, c.img...), make([]byte, hi-len(c.img))...)
	}
	if got, want := le.Uint32(sb[4:]), ErofsSum(full, int(sb[12])); got != want {
		// a zero field with the feature off is legal too
		if le.Uint32(sb[8:])&1 != 0 || got != 0 {
			c.errf("checksum field %#x, computed %#x", got, want)
		}
	}
	c.ext = append(c.ext, extent{eSBOff, eSBOff + eSBSize, "superblock"})
	root := c.inode(rootNid, "", ".", rootNid)
	if root == nil {
		return nil
	}
	if root.Kind != model.Dir {
		c.errf("root is not a directory")
		return nil
	}
	if uint64(c.nInodes) != inodes {
		c.errf("superblock declares %d inodes, %d are reachable", inodes, c.nInodes)
	}
	sort.Slice(c.ext, func(i, j int) bool { return c.ext[i].lo < c.ext[j].lo })
	for i := 1; i < len(c.ext); i++ {
		if c.ext[i].lo < c.ext[i-1].hi {
			c.errf("%s [%d,%d) overlaps %s [%d,%d)", c.ext[i].what, c.ext[i].lo, c.ext[i].hi, c.ext[i-1].what, c.ext[i-1].lo, c.ext[i-1].hi)
		}
	}
	for _, e := range c.ext {
		if e.hi > c.blocks*c.bs {
			c.errf("%s [%d,%d) ends beyond the declared %d blocks", e.what, e.lo, e.hi, c.blocks)
		}
		if e.hi > int64(len(c.img)) {
			c.errf("%s [%d,%d) ends beyond the image of %d bytes", e.what, e.lo, e.hi, len(c.img))
		}
	}
	return root
}

func (c *checker) at(lo, n int64, what string) []byte {
	if lo < 0 || n < 0 || lo+n > int64(len(c.img)) {
		c.errf("%s at [%d,%d) outside the image of %d bytes", what, lo, lo+n, len(c.img))
		return nil
	}
	return c.img[lo : lo+n]
}

func (c *checker) inode(nid uint64, name, p string, parent uint64) *model.Node {
	if by, ok := c.seen[nid]; ok {
		c.errf("inode %d of %q already used by %q", nid, p, by)
		return nil
	}
	c.seen[nid] = p
	c.nInodes++
	le := binary.LittleEndian
	off := c.meta + int64(nid)*eSlot
	h := c.at(off, 32, "inode of "+p)
	if h == nil {
		return nil
	}
	format := le.Uint16(h)
	if format&^0xf != 0 {
		c.errf("%q: unknown format bits %#x", p, format)
	}
	isz := int64(32)
	if format&1 == 1 {
		isz = 64
		if h = c.at(off, 64, "inode of "+p); h == nil {
			return nil
		}
	}
	layout := format >> 1 & 7
	if layout != 0 && layout != 2 {
		c.errf("%q: data layout %d", p, layout)
		return nil
	}
	if x := le.Uint16(h[2:]); x != 0 {
		c.errf("%q: xattr count %d", p, x)
	}
	mode := le.Uint16(h[4:])
	n := &model.Node{Name: name}
	var size int64
	var nlink uint32
	if isz == 32 {
		nlink = uint32(le.Uint16(h[6:]))
		size = int64(le.Uint32(h[8:]))
		n.UID, n.GID = int(le.Uint16(h[24:])), int(le.Uint16(h[26:]))
		n.MTime = time.Unix(int64(c.btime), int64(c.bnsec))
	} else {
		size = int64(le.Uint64(h[8:]))
		n.UID, n.GID = int(le.Uint32(h[24:])), int(le.Uint32(h[28:]))
		n.MTime = time.Unix(int64(le.Uint64(h[32:])), int64(le.Uint32(h[40:])))
		nlink = le.Uint32(h[44:])
		if le.Uint32(h[40:]) > 999999999 {
			c.errf("%q: nanoseconds %d", p, le.Uint32(h[40:]))
		}
	}
	raw := int64(le.Uint32(h[16:]))
	if ino := le.Uint32(h[20:]); uint64(ino) != nid {
		c.errf("%q: inode %d says its number is %d", p, nid, ino)
	}
	if size < 0 {
		c.errf("%q: size %d", p, size)
		return nil
	}
	n.Mode = fs.FileMode(mode & 0o777)
	if mode&0o4000 != 0 {
		n.Mode |= fs.ModeSetuid
	}
	if mode&0o2000 != 0 {
		n.Mode |= fs.ModeSetgid
	}
	if mode&0o1000 != 0 {
		n.Mode |= fs.ModeSticky
	}
	// contents
	tail := int64(0)
	if layout == 2 {
		tail = size % c.bs
		if tail == 0 {
			c.errf("%q: inline layout with nothing inline (size %d)", p, size)
			return nil
		}
		if off%c.bs+isz+tail > c.bs {
			c.errf("%q: inline data crosses a block (inode at %d, %d+%d bytes)", p, off%c.bs, isz, tail)
		}
	}
	c.ext = append(c.ext, extent{off, off + isz + tail, "inode of " + p})
	var content []byte
	if k := size - tail; k > 0 {
		hi := (k + c.bs - 1) / c.bs * c.bs
		c.ext = append(c.ext, extent{raw * c.bs, raw*c.bs + k, "data of " + p})
		if raw*c.bs+hi > c.blocks*c.bs {
			c.errf("data of %q ends beyond the declared blocks", p)
		}
		b := c.at(raw*c.bs, k, "data of "+p)
		if b == nil {
			return nil
		}
		content = append(content, b...)
	}
	if tail > 0 {
		b := c.at(off+isz, tail, "inline data of "+p)
		if b == nil {
			return nil
		}
		content = append(content, b...)
	}
	switch mode & 0o170000 {
	case 0o100000:
		n.Kind, n.Data = model.File, content
		if n.Data == nil {
			n.Data = []byte{}
		}
		if nlink != 1 {
			c.errf("%q: link count %d of a file", p, nlink)
		}
	case 0o120000:
		n.Kind, n.Target = model.Link, string(content)
		if nlink != 1 {
			c.errf("%q: link count %d of a link", p, nlink)
		}
	case 0o040000:
		n.Kind, n.Kids = model.Dir, map[string]*model.Node{}
		if nlink < 2 {
			c.errf("%q: link count %d of a directory", p, nlink)
		}
		c.dir(n, content, nid, parent, p)
		subdirs := 0
		for _, k := range n.Kids {
			if k.Kind == model.Dir {
				subdirs++
			}
		}
		if int64(nlink) < int64(2+subdirs) {
			c.errf("%q: link count %d of a directory with %d directories in it", p, nlink, subdirs)
		}
	case 0o060000, 0o020000, 0o010000, 0o140000:
		n.Kind = model.File
		n.ModeType = map[int]fs.FileMode{0o060000: fs.ModeDevice, 0o020000: fs.ModeDevice | fs.ModeCharDevice, 0o010000: fs.ModeNamedPipe, 0o140000: fs.ModeSocket}[int(mode&0o170000)]
		if len(content) != 0 {
			c.errf("%q: %d bytes of data in a special file", p, len(content))
		}
	default:
		c.errf("%q: mode %o", p, mode)
		return nil
	}
	return n
}

func (c *checker) dir(n *model.Node, content []byte, nid, parent uint64, p string) {
	le := binary.LittleEndian
	last := ""
	dots := map[string]bool{}
	for blk := 0; len(content) > 0; blk++ {
		b := content
		if int64(len(b)) > c.bs {
			b = b[:c.bs]
		}
		content = content[len(b):]
		if len(b) < 12 {
			c.errf("%q: directory block %d has %d bytes", p, blk, len(b))
			return
		}
		off0 := int(le.Uint16(b[8:]))
		if off0 == 0 || off0%12 != 0 || off0 >= len(b) {
			c.errf("%q: directory block %d: first name offset %d", p, blk, off0)
			return
		}
		cnt := off0 / 12
		prev := off0
		for i := 0; i < cnt; i++ {
			d := b[12*i:]
			lo := int(le.Uint16(d[8:]))
			hi := len(b)
			if i < cnt-1 {
				hi = int(le.Uint16(b[12*(i+1)+8:]))
			}
			if lo != prev || hi <= lo || hi > len(b) {
				c.errf("%q: directory block %d entry %d: name at [%d,%d)", p, blk, i, lo, hi)
				return
			}
			prev = hi
			nm := b[lo:hi]
			if i == cnt-1 {
				if z := bytes.IndexByte(nm, 0); z >= 0 {
					for _, x := range nm[z:] {
						if x != 0 {
							c.errf("%q: directory block %d: junk after the last name", p, blk)
							break
						}
					}
					nm = nm[:z]
				}
			}
			name := string(nm)
			if len(name) == 0 || len(name) > 255 || bytes.IndexByte(nm, 0) >= 0 || bytes.IndexByte(nm, '/') >= 0 {
				c.errf("%q: bad entry name %q", p, name)
				return
			}
			if last != "" && name <= last {
				c.errf("%q: entry %q after %q: not strictly sorted", p, name, last)
			}
			last = name
			id := le.Uint64(d)
			ft := d[10]
			if d[11] != 0 {
				c.errf("%q: entry %q: reserved byte %d", p, name, d[11])
			}
			switch name {
			case ".", "..":
				dots[name] = true
				want := nid
				if name == ".." {
					want = parent
				}
				if id != want {
					c.errf("%q: entry %q is inode %d, expected %d", p, name, id, want)
				}
				if ft != 2 {
					c.errf("%q: entry %q has type %d", p, name, ft)
				}
				continue
			}
			k := c.inode(id, name, path.Join(p, name), nid)
			if k == nil {
				continue
			}
			n.Add(k)
			if w := erofsFT(ErofsMode(k.FileMode())); ft != w {
				c.errf("%q: entry %q has type %d, its inode %d", p, name, ft, w)
			}
		}
	}
	if !dots["."] {
		c.errf("%q: no \".\" entry", p)
	}
	if !dots[".."] && n.Name != "" {
		c.errf("%q: no \"..\" entry", p)
	}
}
