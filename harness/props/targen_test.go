package props

import (
	"archive/tar"
	"fmt"
	"io/fs"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/enc"
	"verif/model"
)

// tarCase is a generated tar archive and the tree it means.
type tarCase struct {
	Hard    map[*model.Node]*model.Node
	Duped   map[string]bool
	Entries []*enc.TarEntry
	Bytes   []byte
	Tree    *model.Node
	Labels  map[string]bool
}

func (c *tarCase) label(s string) { c.Labels[s] = true }

func (c *tarCase) labels() []string {
	var out []string
	for l := range c.Labels {
		out = append(out, l)
	}
	return out
}

func (c *tarCase) String() string {
	var b strings.Builder
	for _, e := range c.Entries {
		fmt.Fprintf(&b, "%c %q link=%q mode=%v %d:%d mtime=%d.%09d size=%d dialect=%d sparse=%d\n", e.Type, e.Name, e.Link, e.Mode, e.UID, e.GID, e.MTime.Unix(), e.MTime.Nanosecond(), len(e.Data), e.Dialect, e.Sparse)
	}
	return b.String()
}

type tarOpts struct {
	MaxNodes int
	MaxSize  int
	NoHard   bool
	NoDup    bool
	NoSparse bool
	Plain    bool // every directory has an entry, parents first
	LinkRich bool
	IDOwner  bool // UID identifies the node
	Deep     bool // sometimes with a deep chain of directories
	Remains  bool // sometimes followed by what is no part of the archive
}

// tarTreeOpts are trees a tar stream can hold.
func tarTreeOpts(o tarOpts) model.TreeOpts {
	if o.MaxNodes == 0 {
		o.MaxNodes = 12
	}
	if o.MaxSize == 0 {
		o.MaxSize = 6000
	}
	return model.TreeOpts{MaxNodes: o.MaxNodes, MaxSize: o.MaxSize, Special: true, TimeLevel: 2, Names: model.NameOpts{NonUTF8: true}, MaxOwner: 1<<31 - 1}
}

// genTar draws an archive.
func genTar(t *rapid.T, o tarOpts) *tarCase {
	c := &tarCase{Labels: map[string]bool{}}
	var root *model.Node
	if o.LinkRich {
		root = linkTree(t, tarTreeOpts(o))
	} else {
		root = model.Tree(tarTreeOpts(o)).Draw(t, "tree")
	}
	c.Tree = root
	if o.Deep {
		maybeDeep(t, root)
	}
	root.Mode, root.UID, root.GID, root.MTime = 0o755, 0, 0, time.Time{}
	root.Implied = true

	id := 0
	var nodes []*model.Node
	for _, n := range root.All() {
		if n != root {
			id++
			if o.IDOwner {
				n.UID = id
			}
			nodes = append(nodes, n)
		}
	}

	// hard links: replace some nodes' own data by a link to another node
	hard := map[*model.Node]*model.Node{} // link -> direct target
	if !o.NoHard {
		var cands []*model.Node
		for _, n := range nodes {
			if n.Kind == model.File || n.Kind == model.Link {
				cands = append(cands, n)
			}
		}
		if len(cands) > 0 {
			for i := rapid.IntRange(0, 4).Draw(t, "hardlinks"); i > 0; i-- {
				tgt := rapid.SampledFrom(cands).Draw(t, "hardto")
				if tgt.Kind == model.Link && rapid.IntRange(0, 2).Draw(t, "hardsym") != 0 {
					continue
				}
				dirs := dirsOf(root)
				d := rapid.SampledFrom(dirs).Draw(t, "harddir")
				name := model.Uniq(d, model.Name(model.NameOpts{}).Draw(t, "hardname"), model.NameOpts{})
				h := &model.Node{Name: name, Kind: tgt.Kind, Mode: tgt.Mode, UID: tgt.UID, GID: tgt.GID, MTime: tgt.MTime, Data: tgt.Data, Target: tgt.Target}
				d.Add(h)
				hard[h] = tgt
				if hard[tgt] != nil {
					c.label("hardchain")
				}
				cands = append(cands, h)
				nodes = append(nodes, h)
				c.label("hardlink")
			}
			// a long chain of them
			if rapid.IntRange(0, 11).Draw(t, "hardlong") == 0 {
				tgt := rapid.SampledFrom(cands).Draw(t, "hardend")
				d := rapid.SampledFrom(dirsOf(root)).Draw(t, "hardlongdir")
				for i := rapid.SampledFrom([]int{4, 9, 17, 33, 41, 60, 70, 150}).Draw(t, "hardlength"); i > 0 && tgt.Kind == model.File; i-- {
					h := &model.Node{Name: model.Uniq(d, fmt.Sprintf("hc%d", i), model.NameOpts{}), Kind: tgt.Kind, MTime: time.Unix(int64(i), 0)}
					d.Add(h)
					hard[h] = tgt
					nodes = append(nodes, h)
					tgt = h
					c.label("long hardchain")
				}
			}
		}
	}

	var es []*enc.TarEntry
	byNode := map[*model.Node]*enc.TarEntry{}
	dialect := rapid.IntRange(0, 7).Draw(t, "dialects") // 0..3 one for all, else per entry
	for _, n := range nodes {
		// directories may be implied by what they hold
		if n.Kind == model.Dir && !o.Plain && !o.IDOwner && len(n.Kids) > 0 && rapid.IntRange(0, 2).Draw(t, "implied") == 0 {
			n.Implied = true
			n.Mode, n.UID, n.GID, n.MTime = 0o755, 0, 0, time.Time{}
			c.label("implied")
			continue
		}
		if n.MTime.IsZero() {
			n.MTime = time.Unix(0, 0)
		}
		e := &enc.TarEntry{Name: n.Path(), Mode: n.Mode, UID: n.UID, GID: n.GID, MTime: n.MTime}
		e.TypeBits = rapid.IntRange(0, 5).Draw(t, "typebits") == 0
		d := dialect
		if d > 3 {
			d = rapid.IntRange(0, 3).Draw(t, "dialect")
		}
		e.Dialect = enc.TarDialect(d)
		switch n.Kind {
		case model.File:
			e.Type, e.Data = tar.TypeReg, n.Data
		case model.Dir:
			e.Type = tar.TypeDir
		case model.Link:
			e.Type, e.Link = tar.TypeSymlink, n.Target
		}
		if tgt := hard[n]; tgt != nil {
			e.Type, e.Data = tar.TypeLink, nil
			e.Link = rapid.SampledFrom([]string{"", "", "./", "/"}).Draw(t, "hardprefix") + tgt.Path()
			// the metadata of the link entry itself is not what counts
			e.Mode, e.UID, e.GID = 0o600, 7, 7
		}
		switch rapid.IntRange(0, 5).Draw(t, "prefix") {
		case 0:
			e.Name = "./" + e.Name
		case 1:
			e.Name = "/" + e.Name
		}
		if n.Kind == model.Dir && rapid.IntRange(0, 2).Draw(t, "slash") > 0 {
			e.Name += "/"
		}
		// a time the chosen dialect cannot hold moves the entry to PAX
		if !e.CanEncode() {
			n.MTime = time.Unix(n.MTime.Unix()&0x7fffffff, 0)
			e.MTime = n.MTime
			if !e.CanEncode() {
				// names outside UTF-8 together with large numbers
				n.UID, n.GID = n.UID&0xffff, n.GID&0xffff
				e.UID, e.GID = n.UID, n.GID
			}
		}
		if e.Type == tar.TypeReg && !o.NoSparse && len(n.Data) > 0 && rapid.IntRange(0, 7).Draw(t, "sparse") == 0 {
			makeSparse(t, c, n, e)
		}
		if e.Dialect == enc.TarV7 && e.FitsV7() && e.Sparse == 0 {
			c.label("v7")
		}
		byNode[n] = e
		es = append(es, e)
	}
	// hard links show what they finally link to
	for _, n := range nodes {
		if hard[n] == nil {
			continue
		}
		f := n
		for hard[f] != nil {
			f = hard[f]
		}
		n.Mode, n.UID, n.GID, n.MTime, n.Data = f.Mode, f.UID, f.GID, f.MTime, f.Data
	}

	// order
	switch k := rapid.IntRange(0, 5).Draw(t, "order"); {
	case o.Plain || k == 0:
	case k == 1:
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
		c.label("reversed")
	default:
		es = rapid.Permutation(es).Draw(t, "perm")
		c.label("shuffled")
	}

	c.Hard = hard
	c.Duped = map[string]bool{}
	// earlier versions of an entry
	if !o.NoDup && len(es) > 0 {
		isTarget := map[*enc.TarEntry]bool{}
		for h, tgt := range hard {
			_ = h
			isTarget[byNode[tgt]] = true
		}
		for i := rapid.IntRange(0, 2).Draw(t, "dups"); i > 0; i-- {
			k := rapid.IntRange(0, len(es)-1).Draw(t, "dupof")
			e := es[k]
			if isTarget[e] {
				continue
			}
			old := &enc.TarEntry{Type: e.Type, Name: e.Name, Link: e.Link, Mode: model.Perm(false).Draw(t, "dupmode"), UID: 3, GID: 3, MTime: time.Unix(1, 0), Dialect: enc.TarDialect(rapid.IntRange(0, 2).Draw(t, "dupdialect"))}
			switch e.Type {
			case tar.TypeDir:
			default:
				switch rapid.IntRange(0, 3).Draw(t, "duptype") {
				case 0:
					old.Type, old.Link, old.Data = tar.TypeSymlink, "old", nil
				case 1:
					// a hard link to another entry
					to := rapid.SampledFrom(nodes).Draw(t, "dupto")
					if to.Kind == model.Dir || byNode[to] == e || hard[to] != nil {
						continue
					}
					old.Type, old.Link, old.Data = tar.TypeLink, to.Path(), nil
					c.label("duplicate hard link")
				default:
					old.Type, old.Link, old.Data = tar.TypeReg, "", model.Content(1500).Draw(t, "olddata")
				}
			}
			if !old.CanEncode() {
				continue
			}
			at := rapid.IntRange(0, k).Draw(t, "dupat")
			es = append(es[:at:at], append([]*enc.TarEntry{old}, es[at:]...)...)
			c.label("duplicate")
			for n, x := range byNode {
				if x == e {
					c.Duped[n.Path()] = true
				}
			}
		}
	}
	// a junk root entry and global headers
	if rapid.IntRange(0, 3).Draw(t, "rootentry") == 0 {
		r := &enc.TarEntry{Type: tar.TypeDir, Name: rapid.SampledFrom([]string{"./", ".", "/"}).Draw(t, "rootname"), Mode: 0o700, MTime: time.Unix(5, 0)}
		at := rapid.IntRange(0, len(es)).Draw(t, "rootat")
		es = append(es[:at:at], append([]*enc.TarEntry{r}, es[at:]...)...)
		c.label("rootentry")
	}
	for i := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3}).Draw(t, "global"); i > 0; i-- {
		g := &enc.TarEntry{Type: tar.TypeXGlobalHeader, Name: "pax_global_header", Records: map[string]string{"comment": strings.Repeat("c", rapid.SampledFrom([]int{1, 100, 490, 600}).Draw(t, "globallen"))}}
		if rare(t, "globalempty", 6) {
			g.Records = nil
		}
		at := rapid.IntRange(0, len(es)).Draw(t, "globalat")
		es = append(es[:at:at], append([]*enc.TarEntry{g}, es[at:]...)...)
		c.label("global")
	}
	c.Entries = es
	trailer := rapid.SampledFrom([]int{2, 2, 2, 20, 0}).Draw(t, "trailer")
	c.Bytes = enc.EncodeTar(es, trailer)
	if o.Remains && trailer >= 2 && rare(t, "remains", 12) {
		// what follows the end of an archive is undefined, such as the rest of
		// the one that was there before
		var old []byte
		if rapid.Bool().Draw(t, "oldarchive") {
			old = enc.EncodeTar([]*enc.TarEntry{{Type: tar.TypeReg, Name: "old", Mode: 0o644, MTime: time.Unix(1, 0), Data: model.Bytes(3, 0, 700)}}, 2)
		} else {
			old = model.Bytes(rapid.Uint64Range(0, 1000).Draw(t, "oldbytes"), 0, 512*rapid.IntRange(1, 4).Draw(t, "oldblocks"))
		}
		c.Bytes = append(c.Bytes, old...)
		c.label("remains")
	}
	for _, e := range es {
		if e.Sparse != 0 {
			c.label(fmt.Sprintf("sparse%d", e.Sparse))
		}
		if e.End-e.Off > 1024 && e.Type != tar.TypeReg {
			c.label("longheader")
		}
	}
	return c
}

func makeSparse(t *rapid.T, c *tarCase, n *model.Node, e *enc.TarEntry) {
	k := enc.SparseKind(rapid.IntRange(1, 4).Draw(t, "sparsekind"))
	if k == enc.SparseGNU && strings.Contains(e.Name, "\x00") {
		return
	}
	if k != enc.SparseGNU && !utf8.ValidString(n.Path()) {
		return
	}
	if e.MTime.Unix() < 0 || e.MTime.Unix() >= 1<<33 || e.MTime.Nanosecond() != 0 && k == enc.SparseGNU {
		n.MTime = time.Unix(e.MTime.Unix()&0x7fffffff, 0)
		e.MTime = n.MTime
	}
	e.Sparse = k
	data := append([]byte{}, n.Data...)
	var fr []enc.Frag
	cnt := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 25, 30}).Draw(t, "frags")
	pos := 0
	keep := make([]bool, len(data))
	for i := 0; i < cnt && pos < len(data); i++ {
		off := pos + rapid.IntRange(0, 1+len(data)/(cnt+1)).Draw(t, "gap")
		l := rapid.IntRange(1, 1+len(data)/(cnt+1)).Draw(t, "fraglen")
		if off >= len(data) {
			break
		}
		l = min(l, len(data)-off)
		fr = append(fr, enc.Frag{Off: off, Len: l})
		for j := off; j < off+l; j++ {
			keep[j] = true
		}
		pos = off + l
	}
	if pos < len(data) {
		// GNU tar ends the map with an empty piece at the end
		fr = append(fr, enc.Frag{Off: len(data), Len: 0})
	}
	for i := range data {
		if !keep[i] {
			data[i] = 0
		}
	}
	e.Frags, e.Data, n.Data = fr, data, data
}

func dirsOf(root *model.Node) []*model.Node {
	var out []*model.Node
	for _, n := range root.All() {
		if n.Kind == model.Dir {
			out = append(out, n)
		}
	}
	return out
}

// linkTree draws a tree with many symbolic links.
func linkTree(t *rapid.T, o model.TreeOpts) *model.Node {
	root := model.NewDir("", 0o755)
	dirs := []*model.Node{root}
	names := []string{"a", "b", "c", "d", ".e", "a-b"}
	n := rapid.IntRange(2, 14).Draw(t, "nodes")
	var links []*model.Node
	for i := 0; i < n; i++ {
		d := rapid.SampledFrom(dirs).Draw(t, "parent")
		name := model.Uniq(d, rapid.SampledFrom(names).Draw(t, "name"), o.Names)
		c := &model.Node{Name: name, Mode: 0o644, MTime: time.Unix(int64(i)+1, 0)}
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1:
			c.Kind = model.File
			c.Data = []byte(fmt.Sprintf("file %d", i))
		case 2, 3, 4, 5:
			c.Kind = model.Dir
			c.Mode = 0o755
			c.Kids = map[string]*model.Node{}
			dirs = append(dirs, c)
		default:
			c.Kind = model.Link
			c.Mode = 0o777
			links = append(links, c)
		}
		d.Add(c)
	}
	for i, l := range links {
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "chain") == 0 {
			l.Target = model.Rel(l.Parent, links[i-1])
			if rapid.Bool().Draw(t, "abschain") {
				l.Target = "/" + links[i-1].Path()
			}
			continue
		}
		l.Target = model.Target(t, root, l)
		if rapid.IntRange(0, 24).Draw(t, "emptytarget") == 0 {
			l.Target = "" // which leads nowhere
		}
	}
	// sometimes a long chain or cycle
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		d := rapid.SampledFrom(dirs).Draw(t, "longdir")
		k := rapid.SampledFrom([]int{2, 5, 12, 18}).Draw(t, "longlen")
		end := "missing"
		switch rapid.IntRange(0, 3).Draw(t, "longend") {
		case 0:
			end = "ch0"
		case 1, 2:
			end = model.Rel(d, rapid.SampledFrom(root.All()).Draw(t, "longto"))
		}
		for i := 0; i < k; i++ {
			tgt := fmt.Sprintf("ch%d", i+1)
			if i == k-1 {
				tgt = end
			}
			d.Add(&model.Node{Name: fmt.Sprintf("ch%d", i), Kind: model.Link, Mode: 0o777, Target: tgt, MTime: time.Unix(100+int64(i), 0)})
		}
	}
	return root
}

var _ = fs.ModeDir
