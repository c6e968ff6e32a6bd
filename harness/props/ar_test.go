package props

import (
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/enc"
	"verif/ev"
	"verif/model"
)

// arCase is a generated archive and what it means.
type arCase struct {
	Members []enc.ArMember
	Bytes   []byte
	At      []int
	Tree    *model.Node
	Labels  map[string]bool
}

func (c *arCase) String() string {
	var b strings.Builder
	for _, m := range c.Members {
		fmt.Fprintf(&b, "%q slash=%v mtime=%q uid=%q gid=%q mode=%q size=%d right=%v\n", m.Name, m.Slash, m.MTime, m.UID, m.GID, m.Mode, len(m.Data), m.Right)
	}
	return b.String()
}

func (c *arCase) labels() []string {
	var out []string
	for l := range c.Labels {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

// arName draws a member name.
func arName(t *rapid.T) string {
	n := model.Name(model.NameOpts{MaxLen: 16, NonUTF8: false}).Draw(t, "name")
	// the column pads with blanks, and a final slash is the terminator
	n = strings.TrimRight(n, " ")
	return model.FixName(n, model.NameOpts{MaxLen: 16})
}

// genAr draws an archive; blanks allows names that end in blanks, which need the
// terminating slash, and a newline after the end.
func genAr(t *rapid.T, maxMembers, maxSize int, blanks ...bool) *arCase {
	c := &arCase{Tree: model.NewDir("", 0), Labels: map[string]bool{}}
	n := rapid.IntRange(0, maxMembers).Draw(t, "members")
	for i := 0; i < n; i++ {
		name := model.Uniq(c.Tree, arName(t), model.NameOpts{MaxLen: 16})
		blank := len(blanks) > 0 && len(name) < 15 && rapid.IntRange(0, 7).Draw(t, "finalblank") == 0
		if blank {
			name = model.Uniq(c.Tree, name+" ", model.NameOpts{MaxLen: 15})
			c.Labels["name that ends in a blank"] = true
		}
		m := enc.ArMember{Name: name, Data: model.Content(maxSize).Draw(t, "data"), Right: rapid.IntRange(0, 9).Draw(t, "right") == 0, Zeros: rapid.IntRange(0, 9).Draw(t, "zeros") == 0}
		if len(name) < 16 {
			m.Slash = rapid.Bool().Draw(t, "slash") || blank
		} else {
			c.Labels["16 byte name"] = true
		}
		node := &model.Node{Name: name, Kind: model.File, Data: m.Data, Mode: model.Perm(true).Draw(t, "mode"), MTime: time.Unix(0, 0)}
		sec := rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 999999999, 1700000000, 1 << 31, 999999999999}), rapid.Int64Range(0, 1<<32)).Draw(t, "mtime")
		if rapid.IntRange(0, 9).Draw(t, "before1970") == 0 {
			sec = -sec % 99999999999
		}
		if rapid.IntRange(0, 5).Draw(t, "blanktime") > 0 {
			m.MTime = strconv.FormatInt(sec, 10)
			node.MTime = time.Unix(sec, 0)
		} else {
			c.Labels["blank column"] = true
		}
		if rapid.IntRange(0, 5).Draw(t, "blankuid") > 0 {
			node.UID = model.Owner(999999).Draw(t, "uid")
			m.UID = strconv.Itoa(node.UID)
		} else {
			c.Labels["blank column"] = true
		}
		if rapid.IntRange(0, 5).Draw(t, "blankgid") > 0 {
			node.GID = model.Owner(999999).Draw(t, "gid")
			m.GID = strconv.Itoa(node.GID)
		} else {
			c.Labels["blank column"] = true
		}
		mode := int64(enc.ErofsMode(node.Mode)) &^ 0o170000
		switch rapid.IntRange(0, 2).Draw(t, "modeform") {
		case 0:
			m.Mode = strconv.FormatInt(mode|0o100000, 8)
		case 1:
			m.Mode = fmt.Sprintf("%07o", mode)
		default:
			m.Mode = strconv.FormatInt(mode, 8)
		}
		if len(m.Data)%2 == 1 {
			c.Labels["odd size"] = true
		}
		if len(m.Data) == 0 {
			c.Labels["empty member"] = true
		}
		if name[0] == '.' || name[0] == ' ' || name[0] >= 0x80 || strings.Contains(name, " ") {
			c.Labels["odd name"] = true
		}
		c.Tree.Add(node)
		c.Members = append(c.Members, m)
	}
	if maxMembers >= 8 && rare(t, "crowd", 1000) {
		for i := rapid.SampledFrom([]int{255, 300, 1001, 2000}).Draw(t, "crowdsize"); i > 0; i-- {
			name := model.Uniq(c.Tree, fmt.Sprintf("m%d", i), model.NameOpts{MaxLen: 16})
			m := enc.ArMember{Name: name, Data: []byte(name)[:i%3], MTime: strconv.Itoa(i), UID: "7", GID: "9", Mode: "100640"}
			c.Tree.Add(&model.Node{Name: name, Kind: model.File, Data: m.Data, Mode: 0o640, MTime: time.Unix(int64(i), 0), UID: 7, GID: 9})
			c.Members = append(c.Members, m)
		}
		c.Labels["hundreds of members"] = true
	} else if len(c.Members) > 1 && rapid.Bool().Draw(t, "shuffle") {
		c.Members = rapid.Permutation(c.Members).Draw(t, "order")
	}
	c.Bytes, c.At = enc.EncodeAr(c.Members, rapid.IntRange(0, 2).Draw(t, "finalpad") > 0)
	if len(blanks) > 0 && len(c.Bytes)%2 == 0 && rapid.IntRange(0, 7).Draw(t, "newline") == 0 {
		c.Bytes = append(c.Bytes, '\n')
		c.Labels["newline after the end"] = true
	}
	return c
}

// C12: every well-formed archive is served exactly.
func TestC12(t *testing.T) {
	st := ev.Start(t, "C12", "a generated ar archive (names with and without terminating slash, blank and filled columns, left and right aligned, zero-filled, odd and empty members, member order, final padding, names that end in a blank, a newline after the end); non-trivial: at least 2 members and one of odd size, 16 byte name, odd name, blank column; distinct by archive bytes")
	check(t, func(t *rapid.T) {
		c := genAr(t, 8, 3000, true)
		st.Case(len(c.Members) >= 2 && len(c.Labels) > 0, hashOf(c.Bytes), c.labels()...)
		st.Sample(c.String)
		fsys, err := openAr(c.Bytes)
		must(t, err, "Open of a well-formed archive\n%s", c)
		seen, err := model.Observe(fsys, model.ObserveOpts{Owner: owners})
		must(t, err, "reading a well-formed archive\n%s", c)
		if d := model.Diff(c.Tree, seen, model.Want{SkipRoot: true, Owner: true}); d != "" {
			t.Fatalf("the filesystem differs from the archive: %s\n%s", d, c)
		}
		if rapid.IntRange(0, 7).Draw(t, "huge") == 0 {
			st.Label(hugeMembers(t), 1)
		}
	})
}

// hugeMembers looks at an archive of members up to the largest size the format
// can tell.
func hugeMembers(t *rapid.T) string {
	segs := []enc.Seg{{Off: 0, Data: []byte("!<arch>\n")}}
	off := int64(8)
	n := rapid.IntRange(1, 5).Draw(t, "hugemembers")
	sizes := make([]int64, n)
	pieces := make([][]enc.Seg, n)
	for i := range sizes {
		switch rapid.IntRange(0, 4).Draw(t, "sizesort") {
		case 0:
			sizes[i] = rapid.Int64Range(0, 100).Draw(t, "size")
		case 1:
			sizes[i] = 1<<31 + rapid.Int64Range(-3, 3).Draw(t, "size")
		case 2:
			sizes[i] = 1<<32 + rapid.Int64Range(-3, 3).Draw(t, "size")
		default:
			sizes[i] = rapid.Int64Range(1<<32, 9999999999).Draw(t, "size")
		}
		name := fmt.Sprintf("m%d", i)
		segs = append(segs, enc.Seg{Off: off, Data: []byte(fmt.Sprintf("%-16s%-12d%-6d%-6d%-8o%-10d`\n", name, i, 0, 0, 0o100644, sizes[i]))})
		off += 60
		for _, at := range []int64{0, 1<<31 - 3, 1<<32 - 3, sizes[i] - 8} {
			p := enc.Seg{Off: at, Data: []byte(fmt.Sprintf("<%d@%d>", i, at%100))}
			clash := at < 0 || at+int64(len(p.Data)) > sizes[i]
			for _, q := range pieces[i] {
				clash = clash || q.Off < at+10 && at < q.Off+10
			}
			if !clash {
				pieces[i] = append(pieces[i], p)
				segs = append(segs, enc.Seg{Off: off + at, Data: p.Data})
			}
		}
		off += sizes[i]
		if sizes[i]%2 == 1 {
			segs = append(segs, enc.Seg{Off: off, Data: []byte("\n")})
			off++
		}
	}
	desc := fmt.Sprintf("members m0, m1, ... of %d bytes", sizes)
	fsys, err := openAs("ar", onlyReaderAt{&enc.Sparse{Segs: segs, Size: off}})
	must(t, err, "Open of a well-formed archive; %s", desc)
	list, err := fs.ReadDir(fsys, ".")
	must(t, err, "ReadDir; %s", desc)
	if len(list) != n {
		t.Fatalf("ReadDir gives %d entries; %s", len(list), desc)
	}
	label := "huge members, start read"
	for i, size := range sizes {
		name := fmt.Sprintf("m%d", i)
		info, err := list[i].Info()
		must(t, err, "Info; %s", desc)
		fi, err := fs.Stat(fsys, name)
		must(t, err, "Stat(%q); %s", name, desc)
		if list[i].Name() != name || info.Size() != size || fi.Size() != size {
			t.Fatalf("%q: listed as %q of %d bytes, Stat says %d; %s", name, list[i].Name(), info.Size(), fi.Size(), desc)
		}
		f, err := fsys.Open(name)
		must(t, err, "Open(%q); %s", name, desc)
		limit := int64(1 << 14)
		if rare(t, "readall", 1500) {
			limit, label = 1<<62, "huge members, one all read"
		}
		readHoles(t, f, size, pieces[i], limit, fmt.Sprintf("reading %q; %s", name, desc))
		must(t, f.Close(), "Close; %s", desc)
	}
	return label
}

// arTree draws a flat tree that an ar archive can hold.
func arTree(t *rapid.T, maxNodes, maxSize int) *model.Node {
	root := model.Tree(model.TreeOpts{Flat: true, MaxNodes: maxNodes, MaxSize: maxSize, Special: true, TimeLevel: 2, MaxOwner: 999999, Names: model.NameOpts{MaxLen: 16}}).Draw(t, "tree")
	fixed := model.NewDir("", 0o755)
	for _, k := range root.Names() {
		n := root.Kids[k]
		name := strings.TrimRight(n.Name, " ")
		n.Name = model.Uniq(fixed, model.FixName(name, model.NameOpts{MaxLen: 16}), model.NameOpts{MaxLen: 16})
		if s := n.MTime.Unix(); s > 999999999999 || s < -99999999999 {
			n.MTime = time.Unix(s%1000000000, 0)
		}
		fixed.Add(n)
	}
	return fixed
}

// C13: ar Create writes an archive equal to its source.
func TestC13(t *testing.T) {
	st := ev.Start(t, "C13", "a generated flat source with representable metadata behind a source with drawn capabilities; the archive is read back by an own strict parser and by the package; non-trivial: at least 2 files and one of odd size, odd name, owner; distinct by tree and source")
	check(t, func(t *rapid.T) {
		root := arTree(t, 8, 3000)
		if rare(t, "crowd", 1000) {
			for i := rapid.SampledFrom([]int{255, 300, 1001, 2000}).Draw(t, "crowdsize"); i > 0; i-- {
				name := model.Uniq(root, fmt.Sprintf("m%d", i), model.NameOpts{MaxLen: 16})
				root.Add(&model.Node{Name: name, Kind: model.File, Data: []byte(name)[:i%3], Mode: 0o640, MTime: time.Unix(int64(i), 0)})
			}
		}
		so := srcOptsFor(t, true, false)
		so.HardTar = rapid.IntRange(0, 5).Draw(t, "hardTar") == 0
		nodes := root.All()[1:]
		special := false
		for _, n := range nodes {
			special = special || len(n.Data)%2 == 1 || n.Name[0] >= 0x80 || n.Name[0] == '.' || n.UID > 0 || n.Mode&model.SpecialBits != 0
		}
		viaAr := rapid.IntRange(0, 3).Draw(t, "viaAr") == 0
		src := model.Source(root, so)
		ownerKnown := so.Owner != model.OwnerNone
		exact := false
		if viaAr {
			// the source is an opened archive
			var ms []enc.ArMember
			for _, n := range nodes {
				ms = append(ms, enc.ArMember{Name: n.Name, MTime: strconv.FormatInt(n.MTime.Unix(), 10), UID: strconv.Itoa(n.UID), GID: strconv.Itoa(n.GID), Mode: strconv.FormatInt(int64(enc.ErofsMode(n.Mode)), 8), Data: n.Data})
			}
			b, _ := enc.EncodeAr(ms, true)
			fsys, err := openAr(b)
			must(t, err, "Open of a well-formed archive\n%s", root)
			src, ownerKnown, exact = fsys, true, true
		}
		_ = exact
		st.Case(len(nodes) >= 2 && special, root.Hash()^hashOf(so.String(), viaAr), fmt.Sprintf("owner%d", so.Owner), fmt.Sprintf("viaAr=%v", viaAr))
		st.Sample(func() string { return root.String() + so.String() })
		b, err := createAr(src)
		must(t, err, "Create\n%s%s", root, so)
		ms, err := enc.ParseAr(b)
		must(t, err, "parsing the created archive\n%s", root)
		want := root.Names()
		if len(ms) != len(want) {
			t.Fatalf("the archive has %d members, expected %q\n%s", len(ms), want, root)
		}
		for i, m := range ms {
			n := root.Kids[want[i]]
			switch {
			case m.Name != n.Name:
				t.Fatalf("member %d is %q, expected %q\n%s", i, m.Name, n.Name, root)
			case string(m.Data) != string(n.Data):
				t.Fatalf("member %q: %s\n%s", m.Name, model.DiffBytes(m.Data, n.Data), root)
			case m.Mode&0o7777 != int64(enc.ErofsMode(n.Mode))&0o7777 || m.Mode&^0o7777 != 0 && m.Mode&^0o7777 != 0o100000:
				t.Fatalf("member %q has mode %o, expected %v\n%s", m.Name, m.Mode, n.Mode, root)
			}
			if d := time.Unix(m.MTime, 0).Sub(n.MTime); d <= -time.Second || d >= time.Second {
				t.Fatalf("member %q has time %d, expected %v\n%s", m.Name, m.MTime, n.MTime, root)
			}
			if ownerKnown && (m.UID != int64(n.UID) || m.GID != int64(n.GID)) {
				t.Fatalf("member %q has owner %d:%d, expected %d:%d\n%s", m.Name, m.UID, m.GID, n.UID, n.GID, root)
			}
		}
		fsys, err := openAr(b)
		must(t, err, "Open of the created archive\n%s", root)
		seen, err := model.Observe(fsys, model.ObserveOpts{Owner: owners, Lean: true})
		must(t, err, "reading the created archive\n%s", root)
		if d := model.Diff(root, seen, model.Want{SkipRoot: true, Owner: ownerKnown, MTimeNear: time.Second}); d != "" {
			t.Fatalf("the created archive opens as something else: %s\n%s%s", d, root, so)
		}
		if rare(t, "huge", 6000) {
			st.Label(hugeCreate(t, "ar"), 1)
		}
	})
}

var (
	_ = io.EOF
	_ fs.FS
)
