package model

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"math"
	"path"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Bytes expands a drawn seed into n bytes: a pure function of its arguments.
// Style 0 is pseudo-random, 1 is text, 2 is zeros, 3 has zero runs.
func Bytes(seed uint64, style, n int) []byte {
	b := make([]byte, n)
	x := seed*0x9e3779b97f4a7c15 + 0x1234567
	next := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	if x == 0 {
		x = 1
	}
	switch style {
	case 2:
	case 1:
		s := fmt.Sprintf("line %d of the file\n", seed)
		for i := range b {
			b[i] = s[i%len(s)]
		}
	default:
		for i := 0; i < n; i += 8 {
			var t [8]byte
			binary.LittleEndian.PutUint64(t[:], next())
			copy(b[i:], t[:])
		}
		if style == 3 {
			for i := n / 3; i < n/2; i++ {
				b[i] = 0
			}
		}
	}
	return b
}

// Interesting sizes sit at the format boundaries.
var sizeClasses = []int{
	0, 1, 2, 3, 7, 8, 13, 31, 32, 33, 59, 60, 61, 511, 512, 513, 1022, 1023, 1024, 1025, 1026,
	1535, 1536, 2047, 2048, 3007, 3008, 4031, 4032, 4033, 4063, 4064, 4065, 4095, 4096, 4097,
	5119, 5120, 8191, 8192, 8193, 12287, 12288, 16384, 20481,
}

// Size draws a file size up to max.
func Size(max int) *rapid.Generator[int] {
	var classes []int
	for _, c := range sizeClasses {
		if c <= max {
			classes = append(classes, c)
		}
	}
	return rapid.OneOf(
		rapid.IntRange(0, min(max, 40)),
		rapid.SampledFrom(classes),
		rapid.IntRange(0, max),
	)
}

// Content draws file contents.
func Content(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := Size(max).Draw(t, "size")
		if n == 0 {
			return []byte{}
		}
		return Bytes(rapid.Uint64Range(0, 1<<20).Draw(t, "seed"), rapid.SampledFrom([]int{0, 1, 3, 0, 2}).Draw(t, "style"), n)
	})
}

// NameOpts bounds the names drawn.
type NameOpts struct {
	MaxLen  int  // in bytes, 0 means 255
	NonUTF8 bool // allow names that are not UTF-8
	ASCII   bool // printable ASCII only
	NoSlack bool // no leading or trailing blanks
}

var oddNames = []string{
	".a", "..a", "...", ".-", ". ", "..", ".", ".hidden", ".x.", "a.", "a..", "-", "-x", "--", "+", "!", "#", "$", "%", "&", "'", "(", ")", "*", ",",
	" ", " x", "x ", " x ", "\t", "\tx", "x\n", "a\nb", "a b", "?", "[a]", "*a", "a\\b", "\\", ":", "~", "{", "|", "\x7f", "\"", "^", "@", ";", "<=>",
	"é", "ée", "日本語", "☺", "☺☻☹", "Ünï", "А", "a\u0301", "\u00a0x", "\u2028", "İ",
	"A", "B", "a", "b", "c", "ab", "a-b", "a.b", "a+b", "aa", "abc", "0", "1", "10", "9", "_", "con", "a~",
	"\ufeffx", "x\ufeff", "\x01", "\x1f", "é\u0301", ".é", "tar", "debian-binary", "control.tar.gz",
	".wh.a", ".wh..wh..opq", "lost+found", ".DS_Store", "._a", "__MACOSX", "PaxHeaders.0", "GlobalHead.0.0", "pax_global_header", "@LongLink", "__.SYMDEF",
	"Thumbs.db", "CON", "NUL", ".git", "_gpgorigin", "data.tar.zst", ".gnu_debuglink", "ustar",
}

// Name draws one path element: valid (not ".", "..", no slash, no NUL).
func Name(o NameOpts) *rapid.Generator[string] {
	maxLen := o.MaxLen
	if maxLen == 0 {
		maxLen = 255
	}
	return rapid.Custom(func(t *rapid.T) string {
		var s string
		switch rapid.IntRange(0, 9).Draw(t, "namekind") {
		case 0, 1, 2, 3:
			s = rapid.StringOfN(rapid.RuneFrom([]rune("abc")), 1, 3, -1).Draw(t, "n")
		case 4, 5, 6:
			s = rapid.SampledFrom(oddNames).Draw(t, "n")
		case 7:
			s = rapid.StringOfN(rapid.RuneFrom([]rune("ab.-+ _!~éZ0")), 1, 6, -1).Draw(t, "n")
		case 8:
			ls := []int{15, 16, 17, 98, 99, 100, 101, 154, 155, 156, 200, 253, 254, 255}
			var l int
			if maxLen < 20 {
				l = rapid.IntRange(max(1, maxLen-2), maxLen).Draw(t, "l")
			} else {
				l = rapid.SampledFrom(ls).Draw(t, "l")
			}
			l = min(l, maxLen)
			base := rapid.SampledFrom([]string{"long", ".lo", "é", "z", "-"}).Draw(t, "base")
			s = strings.Repeat(base, l/len(base)+1)[:l]
			for !utf8.ValidString(s) {
				s = s[:len(s)-1] + "x"
				s = strings.ToValidUTF8(s, "")
			}
		default:
			if o.NonUTF8 && rapid.IntRange(0, 3).Draw(t, "non8") == 0 {
				s = rapid.SampledFrom([]string{"hi\x80bye", "\xff", "\xc3", "a\xfe"}).Draw(t, "n")
			} else {
				s = rapid.StringOfN(rapid.Rune(), 1, 5, min(12, maxLen)).Draw(t, "n")
			}
		}
		return FixName(s, o)
	})
}

// FixName maps any string to a valid name under o.
func FixName(s string, o NameOpts) string {
	maxLen := o.MaxLen
	if maxLen == 0 {
		maxLen = 255
	}
	s = strings.Map(func(r rune) rune {
		if r == '/' || r == 0 {
			return '_'
		}
		if o.ASCII && (r < 0x21 || r > 0x7e) {
			return 'q'
		}
		return r
	}, s)
	if !o.NonUTF8 {
		s = strings.ToValidUTF8(s, "u")
	}
	for len(s) > maxLen {
		_, n := utf8.DecodeLastRuneInString(s)
		s = s[:len(s)-n]
	}
	if o.NoSlack {
		s = strings.Trim(s, " \t\n\v\f\r\u0085\u00a0")
	}
	if s == "" || s == "." || s == ".." {
		s = "n" + s
	}
	return s
}

// Perm draws permissions.
func Perm(special bool) *rapid.Generator[fs.FileMode] {
	return rapid.Custom(func(t *rapid.T) fs.FileMode {
		m := fs.FileMode(rapid.OneOf(rapid.SampledFrom([]int{0o644, 0o755, 0o600, 0o777, 0, 0o555, 0o111}), rapid.IntRange(0, 0o777)).Draw(t, "perm"))
		if special {
			if b := rapid.IntRange(0, 15).Draw(t, "special"); b < 8 {
				if b&1 != 0 {
					m |= fs.ModeSetuid
				}
				if b&2 != 0 {
					m |= fs.ModeSetgid
				}
				if b&4 != 0 {
					m |= fs.ModeSticky
				}
			}
		}
		return m
	})
}

// Time draws a modification time. Level 0 gives whole seconds in the classic
// range, 1 adds pre-1970, far future, 2 adds nanoseconds, 3 adds the zero time.
func Time(level int) *rapid.Generator[time.Time] {
	return rapid.Custom(func(t *rapid.T) time.Time {
		k := rapid.IntRange(0, 9).Draw(t, "timekind")
		var sec int64
		switch {
		case k >= 8 && level >= 3:
			return time.Time{}
		case k >= 6 && level >= 1:
			sec = rapid.SampledFrom([]int64{-1, -2, -86400, -2208988800, 1 << 31, 1 << 32, 1<<33 - 1, 1 << 33, 8589934592, 253402300799}).Draw(t, "sec")
		default:
			sec = rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 1700000000, 1<<31 - 1}), rapid.Int64Range(0, 1<<31-1)).Draw(t, "sec")
		}
		var ns int64
		if level >= 2 && rapid.Bool().Draw(t, "hasns") {
			ns = rapid.OneOf(rapid.SampledFrom([]int64{1, 499999999, 500000000, 500000001, 999999999}), rapid.Int64Range(0, 999999999)).Draw(t, "ns")
		}
		return time.Unix(sec, ns)
	})
}

// MaxOwner is the largest owner of formats of 32 bits that an int can tell.
const MaxOwner = math.MaxUint32 & math.MaxInt

// Owner draws a user or group id up to max.
func Owner(max int) *rapid.Generator[int] {
	var cls []int
	for _, c := range []int64{0, 1, 1000, 65534, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 2097151, 2097152, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		if c <= int64(max) {
			cls = append(cls, int(c))
		}
	}
	return rapid.OneOf(rapid.SampledFrom(cls), rapid.IntRange(0, min(max, 70000)))
}

// TreeOpts bounds the trees drawn.
type TreeOpts struct {
	Names     NameOpts
	MaxNodes  int
	MaxSize   int
	Flat      bool // only regular files directly below the root
	NoLinks   bool
	Special   bool // setuid, setgid, sticky
	TimeLevel int
	MaxOwner  int
	BigDirs   bool // sometimes add a directory with many entries
	BigMax    int  // entries of a big directory
}

// Tree draws a tree.
func Tree(o TreeOpts) *rapid.Generator[*Node] {
	if o.MaxNodes == 0 {
		o.MaxNodes = 12
	}
	if o.MaxSize == 0 {
		o.MaxSize = 20481
	}
	if o.MaxOwner == 0 {
		o.MaxOwner = MaxOwner
	}
	if o.BigMax == 0 {
		o.BigMax = 120
	}
	return rapid.Custom(func(t *rapid.T) *Node {
		root := NewDir("", 0o755)
		Meta(t, root, o)
		dirs := []*Node{root}
		var links []*Node
		n := rapid.IntRange(0, o.MaxNodes).Draw(t, "nodes")
		for i := 0; i < n; i++ {
			parent := root
			if !o.Flat {
				// biased to the most recent directory, for depth
				k := rapid.IntRange(0, 2*len(dirs)-1).Draw(t, "parent")
				if k >= len(dirs) {
					k = len(dirs) - 1
				}
				parent = dirs[k]
			}
			name := Uniq(parent, Name(o.Names).Draw(t, "name"), o.Names)
			kind := File
			if !o.Flat {
				switch rapid.IntRange(0, 9).Draw(t, "kind") {
				case 0, 1, 2, 3, 4:
				case 5, 6, 7:
					kind = Dir
				default:
					if !o.NoLinks {
						kind = Link
					}
				}
			}
			c := &Node{Name: name, Kind: kind}
			Meta(t, c, o)
			switch kind {
			case File:
				c.Data = Content(o.MaxSize).Draw(t, "data")
			case Dir:
				c.Kids = map[string]*Node{}
				dirs = append(dirs, c)
			case Link:
				links = append(links, c)
			}
			parent.Add(c)
		}
		if o.BigDirs && rapid.IntRange(0, 5).Draw(t, "big") == 0 {
			AddBigDir(t, rapid.SampledFrom(dirs).Draw(t, "bigparent"), o)
		}
		for _, l := range links {
			l.Target = Target(t, root, l)
		}
		twins(t, root)
		return root
	})
}

// twins sometimes makes the contents of one file nearly those of another.
func twins(t *rapid.T, root *Node) {
	if rapid.IntRange(0, 7).Draw(t, "twins") != 5 {
		return
	}
	var files []*Node
	for _, n := range root.All() {
		if n.Kind == File && n.ModeType == 0 {
			files = append(files, n)
		}
	}
	if len(files) < 2 {
		return
	}
	i := rapid.IntRange(0, len(files)-1).Draw(t, "twin")
	j := rapid.IntRange(0, len(files)-2).Draw(t, "othertwin")
	if j >= i {
		j++
	}
	d := bytes.Clone(files[i].Data)
	if len(d) > 0 {
		switch rapid.IntRange(0, 5).Draw(t, "twinchange") {
		case 0:
		case 1:
			d[0] ^= 1
		case 2:
			d[len(d)-1] ^= 1
		case 3:
			d = d[:len(d)-1]
		default:
			d[rapid.IntRange(0, len(d)-1).Draw(t, "twinat")] ^= 0x80
		}
	}
	files[j].Data = d
}

// Uniq makes name unused below parent.
func Uniq(parent *Node, name string, o NameOpts) string {
	maxLen := o.MaxLen
	if maxLen == 0 {
		maxLen = 255
	}
	base := name
	for i := 0; parent.Kids[name] != nil; i++ {
		suffix := fmt.Sprintf("%d", i)
		b := base
		for len(b)+len(suffix) > maxLen {
			_, n := utf8.DecodeLastRuneInString(b)
			b = b[:len(b)-n]
		}
		name = b + suffix
	}
	return name
}

// Meta draws the metadata of one node.
func Meta(t *rapid.T, n *Node, o TreeOpts) {
	n.Mode = Perm(o.Special).Draw(t, "mode")
	n.MTime = Time(o.TimeLevel).Draw(t, "mtime")
	if rapid.IntRange(0, 2).Draw(t, "owned") == 0 {
		n.UID = Owner(o.MaxOwner).Draw(t, "uid")
		n.GID = Owner(o.MaxOwner).Draw(t, "gid")
	}
}

// AddBigDir fills a directory with many small entries.
func AddBigDir(t *rapid.T, d *Node, o TreeOpts) {
	cnt := rapid.IntRange(1, o.BigMax).Draw(t, "bigcount")
	l := rapid.SampledFrom([]int{1, 4, 20, 60, 127, 128, 240, 251, 255}).Draw(t, "biglen")
	if o.Names.MaxLen > 0 {
		l = min(l, o.Names.MaxLen)
	}
	prefix := rapid.SampledFrom([]string{"", "f", ".", "-", "é"}).Draw(t, "bigprefix")
	vary := rapid.Bool().Draw(t, "bigvary")
	// what the entries are: mostly empty files, or a mixture
	mix := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "bigmix")
	every := rapid.SampledFrom([]int{2, 3, 7, 17, 40, 60}).Draw(t, "bigevery")
	sizes := []int{0, 1, 200, 960, 992, 1000, 1023, 1024, 1025, 2000, 4096}
	for i := 0; i < cnt; i++ {
		s := fmt.Sprintf("%s%d", prefix, i)
		want := l
		if vary {
			want = 1 + (i*37+l)%max(l, 1)
		}
		if len(s) < want {
			s += strings.Repeat("x", want-len(s))
		}
		s = Uniq(d, FixName(s, o.Names), o.Names)
		c := &Node{Name: s, Kind: File, Mode: 0o644, MTime: time.Unix(int64(i), 0)}
		switch {
		case mix == 0 && i%17 == 3:
			c.Data = Bytes(uint64(i), 0, i)
		case mix > 0 && i%every == every-1:
			c.Data = Bytes(uint64(i), 0, min(sizes[(i*7+l)%len(sizes)], max(o.MaxSize, 1)))
		case mix == 2 && i%5 == 4:
			c.MTime = time.Time{}
		case mix == 3 && i%4 == 1 && !o.Flat:
			c.Kind, c.Kids, c.Mode = Dir, map[string]*Node{}, 0o755
		case mix == 4:
			c.MTime = time.Time{}
		}
		d.Add(c)
	}
}

// AddDeep adds a long chain of directories that ends in a file.
func AddDeep(t *rapid.T, d *Node) {
	shape := rapid.SampledFrom([][2]int{{17, 1}, {33, 1}, {41, 1}, {65, 1}, {129, 1}, {260, 1}, {6, 255}, {17, 255}, {33, 60}, {41, 100}}).Draw(t, "deep")
	less := rapid.IntRange(0, 2).Draw(t, "less")
	for i := 0; i < shape[0]-less; i++ {
		name := Uniq(d, FixName(strings.Repeat(string(rune('a'+i%26)), shape[1]), NameOpts{}), NameOpts{})
		c := &Node{Name: name, Kind: Dir, Kids: map[string]*Node{}, Mode: 0o755, MTime: time.Unix(int64(i), 0)}
		d.Add(c)
		d = c
	}
	d.Add(&Node{Name: "end", Kind: File, Mode: 0o644, MTime: time.Unix(1, 0), Data: Bytes(7, 1, 99)})
}

// Target draws the target of a link: to an existing node relatively or
// absolutely, through another link, dangling, escaping, cyclic, or arbitrary.
func Target(t *rapid.T, root, l *Node) string {
	all := root.All()
	switch rapid.IntRange(0, 12).Draw(t, "targetkind") {
	case 10:
		if rapid.IntRange(0, 2).Draw(t, "longtarget") != 0 {
			return "b"
		}
		// long, up to what a page holds
		n := rapid.SampledFrom(all).Draw(t, "to")
		end := Rel(l.Parent, n)
		want := rapid.SampledFrom([]int{99, 100, 101, 154, 255, 256, 511, 512, 1023, 1024, 1025, 2000, 3999, 4031, 4032, 4033, 4094, 4095}).Draw(t, "targetlen")
		for len(end)+2 <= want {
			end = "./" + end
		}
		if len(end) < want && !strings.HasPrefix(end, "/") {
			end = "./" + strings.Replace(end, "./", ".//", 1)[2:]
		}
		if len(end) > 4095 {
			return "a"
		}
		return end
	case 0, 1, 2, 3:
		n := rapid.SampledFrom(all).Draw(t, "to")
		return Rel(l.Parent, n)
	case 4, 5:
		n := rapid.SampledFrom(all).Draw(t, "to")
		if n.Parent == nil {
			return "/"
		}
		return "/" + n.Path()
	case 6:
		// through another link (or itself), then a name or ".."
		n := rapid.SampledFrom(all).Draw(t, "via")
		sfx := rapid.SampledFrom([]string{"/a", "/b", "/..", "/../a", "/../..", "/.", "/"}).Draw(t, "suffix")
		return Rel(l.Parent, n) + sfx
	case 7:
		n := rapid.SampledFrom(all).Draw(t, "to")
		return strings.Repeat("../", rapid.IntRange(1, 8).Draw(t, "up")) + n.Path()
	case 8:
		return rapid.SampledFrom([]string{".", "..", "/", "../..", l.Name, "./" + l.Name, "/" + l.Path(), "missing", "/missing/x", "../missing", "a//b", "./a", "./../a", "a/", "//a", "/../a"}).Draw(t, "special")
	case 9:
		n := rapid.SampledFrom(all).Draw(t, "to")
		return "./" + Rel(l.Parent, n)
	default:
		parts := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "ab", "..", "..", "."}), 1, 5).Draw(t, "parts")
		s := strings.Join(parts, "/")
		if rapid.IntRange(0, 4).Draw(t, "abs") == 0 {
			s = "/" + s
		}
		return s
	}
}

// Rel is the relative path from directory d to n.
func Rel(d, n *Node) string {
	up := ""
	anc := map[*Node]bool{}
	for x := n; x != nil; x = x.Parent {
		anc[x] = true
	}
	x := d
	for !anc[x] {
		up += "../"
		x = x.Parent
	}
	var down []string
	for y := n; y != x; y = y.Parent {
		down = append([]string{y.Name}, down...)
	}
	s := up + strings.Join(down, "/")
	if s == "" {
		return "."
	}
	if s != "/" {
		s = strings.TrimSuffix(s, "/")
	}
	return s
}

// Probes draws lookup paths: existing ones, ones through links, near misses.
func Probes(t *rapid.T, root *Node, n int) []string {
	all := root.All()
	var out []string
	for i := 0; i < n; i++ {
		nd := rapid.SampledFrom(all).Draw(t, "probe")
		p := nd.Path()
		for j := rapid.IntRange(0, 3).Draw(t, "ext"); j > 0; j-- {
			// extend through whatever the path leads to
			res := root.Resolve(p, true)
			r := res.Node
			var comp string
			if r != nil && r.Kind == Dir && len(r.Kids) > 0 && rapid.IntRange(0, 7).Draw(t, "miss") != 0 {
				comp = rapid.SampledFrom(r.Names()).Draw(t, "comp")
			} else {
				comp = rapid.SampledFrom([]string{"a", "b", "zz", ".a", "missing", " ", "a ", "A"}).Draw(t, "comp")
			}
			p = path.Join(p, comp)
		}
		out = append(out, p)
	}
	return out
}
