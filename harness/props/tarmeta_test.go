package props

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/ev"
	"verif/model"
)

// tarMeta is what a tar entry records beyond the usual.
type tarMeta struct {
	Type         byte
	Uname, Gname string
	Uid, Gid     int
	Link         string
	X            map[string]string
}

func (m tarMeta) String() string {
	return fmt.Sprintf("type %c owner %d(%q):%d(%q) link %q records %q", m.Type, m.Uid, m.Uname, m.Gid, m.Gname, m.Link, m.X)
}

func (m tarMeta) equal(o tarMeta) bool {
	return m.Type == o.Type && m.Uname == o.Uname && m.Gname == o.Gname && m.Uid == o.Uid && m.Gid == o.Gid && m.Link == o.Link && maps.Equal(m.X, o.X)
}

// metaOf takes from a header what must stay. The records that archive/tar has
// fields for are left out.
func metaOf(h *tar.Header) tarMeta {
	m := tarMeta{Type: h.Typeflag, Uname: h.Uname, Gname: h.Gname, Uid: h.Uid, Gid: h.Gid, Link: h.Linkname, X: map[string]string{}}
	for k, v := range h.PAXRecords {
		if strings.Contains(k, ".") && !strings.HasPrefix(k, "GNU.") {
			m.X[k] = v
		}
	}
	return m
}

// C31: owner names and extended attributes of a tar archive stay.
func TestC31(t *testing.T) {
	st := ev.Start(t, "C31", "a generated tree written by archive/tar with drawn user and group names and vendor PAX records (extended attributes with binary values) per entry; what Sys of every FileInfo gives, and what an independent reader finds in a copy made with Create and in a copy of the copy, is compared with what was written; non-trivial: at least two entries with different names or records; distinct by archive bytes")
	check(t, func(t *rapid.T) {
		root := model.Tree(model.TreeOpts{MaxNodes: 10, MaxSize: 3000, Special: true, TimeLevel: 1, MaxOwner: 1<<31 - 1}).Draw(t, "tree")
		want := map[string]tarMeta{}
		var raw bytes.Buffer
		tw := tar.NewWriter(&raw)
		name := rapid.OneOf(rapid.SampledFrom([]string{"", "root", "user", "staff", "nobody"}), rapid.StringN(0, 40, 120).Filter(func(s string) bool { return !strings.Contains(s, "\x00") }))
		var desc strings.Builder
		kinds := map[string]bool{}
		for _, n := range root.All() {
			if n == root {
				continue
			}
			h := &tar.Header{Name: n.Path(), Mode: int64(n.Mode.Perm()), Uid: n.UID, Gid: n.GID, Uname: name.Draw(t, "uname"), Gname: name.Draw(t, "gname"), ModTime: epoch(n.MTime), Size: int64(len(n.Data))}
			switch n.Kind {
			case model.Dir:
				h.Typeflag = tar.TypeDir
				h.Name += "/"
			case model.Link:
				h.Typeflag, h.Linkname = tar.TypeSymlink, n.Target
			default:
				h.Typeflag = tar.TypeReg
			}
			for k := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "records"); k > 0; k-- {
				key := rapid.SampledFrom([]string{"SCHILY.xattr.user.", "SCHILY.xattr.security.", "LIBARCHIVE.xattr.", "VENDOR."}).Draw(t, "key") + rapid.StringMatching(`[a-z][a-zA-Z0-9_]{0,30}`).Draw(t, "attr")
				val := string(rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "value"))
				if rapid.IntRange(0, 9).Draw(t, "long") == 9 {
					val = strings.Repeat(val, 40)
				}
				if h.PAXRecords == nil {
					h.PAXRecords = map[string]string{}
				}
				h.PAXRecords[key] = val
			}
			if rapid.IntRange(0, 3).Draw(t, "times") == 3 {
				h.Format = tar.FormatPAX
				h.AccessTime, h.ChangeTime = time.Unix(1700000000, 5000), time.Unix(1600000000, 0)
			}
			must(t, tw.WriteHeader(h), "harness: header %+v", h)
			_, err := tw.Write(n.Data)
			must(t, err, "harness: data of %q", n.Path())
			m := metaOf(h)
			want[n.Path()] = m
			kinds[fmt.Sprint(m.Uname, m.Gname, m.X)] = true
			fmt.Fprintf(&desc, "%q: %v\n", n.Path(), m)
		}
		must(t, tw.Close(), "harness: close")
		st.Case(len(kinds) > 1, hashOf(raw.Bytes()))
		st.Sample(desc.String)

		fsys, err := openTar(raw.Bytes())
		must(t, err, "Open\n%s", desc.String())
		lf := fsys.(linkFS)
		of := func(p, how string, fi fs.FileInfo, err error) {
			t.Helper()
			must(t, err, "%s of %q\n%s", how, p, desc.String())
			h, ok := fi.Sys().(*tar.Header)
			if !ok {
				t.Fatalf("%s of %q: Sys gives %T\n%s", how, p, fi.Sys(), desc.String())
			}
			if m := metaOf(h); !m.equal(want[p]) {
				t.Fatalf("%s of %q: Sys gives %v\nexpected %v", how, p, m, want[p])
			}
		}
		for _, n := range root.All() {
			if n == root {
				continue
			}
			p := n.Path()
			fi, err := lf.StatLink(p)
			of(p, "StatLink", fi, err)
			l, err := fs.ReadDir(fsys, n.Parent.Path())
			must(t, err, "ReadDir\n%s", desc.String())
			for _, e := range l {
				if e.Name() == n.Name {
					fi, err := e.Info()
					of(p, "Info of the entry", fi, err)
				}
			}
			if n.Kind == model.Link {
				continue
			}
			fi, err = fs.Stat(fsys, p)
			of(p, "Stat", fi, err)
			f, err := fsys.Open(p)
			must(t, err, "Open of %q\n%s", p, desc.String())
			fi, err = f.Stat()
			of(p, "Stat of the handle", fi, err)
			_ = f.Close()
		}
		for i := 1; i <= 2; i++ {
			var b []byte
			b, err = createTar(fsys)
			must(t, err, "copy %d\n%s", i, desc.String())
			tr := tar.NewReader(bytes.NewReader(b))
			n := 0
			for {
				h, err := tr.Next()
				if err == io.EOF {
					break
				}
				must(t, err, "reading copy %d\n%s", i, desc.String())
				p := strings.TrimSuffix(h.Name, "/")
				w, ok := want[p]
				if !ok {
					t.Fatalf("copy %d holds %q\n%s", i, p, desc.String())
				}
				if m := metaOf(h); !m.equal(w) {
					t.Fatalf("copy %d: %q has %v\nexpected %v", i, p, m, w)
				}
				n++
			}
			if n != len(want) {
				t.Fatalf("copy %d holds %d entries, expected %d\n%s", i, n, len(want), desc.String())
			}
			fsys, err = openTar(b)
			must(t, err, "Open of copy %d\n%s", i, desc.String())
		}
	})
}
