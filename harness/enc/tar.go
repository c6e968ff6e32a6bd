package enc

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io/fs"
	"strconv"
	"strings"
	"time"
)

// TarDialect is a header dialect.
type TarDialect int

const (
	TarUSTAR TarDialect = iota
	TarPAX
	TarGNU
	TarV7
)

// SparseKind says how a file with holes is stored.
type SparseKind int

const (
	SparseNone SparseKind = iota
	SparseGNU             // typeflag 'S', map in the header
	SparsePAX00
	SparsePAX01
	SparsePAX10
)

// Frag is one stored piece of a sparse file.
type Frag struct{ Off, Len int }

// TarEntry is one entry of a tar stream.
type TarEntry struct {
	Type     byte // tar.TypeReg, TypeDir, TypeSymlink, TypeLink, TypeXGlobalHeader
	Name     string
	Link     string
	Mode     fs.FileMode // permissions and special bits
	UID      int
	GID      int
	MTime    time.Time
	Data     []byte
	Dialect  TarDialect
	Sparse   SparseKind
	Frags    []Frag
	Records  map[string]string // for global headers
	TypeBits bool              // file type bits in the mode field, as old tars write
	// Off, DataEnd and End are where the entry starts, its data ends and the
	// next one starts, set by EncodeTar.
	Off, DataEnd, End int
}

// mode is the mode field.
func (e *TarEntry) mode() int64 {
	m := tarMode(e.Mode)
	if e.TypeBits {
		switch e.Type {
		case tar.TypeReg:
			m |= 0o100000
		case tar.TypeDir:
			m |= 0o040000
		case tar.TypeSymlink:
			m |= 0o120000
		}
	}
	return m
}

func tarMode(m fs.FileMode) int64 {
	o := int64(m.Perm())
	if m&fs.ModeSetuid != 0 {
		o |= 0o4000
	}
	if m&fs.ModeSetgid != 0 {
		o |= 0o2000
	}
	if m&fs.ModeSticky != 0 {
		o |= 0o1000
	}
	return o
}

// Fits says whether the entry can be written in the old v7 format.
func (e *TarEntry) FitsV7() bool {
	return len(e.Name) < 99 && len(e.Link) < 100 && e.UID <= 0o7777777 && e.GID <= 0o7777777 &&
		e.MTime.Unix() >= 0 && e.MTime.Unix() < 1<<33 && e.MTime.Nanosecond() == 0 && e.Type != tar.TypeXGlobalHeader
}

// EncodeTar writes the entries, then trailer zero blocks.
func EncodeTar(es []*TarEntry, trailer int) []byte {
	var out bytes.Buffer
	for _, e := range es {
		e.Off = out.Len()
		switch {
		case e.Sparse != SparseNone:
			writeSparse(&out, e)
		case e.Dialect == TarV7 && e.FitsV7():
			writeV7(&out, e)
		default:
			writeStd(&out, e)
		}
		e.End = out.Len()
		e.DataEnd = e.End
		stored := 0
		switch {
		case e.Type == tar.TypeReg && e.Sparse == SparseNone:
			stored = len(e.Data)
		case e.Type == tar.TypeXGlobalHeader:
			n, _ := strconv.ParseInt(strings.Trim(string(out.Bytes()[e.Off+124:e.Off+136]), " \x00"), 8, 32)
			stored = int(n)
		default:
			for _, f := range e.Frags {
				stored += f.Len
			}
		}
		if r := stored % 512; r != 0 {
			e.DataEnd = e.End - (512 - r)
		}
	}
	out.Write(make([]byte, 512*trailer))
	return out.Bytes()
}

// writeStd writes with the standard library, in the dialect asked for or, when
// that cannot hold the entry, in one that can.
func writeStd(out *bytes.Buffer, e *TarEntry) {
	h := tar.Header{Typeflag: e.Type, Name: e.Name, Linkname: e.Link, Mode: e.mode(), Uid: e.UID, Gid: e.GID, ModTime: e.MTime, Size: int64(len(e.Data))}
	if e.Type == tar.TypeXGlobalHeader {
		h = tar.Header{Typeflag: e.Type, PAXRecords: e.Records}
	}
	formats := []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU}
	order := []tar.Format{formats[int(e.Dialect)%3], tar.FormatPAX, tar.FormatGNU}
	if e.Type == tar.TypeXGlobalHeader {
		order = []tar.Format{tar.FormatPAX}
	}
	var last error
	for _, f := range order {
		var b bytes.Buffer
		tw := tar.NewWriter(&b)
		g := h
		g.Format = f
		if f != tar.FormatPAX && g.ModTime.Nanosecond() != 0 {
			continue // would lose the fraction
		}
		if last = tw.WriteHeader(&g); last != nil {
			continue
		}
		if _, err := tw.Write(e.Data); err != nil {
			panic(err)
		}
		if err := tw.Flush(); err != nil {
			panic(err)
		}
		out.Write(b.Bytes())
		return
	}
	panic(fmt.Sprintf("cannot encode tar entry %q: %v", e.Name, last))
}

// CanEncode says whether writeStd has a dialect for the entry.
func (e *TarEntry) CanEncode() (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var b bytes.Buffer
	c := *e
	c.Data = nil
	writeStd(&b, &c)
	return true
}

func octal(b []byte, v int64) {
	s := strconv.FormatInt(v, 8)
	w := len(b) - 1
	if len(s) > w {
		panic("octal field overflow")
	}
	copy(b, strings.Repeat("0", w-len(s))+s)
	b[w] = 0
}

// numeric writes octal, or base 256 when that does not fit (GNU).
func numeric(b []byte, v int64) {
	if v >= 0 && len(strconv.FormatInt(v, 8)) <= len(b)-1 {
		octal(b, v)
		return
	}
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	b[0] |= 0x80
}

// TarSum repairs the checksum of a header block.
func TarSum(h []byte) {
	copy(h[148:156], "        ")
	s := 0
	for _, c := range h[:512] {
		s += int(c)
	}
	copy(h[148:156], fmt.Sprintf("%06o\x00 ", s))
}

func pad512(out *bytes.Buffer) {
	if r := out.Len() % 512; r != 0 {
		out.Write(make([]byte, 512-r))
	}
}

func writeV7(out *bytes.Buffer, e *TarEntry) {
	h := make([]byte, 512)
	name := e.Name
	if e.Type == tar.TypeDir && !strings.HasSuffix(name, "/") {
		name += "/" // how v7 marks directories
	}
	copy(h[0:100], name)
	octal(h[100:108], e.mode())
	octal(h[108:116], int64(e.UID))
	octal(h[116:124], int64(e.GID))
	octal(h[124:136], int64(len(e.Data)))
	octal(h[136:148], e.MTime.Unix())
	switch e.Type {
	case tar.TypeLink, tar.TypeSymlink:
		h[156] = e.Type
		copy(h[157:257], e.Link)
	}
	TarSum(h)
	out.Write(h)
	out.Write(e.Data)
	pad512(out)
}

// gnuHeader is a header block in GNU (or, with ustar magic, POSIX) format.
func blockHeader(e *TarEntry, typ byte, name string, size int64, magic string) []byte {
	h := make([]byte, 512)
	copy(h[0:100], name)
	octal(h[100:108], e.mode())
	numeric(h[108:116], int64(e.UID))
	numeric(h[116:124], int64(e.GID))
	octal(h[124:136], size)
	numeric(h[136:148], e.MTime.Unix())
	h[156] = typ
	copy(h[257:265], magic)
	return h
}

const (
	magicGNU   = "ustar  \x00"
	magicUSTAR = "ustar\x0000"
)

func paxRecord(k, v string) string {
	n := len(k) + len(v) + 3
	for {
		s := strconv.Itoa(n) + " " + k + "=" + v + "\n"
		if len(s) == n {
			return s
		}
		n = len(s)
	}
}

// writeSparse writes a sparse file: Data is the expanded contents, Frags the
// stored pieces; the rest of Data must be zeros.
func writeSparse(out *bytes.Buffer, e *TarEntry) {
	var stored []byte
	for _, f := range e.Frags {
		stored = append(stored, e.Data[f.Off:f.Off+f.Len]...)
	}
	real := len(e.Data)
	if e.Sparse == SparseGNU {
		if len(e.Name) > 100 {
			// long name record
			l := blockHeader(e, 'L', "././@LongLink", int64(len(e.Name)+1), magicGNU)
			TarSum(l)
			out.Write(l)
			out.WriteString(e.Name + "\x00")
			pad512(out)
		}
		name := e.Name
		if len(name) > 100 {
			name = name[:100]
		}
		h := blockHeader(e, 'S', name, int64(len(stored)), magicGNU)
		fr := e.Frags
		for i := 0; i < 4 && len(fr) > 0; i++ {
			octal(h[386+24*i:386+24*i+12], int64(fr[0].Off))
			octal(h[386+24*i+12:386+24*i+24], int64(fr[0].Len))
			fr = fr[1:]
		}
		if len(fr) > 0 {
			h[482] = 1
		} else {
			h[482] = 0
		}
		octal(h[483:495], int64(real))
		TarSum(h)
		out.Write(h)
		for len(fr) > 0 {
			x := make([]byte, 512)
			for i := 0; i < 21 && len(fr) > 0; i++ {
				octal(x[24*i:24*i+12], int64(fr[0].Off))
				octal(x[24*i+12:24*i+24], int64(fr[0].Len))
				fr = fr[1:]
			}
			if len(fr) > 0 {
				x[504] = 1
			}
			out.Write(x)
		}
		out.Write(stored)
		pad512(out)
		return
	}
	var rec strings.Builder
	var head []byte
	switch e.Sparse {
	case SparsePAX00:
		rec.WriteString(paxRecord("GNU.sparse.size", strconv.Itoa(real)))
		rec.WriteString(paxRecord("GNU.sparse.numblocks", strconv.Itoa(len(e.Frags))))
		for _, f := range e.Frags {
			rec.WriteString(paxRecord("GNU.sparse.offset", strconv.Itoa(f.Off)))
			rec.WriteString(paxRecord("GNU.sparse.numbytes", strconv.Itoa(f.Len)))
		}
		rec.WriteString(paxRecord("path", e.Name))
	case SparsePAX01:
		var m []string
		for _, f := range e.Frags {
			m = append(m, strconv.Itoa(f.Off), strconv.Itoa(f.Len))
		}
		rec.WriteString(paxRecord("GNU.sparse.size", strconv.Itoa(real)))
		rec.WriteString(paxRecord("GNU.sparse.numblocks", strconv.Itoa(len(e.Frags))))
		rec.WriteString(paxRecord("GNU.sparse.map", strings.Join(m, ",")))
		rec.WriteString(paxRecord("GNU.sparse.name", e.Name))
	case SparsePAX10:
		rec.WriteString(paxRecord("GNU.sparse.major", "1"))
		rec.WriteString(paxRecord("GNU.sparse.minor", "0"))
		rec.WriteString(paxRecord("GNU.sparse.name", e.Name))
		rec.WriteString(paxRecord("GNU.sparse.realsize", strconv.Itoa(real)))
		var m bytes.Buffer
		fmt.Fprintf(&m, "%d\n", len(e.Frags))
		for _, f := range e.Frags {
			fmt.Fprintf(&m, "%d\n%d\n", f.Off, f.Len)
		}
		pad512(&m)
		head = m.Bytes()
	}
	if e.MTime.Nanosecond() != 0 {
		rec.WriteString(paxRecord("mtime", fmt.Sprintf("%d.%09d", e.MTime.Unix(), e.MTime.Nanosecond())))
	}
	x := blockHeader(e, 'x', "PaxHeaders.0/x", int64(rec.Len()), magicUSTAR)
	TarSum(x)
	out.Write(x)
	out.WriteString(rec.String())
	pad512(out)
	h := blockHeader(e, '0', "GNUSparseFile.0/x", int64(len(head)+len(stored)), magicUSTAR)
	TarSum(h)
	out.Write(h)
	out.Write(head)
	out.Write(stored)
	pad512(out)
}
