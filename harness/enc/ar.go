package enc

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// ArMember is one member of an ar archive.
type ArMember struct {
	Name  string // without the terminating slash
	Slash bool   // written with a terminating slash
	// Fields as written, without padding; "" leaves the column blank.
	MTime, UID, GID, Mode string
	Data                  []byte
	// Size overrides the size column when not "".
	Size string
	// Right aligns numbers to the right of their columns.
	Right bool
	// Zeros fills the decimal columns with zeros on the left.
	Zeros bool
}

// EncodeAr writes an archive; finalPad writes the padding byte after a last
// member of odd size. It also returns the offset of every header and the end.
func EncodeAr(ms []ArMember, finalPad bool) ([]byte, []int) {
	var b bytes.Buffer
	b.WriteString("!<arch>\n")
	var at []int
	for i, m := range ms {
		at = append(at, b.Len())
		n := m.Name
		if m.Slash {
			n += "/"
		}
		size := m.Size
		if size == "" {
			size = strconv.Itoa(len(m.Data))
		}
		b.WriteString(col(n, 16, false))
		if m.Zeros {
			m.MTime, m.UID, m.GID, size = zeros(m.MTime, 12), zeros(m.UID, 6), zeros(m.GID, 6), zeros(size, 10)
		}
		b.WriteString(col(m.MTime, 12, m.Right))
		b.WriteString(col(m.UID, 6, m.Right))
		b.WriteString(col(m.GID, 6, m.Right))
		b.WriteString(col(m.Mode, 8, m.Right))
		b.WriteString(col(size, 10, m.Right))
		b.WriteString("`\n")
		b.Write(m.Data)
		if len(m.Data)%2 == 1 && (i < len(ms)-1 || finalPad) {
			b.WriteByte('\n')
		}
	}
	return b.Bytes(), append(at, b.Len())
}

func zeros(s string, w int) string {
	if s == "" || s[0] == '-' {
		return s
	}
	return strings.Repeat("0", w-len(s)) + s
}

func col(s string, w int, right bool) string {
	if len(s) > w {
		panic(fmt.Sprintf("%q does not fit a column of %d", s, w))
	}
	pad := strings.Repeat(" ", w-len(s))
	if right {
		return pad + s
	}
	return s + pad
}

// ArParsed is a member found by ParseAr.
type ArParsed struct {
	Name                        string
	MTime, UID, GID, Mode, Size int64
	Data                        []byte
	Off                         int
}

// ParseAr reads an archive strictly.
func ParseAr(b []byte) ([]ArParsed, error) {
	if len(b) < 8 || string(b[:8]) != "!<arch>\n" {
		return nil, fmt.Errorf("no ar magic")
	}
	off := 8
	var out []ArParsed
	for off < len(b) {
		if off%2 != 0 {
			return nil, fmt.Errorf("header at odd offset %d", off)
		}
		if len(b)-off < 60 {
			return nil, fmt.Errorf("%d bytes left at offset %d", len(b)-off, off)
		}
		h := b[off : off+60]
		if h[58] != '`' || h[59] != '\n' {
			return nil, fmt.Errorf("bad terminator % x at offset %d", h[58:60], off)
		}
		m := ArParsed{Name: strings.TrimRight(string(h[:16]), " "), Off: off}
		m.Name = strings.TrimSuffix(m.Name, "/")
		for _, f := range []struct {
			dst  *int64
			lo   int
			hi   int
			base int
			name string
		}{{&m.MTime, 16, 28, 10, "time"}, {&m.UID, 28, 34, 10, "uid"}, {&m.GID, 34, 40, 10, "gid"}, {&m.Mode, 40, 48, 8, "mode"}, {&m.Size, 48, 58, 10, "size"}} {
			s := string(h[f.lo:f.hi])
			t := strings.TrimRight(s, " ")
			v, err := strconv.ParseInt(t, f.base, 64)
			if err != nil || t[0] == '+' {
				return nil, fmt.Errorf("bad %s column %q at offset %d", f.name, s, off)
			}
			if v < 0 && f.name != "time" {
				return nil, fmt.Errorf("negative %s column %q at offset %d", f.name, s, off)
			}
			*f.dst = v
		}
		off += 60
		if int64(len(b)-off) < m.Size {
			return nil, fmt.Errorf("member %q of %d bytes has only %d", m.Name, m.Size, len(b)-off)
		}
		m.Data = b[off : off+int(m.Size)]
		off += int(m.Size)
		if m.Size%2 == 1 {
			if off >= len(b) {
				return nil, fmt.Errorf("padding byte missing at the end")
			}
			if b[off] != '\n' {
				return nil, fmt.Errorf("padding byte is %#x", b[off])
			}
			off++
		}
		out = append(out, m)
	}
	return out, nil
}
