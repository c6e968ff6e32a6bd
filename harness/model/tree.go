// Package model is the reference model: trees of files, directories and
// symbolic links, POSIX path resolution over them, and generators for them.
// It shares no code with the packages under test.
package model

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"
)

type Kind uint8

const (
	File Kind = iota
	Dir
	Link
)

// SpecialBits are the mode bits besides the permissions that formats carry.
const SpecialBits = fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky

// Node is one file, directory or symbolic link.
type Node struct {
	Name   string
	Kind   Kind
	Mode   fs.FileMode // permissions and SpecialBits, no type bits
	UID    int
	GID    int
	MTime  time.Time
	Data   []byte
	Target string
	Kids   map[string]*Node
	Parent *Node
	// Implied marks a directory that has no entry of its own.
	Implied bool
	// ModeType overrides the type bits (device nodes and the like).
	ModeType fs.FileMode
}

func NewDir(name string, mode fs.FileMode) *Node {
	return &Node{Name: name, Kind: Dir, Mode: mode, Kids: map[string]*Node{}}
}

// FileMode is the complete mode, with type bits.
func (n *Node) FileMode() fs.FileMode {
	m := n.Mode
	if n.ModeType != 0 {
		return m | n.ModeType
	}
	switch n.Kind {
	case Dir:
		m |= fs.ModeDir
	case Link:
		m |= fs.ModeSymlink
	}
	return m
}

// Size of the contents.
func (n *Node) Size() int64 { return int64(len(n.Data)) }

func (n *Node) Add(c *Node) *Node {
	c.Parent = n
	n.Kids[c.Name] = c
	return c
}

// Path from the root, "." for the root itself.
func (n *Node) Path() string {
	var parts []string
	for x := n; x.Parent != nil; x = x.Parent {
		parts = append(parts, x.Name)
	}
	if len(parts) == 0 {
		return "."
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, "/")
}

// Names of the children, sorted.
func (n *Node) Names() []string {
	out := make([]string, 0, len(n.Kids))
	for k := range n.Kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Walk visits the tree in lexical preorder.
func (n *Node) Walk(f func(p string, n *Node)) { n.walk(n.Path(), f) }

func (n *Node) walk(p string, f func(string, *Node)) {
	f(p, n)
	for _, k := range n.Names() {
		n.Kids[k].walk(path.Join(p, k), f)
	}
}

// All nodes in lexical preorder.
func (n *Node) All() []*Node {
	var out []*Node
	n.Walk(func(_ string, c *Node) { out = append(out, c) })
	return out
}

// Get walks a clean path without following any link.
func (n *Node) Get(p string) *Node {
	if p == "." || p == "" {
		return n
	}
	cur := n
	for _, c := range strings.Split(p, "/") {
		if cur == nil {
			return nil
		}
		cur = cur.Kids[c]
	}
	return cur
}

var (
	ErrLoop   = errors.New("model: too many links")
	ErrNoEnt  = errors.New("model: no such file")
	ErrNotDir = errors.New("model: not a directory")
)

// Res is the outcome of a path resolution.
type Res struct {
	Node *Node
	Hops int // links followed
	// Lax is set when "." or a trailing slash was applied to something that is
	// not a directory: POSIX refuses that, lexical implementations do not.
	Lax bool
	Err error
}

// Resolve does POSIX path resolution with this node as the root directory. A
// cycle gives ErrLoop.
func (root *Node) Resolve(name string, follow bool) Res {
	pending := splitPath(name)
	var r Res
	cur := root
	fail := func(err error) Res { r.Err = err; return r }
	for len(pending) > 0 {
		c := pending[0]
		pending = pending[1:]
		if c == "." {
			if cur.Kind != Dir {
				r.Lax = true
			}
			continue
		}
		if cur.Kind != Dir {
			return fail(ErrNotDir)
		}
		if c == ".." {
			if cur.Parent != nil {
				cur = cur.Parent
			}
			continue
		}
		next := cur.Kids[c]
		if next == nil {
			return fail(ErrNoEnt)
		}
		if next.Kind == Link && (follow || len(pending) > 0) {
			r.Hops++
			if r.Hops > 300 || len(pending) > 20000 {
				return fail(ErrLoop)
			}
			if next.Target == "" {
				return fail(ErrNoEnt)
			}
			if strings.HasPrefix(next.Target, "/") {
				cur = root
			}
			pending = append(append([]string{}, splitPath(next.Target)...), pending...)
			continue
		}
		cur = next
	}
	r.Node = cur
	return r
}

func splitPath(p string) []string {
	var out []string
	parts := strings.Split(p, "/")
	for i, c := range parts {
		if c == "" {
			if i == len(parts)-1 && i > 0 {
				out = append(out, ".")
			}
			continue
		}
		out = append(out, c)
	}
	return out
}

// Hash identifies the tree for counting distinct cases.
func (n *Node) Hash() uint64 {
	h := fnv.New64a()
	n.Walk(func(p string, c *Node) {
		fmt.Fprintf(h, "%s\x00%d %o %d %d %d %s %x\x00", p, c.Kind, c.FileMode(), c.UID, c.GID, c.MTime.UnixNano(), c.Target, len(c.Data))
		h.Write(c.Data)
	})
	return h.Sum64()
}

// String describes the tree, one line per node.
func (n *Node) String() string {
	var b strings.Builder
	n.Walk(func(p string, c *Node) {
		if b.Len() > 4000 {
			return
		}
		fmt.Fprintf(&b, "%s %q", c.FileMode(), p)
		switch c.Kind {
		case File:
			fmt.Fprintf(&b, " size=%d", len(c.Data))
		case Link:
			fmt.Fprintf(&b, " -> %q", c.Target)
		}
		if c.Implied {
			fmt.Fprintf(&b, " implied")
		} else {
			mt := "zero"
			if !c.MTime.IsZero() {
				mt = fmt.Sprintf("%d.%09d", c.MTime.Unix(), c.MTime.Nanosecond())
			}
			fmt.Fprintf(&b, " %d:%d mtime=%s", c.UID, c.GID, mt)
		}
		b.WriteByte('\n')
	})
	return b.String()
}

// Clone copies the tree.
func (n *Node) Clone() *Node {
	c := *n
	c.Parent = nil
	if n.Kids != nil {
		c.Kids = map[string]*Node{}
		for _, k := range n.Names() {
			c.Add(n.Kids[k].Clone())
		}
	}
	return &c
}

// GoString keeps rapid's log of draws short.
func (n *Node) GoString() string { return fmt.Sprintf("<%v %q>", n.FileMode(), n.Path()) }
