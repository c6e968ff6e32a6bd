package props

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"sync"
	"time"

	"verif/model"
)

// The peer is another process of this test binary, in another place, time
// zone and locale and with another degree of parallelism, that calls Create
// on request.

type peerNode struct {
	Name, Target   string
	Kind           model.Kind
	Mode, ModeType fs.FileMode
	UID, GID       int
	MTime          time.Time
	ZeroTime       bool
	Implied        bool
	Data           []byte
	Kids           []peerNode
}

type peerAsk struct {
	Kind  string
	Tree  *peerNode // to be presented by a source
	Raw   []byte    // or an archive to be copied
	Owner int
	// Names is what user and group names in tar headers start with.
	Names string
	// Asks are to be answered about the archive.
	Asks []peerQ
}

type peerQ struct{ Op, Path string }

type peerAnswer struct {
	Out []byte
	Err string
}

func toPeer(n *model.Node) peerNode {
	p := peerNode{Name: n.Name, Target: n.Target, Kind: n.Kind, Mode: n.Mode, ModeType: n.ModeType, UID: n.UID, GID: n.GID,
		MTime: n.MTime, ZeroTime: n.MTime.IsZero(), Implied: n.Implied, Data: n.Data}
	for _, name := range n.Names() {
		p.Kids = append(p.Kids, toPeer(n.Kids[name]))
	}
	return p
}

func fromPeer(p peerNode) *model.Node {
	n := &model.Node{Name: p.Name, Target: p.Target, Kind: p.Kind, Mode: p.Mode, ModeType: p.ModeType, UID: p.UID, GID: p.GID,
		MTime: p.MTime, Implied: p.Implied, Data: p.Data}
	if p.ZeroTime {
		n.MTime = time.Time{}
	}
	if p.Kind == model.Dir {
		n.Kids = map[string]*model.Node{}
	}
	for _, k := range p.Kids {
		n.Add(fromPeer(k))
	}
	return n
}

func servePeer() int {
	in, out := gob.NewDecoder(os.Stdin), gob.NewEncoder(os.Stdout)
	for {
		var q peerAsk
		if err := in.Decode(&q); err != nil {
			if errors.Is(err, io.EOF) {
				return 0
			}
			return 3
		}
		var a peerAnswer
		if p := try(func() { a = q.answer() }); p != "" {
			a = peerAnswer{Err: "panic: " + p}
		}
		if err := out.Encode(a); err != nil {
			return 3
		}
	}
}

func (q peerAsk) answer() (a peerAnswer) {
	var src fs.FS
	var err error
	if q.Asks != nil {
		a.Out = []byte(q.job().run(func() {}))
		return a
	}
	if q.Tree != nil {
		src = model.Source(fromPeer(*q.Tree), model.SrcOpts{Owner: model.OwnerVia(q.Owner)})
	} else if src, err = openAs(q.Kind, &memRA{b: q.Raw}); err != nil {
		return peerAnswer{Err: "Open: " + err.Error()}
	}
	a.Out, err = createAs(q.Kind, src)
	if err != nil {
		a.Err = "Create: " + err.Error()
	}
	return a
}

var peer struct {
	sync.Mutex
	started bool
	fail    error
	in      *gob.Encoder
	out     *gob.Decoder
}

// askPeer has the other process call Create.
func askPeer(q peerAsk) ([]byte, error) {
	peer.Lock()
	defer peer.Unlock()
	if !peer.started {
		peer.started = true
		peer.fail = startPeer()
	}
	if peer.fail != nil {
		return nil, peer.fail
	}
	if err := peer.in.Encode(q); err != nil {
		peer.fail = fmt.Errorf("harness: the peer is gone: %w", err)
		return nil, peer.fail
	}
	var a peerAnswer
	if err := peer.out.Decode(&a); err != nil {
		peer.fail = fmt.Errorf("harness: the peer is gone: %w", err)
		return nil, peer.fail
	}
	if a.Err != "" {
		return nil, errors.New("in another process: " + a.Err)
	}
	return a.Out, nil
}

func startPeer() error {
	self, err := os.Executable()
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	c := exec.Command(self)
	c.Dir = os.TempDir()
	c.Stderr = os.Stderr
	c.Env = []string{"VERIF_PEER=1", "GOMAXPROCS=1", "TZ=Pacific/Chatham", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "USER=nobody", "HOSTNAME=elsewhere",
		"GOGC=20", "TMPDIR=" + os.TempDir(), "PATH=/nonexistent"}
	in, err := c.StdinPipe()
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	if err := c.Start(); err != nil {
		return fmt.Errorf("harness: %w", err)
	}
	peer.in, peer.out = gob.NewEncoder(in), gob.NewDecoder(out)
	return nil
}

// job is the request as a job.
func (q peerAsk) job() *job {
	j := &job{kind: q.Kind, raw: q.Raw, so: model.SrcOpts{Owner: model.OwnerVia(q.Owner), OwnerNames: q.Names}}
	if q.Tree != nil {
		j.root = fromPeer(*q.Tree)
	}
	for _, a := range q.Asks {
		j.asks = append(j.asks, ask{a.Op, a.Path})
	}
	return j
}

// fresh does a job in a process that has done nothing before.
func fresh(q peerAsk) (string, error) {
	self, err := os.Executable()
	if err != nil {
		return "", fmt.Errorf("harness: %w", err)
	}
	var in, out bytes.Buffer
	if err := gob.NewEncoder(&in).Encode(q); err != nil {
		return "", fmt.Errorf("harness: %w", err)
	}
	c := exec.Command(self)
	c.Dir, c.Env = os.TempDir(), append(os.Environ(), "VERIF_PEER=1", "GORACE=atexit_sleep_ms=0")
	c.Stdin, c.Stdout, c.Stderr = &in, &out, os.Stderr
	if err := c.Run(); err != nil {
		return "", fmt.Errorf("harness: the other process: %w", err)
	}
	var a peerAnswer
	if err := gob.NewDecoder(&out).Decode(&a); err != nil {
		return "", fmt.Errorf("harness: the other process: %w", err)
	}
	if a.Err != "" {
		return a.Err, nil
	}
	return string(a.Out), nil
}
