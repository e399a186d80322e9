package hx

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/vulpemventures/neutrino-elements/pkg/peer"
)

// Conn is the node's end of an in-memory connection. The other end (Peer)
// decides in which segments the node reads, and may refuse or stall its writes.
type Conn struct {
	mu      sync.Mutex
	cond    *sync.Cond
	in      [][]byte // segments the node has not read yet
	inEOF   error    // returned once the segments are read
	closed  bool     // by the node
	closeAt time.Time
	local   net.Addr
	remote  net.Addr

	out      []byte // written by the node, not yet parsed
	Writes   int
	failNext func(n int, b []byte) error // n-th write
	onWrite  func(b []byte)
	stalled  bool
	writeBy  time.Time
	reads    int64
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

var connSeq int64

// NewConn returns a connection with addresses nobody else has.
func NewConn() *Conn {
	n := atomic.AddInt64(&connSeq, 1)
	c := &Conn{local: addr(fmt.Sprintf("127.0.0.1:%d/%d", 20000+n%40000, n)), remote: addr(fmt.Sprintf("10.0.0.1:%d/%d", 18000+n%40000, n))}
	c.cond = sync.NewCond(&c.mu)
	return c
}

var errClosed = errors.New("use of closed network connection")

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.reads++
	for {
		if c.closed {
			return 0, errClosed
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			n := copy(b, c.in[0])
			c.in[0] = c.in[0][n:]
			if len(c.in[0]) == 0 {
				c.in = c.in[1:]
			}
			return n, nil
		}
		if c.inEOF != nil {
			return 0, c.inEOF
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, errClosed
	}
	for c.stalled && !c.closed {
		if !c.writeBy.IsZero() {
			d := time.Until(c.writeBy)
			if d <= 0 {
				return 0, os.ErrDeadlineExceeded
			}
			t := time.AfterFunc(d, func() {
				c.mu.Lock()
				c.cond.Broadcast()
				c.mu.Unlock()
			})
			c.cond.Wait()
			t.Stop()
			continue
		}
		c.cond.Wait()
	}
	if c.closed {
		return 0, errClosed
	}
	c.Writes++
	if f := c.failNext; f != nil {
		if err := f(c.Writes, b); err != nil {
			return 0, err
		}
	}
	if c.inEOF != nil && c.inEOF != io.EOF {
		return 0, c.inEOF
	}
	c.out = append(c.out, b...)
	if c.onWrite != nil {
		c.onWrite(b)
	}
	c.cond.Broadcast()
	return len(b), nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return errClosed
	}
	c.closed = true
	c.closeAt = time.Now()
	c.cond.Broadcast()
	return nil
}

func (c *Conn) LocalAddr() net.Addr             { return c.local }
func (c *Conn) RemoteAddr() net.Addr            { return c.remote }
func (c *Conn) SetDeadline(t time.Time) error   { return c.SetWriteDeadline(t) }
func (c *Conn) SetReadDeadline(time.Time) error { return nil }

// SetWriteDeadline ends writes that wait, as on a real connection.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writeBy = t
	c.cond.Broadcast()
	return nil
}

// IsClosed says whether the node closed its end.
func (c *Conn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// ClosedAt is when the node closed its end.
func (c *Conn) ClosedAt() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closeAt
}

// Pending is the number of bytes the node has not read yet.
func (c *Conn) Pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.in {
		n += len(s)
	}
	return n
}

// Feed makes segments readable.
func (c *Conn) Feed(segs ...[]byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range segs {
		if len(s) > 0 {
			c.in = append(c.in, append([]byte(nil), s...))
		}
	}
	c.cond.Broadcast()
}

// EndRemote ends the stream from the peer: io.EOF or a reset.
func (c *Conn) EndRemote(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inEOF == nil {
		c.inEOF = err
	}
	c.cond.Broadcast()
}

// FailWrites sets who decides about the node's writes.
func (c *Conn) FailWrites(f func(n int, b []byte) error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.failNext = f
}

// Stall makes the node's writes wait until it closes the connection or the
// deadline it has set.
func (c *Conn) Stall() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stalled = true
}

// ErrReset is what a broken connection says.
var ErrReset = errors.New("connection reset by peer")

// Sent is a message of the node.
type Sent struct {
	Msg
	At  time.Time
	Seq int
}

// Peer is the other end: it records what the node sends and answers.
type Peer struct {
	C    *Conn
	Case *Case
	Name string

	mu   sync.Mutex
	sent []Sent
	// On is called, one message after the other, for every message of the node
	On func(p *Peer, m Sent)
	// Split cuts what is sent into segments
	Split func(b []byte) [][]byte
	Addr  string
	done  chan struct{}
	over  bool
}

// Forget drops the messages recorded so far.
func (p *Peer) Forget() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.sent = nil
}

// NewPeer starts a peer; Stop ends it.
func NewPeer(c *Case, name string, on func(p *Peer, m Sent)) *Peer {
	p := &Peer{C: NewConn(), Case: c, Name: name, On: on, done: make(chan struct{})}
	p.Addr = fmt.Sprintf("10.%d.%d.%d:18886", c.Rand.Intn(250), c.Rand.Intn(250), c.Rand.Intn(250))
	c.Go(p.loop)
	return p
}

func (p *Peer) loop() {
	defer close(p.done)
	for {
		p.C.mu.Lock()
		var m Msg
		var ok bool
		for {
			m, p.C.out, ok = Take(p.C.out)
			if ok || p.over {
				break
			}
			p.C.cond.Wait()
		}
		over := p.over
		p.C.mu.Unlock()
		if !ok && over {
			return
		}
		p.mu.Lock()
		s := Sent{m, time.Now(), len(p.sent)}
		p.sent = append(p.sent, s)
		p.mu.Unlock()
		p.Case.Log("%s <- node: %s %d bytes", p.Name, m.Cmd, len(m.Payload))
		if p.On != nil {
			p.On(p, s)
		}
	}
}

// Stop ends the peer's goroutine (not its connection).
func (p *Peer) Stop() {
	p.C.mu.Lock()
	p.over = true
	p.C.cond.Broadcast()
	p.C.mu.Unlock()
	<-p.done
}

// Sent returns the messages of the node so far.
func (p *Peer) Sent(cmds ...string) []Sent {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(cmds) == 0 {
		return append([]Sent(nil), p.sent...)
	}
	var l []Sent
	for _, s := range p.sent {
		for _, c := range cmds {
			if s.Cmd == c {
				l = append(l, s)
			}
		}
	}
	return l
}

// Left returns bytes of the node that are no complete message.
func (p *Peer) Left() []byte {
	p.C.mu.Lock()
	defer p.C.mu.Unlock()
	return append([]byte(nil), p.C.out...)
}

// Send sends raw bytes.
func (p *Peer) Send(b []byte) {
	segs := [][]byte{b}
	if p.Split != nil {
		segs = p.Split(b)
	}
	p.C.Feed(segs...)
}

// Msg sends a message with its right header.
func (p *Peer) Msg(m Magic, cmd string, payload []byte) {
	p.Case.Log("%s -> node: %s %d bytes", p.Name, cmd, len(payload))
	p.Send(Frame(m, cmd, payload))
}

// Reset breaks the connection in both directions.
func (p *Peer) Reset() {
	p.Case.Log("%s resets", p.Name)
	p.C.EndRemote(ErrReset)
}

// EOF ends the peer's side.
func (p *Peer) EOF() {
	p.Case.Log("%s closes", p.Name)
	p.C.EndRemote(io.EOF)
}

// Dialing: who answers at an address.
var dialMu sync.Mutex
var dialTo = map[string]func() (net.Conn, error){}

func init() {
	peer.DialHook = func(a string) (net.Conn, error) {
		dialMu.Lock()
		f := dialTo[a]
		dialMu.Unlock()
		if f == nil {
			return net.Dial("tcp", a)
		}
		return f()
	}
}

var addrSeq int64

// Listen makes f answer dials to the address returned.
func Listen(f func() (net.Conn, error)) (string, func()) {
	n := atomic.AddInt64(&addrSeq, 1)
	a := fmt.Sprintf("10.%d.%d.%d:%d", n>>16&255, n>>8&255, n&255, 18000+n%1000)
	dialMu.Lock()
	dialTo[a] = f
	dialMu.Unlock()
	return a, func() {
		dialMu.Lock()
		delete(dialTo, a)
		dialMu.Unlock()
	}
}

// Segments: ways to cut bytes.
func CutOne(b []byte) [][]byte {
	var l [][]byte
	for i := range b {
		l = append(l, b[i:i+1])
	}
	return l
}

// CutAt returns a cutter at random places, on average every n bytes.
func (c *Case) CutAt(n int) func(b []byte) [][]byte {
	seed := c.Rand.Int63()
	var mu sync.Mutex
	r := newRand(seed)
	return func(b []byte) [][]byte {
		mu.Lock()
		defer mu.Unlock()
		var l [][]byte
		for len(b) > 0 {
			k := 1 + r.Intn(2*n)
			if k > len(b) {
				k = len(b)
			}
			l = append(l, b[:k])
			b = b[k:]
		}
		return l
	}
}
