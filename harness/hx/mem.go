package hx

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// MemConn is one end of an in-memory connection with limited buffers and
// deadlines, which works in virtual time.
type MemConn struct {
	in, out       *memHalf
	local, remote addr
}

type memHalf struct {
	mu       sync.Mutex
	cond     *sync.Cond
	buf      []byte
	limit    int
	eof      bool  // the writer is done
	broken   error // nothing goes through anymore
	gone     bool  // the reader is done
	rdl, wdl time.Time
	rt, wt   *time.Timer
}

func newHalf(limit int) *memHalf {
	h := &memHalf{limit: limit}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// MemPipe returns the two ends of a connection; limit is how many bytes may be
// under way in each direction.
func MemPipe(a, b string, limit int) (*MemConn, *MemConn) {
	x, y := newHalf(limit), newHalf(limit)
	return &MemConn{x, y, addr(a), addr(b)}, &MemConn{y, x, addr(b), addr(a)}
}

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *MemConn) Read(b []byte) (int, error) {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		switch {
		case h.gone:
			return 0, net.ErrClosed
		case past(h.rdl):
			return 0, os.ErrDeadlineExceeded
		case h.broken != nil:
			return 0, h.broken
		case len(b) == 0:
			return 0, nil
		case len(h.buf) > 0:
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			h.cond.Broadcast()
			return n, nil
		case h.eof:
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (c *MemConn) Write(b []byte) (n int, err error) {
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		switch {
		case h.eof:
			return n, net.ErrClosed
		case past(h.wdl):
			return n, os.ErrDeadlineExceeded
		case h.broken != nil:
			return n, h.broken
		case h.gone:
			return n, ErrReset
		case len(b) == 0:
			return n, nil
		}
		if free := h.limit - len(h.buf); free > 0 {
			k := min(free, len(b))
			h.buf = append(h.buf, b[:k]...)
			b = b[k:]
			n += k
			h.cond.Broadcast()
			continue
		}
		h.cond.Wait()
	}
}

// Close ends both directions; what was written can still be read.
func (c *MemConn) Close() error {
	c.out.mu.Lock()
	again := c.out.eof
	c.out.eof = true
	if c.out.wt != nil {
		c.out.wt.Stop()
	}
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
	c.in.mu.Lock()
	c.in.gone = true
	if c.in.rt != nil {
		c.in.rt.Stop()
	}
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	if again {
		return net.ErrClosed
	}
	return nil
}

// Reset breaks the connection.
func (c *MemConn) Reset() {
	for _, h := range []*memHalf{c.in, c.out} {
		h.mu.Lock()
		h.broken = ErrReset
		h.buf = nil
		h.cond.Broadcast()
		h.mu.Unlock()
	}
}

// PeerClosed tells whether the other end closed the connection.
func (c *MemConn) PeerClosed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.eof
}

func (c *MemConn) LocalAddr() net.Addr  { return c.local }
func (c *MemConn) RemoteAddr() net.Addr { return c.remote }

func (h *memHalf) deadline(t time.Time, dl *time.Time, tm **time.Timer) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if *tm != nil {
		(*tm).Stop()
		*tm = nil
	}
	*dl = t
	if !t.IsZero() {
		*tm = time.AfterFunc(time.Until(t), func() {
			h.mu.Lock()
			defer h.mu.Unlock()
			h.cond.Broadcast()
		})
	}
	h.cond.Broadcast()
}

func (c *MemConn) SetReadDeadline(t time.Time) error {
	c.in.deadline(t, &c.in.rdl, &c.in.rt)
	return nil
}

func (c *MemConn) SetWriteDeadline(t time.Time) error {
	c.out.deadline(t, &c.out.wdl, &c.out.wt)
	return nil
}

func (c *MemConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// MemListener accepts in-memory connections.
type MemListener struct {
	Limit int
	name  string
	ch    chan net.Conn
	done  chan struct{}
	once  sync.Once
	// Dialed, if set, is told both ends of every connection
	Dialed func(client, server *MemConn)
}

func NewMemListener(name string) *MemListener {
	return &MemListener{Limit: 64 << 10, name: name, ch: make(chan net.Conn), done: make(chan struct{})}
}

func (l *MemListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *MemListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *MemListener) Addr() net.Addr { return addr(l.name) }

// Dial connects to the listener.
func (l *MemListener) Dial(ctx context.Context) (*MemConn, error) { return l.DialLimit(ctx, l.Limit) }

// DialLimit connects with buffers of the given size.
func (l *MemListener) DialLimit(ctx context.Context, limit int) (*MemConn, error) {
	a, b := MemPipe("10.0.0.1:40000", l.name, limit)
	if l.Dialed != nil {
		l.Dialed(a, b)
	}
	select {
	case l.ch <- b:
		return a, nil
	case <-l.done:
		return nil, errors.New("connection refused")
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}
