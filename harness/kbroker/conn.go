// Package kbroker is an in-process Kafka cluster that speaks the wire protocol over in-memory connections. It is the
// environment of the end-to-end monitors: it keeps the log of every partition with full provenance (which transaction,
// which producer, which client instance), implements idempotence, transactions, consumer groups and topic administration,
// and lets a workload inject latency, errors, lost replies and crashes.
package kbroker

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/twmb/franz-go/pkg/kgo"
)

// half is one direction of a connection: a byte queue without backpressure.
type half struct {
	mu     sync.Mutex
	buf    []byte
	closed bool
	wake   chan struct{}
}

func newHalf() *half { return &half{wake: make(chan struct{})} }

func (h *half) signal() {
	close(h.wake)
	h.wake = make(chan struct{})
}

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		// what a TCP connection reports after the other end has closed it
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	h.buf = append(h.buf, b...)
	h.signal()
	return len(b), nil
}

func (h *half) isClosed() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.closed
}

func (h *half) close() {
	h.mu.Lock()
	if !h.closed {
		h.closed = true
		h.signal()
	}
	h.mu.Unlock()
}

func (h *half) read(b []byte, dl *deadline) (int, error) {
	for {
		h.mu.Lock()
		if len(h.buf) > 0 {
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			h.mu.Unlock()
			return n, nil
		}
		if h.closed {
			h.mu.Unlock()
			return 0, io.EOF
		}
		w := h.wake
		h.mu.Unlock()
		var dc chan struct{}
		if dl != nil {
			dc = dl.wait()
		}
		select {
		case <-w:
		case <-dc:
			return 0, os.ErrDeadlineExceeded
		}
	}
}

type deadline struct {
	mu     sync.Mutex
	timer  *time.Timer
	cancel chan struct{}
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.timer != nil {
		d.timer.Stop()
		d.timer = nil
	}
	select {
	case <-d.cancel:
		d.cancel = make(chan struct{})
	default:
	}
	if t.IsZero() {
		return
	}
	c := d.cancel
	if dur := time.Until(t); dur > 0 {
		d.timer = time.AfterFunc(dur, func() {
			d.mu.Lock()
			defer d.mu.Unlock()
			select {
			case <-c:
			default:
				close(c)
			}
		})
		return
	}
	close(c)
}

func (d *deadline) wait() chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.cancel
}

type addr string

func (a addr) Network() string { return "kbroker" }
func (a addr) String() string  { return string(a) }

// Conn is the client end.
type Conn struct {
	rd, wr       *half
	rdl, wdl     deadline
	remote, self addr
}

func (c *Conn) Read(b []byte) (int, error) { return c.rd.read(b, &c.rdl) }
func (c *Conn) Write(b []byte) (int, error) {
	select {
	case <-c.wdl.wait():
		return 0, os.ErrDeadlineExceeded
	default:
	}
	return c.wr.write(b)
}
func (c *Conn) Close() error {
	c.rd.close()
	c.wr.close()
	return nil
}
func (c *Conn) LocalAddr() net.Addr                { return c.self }
func (c *Conn) RemoteAddr() net.Addr               { return c.remote }
func (c *Conn) SetDeadline(t time.Time) error      { c.rdl.set(t); c.wdl.set(t); return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl.set(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl.set(t); return nil }

// Instance is one client process as seen by the cluster: everything dialled through it can be cut at once.
type Instance struct {
	Name string
	b    *Cluster
	mu   sync.Mutex
	dead bool
	down bool // temporarily unreachable
	cs   map[*Conn]struct{}
	// DialErr, if set, fails every dial.
	DialErr error
	opts    []kgo.Opt
	// View makes the instance a client of one of several logical clusters, see Topic.View.
	View string
	// Twin is a connection of the same process to another logical cluster.
	Twin *Instance
}

func (in *Instance) sees(t *Topic) bool { return in.View == "" || t.View == "" || in.View == t.View }

// Instance creates a client instance.
func (b *Cluster) Instance(name string, opts ...kgo.Opt) *Instance {
	return &Instance{Name: name, b: b, cs: map[*Conn]struct{}{}, opts: opts}
}

// Config makes Instance a streams.Cluster.
func (in *Instance) Config() ([]kgo.Opt, error) {
	o := []kgo.Opt{
		kgo.SeedBrokers(in.b.nodeAddr(0)),
		kgo.Dialer(in.dial),
		kgo.RetryBackoffFn(func(n int) time.Duration { return time.Duration(min(n, 10)) * 10 * time.Millisecond }),
		kgo.MetadataMinAge(10 * time.Millisecond),
		kgo.MetadataMaxAge(5 * time.Minute),
	}
	return append(o, in.opts...), nil
}

var ErrDown = &net.OpError{Op: "dial", Net: "kbroker", Err: errors.New("connection refused")}

func (in *Instance) dial(ctx context.Context, _, host string) (net.Conn, error) {
	in.mu.Lock()
	err, dead := in.DialErr, in.dead
	if err == nil && (in.dead || in.down) {
		err = ErrDown
	}
	in.mu.Unlock()
	if err != nil {
		// a refused connection takes time; nobody is interested in what a crashed process would do
		d := 5 * time.Millisecond
		if dead {
			d = time.Second
		}
		select {
		case <-time.After(d):
		case <-ctx.Done():
		}
		return nil, err
	}
	in.mu.Lock()
	defer in.mu.Unlock()
	if in.dead || in.down {
		return nil, ErrDown
	}
	node := in.b.nodeOf(host)
	if node < 0 {
		return nil, ErrDown
	}
	in.b.Dials.Add(1)
	up, down := newHalf(), newHalf()
	cl := &Conn{rd: down, wr: up, remote: addr(host), self: addr(in.Name)}
	cl.rdl.cancel = make(chan struct{})
	cl.wdl.cancel = make(chan struct{})
	in.cs[cl] = struct{}{}
	go func() {
		in.b.serve(in, node, up, down)
		up.close()
		down.close()
		in.mu.Lock()
		delete(in.cs, cl)
		in.mu.Unlock()
	}()
	return cl, nil
}

// Kill cuts every connection for good: the process has crashed as far as the cluster can tell.
func (in *Instance) Kill() {
	in.b.mu.Lock() // requests being applied right now are applied completely or not at all
	in.mu.Lock()
	in.dead = true
	for c := range in.cs {
		c.rd.close()
		c.wr.close()
	}
	in.mu.Unlock()
	in.b.mu.Unlock()
	if in.Twin != nil {
		in.Twin.Kill()
	}
}

// Cut closes the current connections; the client may reconnect.
func (in *Instance) Cut() {
	if in.Twin != nil {
		defer in.Twin.Cut()
	}
	in.mu.Lock()
	for c := range in.cs {
		c.rd.close()
		c.wr.close()
	}
	in.mu.Unlock()
}

// SetDown makes the cluster unreachable (or reachable again).
func (in *Instance) SetDown(d bool) {
	if in.Twin != nil {
		defer in.Twin.SetDown(d)
	}
	in.mu.Lock()
	in.down = d
	in.mu.Unlock()
	if d {
		in.Cut()
	}
}

func (in *Instance) Dead() bool {
	in.mu.Lock()
	defer in.mu.Unlock()
	return in.dead
}
