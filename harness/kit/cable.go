package kit

import (
	"io"
	"net"
	"sync"
)

// Cable lies between clients and a server, and breaks when told.
type Cable struct {
	lis    net.Listener
	target string
	mu     sync.Mutex
	conns  map[net.Conn]bool
	away   bool
	next   []int // bytes the next connections bring
	left   [2]int
	made   int
	broke  int
}

// NewCable lays a cable to an address.
func NewCable(target string) *Cable {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	w := &Cable{lis: lis, target: target, conns: map[net.Conn]bool{}, left: [2]int{-1, -1}}
	go func() {
		for {
			a, err := lis.Accept()
			if err != nil {
				return
			}
			w.connect(a)
		}
	}()
	return w
}

func (w *Cable) connect(a net.Conn) {
	b, err := net.Dial("tcp", w.target)
	if err != nil {
		_ = a.Close()
		return
	}
	n := -1
	w.mu.Lock()
	if w.away {
		w.mu.Unlock()
		_, _ = a.Close(), b.Close()
		return
	}
	w.made++
	if len(w.next) > 0 {
		n, w.next = w.next[0], w.next[1:]
	}
	w.conns[a], w.conns[b] = true, true
	w.mu.Unlock()
	shut := func() {
		w.mu.Lock()
		delete(w.conns, a)
		delete(w.conns, b)
		w.mu.Unlock()
		_, _ = a.Close(), b.Close()
	}
	go func() { w.copy(0, b, a, -1); shut() }()
	go func() { w.copy(1, a, b, n); shut() }()
}

// copy copies until an end closes, the limit is reached, or the cable breaks.
func (w *Cable) copy(dir int, to io.Writer, from io.Reader, limit int) {
	buf := make([]byte, 32<<10)
	for {
		n, err := from.Read(buf)
		over := false
		if limit >= 0 {
			if n >= limit {
				n, over = limit, true
			}
			limit -= n
		}
		w.mu.Lock()
		if w.left[dir] >= 0 {
			if n >= w.left[dir] {
				n, over = w.left[dir], true
			}
			if w.left[dir] -= n; over {
				w.left[dir] = -1
			}
		}
		if over {
			w.broke++ // before anybody sees the last bytes
		}
		w.mu.Unlock()
		if n > 0 {
			if _, err := to.Write(buf[:n]); err != nil {
				return
			}
		}
		if over {
			w.cut()
		}
		if over || err != nil {
			return
		}
	}
}

// Addr is the end for clients.
func (w *Cable) Addr() string { return w.lis.Addr().String() }

// Made is the number of connections made.
func (w *Cable) Made() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.made
}

// Broke is how often the cable broke.
func (w *Cable) Broke() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.broke
}

// Cut breaks all connections.
func (w *Cable) Cut() {
	w.mu.Lock()
	w.broke++
	w.mu.Unlock()
	w.cut()
}

func (w *Cable) cut() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for c := range w.conns {
		_ = c.Close()
	}
}

// CutAfter breaks all connections when n more bytes have come from the server (or, up, have been sent to it).
func (w *Cable) CutAfter(n int, up bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if up {
		w.left[0] = n
	} else {
		w.left[1] = n
	}
}

// Limit breaks the next connections after n bytes from the server.
func (w *Cable) Limit(n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.next = append(w.next, n)
}

// Mend takes back what is to break.
func (w *Cable) Mend() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.next, w.left = nil, [2]int{-1, -1}
}

// Away makes the server unreachable.
func (w *Cable) Away(v bool) {
	w.mu.Lock()
	w.away = v
	w.mu.Unlock()
	if v {
		w.Cut()
	}
}

// Close ends it all.
func (w *Cable) Close() { _ = w.lis.Close(); w.Cut() }
