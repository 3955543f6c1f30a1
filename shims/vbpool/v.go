// Package vbpool models github.com/unit-io/bpool without its memory back-off
// timers: same buffer semantics, buffers are recycled in LIFO order.
package vbpool

import (
	"errors"
	"sync"
	"time"
)

type Options struct {
	MaxPoolSize         int
	InitialInterval     time.Duration
	RandomizationFactor float64
	MaxElapsedTime      time.Duration
	WriteBackOff        bool
}

type Buffer struct {
	buf  []byte
	size int64
	sync.RWMutex
}

type BufferPool struct {
	mu   sync.Mutex
	free []*Buffer
}

func NewBufferPool(size int64, opts *Options) *BufferPool { return &BufferPool{} }

func (p *BufferPool) NewBuffer(b []byte) *Buffer { return &Buffer{buf: b, size: int64(len(b))} }

func (p *BufferPool) Get() *Buffer {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := len(p.free); n > 0 {
		b := p.free[n-1]
		p.free = p.free[:n-1]
		return b
	}
	return &Buffer{}
}

func (p *BufferPool) Put(b *Buffer) {
	b.Reset()
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.free) < 27 {
		p.free = append(p.free, b)
	}
}

func (p *BufferPool) Capacity() float64 { return 0 }
func (p *BufferPool) Backoff()          {}
func (p *BufferPool) Done()             {}

func (b *Buffer) allocate(n int64) (int64, error) {
	if n == 0 {
		panic("unable to allocate zero bytes")
	}
	off := b.size
	b.buf = append(b.buf, make([]byte, n)...)
	b.size += n
	return off, nil
}

func (b *Buffer) writeAt(p []byte, off int64) {
	n := int64(len(p))
	if off == b.size {
		b.buf = append(b.buf, p...)
		b.size += n
	} else if off+n > b.size {
		panic("trying to write past EOF - undefined behavior")
	} else {
		copy(b.buf[off:off+n], p)
	}
}

func (b *Buffer) Extend(n int64) (int64, error) {
	b.Lock()
	defer b.Unlock()
	return b.allocate(int64(uint32(n)))
}

func (b *Buffer) Internal() []byte { return b.buf }

func (b *Buffer) Write(p []byte) (int, error) {
	b.Lock()
	defer b.Unlock()
	off, err := b.allocate(int64(uint32(len(p))))
	if err != nil {
		return 0, err
	}
	b.writeAt(p, off)
	return len(p), nil
}

func (b *Buffer) WriteAt(p []byte, off int64) (int, error) {
	b.Lock()
	defer b.Unlock()
	b.writeAt(p, off)
	return len(p), nil
}

func (b *Buffer) Bytes() []byte {
	b.RLock()
	defer b.RUnlock()
	return b.buf[0:b.size]
}

func (b *Buffer) Slice(start, end int64) ([]byte, error) {
	p := make([]byte, end-start)
	_, err := b.readAt(p, start)
	return p, err
}

func (b *Buffer) readAt(p []byte, off int64) (int, error) {
	n := int64(len(p))
	if n > b.size-off {
		return 0, errors.New("eof")
	}
	copy(p, b.buf[off:off+n])
	return len(p), nil
}

func (b *Buffer) ReadAt(p []byte, off int64) (int, error) {
	b.RLock()
	defer b.RUnlock()
	return b.readAt(p, off)
}

func (b *Buffer) Read(p []byte) (int, error) {
	b.RLock()
	defer b.RUnlock()
	n := int64(len(p))
	if n > b.size {
		return 0, errors.New("eof")
	}
	copy(p, b.buf[:n])
	return len(p), nil
}

func (b *Buffer) Reset() bool {
	b.Lock()
	defer b.Unlock()
	b.size = 0
	b.buf = b.buf[:0]
	return true
}

func (b *Buffer) Size() int64 {
	b.RLock()
	defer b.RUnlock()
	return b.size
}
