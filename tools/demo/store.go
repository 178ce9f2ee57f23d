// Package fenv is the closed environment in which the real FaVe code is
// explored: an in-memory block store with scripted faults and a write log,
// a scripted vectorizer and factories for real document.Client instances.
package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"net/http"
	"sync"

	"github.com/ethersphere/bee/pkg/swarm"
)

// Op names a store operation.
type Op string

const (
	OpSOC      Op = "UploadSOC"
	OpUpChunk  Op = "UploadChunk"
	OpUpBlob   Op = "UploadBlob"
	OpDelete   Op = "DeleteReference"
	OpDlChunk  Op = "DownloadChunk"
	OpDlBlob   Op = "DownloadBlob"
	maxLogSize    = 1 << 20
)

// ErrInjected is what a scripted fault returns.
var ErrInjected = errors.New("injected store failure")

// errMissing is the exact text fairOS treats as "chunk not found".
var errMissing = errors.New("error downloading data")

type write struct {
	del  bool
	key  string
	prev []byte // previous value, nil when absent
	had  bool
}

// Store is a blockstore.Client kept in memory.
type Store struct {
	mu    sync.Mutex
	data  map[string][]byte
	log   []write
	Calls int

	// Hook is called (outside the lock) before every operation. A non-nil
	// error makes the operation fail without any effect.
	Hook func(op Op, mutating bool, key string) error
}

func NewStore() *Store { return &Store{data: map[string][]byte{}} }

// Clone copies the current contents (not the log, not the hook).
func (s *Store) Clone() *Store {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := NewStore()
	for k, v := range s.data {
		n.data[k] = v
	}
	return n
}

// Writes returns how many mutating operations have succeeded.
func (s *Store) Writes() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.log)
}

// At returns a copy of the contents as they were after the first n writes.
func (s *Store) At(n int) *Store {
	c := s.Clone()
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := len(s.log) - 1; i >= n; i-- {
		w := s.log[i]
		if w.had {
			c.data[w.key] = w.prev
		} else {
			delete(c.data, w.key)
		}
	}
	return c
}

func (s *Store) hook(op Op, mut bool, key string) error {
	s.mu.Lock()
	s.Calls++
	h := s.Hook
	s.mu.Unlock()
	if h != nil {
		return h(op, mut, key)
	}
	return nil
}

func (s *Store) put(key string, val []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	prev, had := s.data[key]
	s.log = append(s.log, write{key: key, prev: prev, had: had})
	s.data[key] = val
}

func (s *Store) get(key string) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.data[key]
	return v, ok
}

func (s *Store) CheckConnection() bool { return true }

func (s *Store) UploadSOC(owner, id, signature string, data []byte) ([]byte, error) {
	o, err1 := hex.DecodeString(owner)
	i, err2 := hex.DecodeString(id)
	g, err3 := hex.DecodeString(signature)
	if err1 != nil || err2 != nil || err3 != nil {
		return nil, fmt.Errorf("bad soc params")
	}
	h := swarm.NewHasher()
	_, _ = h.Write(i)
	_, _ = h.Write(o)
	addr := h.Sum(nil)
	key := "c" + string(addr)
	if err := s.hook(OpSOC, true, key); err != nil {
		return nil, err
	}
	b := make([]byte, 0, len(i)+len(g)+len(data))
	b = append(b, i...)
	b = append(b, g...)
	b = append(b, data...)
	s.put(key, b)
	return addr, nil
}

func (s *Store) UploadChunk(ch swarm.Chunk) ([]byte, error) {
	key := "c" + string(ch.Address().Bytes())
	if err := s.hook(OpUpChunk, true, key); err != nil {
		return nil, err
	}
	s.put(key, append([]byte{}, ch.Data()...))
	return ch.Address().Bytes(), nil
}

func (s *Store) UploadBlob(data []byte, _ uint32, _ bool) ([]byte, error) {
	sum := sha256.Sum256(data)
	key := "b" + string(sum[:])
	if err := s.hook(OpUpBlob, true, key); err != nil {
		return nil, err
	}
	s.put(key, append([]byte{}, data...))
	return sum[:], nil
}

func (s *Store) UploadBzz(data []byte, _ string) ([]byte, error) { return s.UploadBlob(data, 0, false) }

func (s *Store) DownloadChunk(_ context.Context, address []byte) ([]byte, error) {
	key := "c" + string(address)
	if err := s.hook(OpDlChunk, false, key); err != nil {
		return nil, err
	}
	v, ok := s.get(key)
	if !ok {
		return nil, errMissing
	}
	return append([]byte{}, v...), nil
}

func (s *Store) DownloadBlob(address []byte) ([]byte, int, error) {
	key := "b" + string(address)
	if err := s.hook(OpDlBlob, false, key); err != nil {
		return nil, http.StatusInternalServerError, err
	}
	v, ok := s.get(key)
	if !ok {
		return nil, http.StatusNotFound, errMissing
	}
	return append([]byte{}, v...), http.StatusOK, nil
}

func (s *Store) DownloadBzz(address []byte) ([]byte, int, error) { return s.DownloadBlob(address) }

// DeleteReference only unpins on a real node: the data stays retrievable.
func (s *Store) DeleteReference(address []byte) error {
	return s.hook(OpDelete, true, "d"+string(address))
}

func (s *Store) CreateTag(_ []byte) (uint32, error)           { return 1, nil }
func (s *Store) GetTag(_ uint32) (int64, int64, int64, error) { return 0, 0, 0, nil }
