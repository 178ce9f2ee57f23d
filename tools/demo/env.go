package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	mockens "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/feed/lookup"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
	"github.com/sirupsen/logrus"
)

const (
	User     = "verifuser"
	Password = "verifpasswordverifpassword"
	Pod      = "vpod"
	Mnemonic = "legal winner thank year wave sausage worth useful legal winner thank yellow"
	VecURL   = "http://vectorizer.invalid"
)

// Vectorizer answers the HTTP calls of the code under test in process.
type Vectorizer struct {
	mu   sync.Mutex
	Vec  func(text string) []float32
	Hook func(text string) *http.Response // non-nil: the scripted answer
}

func (v *Vectorizer) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	if strings.HasSuffix(r.URL.Path, "health") {
		return Resp(r, 200, "ok"), nil
	}
	var q struct {
		Query []string `json:"query"`
	}
	_ = json.Unmarshal(body, &q)
	text := strings.Join(q.Query, "|")
	v.mu.Lock()
	hook, vec := v.Hook, v.Vec
	v.mu.Unlock()
	if hook != nil {
		if resp := hook(text); resp != nil {
			resp.Request = r
			return resp, nil
		}
	}
	out, _ := json.Marshal(map[string][]float32{"vector": vec(text)})
	return Resp(r, 200, string(out)), nil
}

func Resp(r *http.Request, code int, body string) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(strings.NewReader(body)),
		ContentLength: int64(len(body)), Request: r}
}

// World is a base store image with a registered user and an existing pod.
type World struct {
	base *Store
	ens  *mockens.NamespaceManager
	Vect *Vectorizer
}

func quiet() logging.Logger { return logging.New(io.Discard, logrus.PanicLevel) }

// NewWorld registers the user and creates the pod once.
func NewWorld() (*World, error) {
	w := &World{base: NewStore(), ens: mockens.NewMockNamespaceManager(), Vect: &Vectorizer{}}
	http.DefaultTransport = w.Vect
	api := w.API(w.base)
	if _, err := api.CreateUserV2(User, Password, Mnemonic, ""); err != nil {
		return nil, err
	}
	c, err := w.Client(w.base)
	if err != nil {
		return nil, err
	}
	_ = c
	return w, nil
}

func (w *World) API(s *Store) *dfs.API {
	users := user.NewUsers(s, w.ens, 10000, 60*time.Minute, quiet())
	return dfs.NewMockDfsAPI(s, users, quiet())
}

// Fresh returns an independent copy of the base store.
func (w *World) Fresh() *Store { return w.base.Clone() }

// Client starts a new FaVe process image over the store: new API object, new
// session, new document client.
func (w *World) Client(s *Store) (*document.Client, error) {
	api := w.API(s)
	c, err := document.New(document.Config{VectorizerUrl: VecURL}, api)
	if err != nil {
		return nil, err
	}
	if err := c.Login(User, Password); err != nil {
		return nil, fmt.Errorf("login: %w", err)
	}
	if err := c.OpenPod(Pod); err != nil {
		return nil, fmt.Errorf("open pod: %w", err)
	}
	return c, nil
}

// must fails the demonstration on an unexpected error.
func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "DEMO FAILED:", err)
		os.Exit(1)
	}
}

// bad fails the demonstration.
func bad(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "DEMO FAILED: "+format+"\n", a...)
	os.Exit(1)
}

// world prepares the closed environment; vec is the scripted vectorizer.
func world(vec func(string) []float32) *World {
	lookup.Lookup = lookup.FluzCapacitorAlgorithm
	w, err := NewWorld()
	must(err)
	w.Vect.Vec = vec
	return w
}

func open(w *World, s *Store) *document.Client {
	c, err := w.Client(s)
	must(err)
	return c
}
