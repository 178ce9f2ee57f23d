package fenv

import (
	"encoding/json"
	"fmt"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"io"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	mockens "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/feed"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
	"github.com/sirupsen/logrus"

	"github.com/fairDataSociety/FaVe/vmc/vrace"
)

const (
	User     = "verifuser"
	Password = "verifpasswordverifpassword"
	Pod      = "vpod"
	Mnemonic = "legal winner thank year wave sausage worth useful legal winner thank yellow"
	VecURL   = "http://vectorizer.invalid"
)

// Vectorizer answers the HTTP calls of the code under test in process.
type Vectorizer struct {
	mu   sync.Mutex
	Vec  func(text string) []float32
	Hook func(text string) *http.Response // non-nil: the scripted answer
	// Full sees every request; done tells that it answered
	Full func(r *http.Request, body []byte) (resp *http.Response, err error, done bool)
}

// the real vectorizer is another process: it orders nothing in this one
func (v *Vectorizer) lock()   { vrace.Hide(); v.mu.Lock(); vrace.Show() }
func (v *Vectorizer) unlock() { vrace.Hide(); v.mu.Unlock(); vrace.Show() }

func (v *Vectorizer) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	v.lock()
	full := v.Full
	v.unlock()
	if full != nil {
		if resp, err, done := full(r, body); done {
			return resp, err
		}
	}
	if strings.HasSuffix(r.URL.Path, "health") {
		return Resp(r, 200, "ok"), nil
	}
	var q struct {
		Query []string `json:"query"`
	}
	_ = json.Unmarshal(body, &q)
	text := strings.Join(q.Query, "|")
	v.lock()
	hook, vec := v.Hook, v.Vec
	v.unlock()
	if hook != nil {
		if resp := hook(text); resp != nil {
			resp.Request = r
			return resp, nil
		}
	}
	out, _ := json.Marshal(map[string][]float32{"vector": vec(text)})
	return Resp(r, 200, string(out)), nil
}

// Script installs (nil: removes) the function that sees every request.
func (v *Vectorizer) Script(f func(r *http.Request, body []byte) (*http.Response, error, bool)) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.Full = f
}

func Resp(r *http.Request, code int, body string) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(strings.NewReader(body)),
		ContentLength: int64(len(body)), Request: r}
}

// World is a base store image with a registered user and an existing pod.
type World struct {
	base *Store
	ens  *mockens.NamespaceManager
	Vect *Vectorizer
}

func quiet() logging.Logger { return logging.New(io.Discard, logrus.PanicLevel) }

// NewWorld registers the user and creates the pod once.
func NewWorld() (*World, error) {
	w := &World{base: NewStore(), ens: mockens.NewMockNamespaceManager(), Vect: &Vectorizer{}}
	http.DefaultTransport = w.Vect
	api := w.API(w.base)
	if _, err := api.CreateUserV2(User, Password, Mnemonic, ""); err != nil {
		return nil, err
	}
	c, err := w.Client(w.base)
	if err != nil {
		return nil, err
	}
	_ = c
	return w, nil
}

// clock is the time of the feeds: every process start takes a second.
type clock struct{ now atomic.Uint64 }

func (c *clock) Now() feed.Timestamp { return feed.Timestamp{Time: c.now.Load()} }

var feedClock = &clock{}

func init() {
	feedClock.now.Store(1700000000)
	feed.TimestampProvider = feedClock
}

func (w *World) API(s *Store) *dfs.API {
	feedClock.now.Add(1)
	users := user.NewUsers(s, w.ens, 10000, 60*time.Minute, quiet())
	return dfs.NewMockDfsAPI(s, users, quiet())
}

// Fresh returns an independent copy of the base store.
func (w *World) Fresh() *Store { return w.base.Clone() }

// Client starts a new FaVe process image over the store: new API object, new
// session, new document client.
func (w *World) Client(s *Store) (*document.Client, error) {
	api := w.API(s)
	c, err := document.New(document.Config{VectorizerUrl: VecURL}, api)
	if err != nil {
		return nil, err
	}
	if err := c.Login(User, Password); err != nil {
		return nil, fmt.Errorf("login: %w", err)
	}
	if err := c.OpenPod(Pod); err != nil {
		return nil, fmt.Errorf("open pod: %w", err)
	}
	return c, nil
}

// KV opens the key-value store of the pod in a new process image.
func (w *World) KV(s *Store) (*collection.KeyValue, string, func() error, error) {
	api := w.API(s)
	ui, err := api.LoginUserV2(User, Password, "")
	if err != nil {
		return nil, "", nil, err
	}
	session := ui.UserInfo.GetSessionId()
	pi, err := api.OpenPod(Pod, session)
	if err != nil {
		return nil, "", nil, err
	}
	return pi.GetKVStore(), pi.GetPodPassword(), func() error { return api.CommitPodFeeds(Pod, session) }, nil
}

// Foreign creates and fills a document table in the pod through the file
// system library, as another application would.
func (w *World) Foreign(s *Store, name string, docs ...string) error {
	api, session, err := w.session(s)
	if err != nil {
		return err
	}
	if err := api.DocCreate(session, Pod, name, map[string]collection.IndexType{"f": collection.StringIndex}, true); err != nil {
		return err
	}
	if err := api.DocOpen(session, Pod, name); err != nil {
		return err
	}
	for _, d := range docs {
		if err := api.DocPut(session, Pod, name, []byte(d)); err != nil {
			return err
		}
	}
	return api.CommitPodFeeds(Pod, session)
}

// ForeignTables lists all document tables of the pod and reads a document of
// one of them.
func (w *World) ForeignTables(s *Store, name, id string) ([]string, string, error) {
	api, session, err := w.session(s)
	if err != nil {
		return nil, "", err
	}
	l, err := api.DocList(session, Pod)
	if err != nil {
		return nil, "", err
	}
	var names []string
	for n := range l {
		names = append(names, n)
	}
	if err := api.DocOpen(session, Pod, name); err != nil {
		return names, "", err
	}
	b, err := api.DocGet(session, Pod, name, id)
	return names, string(b), err
}

func (w *World) session(s *Store) (*dfs.API, string, error) {
	api := w.API(s)
	ui, err := api.LoginUserV2(User, Password, "")
	if err != nil {
		return nil, "", err
	}
	session := ui.UserInfo.GetSessionId()
	_, err = api.OpenPod(Pod, session)
	return api, session, err
}
