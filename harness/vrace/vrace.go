// Package vrace keeps the explorer's own synchronisation (handing over from
// one operation to the other, the simulated store) out of sight of the race
// detector, and reads its reports.
package vrace

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"
)

// EnvLog names the variable with the prefix of the report files.
const EnvLog = "VMC_RACE_LOG"

var offset int64

// New returns the reports since the last call that are races between two
// accesses by code of the module under test (directly or through the standard
// library), one line each.
func New() (out []string) {
	prefix := os.Getenv(EnvLog)
	if prefix == "" {
		return nil
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", prefix, os.Getpid()))
	if err != nil {
		return nil
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil || st.Size() <= offset {
		return nil
	}
	b := make([]byte, st.Size()-offset)
	n, _ := f.ReadAt(b, offset)
	offset += int64(n)
	for _, rep := range strings.Split(string(b[:n]), "WARNING: DATA RACE\n")[1:] {
		if s := parse(rep); s != "" {
			out = append(out, s)
		}
	}
	return out
}

const module = "github.com/fairDataSociety/FaVe/"

// parse finds the two accesses of a report.
func parse(rep string) string {
	var who []string
	for _, part := range strings.Split(rep, "\n\n") {
		l := strings.Split(part, "\n")
		head := strings.ToLower(l[0])
		if !(strings.Contains(head, "read at") || strings.Contains(head, "write at")) {
			continue
		}
		// frames: "  function()" and "      file:line +0x"
		by := ""
		// (buffers that the standard library reuses are its own affair)
		if len(l) > 1 {
			for _, p := range []string{"fmt.", "bytes.", "encoding/json.", "strconv.", "unicode/", "net/", "bufio."} {
				if strings.HasPrefix(strings.TrimSpace(l[1]), p) {
					l = l[:1]
					break
				}
			}
		}
		for i := 1; i+1 < len(l); i += 2 {
			fn := strings.TrimSpace(l[i])
			dir, _, _ := strings.Cut(fn, "/")
			if fn == "" || !strings.Contains(dir, ".") && strings.Contains(fn, "/") || !strings.Contains(fn, "/") && !strings.HasPrefix(fn, "main.") {
				continue // standard library
			}
			by = fn + " " + strings.TrimSpace(l[i+1])
			break
		}
		who = append(who, strings.Fields(head)[0]+" in "+by)
	}
	if len(who) < 2 {
		return ""
	}
	for _, w := range who[:2] {
		if !strings.Contains(w, " in "+module) || strings.Contains(w, " in "+module+"vmc/") {
			if os.Getenv("VMC_RACE_ALL") == "" {
				return ""
			}
		}
	}
	return who[0] + " and " + who[1]
}

// Apart runs f and then g in goroutines of their own, without anything the race
// detector would take for an order between them.
func Apart(f, g func()) {
	var fins []chan struct{}
	for _, h := range []func(){f, g} {
		done, fin := make(chan struct{}), make(chan struct{})
		fins = append(fins, fin)
		go func(h func()) {
			h()
			Hide()
			close(done)
			Show()
			close(fin)
		}(h)
		Hide()
		<-done
		Show()
	}
	for _, fin := range fins {
		<-fin
	}
}

// Within runs f, and g when f calls the function it is given, or after f; g has
// at most a moment before f goes on (it may have to wait for f). Nothing in
// Within orders f before g or g before the rest of f.
func Within(f func(pause func()), g func()) {
	start, done, fin := make(chan struct{}), make(chan struct{}), make(chan struct{})
	finf := make(chan struct{})
	go func() {
		Hide()
		<-start
		Show()
		g()
		Hide()
		close(done)
		Show()
		close(fin)
	}()
	var paused atomic.Bool
	go func() {
		f(func() {
			Hide()
			defer Show()
			if paused.Swap(true) {
				return
			}
			close(start)
			select {
			case <-done:
			case <-time.After(20 * time.Millisecond):
			}
		})
		Hide()
		if !paused.Swap(true) {
			close(start)
		}
		Show()
		close(finf)
	}()
	<-finf
	<-fin
}
