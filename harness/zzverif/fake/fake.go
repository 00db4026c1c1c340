// Package fake is an in-memory HTTP server side: a RoundTripper that records
// every request and answers what the scenario says.
package fake

import (
	"bytes"
	"errors"
	"io"
	"net/http"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsync"
)

// Req is one request as it arrived.
type Req struct {
	Host, Scheme, Method, URI, Path, RawQuery string
	Header                                    http.Header
	Body                                      []byte
	HasBody                                   bool
}

// Ans is an answer; Err is a transport failure.
type Ans struct {
	Status int
	Body   string
	Header http.Header
	Err    error
	// BodyErr fails the read of the body after Body was delivered.
	BodyErr error
}

// ErrDial is the transport failure used by scenarios.
var ErrDial = errors.New("connection refused")

// Net is the RoundTripper.
type Net struct {
	mu     vsync.Mutex
	Log    []Req
	Bodies []*Body
	Do     func(Req) Ans
}

// Body of a response; Closed and Read are recorded.
type Body struct {
	r      io.Reader
	err    error
	Closed bool
}

func (b *Body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p[:min(len(p), 1361)]) // as the network does: in parts
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}

func (b *Body) Close() error { b.Closed = true; return nil }

// RoundTrip implements http.RoundTripper.
func (n *Net) RoundTrip(r *http.Request) (*http.Response, error) {
	q := Req{Host: r.URL.Host, Scheme: r.URL.Scheme, Method: r.Method, URI: r.URL.RequestURI(), Path: r.URL.Path, RawQuery: r.URL.RawQuery, Header: r.Header.Clone()}
	if r.Body != nil {
		q.HasBody = true
		b, err := io.ReadAll(r.Body)
		_ = r.Body.Close()
		if err != nil {
			return nil, err
		}
		q.Body = b
	}
	n.mu.Lock()
	n.Log = append(n.Log, q)
	n.mu.Unlock()
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	a := n.Do(q)
	if a.Err != nil {
		return nil, a.Err
	}
	h := a.Header
	if h == nil {
		h = http.Header{}
	}
	body := &Body{r: bytes.NewReader([]byte(a.Body)), err: a.BodyErr}
	n.mu.Lock()
	n.Bodies = append(n.Bodies, body)
	n.mu.Unlock()
	return &http.Response{StatusCode: a.Status, Status: http.StatusText(a.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: body, ContentLength: -1, Request: r}, nil
}

// Client is an http.Client over the network.
func (n *Net) Client() *http.Client { return &http.Client{Transport: n} }
