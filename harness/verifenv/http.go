// Package verifenv stands for the world outside the process: HTTP servers and the rsync program.
package verifenv

import (
	"bytes"
	"errors"
	"io"
	"net/http"

	"github.com/cloudflare/cfrpki/verifrt"
)

// Body is a response body of Total bytes. Data stands for its content: what is returned when the body is read
// completely (natively the bytes after Data are spaces).
type Body struct {
	Data  string
	Total int64
	Err   error // instead of io.EOF
	pos   int64
	Done  bool // closed
}

func (b *Body) Read(p []byte) (int, error) {
	if b.pos >= b.Total {
		if b.Err != nil {
			return 0, b.Err
		}
		return 0, io.EOF
	}
	n := int64(len(p))
	if n > b.Total-b.pos {
		n = b.Total - b.pos
	}
	if b.pos > 1<<17 {
		verifrt.GiveUp("a large body read in small steps")
	}
	for i := int64(0); i < n; i++ {
		p[i] = ' '
	}
	if b.pos < int64(len(b.Data)) {
		copy(p[:n], b.Data[b.pos:])
	}
	b.pos += n
	return int(n), nil
}

func (b *Body) Close() error {
	b.Done = true
	return nil
}

// Transport answers every request with Serve.
type Transport struct {
	Serve func(req *http.Request) (*http.Response, error)
}

func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) { return t.Serve(req) }

// Response has the given status and body.
func Response(req *http.Request, status int, body *Body) *http.Response {
	return &http.Response{Status: "status", StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: make(http.Header), Body: body, ContentLength: -1, Request: req}
}

// Symbolically, (*http.Client).Do leads here.
func httpDo(c *http.Client, req *http.Request) (*http.Response, error) {
	if req == nil || req.URL == nil || req.URL.Scheme != "http" && req.URL.Scheme != "https" || req.URL.Host == "" {
		return nil, errors.New("unsupported protocol scheme")
	}
	t := c.Transport
	if t == nil {
		t = http.DefaultTransport
	}
	if x, ok := t.(*Transport); !ok || x == nil {
		return nil, errors.New("no network")
	}
	res, err := t.RoundTrip(req)
	if err != nil {
		return nil, err
	}
	return res, nil
}

func httpGet(c *http.Client, url string) (*http.Response, error) {
	req, err := http.NewRequest("GET", url, nil)
	if err != nil {
		return nil, err
	}
	return httpDo(c, req)
}

func httpPost(c *http.Client, url, contentType string, body io.Reader) (*http.Response, error) {
	req, err := http.NewRequest("POST", url, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", contentType)
	return httpDo(c, req)
}

type limitedBody struct {
	r io.ReadCloser
	n int64
}

func (l *limitedBody) Read(p []byte) (int, error) {
	if l.n < 0 {
		return 0, &http.MaxBytesError{}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if int64(len(p))-1 > l.n {
		p = p[:l.n+1]
	}
	n, err := l.r.Read(p)
	if int64(n) <= l.n {
		l.n -= int64(n)
		return n, err
	}
	n = int(l.n)
	l.n = -1
	return n, &http.MaxBytesError{}
}

func (l *limitedBody) Close() error { return l.r.Close() }

// Symbolically, http.MaxBytesReader leads here.
func httpMaxBytesReader(w http.ResponseWriter, r io.ReadCloser, n int64) io.ReadCloser {
	if n < 0 {
		n = 0
	}
	return &limitedBody{r, n}
}

// Symbolically, io.ReadAll leads here. A Body is read in one step whatever its size.
func ioReadAll(r io.Reader) ([]byte, error) {
	switch x := r.(type) {
	case *Body:
		if x.pos == 0 {
			x.pos = x.Total
			return []byte(x.Data), x.Err
		}
	case *limitedBody:
		if b, ok := x.r.(*Body); ok && b.pos == 0 && x.n >= 0 {
			b.pos = b.Total
			if b.Total > x.n {
				n := x.n
				x.n = -1
				return []byte(b.Data), &http.MaxBytesError{Limit: n}
			}
			x.n -= b.Total
			return []byte(b.Data), b.Err
		}
	case *io.LimitedReader:
		if b, ok := x.R.(*Body); ok && b.pos == 0 {
			if b.Total > x.N {
				b.pos = x.N
				n := x.N
				x.N = 0
				if n < int64(len(b.Data)) {
					return []byte(b.Data[:n]), nil
				}
				return []byte(b.Data), nil
			}
			x.N -= b.Total
			b.pos = b.Total
			return []byte(b.Data), b.Err
		}
	}
	var out []byte
	buf := make([]byte, 512)
	for i := 0; ; i++ {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// Symbolically, (*bytes.Buffer).ReadFrom leads here.
func bufReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) {
	p, err := ioReadAll(r)
	b.Write(p)
	return int64(len(p)), err
}

// Symbolically, io.Copy leads here.
func ioCopy(w io.Writer, r io.Reader) (int64, error) {
	p, err := ioReadAll(r)
	n, werr := w.Write(p)
	if werr != nil {
		err = werr
	} else if n < len(p) {
		err = io.ErrShortWrite
	}
	return int64(n), err
}
