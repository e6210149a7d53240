package main

import (
	"net/http"
	"os"
	"time"

	"github.com/cloudflare/cfrpki/verifenv"
	"github.com/cloudflare/cfrpki/verifrt"
	"github.com/opentracing/opentracing-go"
	otlog "github.com/opentracing/opentracing-go/log"
)

// recorder is a minimal http.ResponseWriter.
type zvRecorder struct {
	code int
	h    http.Header
	body []byte
}

func zvNewRecorder() *zvRecorder { return &zvRecorder{h: make(http.Header)} }

func (r *zvRecorder) Header() http.Header { return r.h }
func (r *zvRecorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *zvRecorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

func (r *zvRecorder) status() int {
	if r.code == 0 {
		return 200
	}
	return r.code
}

func zvRequest(tag string) *http.Request {
	r := &http.Request{Method: "GET", Header: make(http.Header)}
	if tag != "" {
		r.Header.Set("If-None-Match", tag)
	}
	return r
}

// span and tracer watch the operations octorpki announces.
type zvSpan struct{ t *zvTracer }

func (s *zvSpan) Finish()                                          { s.t.ev() }
func (s *zvSpan) FinishWithOptions(opts opentracing.FinishOptions) {}
func (s *zvSpan) Context() opentracing.SpanContext                 { return nil }
func (s *zvSpan) SetOperationName(n string) opentracing.Span       { return s }
func (s *zvSpan) SetTag(k string, v interface{}) opentracing.Span  { s.t.ev(); return s }
func (s *zvSpan) LogFields(f ...otlog.Field)                       {}
func (s *zvSpan) LogKV(kv ...interface{})                          {}
func (s *zvSpan) SetBaggageItem(k, v string) opentracing.Span      { return s }
func (s *zvSpan) BaggageItem(k string) string                      { return "" }
func (s *zvSpan) Tracer() opentracing.Tracer                       { return s.t }
func (s *zvSpan) LogEvent(e string)                                {}
func (s *zvSpan) LogEventWithPayload(e string, p interface{})      {}
func (s *zvSpan) Log(d opentracing.LogData)                        {}

type zvTracer struct {
	on    func(op string)
	event func()
}

func (t *zvTracer) ev() {
	if t.event != nil {
		t.event()
	}
}

func (t *zvTracer) StartSpan(op string, opts ...opentracing.StartSpanOption) opentracing.Span {
	if t.on != nil {
		t.on(op)
	}
	t.ev()
	return &zvSpan{t}
}
func (t *zvTracer) Inject(c opentracing.SpanContext, f, carrier interface{}) error { return nil }
func (t *zvTracer) Extract(f, carrier interface{}) (opentracing.SpanContext, error) {
	return nil, opentracing.ErrSpanContextNotFound
}

func zvNewOcto() *OctoRPKI {
	s := NewOctoRPKI(nil, nil)
	s.tracer = &zvTracer{}
	return s
}

var zvBaseTime = time.Unix(1700000000, 0)

func zvB2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var _ = verifrt.Bool

func zvFirst(l []int, n int) []int {
	if n < len(l) {
		return l[:n]
	}
	return l
}

func zvServeBody(data string) func(req *http.Request) (*http.Response, error) {
	return func(req *http.Request) (*http.Response, error) {
		return verifenv.Response(req, 200, &verifenv.Body{Data: data, Total: int64(len(data))}), nil
	}
}

func zvReadCached(uri string) ([]byte, error) {
	return os.ReadFile(*Basepath + "/" + uri[len("rsync://"):])
}

// zvOBase is the directory the objects of a repository are put in.
func zvOBase() string { return *Basepath }
