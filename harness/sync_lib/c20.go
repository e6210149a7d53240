package syncpki

import (
	"context"
	"errors"
	"io"
	"net/http"

	"github.com/cloudflare/cfrpki/verifenv"
	"github.com/cloudflare/cfrpki/verifrt"
)

// VerifC20HTTP: a download succeeds only for status 200 with a body read completely and within the limit.
func VerifC20HTTP() {
	f := NewHTTPFetcher("test")
	status := verifrt.Int("status", 100, 999)
	total := verifrt.I64("total")
	verifrt.Assume(verifrt.Or(verifrt.And(total >= 8, total <= 16), verifrt.And(total >= 999999999, total <= 1000000002)))
	dead := verifrt.Bool("dead")
	cut := verifrt.Bool("cut")
	body := &verifenv.Body{Data: "document", Total: total}
	if cut {
		body.Err = []error{errors.New("connection reset"), io.ErrUnexpectedEOF, io.ErrClosedPipe, context.DeadlineExceeded}[verifrt.Choice("how", 4)]
	}
	asked := 0
	f.Client.Transport = &verifenv.Transport{Serve: func(req *http.Request) (*http.Response, error) {
		asked++
		verifrt.Assert(req.URL.String() == "https://h.example/n.xml" && req.Method == "GET", "another document is asked for")
		verifrt.Assert(req.Header.Get("User-Agent") == "test", "the user agent is not sent")
		if dead {
			return nil, errors.New("no route")
		}
		return verifenv.Response(req, status, body), nil
	}}
	// redirects are the client's own business
	verifrt.Assume(verifrt.Or(status < 300, status > 399))
	verifrt.Assert(f.Client.Timeout > 0, "the client never gives up")
	data, err := f.GetXML("https://h.example/n.xml")
	verifrt.Assert(asked == 1, "the document is not asked for once")
	good := verifrt.And(verifrt.And(!dead, status == 200), verifrt.And(!cut, total <= 1000000000))
	if err == nil {
		verifrt.Reach("downloaded")
		verifrt.Assert(good, "a failed download is used")
		verifrt.Assert(len(data) >= 8 && data[:8] == "document", "the content is not returned")
	} else {
		verifrt.Reach("refused")
		verifrt.Assert(!good, "a complete download is refused")
		verifrt.Assert(data == "", "data of a failed download is returned")
		if verifrt.And(verifrt.And(!dead, status == 200), total > 1000000000) {
			verifrt.Reach("oversized")
		}
	}
}

// VerifC20URL: an unusable URL is an error.
func VerifC20URL() {
	f := NewHTTPFetcher("test")
	f.Client.Transport = &verifenv.Transport{Serve: func(req *http.Request) (*http.Response, error) {
		verifrt.Reach("asked")
		return verifenv.Response(req, 404, &verifenv.Body{}), nil
	}}
	n := verifrt.Int("len", 0, verifrt.Param("n", 3))
	_, err := f.GetXML([]string{"", "http://", "https://h/"}[verifrt.Int("start", 0, 2)] + verifrt.Str("url", n))
	verifrt.Assert(err != nil, "a download from nowhere succeeds")
}

var zvB64Value = func() (t [256]uint32) {
	for i, c := range []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/") {
		t[c] = uint32(i)
	}
	return
}()

func zvIsB64(c byte) bool {
	return verifrt.Or(verifrt.Or(verifrt.And(c >= 'A', c <= 'Z'), verifrt.And(c >= 'a', c <= 'z')), verifrt.Or(verifrt.And(c >= '0', c <= '9'), verifrt.Or(c == '+', c == '/')))
}

// VerifC20Base64: object data decodes only when it is base64, line breaks and spaces aside.
func VerifC20Base64() {
	n := verifrt.Int("len", 0, verifrt.Param("n", 6))
	if verifrt.Param("full", 0) == 1 {
		n = verifrt.Param("n", 6)
	}
	in := verifrt.Str("in", n)
	if verifrt.Param("full", 0) == 1 {
		for i := 0; i < n; i++ {
			verifrt.Assume(in[i] > ' ')
		}
	}
	out, err := DecodeRRDPBase64(in)
	var s []byte
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c == ' ' || c == '\n' || c == '\r' {
			continue
		}
		s = append(s, c)
	}
	pad := 0
	for pad < 2 && len(s)-pad > 0 && s[len(s)-1-pad] == '=' {
		pad++
	}
	ok := len(s)%4 == 0
	for _, c := range s[:len(s)-pad] {
		ok = verifrt.And(ok, zvIsB64(c))
	}
	if err != nil {
		verifrt.Reach("refused")
		verifrt.Assert(!ok, "valid base64 is refused")
		return
	}
	verifrt.Reach("decoded")
	verifrt.Assert(ok, "data that is not base64 is decoded")
	verifrt.Assert(len(out) == len(s)/4*3-pad, "length of the decoded data")
	// compare with the definition
	for g := 0; g < len(s); g += 4 {
		v := uint32(0)
		for k := 0; k < 4; k++ {
			x := zvB64Value[s[g+k]]
			v = v<<6 | x
		}
		for k := 0; k < 3 && g/4*3+k < len(out); k++ {
			verifrt.Assert(out[g/4*3+k] == byte(v>>(16-8*uint(k))), "decoded data")
		}
	}
}

var zvC20Docs = []string{
	`<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="3"><snapshot uri="s" hash="00"/><delta serial="3" uri="d" hash="00"/></notification>`,
	`<snapshot xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="3"><publish uri="rsync://h/m/a">ZQ==</publish></snapshot>`,
	`<delta xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="A" serial="3"><publish uri="rsync://h/m/a">ZQ==</publish><withdraw uri="rsync://h/m/b" hash="00"/></delta>`,
}

// VerifC20Cut: a document cut short anywhere, or of another kind, is an error.
func VerifC20Cut() {
	which := verifrt.Int("doc", 0, 2)
	d := zvC20Docs[which]
	at := verifrt.Int("at", 0, len(d))
	d = d[:at]
	if which == 0 {
		n, err := ParseRoot(d)
		if at == len(zvC20Docs[0]) {
			verifrt.Reach("whole")
			verifrt.Assert(err == nil && n.Serial == 3 && n.SessionID == "A" && n.Snapshot.URI == "s" && len(n.Deltas) == 1 && n.Deltas[0].URI == "d" && n.Deltas[0].Serial == 3, "the notification is not decoded")
			return
		}
		verifrt.Reach("cut")
		verifrt.Assert(err != nil, "a document cut short is accepted")
		return
	}
	p, w, err := ParseNode(d)
	if at == len(zvC20Docs[which]) {
		verifrt.Reach("whole")
		verifrt.Assert(err == nil && len(p) == 1 && p[0].URI == "rsync://h/m/a" && p[0].Value == "ZQ==" && len(w) == which-1, "the document is not decoded")
		return
	}
	verifrt.Reach("cut")
	verifrt.Assert(err != nil, "a document cut short is accepted")
}

// VerifC20Byte: one byte of the first or last tag of a document is replaced by any other: it is refused.
func VerifC20Byte() {
	which := verifrt.Int("doc", 0, 2)
	d := []byte(zvC20Docs[which])
	end := len(d) - 1
	for d[end] != '<' {
		end--
	}
	at := 0
	if verifrt.Param("all", 0) == 1 {
		at = verifrt.Int("at", -3, len(d)-1-end)
		if at < 0 {
			at += 3
		} else {
			at += end
		}
	} else {
		at = []int{0, 1, end, end + 1, end + 3, len(d) - 1}[verifrt.Int("at", 0, 5)]
	}
	old := d[at]
	c := verifrt.U8("byte")
	d[at] = c
	var err error
	if which == 0 {
		_, err = ParseRoot(string(d))
	} else {
		_, _, err = ParseNode(string(d))
	}
	if err == nil {
		verifrt.Reach("decoded")
		verifrt.Assert(c == old, "a document with a broken tag is accepted")
	} else {
		verifrt.Reach("refused")
		verifrt.Assert(c != old, "an intact document is refused")
	}
}
