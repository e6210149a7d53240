package ca

import (
	"encoding/xml"
	"fmt"

	"github.com/cloudflare/cfrpki/verifrt"
)

const (
	zvPub   = "http://www.hactrn.net/uris/rpki/publication-spec/"
	zvSetup = "http://www.hactrn.net/uris/rpki/rpki-setup/"
)

// zvText is n characters that need no escape.
func zvText(name string, n int) string {
	b := verifrt.Bytes(name, n)
	for _, c := range b {
		verifrt.Assume(c > 0x20)
		verifrt.Assume(c < 0x7f)
		verifrt.Assume(c != '<')
		verifrt.Assume(c != '>')
		verifrt.Assume(c != '&')
		verifrt.Assume(c != '"')
		verifrt.Assume(c != '\'')
	}
	return string(b)
}

// zvElement is one element of a message and what it should decode to.
func zvElement(id string, long int) (string, Content) {
	n := verifrt.Int(id+".len", 0, long)
	var c Content
	c.XMLName.Space = zvPub
	switch verifrt.Choice(id+".kind", 5) {
	case 0:
		c.XMLName.Local = "list"
		c.URI, c.Hash = "rsync://h/"+zvText(id+".uri", n), zvText(id+".hash", 1)
		return `<list uri="` + c.URI + `" hash="` + c.Hash + `"/>`, c
	case 1:
		c.XMLName.Local = "publish"
		c.Tag, c.URI, c.Inner = zvText(id+".tag", 1), zvText(id+".uri", 1), zvText(id+".data", n)
		return `<publish tag="` + c.Tag + `" uri="` + c.URI + `">` + c.Inner + `</publish>`, c
	case 2:
		c.XMLName.Local = "withdraw"
		c.Hash, c.Tag, c.URI = zvText(id+".hash", n), zvText(id+".tag", 1), "u"
		return `<withdraw hash="` + c.Hash + `" uri="u" tag="` + c.Tag + `"></withdraw>`, c
	case 3:
		c.XMLName.Local = "success"
		return `<success/>`, c
	}
	c.XMLName.Local = "report_error"
	c.ErrorCode, c.Inner = zvText(id+".code", n), "\n<error_text>"+zvText(id+".text", 1)+"</error_text>"
	return `<report_error error_code="` + c.ErrorCode + `">` + c.Inner + `</report_error>`, c
}

func zvSameContent(got []Content, want []Content, ns bool) {
	verifrt.Assert(len(got) == len(want), "the number of entries is not the number of elements")
	for i, w := range want {
		g := got[i]
		if !ns { // the inner part is read on its own: the name space of the message is not known there
			w.XMLName.Space = ""
		}
		verifrt.Assert(g.XMLName == w.XMLName, "an entry has another name")
		verifrt.Assert(g.Hash == w.Hash, "an entry has another hash")
		verifrt.Assert(g.ErrorCode == w.ErrorCode, "an entry has another error code")
		verifrt.Assert(g.Tag == w.Tag, "an entry has another tag")
		verifrt.Assert(g.URI == w.URI, "an entry has another URI")
		verifrt.Assert(g.Inner == w.Inner, "an entry has other contents")
	}
}

// VerifC31Messages: messages of every kind with any elements decode to what they say.
func VerifC31Messages() {
	k := verifrt.Int("elements", 0, verifrt.Param("elements", 2))
	long := verifrt.Param("len", 2)
	inner := ""
	var want []Content
	for i := 0; i < k; i++ {
		if verifrt.Bool(fmt.Sprintf("space%d", i)) {
			inner += "\n  "
		}
		e, c := zvElement(fmt.Sprintf("e%d", i), long)
		inner += e
		want = append(want, c)
	}
	if verifrt.Bool("space") {
		inner += "\n"
	}
	a, b := zvText("a", 1), zvText("b", 1)
	kind := verifrt.Choice("message", 5)
	other := verifrt.Choice("other", 3) // the root element is right, of another name space, or another one
	ns, root := zvPub, "msg"
	if kind > 0 {
		ns, root = zvSetup, []string{"child_request", "parent_response", "publisher_request", "repository_response"}[kind-1]
	}
	attrs := []string{`version="4" type="` + a + `"`, `version="1" child_handle="` + a + `" tag="` + b + `"`, `tag="` + b + `" version="1" service_uri="s" child_handle="` + a + `" parent_handle="p"`,
		`version="1" tag="` + b + `" publisher_handle="` + a + `"`, `version="1" tag="` + b + `" service_uri="s" publisher_handle="` + a + `" sia_base="rsync://h/" rrdp_notification_uri="n"`}[kind]
	switch other {
	case 1:
		ns = "http://www.hactrn.net/uris/rpki/"
	case 2:
		root += "s"
	}
	doc := `<` + root + ` xmlns="` + ns + `" ` + attrs + `>` + inner + `</` + root + `>`
	cut := verifrt.Param("cut", 0) == 1
	if cut {
		doc = doc[:verifrt.Choice("cut", len(doc))]
	}
	var cs []Content
	var err error
	switch kind {
	case 0:
		var m *XMLMessage
		m, cs, err = DecodeXMLFull([]byte(doc))
		if err == nil {
			verifrt.Assert(m.Version == 4 && m.Type == a && m.Inner == inner, "the message is not what was sent")
		}
		p, err2 := DecodeXML([]byte(doc))
		verifrt.Assert((err2 == nil) == (err == nil), "the two readers do not agree")
		if err2 == nil {
			verifrt.Assert(p.Version == 4 && p.Type == a && p.Inner == inner, "the message is not what was sent")
		}
	case 1:
		var m *XMLMessageChildRequest
		m, cs, err = DecodeXMLCRFull([]byte(doc))
		if err == nil {
			verifrt.Assert(m.Version == 1 && m.ChildHandle == a && m.Tag == b && m.Inner == inner, "the request is not what was sent")
		}
	case 2:
		var m *XMLMessageParentResponse
		m, cs, err = DecodeXMLPRFull([]byte(doc))
		if err == nil {
			verifrt.Assert(m.Version == 1 && m.ChildHandle == a && m.Tag == b && m.ServiceURI == "s" && m.ParentHandle == "p" && m.Inner == inner, "the response is not what was sent")
		}
	case 3:
		var m XMLMessagePublisherRequest
		if err = xml.Unmarshal([]byte(doc), &m); err == nil {
			verifrt.Assert(m.Version == 1 && m.PublisherHandle == a && m.Tag == b && m.Inner == inner, "the request is not what was sent")
			cs, err = DecodeInner([]byte(m.Inner))
		}
	case 4:
		var m XMLMessageRepositoryResponse
		if err = xml.Unmarshal([]byte(doc), &m); err == nil {
			verifrt.Assert(m.Version == 1 && m.PublisherHandle == a && m.Tag == b && m.ServiceURI == "s" && m.SIABase == "rsync://h/" && m.RRDPNotificationURI == "n" && m.Inner == inner, "the response is not what was sent")
			cs, err = DecodeInner([]byte(m.Inner))
		}
	}
	if other > 0 || cut {
		verifrt.Reach("refused")
		verifrt.Assert(err != nil, "something else is taken for a message")
		return
	}
	verifrt.Assert(err == nil, "a good message is refused")
	zvSameContent(cs, want, false)
	verifrt.Reach("decoded")
	verifrt.ObserveInt("entries", len(cs))
}

// VerifC31Inner: elements of which one is damaged are reported, however many good ones come before.
func VerifC31Inner() {
	k := verifrt.Int("elements", 0, verifrt.Param("elements", 2))
	doc := ""
	var want []Content
	for i := 0; i < k; i++ {
		e, c := zvElement(fmt.Sprintf("e%d", i), 1)
		doc += e
		want = append(want, c)
	}
	bad := verifrt.Choice("damage", 5)
	switch bad {
	case 1:
		doc += `<list uri="`
	case 2:
		doc += `<publish uri="u">`
	case 3:
		doc += `<publish uri="u"></withdraw>`
	case 4:
		doc += `<list uri=u/>`
	}
	cs, err := DecodeInner([]byte(doc))
	if bad > 0 {
		verifrt.Reach("refused")
		verifrt.Assert(err != nil, "a damaged element is not reported")
		return
	}
	verifrt.Assert(err == nil, "good elements are refused")
	zvSameContent(cs, want, false)
	verifrt.Reach("decoded")
}

// VerifC31List: the list query, sent and read.
func VerifC31List() {
	b, err := xml.Marshal(NewXMLList())
	verifrt.Assert(err == nil, "the query cannot be encoded")
	m, cs, err := DecodeXMLFull(b)
	verifrt.Assert(err == nil && m.Version == XML_VERSION_RFC8181 && m.Type == "query", "the query is not one")
	zvSameContent(cs, []Content{{XMLName: xml.Name{Space: zvPub, Local: "list"}}}, false)
	verifrt.Reach("list")
}
