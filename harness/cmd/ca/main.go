//go:build go1.22

// Command ca checks the provisioning and publication messages: C24.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/cloudflare/cfrpki/ca"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
)

func main() { pbt.Main(propC24()) }

const (
	pubNS   = "http://www.hactrn.net/uris/rpki/publication-spec/"
	setupNS = "http://www.hactrn.net/uris/rpki/rpki-setup/"
)

// text is any text XML can hold.
func text(t *pbt.T) string {
	if t.Chance(1, 4) {
		return pbt.Pick(t, "", "carol", "rsync://h.example/m/a.cer", `" x="y`, "<list/>", "a&b&amp;c", "]]>", "<!-- ", "</msg>", "'", "&#38;", " lead and trail ", "\t\n\r", "é漢𝄞\u00a0\u2028")
	}
	var b strings.Builder
	for i := t.Size(12); i > 0; i-- {
		switch t.Intn(8) {
		case 0:
			b.WriteString(pbt.Pick(t, "<", ">", "&", "\"", "'", "\n", "\t", "\r", "]]>", "&amp;", "<!--", "-->", "<?", "?>", "/>"))
		case 1:
			b.WriteRune(rune(pbt.Pick(t, t.Range(0xa0, 0xd7ff), t.Range(0xe000, 0xfffd), t.Range(0x10000, 0x10ffff))))
		default:
			b.WriteByte(byte(t.Range(0x20, 0x7e)))
		}
	}
	return b.String()
}

// node is an element as written by another implementation.
type node struct {
	name  string
	attrs [][2]string
	kids  []*node
	text  string
	inner string // as last written
}

func (n *node) set(k, v string) { n.attrs = append(n.attrs, [2]string{k, v}) }

// style is how the other implementation writes.
type style struct {
	prefix  string
	quote   bool // apostrophes
	space   bool
	comment bool
	empty   bool // <x></x> for <x/>
	decimal bool
}

func esc(t *pbt.T, s string, attr bool, st style) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '<':
			b.WriteString("&lt;")
		case r == '&':
			b.WriteString("&amp;")
		case r == '>':
			b.WriteString("&gt;")
		case attr && r == '"':
			b.WriteString("&quot;")
		case attr && r == '\'':
			b.WriteString("&apos;")
		case r == '\r' || r == '\n' || r == '\t':
			fmt.Fprintf(&b, "&#%d;", r)
		case st.decimal && r > 127:
			fmt.Fprintf(&b, "&#x%x;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (n *node) write(t *pbt.T, b *strings.Builder, st style, ns string) (inner string) {
	gap := func() string {
		if st.space {
			return pbt.Pick(t, " ", "\n  ", "\t")
		}
		return ""
	}
	tag := n.name
	if st.prefix != "" {
		tag = st.prefix + ":" + tag
	}
	b.WriteString("<" + tag)
	as := append([][2]string(nil), n.attrs...)
	if ns != "" {
		k := "xmlns"
		if st.prefix != "" {
			k += ":" + st.prefix
		}
		as = append(as, [2]string{k, ns})
	}
	pbt.Shuffle(t, as)
	q := `"`
	if st.quote {
		q = "'"
	}
	for _, a := range as {
		b.WriteString(" " + gap() + a[0])
		if st.space {
			b.WriteString(pbt.Pick(t, "=", " = "))
		} else {
			b.WriteString("=")
		}
		b.WriteString(q + esc(t, a[1], true, st) + q)
	}
	if len(n.kids) == 0 && n.text == "" && !st.empty {
		b.WriteString(gap() + "/>")
		n.inner = ""
		return ""
	}
	b.WriteString(gap() + ">")
	start := b.Len()
	b.WriteString(gap())
	b.WriteString(esc(t, n.text, false, st))
	for _, k := range n.kids {
		k.write(t, b, st, "")
		b.WriteString(gap())
		if st.comment && t.Bool() {
			b.WriteString(pbt.Pick(t, "<!-- <list/> -->", "<?pi <list/>?>", "<!---->"))
		}
	}
	inner = b.String()[start:]
	n.inner = inner
	b.WriteString("</" + tag + gap() + ">")
	return inner
}

func drawStyle(t *pbt.T) style {
	return style{prefix: pbt.Pick(t, "", "", "p", "ns-0"), quote: t.Bool(), space: t.Bool(), comment: t.Chance(1, 3), empty: t.Bool(), decimal: t.Bool()}
}

// pdu draws an element of the publication protocol.
func pdu(t *pbt.T, reply bool) *node {
	var n node
	b64 := func() string { return base64.StdEncoding.EncodeToString(t.Bytes(t.Size(60))) }
	switch t.Intn(4) {
	case 0:
		if reply {
			n.name = "success"
			return &n
		}
		n.name, n.text = "publish", b64()
		n.set("tag", text(t))
		n.set("uri", text(t))
		if t.Bool() {
			n.set("hash", fmt.Sprintf("%x", t.Bytes(32)))
		}
	case 1:
		if reply {
			n.name = "report_error"
			n.set("error_code", pbt.Pick(t, "xml_error", "permission_failure", text(t)))
			if t.Bool() {
				n.set("tag", text(t))
			}
			if t.Bool() {
				n.kids = append(n.kids, &node{name: "error_text", text: text(t)})
			}
			if t.Bool() {
				n.kids = append(n.kids, &node{name: "failed_pdu", kids: []*node{pdu(t, false)}})
			}
			return &n
		}
		n.name = "withdraw"
		n.set("tag", text(t))
		n.set("uri", text(t))
		n.set("hash", fmt.Sprintf("%x", t.Bytes(32)))
	default:
		n.name = "list"
		if reply {
			n.set("uri", text(t))
			n.set("hash", fmt.Sprintf("%x", t.Bytes(32)))
		}
	}
	return &n
}

func (n *node) attr(k string) string {
	for _, a := range n.attrs {
		if a[0] == k {
			return a[1]
		}
	}
	return ""
}

// sameContents compares what was decoded with what was written.
func sameContents(got []ca.Content, want []*node) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d elements, want %d", len(got), len(want))
	}
	for i, g := range got {
		w := want[i]
		if g.XMLName.Local != w.name || g.Tag != w.attr("tag") || g.URI != w.attr("uri") || g.Hash != w.attr("hash") || g.ErrorCode != w.attr("error_code") {
			return fmt.Sprintf("element %d is %+v, want %+v", i, g, *w)
		}
		if g.Inner != w.inner {
			return fmt.Sprintf("element %d holds %q, want %q", i, g.Inner, w.inner)
		}
		if w.name == "publish" && strings.TrimSpace(g.Inner) != w.text {
			return fmt.Sprintf("element %d holds %q, want %q", i, g.Inner, w.text)
		}
	}
	return ""
}

// foreign writes messages independently of the library and lets it read them.
func foreign(t *pbt.T) {
	st := drawStyle(t)
	kind := t.Intn(3)
	root := &node{}
	ns := setupNS
	vers := pbt.Pick(t, 1, 4, t.Intn(100))
	root.set("version", fmt.Sprint(vers))
	var f [4]string
	for i := range f {
		f[i] = text(t)
	}
	switch kind {
	case 0:
		ns = pubNS
		root.name = "msg"
		root.set("type", f[0])
		reply := t.Bool()
		n := t.Size(8)
		if t.Chance(1, 60) {
			n = t.Range(50, 300)
		}
		for ; n > 0; n-- {
			root.kids = append(root.kids, pdu(t, reply))
		}
	case 1:
		root.name = "child_request"
		root.set("child_handle", f[0])
		root.set("tag", f[1])
		root.kids = append(root.kids, &node{name: "child_bpki_ta", text: base64.StdEncoding.EncodeToString(t.Bytes(40))})
	case 2:
		root.name = "parent_response"
		root.set("service_uri", f[0])
		root.set("child_handle", f[1])
		root.set("parent_handle", f[2])
		root.set("tag", f[3])
		root.kids = append(root.kids, &node{name: "parent_bpki_ta", text: base64.StdEncoding.EncodeToString(t.Bytes(40))})
		if t.Bool() {
			root.kids = append(root.kids, &node{name: "offer"})
		}
	}
	var b strings.Builder
	if t.Bool() {
		b.WriteString(pbt.Pick(t, "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!-- <msg/> -->"))
	}
	root.write(t, &b, st, ns)
	msg := b.String()
	full := len(msg)
	msg += pbt.Pick(t, "", "\n", "<!-- end -->")

	decode := func(m []byte, kind int) (bad string, err error) {
		m = append([]byte(nil), m...)
		var cs []ca.Content
		switch kind {
		case 0:
			var x *ca.XMLMessage
			x, cs, err = ca.DecodeXMLFull(m)
			x2, err2 := ca.DecodeXML(m)
			if err == nil && (err2 != nil || !reflect.DeepEqual(x, x2)) {
				return fmt.Sprintf("DecodeXML and DecodeXMLFull differ: %+v %v, %+v", x2, err2, x), nil
			}
			if err == nil && (x.Version != vers || x.Type != f[0] || x.XMLName.Local != "msg" || x.XMLName.Space != ns) {
				return fmt.Sprintf("decoded as %+v", x), nil
			}
		case 1:
			var x *ca.XMLMessageChildRequest
			x, cs, err = ca.DecodeXMLCRFull(m)
			if err == nil && (x.Version != vers || x.ChildHandle != f[0] || x.Tag != f[1]) {
				return fmt.Sprintf("decoded as %+v", x), nil
			}
		case 2:
			var x *ca.XMLMessageParentResponse
			x, cs, err = ca.DecodeXMLPRFull(m)
			if err == nil && (x.Version != vers || x.ServiceURI != f[0] || x.ChildHandle != f[1] || x.ParentHandle != f[2] || x.Tag != f[3]) {
				return fmt.Sprintf("decoded as %+v", x), nil
			}
		}
		if err != nil {
			return "", err
		}
		return sameContents(cs, root.kids), nil
	}
	bad, err := decode([]byte(msg), kind)
	if err != nil {
		t.Failf("%q is refused: %v", msg, err)
	}
	if bad != "" {
		t.Failf("%q: %s", msg, bad)
	}
	// the message as something else, cut short, or in another namespace
	if _, err := decode([]byte(msg), (kind+1+t.Intn(2))%3); err == nil {
		t.Failf("%q is accepted as a message of another kind", msg)
	}
	cut := t.Intn(full)
	if _, err := decode([]byte(msg[:cut]), kind); err == nil {
		t.Failf("%q, cut short to %q, is accepted", msg, msg[:cut])
	}
	var o strings.Builder
	root.write(t, &o, st, pbt.Pick(t, ns+"x", strings.TrimSuffix(ns, "/"), map[string]string{pubNS: setupNS, setupNS: pubNS}[ns], "http://www.hactrn.net/uris/rpki/publication-spec/2"))
	if _, err := decode([]byte(o.String()), kind); err == nil {
		t.Failf("%q is accepted: its namespace is another", o.String())
	}
	t.Label("%s", root.name)
	t.NonTrivial("%s", msg)
	t.Sample("%s", msg)
}

// shape is the structure of a document: elements and text, without comments.
func shape(doc []byte) (string, error) {
	var b strings.Builder
	d := xml.NewDecoder(bytes.NewReader(doc))
	depth := 0
	roots := 0
	for {
		tok, err := d.Token()
		if err == io.EOF {
			if depth != 0 || roots != 1 {
				return "", fmt.Errorf("%d roots, depth %d", roots, depth)
			}
			return b.String(), nil
		}
		if err != nil {
			return "", err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
			var as []string
			for _, a := range x.Attr {
				if a.Name.Local == "xmlns" || a.Name.Space == "xmlns" {
					continue
				}
				as = append(as, fmt.Sprintf("%s %s=%q", a.Name.Space, a.Name.Local, a.Value))
			}
			sort.Strings(as)
			fmt.Fprintf(&b, "<%s|%s %v>", x.Name.Space, x.Name.Local, as)
		case xml.EndElement:
			depth--
			b.WriteString("</>")
		case xml.CharData:
			if s := strings.TrimSpace(string(x)); s != "" {
				if depth == 0 {
					return "", fmt.Errorf("text outside the root")
				}
				fmt.Fprintf(&b, "%q", s)
			}
		}
	}
}

// values marshals the library's values and checks the text written.
func values(t *pbt.T) {
	kind := t.Intn(6)
	var inner, innerShape strings.Builder
	var kids []*node
	st := drawStyle(t)
	st.prefix = ""
	for i := t.Size(5); i > 0; i-- {
		n := pdu(t, t.Bool())
		n.write(t, &inner, st, "")
		kids = append(kids, n)
	}
	in := inner.String()
	var f [5]string
	for i := range f {
		f[i] = text(t)
	}
	v := pbt.Pick(t, 1, 4, t.Intn(1000))
	var msg, back interface{}
	var name, ns string
	want := map[string]string{"version": fmt.Sprint(v)}
	ns = setupNS
	switch kind {
	case 0:
		name, ns = "msg", pubNS
		want["type"] = f[0]
		msg, back = &ca.XMLMessage{Version: v, Type: f[0], Inner: in}, &ca.XMLMessage{}
	case 1:
		name = "child_request"
		want["child_handle"], want["tag"] = f[0], f[1]
		msg, back = &ca.XMLMessageChildRequest{Version: v, ChildHandle: f[0], Tag: f[1], Inner: in}, &ca.XMLMessageChildRequest{}
	case 2:
		name = "parent_response"
		want["service_uri"], want["child_handle"], want["parent_handle"], want["tag"] = f[0], f[1], f[2], f[3]
		msg, back = &ca.XMLMessageParentResponse{Version: v, ServiceURI: f[0], ChildHandle: f[1], ParentHandle: f[2], Tag: f[3], Inner: in}, &ca.XMLMessageParentResponse{}
	case 3:
		name = "publisher_request"
		want["publisher_handle"], want["tag"] = f[0], f[1]
		msg, back = &ca.XMLMessagePublisherRequest{Version: v, PublisherHandle: f[0], Tag: f[1], Inner: in}, &ca.XMLMessagePublisherRequest{}
	case 4:
		name = "repository_response"
		want["service_uri"], want["sia_base"], want["rrdp_notification_uri"], want["publisher_handle"], want["tag"] = f[0], f[1], f[2], f[3], f[4]
		msg, back = &ca.XMLMessageRepositoryResponse{Version: v, ServiceURI: f[0], SIABase: f[1], RRDPNotificationURI: f[2], PublisherHandle: f[3], Tag: f[4], Inner: in}, &ca.XMLMessageRepositoryResponse{}
	case 5:
		name, ns = "msg", pubNS
		v, kids, in = 4, []*node{{name: "list"}}, "<list/>"
		want["version"], want["type"] = "4", "query"
		msg, back = ca.NewXMLList(), &ca.XMLMessage{}
	}
	var out []byte
	var err error
	if t.Bool() {
		out, err = xml.Marshal(msg)
	} else {
		var b bytes.Buffer
		err = xml.NewEncoder(&b).Encode(msg)
		out = b.Bytes()
	}
	if err != nil {
		t.Failf("%+v: %v", msg, err)
	}
	var as []string
	for k, v := range want {
		as = append(as, fmt.Sprintf(" %s=%q", k, v))
	}
	sort.Strings(as)
	fmt.Fprintf(&innerShape, "<%s|%s %v>", ns, name, as)
	k, err := shape([]byte(`<r xmlns="` + ns + `">` + in + `</r>`))
	if err != nil {
		panic(err)
	}
	innerShape.WriteString(strings.TrimPrefix(k, fmt.Sprintf("<%s|r []>", ns)))
	got, err := shape(out)
	if err != nil {
		t.Failf("%+v is written as %q: %v", msg, out, err)
	}
	if got != innerShape.String() {
		t.Failf("%+v is written as %q, which is %s, want %s", msg, out, got, innerShape.String())
	}
	if err := xml.Unmarshal(out, back); err != nil {
		t.Failf("%q cannot be read: %v", out, err)
	}
	// reading fills in the name
	set := reflect.ValueOf(msg).Elem().FieldByName("XMLName")
	set.Set(reflect.ValueOf(xml.Name{Space: ns, Local: name}))
	if !reflect.DeepEqual(msg, back) {
		t.Failf("%+v is read back as %+v", msg, back)
	}
	var cs []ca.Content
	switch kind {
	case 0, 5:
		var x *ca.XMLMessage
		if x, cs, err = ca.DecodeXMLFull(out); err == nil && !reflect.DeepEqual(x, back) {
			t.Failf("%q is decoded as %+v", out, x)
		}
	case 1:
		var x *ca.XMLMessageChildRequest
		if x, cs, err = ca.DecodeXMLCRFull(out); err == nil && !reflect.DeepEqual(x, back) {
			t.Failf("%q is decoded as %+v", out, x)
		}
	case 2:
		var x *ca.XMLMessageParentResponse
		if x, cs, err = ca.DecodeXMLPRFull(out); err == nil && !reflect.DeepEqual(x, back) {
			t.Failf("%q is decoded as %+v", out, x)
		}
	default:
		cs, err = ca.DecodeInner([]byte(in))
	}
	if err != nil {
		t.Failf("%q cannot be decoded: %v", out, err)
	}
	if bad := sameContents(cs, kids); bad != "" {
		t.Failf("%q: %s", out, bad)
	}
	// contents written by the library
	if len(cs) > 0 {
		b, err := xml.Marshal(cs)
		if err != nil {
			t.Failf("%+v: %v", cs, err)
		}
		cs2, err := ca.DecodeInner(b)
		if err != nil || !reflect.DeepEqual(cs, cs2) {
			t.Failf("%+v is written as %q and read back as %+v, %v", cs, b, cs2, err)
		}
	}
	t.Label("%s", name)
	t.NonTrivial("%s", out)
	t.Sample("%s", out)
}

func propC24() pbt.Property {
	return pbt.Property{
		ID:          "C24",
		Rule:        "non-trivial: distinct messages",
		Assumptions: []string{"encoding/xml, used as the reading side of the oracle, is a correct XML parser"},
		Suites: []pbt.Suite{
			{Name: "values", Rule: "random values of the five message types with markup and non-ASCII text in every field, and the list query: text written, values and contents read back", Quick: 30000, Thorough: 1000000, Prop: values},
			{Name: "foreign", Rule: "messages written by an independent writer in many styles; and the same cut short, in another namespace, or read as another kind", Quick: 30000, Thorough: 1000000, Prop: foreign},
		},
	}
}
