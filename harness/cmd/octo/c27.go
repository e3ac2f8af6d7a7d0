//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/getsentry/sentry-go"

	syncpki "github.com/cloudflare/cfrpki/sync/lib"

	"github.com/cloudflare/cfrpki/verifharness/gen"
	"github.com/cloudflare/cfrpki/verifharness/pbt"
	"github.com/cloudflare/cfrpki/verifharness/prog"
)

func propC27() pbt.Property {
	return pbt.Property{
		ID:    "C27",
		Setup: prog.Setup,
		Rule:  "a fetch counts when its response is not a plain complete one; signature: status, framing, coding, fault, redirections, magnitude of the size",
		Assumptions: []string{
			"plain HTTP/1.x on the loopback interface; no TLS",
			"a body that ends with the connection cannot be told from a shorter one, so only announced lengths, chunks and compression reveal a premature end",
		},
		Suites: []pbt.Suite{
			{Name: "fetch", Quick: 6000, Thorough: 100000, Isolate: true, Hang: 120 * time.Second, Prop: c27Fetch,
				Rule: "GetXML against scripted responses: statuses, framings, compression, redirections, premature ends at any octet, contradicting and malformed headers; content or error against what was sent, and the connection is given up"},
			{Name: "large", Quick: 3, Thorough: 12, Workers: 1, Hang: 300 * time.Second, Prop: c27Large,
				Rule: "bodies around a hundred million octets are accepted, beyond the limit of 10^9 (sent, chunked, or from 1 MB of gzip) refused"},
			{Name: "stall", Quick: 8, Thorough: 40, Hang: 400 * time.Second, Prop: c27Stall,
				Rule: "servers that accept and say nothing, stop in the header or body, or send forever octet by octet: GetXML, and octorpki fetching a trust anchor, come to an end within 3 minutes"},
			{Name: "anchor", Quick: 400, Thorough: 8000, Hang: 150 * time.Second, Prop: c27Anchor,
				Rule: "octorpki downloads trust anchor certificates from scripted servers: the file in the cache is the first complete success within 1 MiB, or stays as it was; other trust anchors are not affected"},
		},
	}
}

// answer is a scripted response.
type answer struct {
	status   int
	proto    string
	body     []byte // as the server means it
	framing  string // length, chunked, close
	gzip     bool
	fault    string
	cut      int // how many octets of the whole are left out
	info     int // informational responses before
	location string
	head     []string
}

var faultsOfAnswer = []string{"cut", "cut", "cuthead", "badchunk", "notgzip", "cutgzip", "badgzip", "longlength", "shortlength", "twolengths", "neglength", "reset", "nothing", "junk", "badstatus", "badheader", "hugeheader", "1xx"}

func (a *answer) String() string {
	return fmt.Sprintf("%s %d, %d octets, %s, gzip %v, fault %q cut %d, %d informational, to %q", a.proto, a.status, len(a.body), a.framing, a.gzip, a.fault, a.cut, a.info, a.location)
}

func drawAnswer(t *pbt.T) *answer {
	a := &answer{status: 200, proto: pbt.Pick(t, "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"), framing: pbt.Pick(t, "length", "length", "chunked", "close")}
	if a.proto == "HTTP/1.0" && a.framing == "chunked" {
		a.framing = "close"
	}
	if t.Chance(1, 4) {
		a.status = pbt.Pick(t, 201, 202, 203, 204, 205, 206, 226, 300, 304, 305, 306, 400, 401, 403, 404, 407, 408, 410, 416, 418, 421, 429, 451, 500, 501, 502, 503, 504, 511, 599, 299, 999)
	}
	n := t.Size(3000)
	if t.Chance(1, 40) {
		n = 100000 + t.Intn(3000000)
	}
	a.body = bytes.Repeat([]byte("<x y=\"z\"/>\n"), n/11+1)[:n]
	if n > 20 {
		copy(a.body, t.Bytes(10))
	}
	a.gzip = t.Chance(1, 4)
	if t.Chance(1, 6) {
		a.info = t.Range(1, 3)
	}
	if t.Chance(1, 2) {
		a.fault = pbt.Pick(t, faultsOfAnswer...)
		switch a.fault {
		case "notgzip", "cutgzip", "badgzip":
			a.gzip = true
		case "badchunk":
			a.framing, a.proto = "chunked", "HTTP/1.1"
		case "longlength", "shortlength", "twolengths", "neglength":
			a.framing = "length"
		case "reset":
			a.framing = pbt.Pick(t, "length", "close")
			if a.framing == "close" {
				a.proto = "HTTP/1.0"
			}
		}
		a.cut = 1 + t.Size(len(a.body)+40)
	}
	for t.Chance(1, 5) {
		a.head = append(a.head, pbt.Pick(t, "Content-Type: text/html", "Content-Range: bytes 0-10/100", "X: "+strings.Repeat("y", 3000), "Set-Cookie: a=b", "Connection: close", "Content-Encoding: br", "Retry-After: 1"))
	}
	if a.gzip {
		var l []string
		for _, h := range a.head {
			if !strings.HasPrefix(h, "Content-Enc") {
				l = append(l, h)
			}
		}
		a.head = l
	}
	return a
}

// bytes of the response; where its header ends.
func (a *answer) bytes() ([]byte, int) {
	body := a.body
	if a.gzip && a.fault != "notgzip" {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write(body)
		w.Close()
		body = b.Bytes()
		switch a.fault {
		case "cutgzip":
			k := a.cut
			if k >= len(body) {
				k = len(body) - 1
			}
			body = body[:len(body)-k]
		case "badgzip":
			body[len(body)-8] ^= 0x40 // of the checksum
		}
	}
	var b bytes.Buffer
	for i := 0; i < a.info; i++ {
		fmt.Fprintf(&b, "%s %d Wait\r\nX-Info: %d\r\n\r\n", a.proto, []int{100, 103, 102}[i], i)
	}
	status := fmt.Sprint(a.status)
	switch a.fault {
	case "badstatus":
		status = []string{"2000", "20", "-200", "two hundred", "", "0x200"}[a.cut%6]
	case "junk":
		b.Reset()
		b.WriteString([]string{"\x00\x01\x02", "SSH-2.0-OpenSSH\r\n", "\r\n\r\n\r\n", "<notification/>", "HTTP/2.0 200 OK\r\n\r\nx", "HTTP/1.1\r\n\r\n", "ICY 200 OK\r\n\r\nabc", strings.Repeat("a", 100000)}[a.cut%8])
		return b.Bytes(), b.Len()
	case "1xx":
		for i := 0; i < 200; i++ {
			fmt.Fprintf(&b, "%s 103 Early Hints\r\nLink: x\r\n\r\n", a.proto)
		}
	}
	fmt.Fprintf(&b, "%s %s Some Reason\r\n", a.proto, status)
	for _, h := range a.head {
		b.WriteString(h + "\r\n")
	}
	if a.location != "" {
		fmt.Fprintf(&b, "Location: %s\r\n", a.location)
	}
	switch a.fault {
	case "badheader":
		b.WriteString([]string{"No colon here\r\n", ": empty\r\n", "Bad name: x\r\n", "X: a\x00b\r\n"}[a.cut%4])
	case "hugeheader":
		for i := 0; i < 12000; i++ {
			fmt.Fprintf(&b, "X-%d: %s\r\n", i, strings.Repeat("z", 1000))
		}
	}
	if a.gzip {
		b.WriteString("Content-Encoding: gzip\r\n")
	}
	switch a.framing {
	case "length":
		n := len(body)
		switch a.fault {
		case "longlength":
			n += a.cut
		case "shortlength":
			n -= a.cut
			if n < 0 {
				n = 0
			}
		case "neglength":
			n = -n - 1
		case "twolengths":
			fmt.Fprintf(&b, "Content-Length: %d\r\n", n+a.cut)
		}
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", n)
	case "chunked":
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
	default:
		b.WriteString("Connection: close\r\n\r\n")
	}
	end := b.Len()
	if a.framing == "chunked" {
		k := 1 + a.cut%1500
		for i := 0; i < len(body); i += k {
			j := min(i+k, len(body))
			if a.fault == "badchunk" && j == len(body) {
				fmt.Fprintf(&b, "%s\r\n", []string{"-1", "xyz", "ffffffffffffffffff", "", " "}[a.cut%5])
			} else {
				fmt.Fprintf(&b, "%x\r\n", j-i)
			}
			b.Write(body[i:j])
			b.WriteString("\r\n")
		}
		b.WriteString("0\r\n\r\n")
	} else {
		b.Write(body)
	}
	out := b.Bytes()
	switch a.fault {
	case "cuthead":
		out = out[:max(0, end-1-a.cut%end)]
	case "cut", "reset":
		out = out[:max(0, len(out)-a.cut)]
	case "nothing":
		out = nil
	}
	return out, end
}

// expect tells what a fetch must give: content, or an error, or (not sure)
// either.
func (a *answer) expect(limit int) (ok, sure bool, content []byte) {
	out, end := a.bytes()
	if a.fault == "junk" && bytes.HasPrefix(out, []byte("HTTP/2")) {
		return true, false, []byte("x") // understood by a lenient reader
	}
	if a.status != 200 {
		return false, true, nil
	}
	noBody := a.gzip && len(out) <= end // a decoder that saw nothing
	switch a.fault {
	case "":
		ok = true
	case "cut", "reset":
		ok = false
		if a.framing == "close" && len(out) >= end && !a.gzip {
			// nobody can tell; but a reset is an error unless it comes late
			return true, false, out[end:]
		}
		if noBody && a.framing == "close" {
			return true, false, nil
		}
		if a.framing == "chunked" && a.cut <= 2 {
			return true, false, a.body // only the end of the last line is missing
		}
		if a.gzip && a.framing != "length" && bytes.HasSuffix(out, []byte("\r\n")) {
			return false, true, nil
		}
	case "shortlength":
		n, have := 0, len(out)-end
		n = max(0, have-a.cut)
		if a.gzip {
			// a part of the compressed data; with nothing at all there is
			// nothing to complain about
			return n == 0, n > 0, nil
		}
		return true, false, a.body[:n] // the rest does not belong to it
	case "twolengths":
		return false, true, nil
	case "cutgzip":
		if noBody {
			return true, false, nil
		}
	case "notgzip":
		if len(a.body) == 0 {
			return true, false, nil
		}
	case "badchunk":
		if len(a.body) == 0 && !a.gzip {
			ok = true // there is no chunk to be bad
		}
	case "badheader", "1xx":
		return true, false, a.body // many readers are lenient
	case "hugeheader":
		return true, false, a.body
	case "junk":
		return false, true, nil
	case "neglength", "longlength", "nothing", "cuthead", "badgzip", "badstatus":
	}
	if ok && limit > 0 && len(a.body) > limit {
		return false, true, nil
	}
	return ok, true, a.body
}

// rawServer answers by script.
type rawServer struct {
	ln   net.Listener
	mu   sync.Mutex
	by   map[string]func(c net.Conn)
	hits map[string]int
	wg   sync.WaitGroup
	open map[net.Conn]bool
}

var rawCount atomic.Uint32

func newRaw(t *pbt.T) *rawServer {
	// closed connections keep their ports for a minute: spread them over
	// the addresses of the loopback interface
	var ln net.Listener
	var err error
	for i := 0; i < 300; i++ {
		k := rawCount.Add(1) + uint32(os.Getpid())<<8
		if ln, err = net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+k>>16%100, k>>8%256, 1+k%250)); err == nil {
			break
		}
		time.Sleep(200 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	s := &rawServer{ln: ln, by: map[string]func(net.Conn){}, hits: map[string]int{}, open: map[net.Conn]bool{}}
	t.Cleanup(func() {
		ln.Close()
		s.mu.Lock()
		for c := range s.open {
			c.Close()
		}
		s.mu.Unlock()
		s.wg.Wait()
	})
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.open[c] = true
			s.mu.Unlock()
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				defer func() {
					c.Close()
					s.mu.Lock()
					delete(s.open, c)
					s.mu.Unlock()
				}()
				c.SetDeadline(time.Now().Add(390 * time.Second))
				r := bufio.NewReader(c)
				line, err := r.ReadString('\n')
				if err != nil {
					return
				}
				for {
					h, err := r.ReadString('\n')
					if err != nil {
						return
					}
					if strings.TrimSpace(h) == "" {
						break
					}
				}
				p := strings.SplitN(line, " ", 3)
				if len(p) < 2 {
					return
				}
				s.mu.Lock()
				f := s.by[p[1]]
				s.hits[p[1]]++
				s.mu.Unlock()
				if f == nil {
					io.WriteString(c, "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
					return
				}
				f(c)
			}()
		}
	}()
	return s
}

func (s *rawServer) url(p string) string { return "http://" + s.ln.Addr().String() + p }

func (s *rawServer) on(p string, f func(c net.Conn)) {
	s.mu.Lock()
	s.by[p] = f
	s.mu.Unlock()
}

func (s *rawServer) answer(p string, a *answer) {
	s.on(p, func(c net.Conn) {
		out, _ := a.bytes()
		c.Write(out)
		if a.fault == "reset" {
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			return
		}
		// let the other side read everything before the connection goes
		if t, ok := c.(*net.TCPConn); ok {
			t.CloseWrite()
			c.SetReadDeadline(time.Now().Add(5 * time.Second))
			io.Copy(io.Discard, c)
		}
	})
}

// format does what octorpki does with an error.
func format(err error) {
	_ = err.Error()
	if e, ok := err.(interface{ SetURL(string, string) }); ok {
		e.SetURL("http://x/n.xml", "rsync://x/m")
	}
	if e, ok := err.(interface{ SetSentryScope(*sentry.Scope) }); ok {
		e.SetSentryScope(sentry.NewScope())
	}
	_ = err.Error()
}

var badURLs = []string{"", "http://", "http://[::1", "ftp://127.0.0.1/x", "file:///etc/hostname", "http://127.0.0.1:1/", "http://127.0.0.1:99999/", "://", "http://a b/", "rsync://h/m/x", "HTTP:// ", "http://\x00/", "http://no-such-host.invalid/", "http:///x", "%", "gopher://h", "http://user:pw@127.0.0.1:1/x"}

func c27Fetch(t *pbt.T) {
	f := syncpki.NewHTTPFetcher("verif")
	defer f.Client.CloseIdleConnections()
	if t.Chance(1, 30) {
		u := pbt.Pick(t, badURLs...)
		c, err := f.GetXML(u)
		if err == nil || c != "" {
			t.Failf("GetXML(%q): %q, %v", u, c, err)
		}
		format(err)
		t.NonTrivial("url " + u)
		t.Label("bad URL")
		return
	}
	s := newRaw(t)
	a := drawAnswer(t)
	target := "/doc.xml"
	hops := 0
	how := ""
	if t.Chance(1, 5) {
		hops = t.Range(1, 5)
		for i := 0; i < hops; i++ {
			to := fmt.Sprintf("/hop%d", i+1)
			if i == hops-1 {
				to = target
			}
			if t.Bool() {
				to = s.url(to)
			}
			s.answer(fmt.Sprintf("/hop%d", i), &answer{status: pbt.Pick(t, 301, 302, 303, 307, 308), proto: "HTTP/1.1", framing: pbt.Pick(t, "length", "close"), body: []byte("<moved/>"), location: to})
		}
		if t.Chance(1, 4) {
			how = pbt.Pick(t, "loop", "none", "ftp", "file", "bad", "away")
			to := map[string]string{"loop": "/hop0", "none": "", "ftp": "ftp://127.0.0.1/x", "file": "file:///etc/hostname", "bad": "http://[::1", "away": "http://127.0.0.1:1/"}[how]
			s.answer("/hop0", &answer{status: pbt.Pick(t, 301, 302, 303, 307, 308), proto: "HTTP/1.1", framing: "length", body: []byte("<moved/>"), location: to})
		}
		s.answer(target, a)
		target = "/hop0"
	} else {
		s.answer(target, a)
	}
	ok, sure, want := a.expect(0)
	if how != "" {
		ok, sure = false, true
	}
	got, err := f.GetXML(s.url(target))
	what := func() string {
		out, _ := a.bytes()
		return fmt.Sprintf("%s; %d redirections %s; %.400q", a, hops, how, out)
	}
	switch {
	case err != nil && got != "":
		t.Failf("an error (%v) with content %.60q; response: %s", err, got, what())
	case err == nil && !ok:
		t.Failf("accepted with %d octets %.60q; response: %s", len(got), got, what())
	case err == nil && got != string(want):
		t.Failf("content of %d octets %.60q instead of %d; response: %s", len(got), got, len(want), what())
	case err != nil && ok && sure:
		t.Failf("refused with %v; response: %s", err, what())
	}
	if err != nil {
		format(err)
	}
	if a.status != 200 || a.framing != "length" || a.gzip || a.fault != "" || hops > 0 {
		size := 0
		for n := len(a.body); n > 0; n /= 8 {
			size++
		}
		t.NonTrivial(fmt.Sprint(a.status, a.framing, a.proto, a.gzip, a.fault, a.cut%8, a.info, hops, how, size))
	}
	switch {
	case err == nil:
		t.Label("accepted")
	default:
		t.Label("refused")
	}
	if a.status == 200 && a.fault != "" {
		t.Label("fault " + a.fault)
	}
	t.Sample(fmt.Sprintf("%s, %d redirections %s: accepted %v", a, hops, how, err == nil))
}

func c27Large(t *pbt.T) {
	f := syncpki.NewHTTPFetcher("verif")
	s := newRaw(t)
	const limit = 1000000000
	n := pbt.Pick(t, limit+1, limit+1+t.Intn(limit/8), 100000000+t.Intn(100000000))
	framing := pbt.Pick(t, "length", "chunked", "close", "gzip", "gzip")
	closed := make(chan int64, 1)
	s.on("/big", func(c net.Conn) {
		var sent int64
		defer func() { closed <- sent }()
		io.WriteString(c, "HTTP/1.1 200 OK\r\n")
		block := make([]byte, 1<<20)
		switch framing {
		case "gzip":
			var b bytes.Buffer
			w := gzip.NewWriter(&b)
			for left := n; left > 0; left -= len(block) {
				w.Write(block[:min(left, len(block))])
			}
			w.Close()
			fmt.Fprintf(c, "Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", b.Len())
			c.Write(b.Bytes())
			sent = int64(n)
			return
		case "length":
			fmt.Fprintf(c, "Content-Length: %d\r\n\r\n", n)
		case "chunked":
			io.WriteString(c, "Transfer-Encoding: chunked\r\n\r\n")
		default:
			io.WriteString(c, "Connection: close\r\n\r\n")
		}
		for left := n; left > 0; left -= len(block) {
			b := block[:min(left, len(block))]
			if framing == "chunked" {
				fmt.Fprintf(c, "%x\r\n", len(b))
			}
			if _, err := c.Write(b); err != nil {
				return
			}
			if framing == "chunked" {
				io.WriteString(c, "\r\n")
			}
			sent += int64(len(b))
		}
		if framing == "chunked" {
			io.WriteString(c, "0\r\n\r\n")
		}
	})
	got, err := f.GetXML(s.url("/big"))
	switch {
	case n > limit && err == nil:
		t.Failf("%d octets (%s) accepted", n, framing)
	case n > limit && got != "":
		t.Failf("%d octets (%s): error %v with %d octets", n, framing, err, len(got))
	case n <= limit && err != nil:
		t.Failf("%d octets (%s): %v", n, framing, err)
	case n <= limit && len(got) != n:
		t.Failf("%d octets (%s): content has %d", n, framing, len(got))
	}
	select {
	case <-closed:
	case <-time.After(30 * time.Second):
		t.Failf("the connection of a refused response (%d octets, %s) is kept", n, framing)
	}
	t.NonTrivial(fmt.Sprint(framing, n))
	t.Sample(fmt.Sprintf("%d octets, %s: accepted %v", n, framing, err == nil))
}

func c27Stall(t *pbt.T) {
	s := newRaw(t)
	kind := pbt.Pick(t, "silence", "header", "body", "octets", "chunks", "headers", "refused")
	quit := make(chan struct{})
	t.Cleanup(func() { close(quit) })
	hold := func(c net.Conn, each string) {
		// until the other side goes
		gone := make(chan struct{})
		go func() {
			io.Copy(io.Discard, c)
			close(gone)
		}()
		for {
			select {
			case <-gone:
				return
			case <-quit:
				return
			case <-time.After(300 * time.Millisecond):
				if each != "" {
					if _, err := io.WriteString(c, each); err != nil {
						return
					}
				}
			}
		}
	}
	left := make(chan struct{}, 100)
	s.on("/doc.xml", func(c net.Conn) {
		each := ""
		switch kind {
		case "header":
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-")
		case "body":
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n<x>")
		case "octets":
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 100000\r\n\r\n")
			each = "x"
		case "chunks":
			io.WriteString(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
			each = "1\r\nx\r\n"
		case "headers":
			io.WriteString(c, "HTTP/1.1 200 OK\r\n")
			each = "X: y\r\n"
		case "refused":
			io.WriteString(c, "HTTP/1.1 500 No\r\nTransfer-Encoding: chunked\r\n\r\n")
			each = "1\r\nx\r\n"
		}
		hold(c, each)
		left <- struct{}{}
	})
	const most = 180 * time.Second
	start := time.Now()
	if t.Chance(1, 3) {
		c := smallCase(t)
		uris := []string{s.url("/doc.xml")}
		c.site.TALs[0].URIs = uris
		if c.site.AddEpoch().Unsure {
			t.Discard()
		}
		p := c.env.Start("octorpki", c.o.Args(c.env, c.site)...)
		if !p.Wait(most) {
			p.Stacks()
			c.fail(t, p, "octorpki still waits for a trust anchor certificate (%s) after %v", kind, most)
		}
		if p.Code != 0 || p.Crashed() {
			c.fail(t, p, "octorpki ended with status %d (%s)", p.Code, kind)
		}
		kind = "program, " + kind
	} else {
		f := syncpki.NewHTTPFetcher("verif")
		type res struct {
			s   string
			err error
		}
		done := make(chan res, 1)
		go func() {
			c, err := f.GetXML(s.url("/doc.xml"))
			done <- res{c, err}
		}()
		select {
		case r := <-done:
			if r.err == nil || r.s != "" {
				t.Failf("%s: content %.40q, error %v", kind, r.s, r.err)
			}
			format(r.err)
		case <-time.After(most):
			t.Failf("%s: GetXML has not come back after %v", kind, most)
		}
		select {
		case <-left:
		case <-time.After(30 * time.Second):
			t.Failf("%s: the connection is kept", kind)
		}
	}
	d := time.Since(start)
	t.NonTrivial(kind)
	t.Label(kind)
	t.Sample(fmt.Sprintf("%s: ended after %v", kind, d.Round(time.Second)))
}

// smallCase is a site with rsync only and one trust anchor.
func smallCase(t *pbt.T) *octoCase {
	c := &octoCase{env: prog.New(t), o: prog.Octo{RRDP: true, Failover: true, Mode: "oneoff", Wait: true, Output: "output.json"}}
	tr := gen.DrawTree(t, gen.TreeOpts{TAs: 1, CAs: 2, ROAs: 2, MinROAs: 1, Depth: 2, Wide: true, Hosts: hosts})
	c.site = prog.NewSite(t, c.env, tr, gen.Settings{StrictManifests: true, StrictHash: true, Time: tr.Time}, 0)
	return c
}

func c27Anchor(t *pbt.T) {
	const limit = 1 << 20
	c := smallCase(t)
	s := newRaw(t)
	if c.site.AddEpoch().Unsure {
		t.Discard()
	}
	// a second TAL, for something that does not matter
	key := gen.Keys()[t.Intn(4)]
	n := t.Range(1, 3)
	var uris []string
	var as []*answer
	at := t.Intn(n + 2)
	place := ""
	for i := 0; i < n; i++ {
		if i == at {
			place = "rsync://old.example/ta/root.cer"
			uris = append(uris, place)
		}
		a := drawAnswer(t)
		if t.Chance(1, 6) && a.fault == "" {
			a.body = make([]byte, pbt.Pick(t, limit-1, limit, limit+1, limit+1+t.Intn(limit), 4*limit))
			copy(a.body, t.Bytes(8))
		}
		p := fmt.Sprintf("/%d.cer", i)
		s.answer(p, a)
		as = append(as, a)
		uris = append(uris, s.url(p))
	}
	if at == n {
		place = "rsync://old.example/ta/root.cer"
		uris = append(uris, place)
	}
	l := prog.TAL{URIs: uris}
	tal := c.env.Write("tal/other.tal", []byte(strings.Join(uris, "\n")+"\n\n"+base64.StdEncoding.EncodeToString(gen.SPKI(&key.PublicKey))+"\n"))
	file := filepath.Join(c.env.Work, "cache", strings.TrimPrefix(l.Place(), "rsync://"))
	old := []byte(nil)
	if t.Bool() {
		old = []byte("an older certificate")
		c.env.Write("cache/"+strings.TrimPrefix(l.Place(), "rsync://"), old)
	}
	c.o.Failover = place == "" || t.Bool()
	good := c.site.TALs[0].File
	c.o.TALs = []string{tal, good}
	if t.Bool() {
		c.o.TALs = []string{good, tal}
	}
	if !c.o.Failover {
		// the other trust anchor comes by rsync
		c.env.Write("cache/"+strings.TrimPrefix(c.site.TALs[0].Place(), "rsync://"), c.site.Epochs[0].Files[c.site.TALs[0].TA.URI])
	}
	c.o.Names = []string{"a", "b"}
	p := c.env.Start("octorpki", c.o.Args(c.env, c.site)...)
	if !p.Wait(120 * time.Second) {
		p.Stacks()
		c.fail(t, p, "octorpki has not ended after 120 s; responses: %v", as)
	}
	if p.Code != 0 || p.Crashed() {
		c.fail(t, p, "octorpki ended with status %d; responses: %v", p.Code, as)
	}
	// what may be in the file
	var may []string
	decided := false
	for _, a := range as {
		ok, sure, content := a.expect(limit)
		if ok {
			may = append(may, string(content))
		}
		if ok && sure {
			decided = true
			break
		}
	}
	got, err := os.ReadFile(file)
	found := err == nil
	right := false
	for _, m := range may {
		right = right || found && string(got) == m
	}
	if !decided {
		right = right || found && old != nil && string(got) == string(old) || !found && old == nil
	}
	if !right {
		c.fail(t, p, "trust anchor certificate in the cache: found %v, %d octets %.40q (before: %q); responses: %v", found, len(got), got, old, as)
	}
	out, err := os.ReadFile(c.env.Work + "/output.json")
	if err != nil {
		c.fail(t, p, "no output: %v; responses: %v", err, as)
	}
	list, err := prog.ParseList(out)
	if err != nil {
		c.fail(t, p, "output: %v", err)
	}
	want := map[prog.Entry]bool{}
	for _, x := range payloads(c.site.Epochs[0]) {
		want[prog.EntryOf(x.VRP)] = true
	}
	if len(list.Data) != len(want) {
		c.fail(t, p, "%d payloads of the other trust anchor instead of %d; responses: %v", len(list.Data), len(want), as)
	}
	var sig []string
	for _, a := range as {
		sig = append(sig, fmt.Sprint(a.status, a.framing, a.gzip, a.fault, len(a.body) > limit))
	}
	t.NonTrivial(fmt.Sprint(sig, old != nil, decided))
	switch {
	case decided:
		t.Label("stored")
	case len(may) == 0:
		t.Label("nothing to store")
	}
	for _, a := range as {
		if len(a.body) > limit {
			t.Label("oversized")
		}
	}
	t.Sample(fmt.Sprintf("%v: stored %v", as, found && string(got) != string(old)))
}
