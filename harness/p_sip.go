package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/moggle-mog/goav/sips"
)

var sipMethods = []struct {
	m sips.SIPMethod
	s string
}{{sips.SIPMethodInvite, "INVITE"}, {sips.SIPMethodAck, "ACK"}, {sips.SIPMethodBye, "BYE"}, {sips.SIPMethodCancel, "CANCEL"}, {sips.SIPMethodOptions, "OPTIONS"},
	{sips.SIPMethodRegister, "REGISTER"}, {sips.SIPMethodPrack, "PRACK"}, {sips.SIPMethodSubscribe, "SUBSCRIBE"}, {sips.SIPMethodNotify, "NOTIFY"}, {sips.SIPMethodPublish, "PUBLISH"},
	{sips.SIPMethodInfo, "INFO"}, {sips.SIPMethodRefer, "REFER"}, {sips.SIPMethodMessage, "MESSAGE"}, {sips.SIPMethodUpdate, "UPDATE"}, {sips.SIPMethodPing, "PING"}}

// reason phrases of RFC 3261 section 21 (and RFC 4411/3329 style additions)
var sipReasons = map[int]string{100: "Trying", 180: "Ringing", 181: "Call Is Being Forwarded", 182: "Queued", 183: "Session Progress", 200: "OK",
	300: "Multiple Choices", 301: "Moved Permanently", 302: "Moved Temporarily", 305: "Use Proxy", 380: "Alternative Service",
	400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout", 410: "Gone", 413: "Request Entity Too Large", 414: "Request-URI Too Long", 415: "Unsupported Media Type", 416: "Unsupported URI Scheme", 420: "Bad Extension", 421: "Extension Required", 423: "Interval Too Brief", 480: "Temporarily Unavailable", 481: "Call/Transaction Does Not Exist", 482: "Loop Detected", 483: "Too Many Hops", 484: "Address Incomplete", 485: "Ambiguous", 486: "Busy Here", 487: "Request Terminated", 488: "Not Acceptable Here", 491: "Request Pending", 493: "Undecipherable",
	500: "Server Internal Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Server Timeout", 505: "Version Not Supported", 513: "Message Too Large",
	600: "Busy Everywhere", 603: "Decline", 604: "Does Not Exist Anywhere", 606: "Not Acceptable"}

var sipCompact = map[string]string{"accept-contact": "a", "allow-events": "u", "call-id": "i", "contact": "m", "content-encoding": "e", "content-length": "l", "content-type": "c", "event": "o", "from": "f", "identity": "y", "refer-to": "r", "referred-by": "b", "reject-contact": "j", "request-disposition": "d", "session-expires": "x", "subject": "s", "supported": "k", "to": "t", "via": "v"}

func sipCodes() (out []int) {
	for k := range sipReasons {
		out = append(out, k)
	}
	sort.Ints(out)
	return
}

// caseOf spells ASCII text with the i-th letter-case pattern.
func caseOf(s string, i int) string {
	b := []byte(strings.ToLower(s))
	for k := range b {
		if i>>uint(k)&1 == 1 {
			b[k] = byte(strings.ToUpper(string(b[k : k+1]))[0])
		}
	}
	return string(b)
}

func spellings(s string) []string {
	alt := 0x5555
	return []string{strings.ToLower(s), strings.ToUpper(s), caseOf(s, alt), caseOf(s, ^alt)}
}

// sipText writes a message the plain way.
func sipText(first string, headers [][2]string, body []byte) []byte {
	var b bytes.Buffer
	b.WriteString(first + "\r\n")
	for _, h := range headers {
		b.WriteString(h[0] + ": " + h[1] + "\r\n")
	}
	fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
	b.Write(body)
	return b.Bytes()
}

// readSip independently splits serialised text: first line, header lines in
// order, whether a blank line followed, and the rest.
func readSip(b []byte) (first string, hs [][2]string, blank bool, rest []byte, err error) {
	s := b
	for i := 0; ; i++ {
		k := bytes.Index(s, []byte("\r\n"))
		if k < 0 {
			if len(s) == 0 {
				return first, hs, false, nil, nil
			}
			return first, hs, false, nil, fmt.Errorf("line %q is not terminated", s)
		}
		l := string(s[:k])
		s = s[k+2:]
		if i == 0 {
			first = l
			continue
		}
		if l == "" {
			return first, hs, true, s, nil
		}
		if l[0] == ' ' || l[0] == '\t' {
			if len(hs) == 0 {
				return first, hs, false, nil, fmt.Errorf("continuation before any header")
			}
			hs[len(hs)-1][1] += " " + strings.Trim(l, " \t")
			continue
		}
		c := strings.IndexByte(l, ':')
		if c < 0 {
			return first, hs, false, nil, fmt.Errorf("header line %q", l)
		}
		hs = append(hs, [2]string{strings.ToLower(strings.Trim(l[:c], " \t")), strings.Trim(l[c+1:], " \t")})
	}
}

func argsText(a map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q;", k, a[k])
	}
	return b.String()
}

type uriParts struct {
	typ, name, user, host, port string
	args                        map[string]string
}

func (u uriParts) String() string {
	return fmt.Sprintf("type %q name %q user %q host %q port %q args %s", u.typ, u.name, u.user, u.host, u.port, argsText(u.args))
}

func userParts(u *sips.SIPUser) uriParts {
	return uriParts{u.URIType, u.Name, u.User, u.Host, u.Port, u.Args}
}

func reqParts(u *sips.SIPRequest) uriParts {
	return uriParts{u.URIType, "", u.User, u.Host, u.Port, u.Args}
}

func sameParts(a, b uriParts) bool { return a.String() == b.String() }

var sipArgSets = []map[string]string{{}, {"tag": "a48s"}, {"lr": ""}, {"a": "1", "lr": "", "transport": "tcp"}, {"branch": "z9hG4bK-.!%*_+`'~", "rport": ""}, {"q": "0.7", "expires": "3600"},
	{"user": "phone", "method": "INVITE", "ttl": "15"}, {"maddr": "224.2.0.1", "lr": "", "comp": "sigcomp"}, {"received": "1.2.3.4", "rport": "5060", "branch": "z9hG4bK74bf9"}, {"ob": "", "isfocus": "", "tag": "0"}, {"Tag": "A", "tag": "a", "TAG": ""}}

func copyArgs(a map[string]string) sips.Args {
	m := sips.NewArgs()
	for k, v := range a {
		m.Set(k, v)
	}
	return m
}

// permute returns every order of the keys of a (at most 3 keys used).
func argOrders(a map[string]string) [][]string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return [][]string{nil}
	}
	var out [][]string
	var rec func(cur, rest []string)
	rec = func(cur, rest []string) {
		if len(rest) == 0 {
			out = append(out, append([]string{}, cur...))
			return
		}
		for i := range rest {
			r := append(append([]string{}, rest[:i]...), rest[i+1:]...)
			rec(append(cur, rest[i]), r)
		}
	}
	rec(nil, ks)
	return out
}

func pairText(k, v string) string {
	if v == "" {
		return k
	}
	return k + "=" + v
}

// sipModel is what a parsed message must report.
type sipModel struct {
	resp    bool
	method  sips.SIPMethod
	version sips.SIPVersion
	code    int
	reason  string
	uri     uriParts
	headers map[string][]string
	body    []byte
}

func checkSip(c *Ctx, s *sips.SIP, m *sipModel, what string) {
	c.Check(s.IsResponse == m.resp, "%s: response %v", what, s.IsResponse)
	c.Check(s.Version == m.version, "%s: version %v", what, s.Version)
	if m.resp {
		c.Check(s.ResponseCode.Int() == m.code, "%s: code %d", what, s.ResponseCode.Int())
		c.Check(s.ResponseStatus == m.reason, "%s: reason %q, want %q", what, s.ResponseStatus, m.reason)
	} else {
		c.Check(s.Method == m.method, "%s: method %v", what, s.Method)
		c.Check(s.Request != nil && sameParts(reqParts(s.Request), m.uri), "%s: request URI %v, want %v", what, s.Request, m.uri)
	}
	for k, v := range m.headers {
		c.Check(eqStr(s.Headers.GetHeader(k), v), "%s: header %s is %q, want %q", what, k, s.Headers.GetHeader(k), v)
	}
	c.Check(bytes.Equal(s.Payload(), m.body), "%s: payload %s, want %s", what, hx(s.Payload()), hx(m.body))
}

func parseSip(b []byte) (s *sips.SIP, err error) {
	s = sips.NewSIP()
	err = s.ParseBytes(b)
	return
}

// asciiUpper maps a..z only.
func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// wellKnown lists header names with typical values, to be kept as they are.
var wellKnown = func() (l [][2]string) {
	for _, t := range strings.Split(`Accept: Application/SDP, Text/html
Accept-Contact: *;Audio;Require
Accept-Encoding: GZIP
Accept-Language: en-US, DE;q=0.8
Alert-Info: <http://A.example/Sound.wav>
Allow: INVITE, ack, BYE
Allow-Events: Presence, Catalog
Answer-Mode: Manual
Authentication-Info: nextnonce="47364C23432d2e131A5fb210812c"
Authorization: Digest username="Bob", realm="A.com", nonce="84a4Cc6f", uri="sip:SS2.example", response="42Ce3cef"
Call-ID: F81d4fae-7dec@A.example
Call-Info: <http://A.example/Bob.jpg> ;purpose=Icon, <http://B.example/>
Contact: "Mr. W" <sip:W@Worcester.example>;q=0.7; expires=3600
Contact: *
Content-Disposition: Session;handling=Optional
Content-Encoding: GZIP
Content-Language: FR
Content-Type: application/sdp
Content-Type: Application/MANSCDP+xml
Content-Type: text/plain; Charset=GB2312
Content-Type: application/json
Content-Type: multipart/mixed;boundary="Ab--c"
Content-Type: application/pidf+xml
Content-Type: application/dtmf-relay
Content-Type: message/sipfrag;version=2.0
Content-Type: application/octet-stream
Content-Type: text/html
Content-Type: MANSRTSP
CSeq: 020 Invite
Date: Sat, 13 Nov 2010 23:29:00 GMT
Date: 2020-01-02T03:04:05.678
Error-Info: <sip:Not-In-Service@A.example>
Event: Catalog;id=1A
Event: presence
Expires: 0
Expires: 03600
Expires: 86400
Flow-Timer: 126
From: "A. G. Bell" <sip:Agb@Bell.example> ;tag=A48s
Geolocation: <cid:Target123@A.example>
History-Info: <sip:UserA@Ims.example>;index=1
Identity: "CyI4+nAkHrH3ntmaxgr01TMxTmtjP7MASwliNRdupRI1vpkXRvZXx1ja9k3nB2sN="
In-Reply-To: 70710@Saturn.example, 17320@Saturn.example
Join: 12adf2f34456gs5;to-tag=12345;from-tag=54321
Keep-Alive: 60
Max-Breadth: 69
Max-Forwards: 0
Max-Forwards: 070
Max-Forwards: 255
MIME-Version: 1.0
Min-Expires: 0060
Min-SE: 90
Monitor-User-Identity: operation="Register"
Organization: Boxes by Bob
P-Access-Network-Info: IEEE-802.11a
P-Asserted-Identity: "Cullen" <sip:Fluffy@Cisco.example>
P-Called-Party-ID: <sip:User1@A.example>
P-Charging-Vector: icid-value=1234BC9876e
P-Preferred-Identity: <tel:+14085264000>
Path: <sip:P1.example;lr>
Priority: Emergency
Privacy: Id
Proxy-Authenticate: Digest realm="Atlanta.example", qop="Auth", stale=FALSE
Proxy-Authorization: Digest username="Alice"
Proxy-Require: Foo
RAck: 776656 1 INVITE
Reason: Q.850 ;cause=16 ;text="Terminated"
Reason-Phrase: OK then
Record-Route: <sip:Server10.example;lr>, <sip:P2.example;lr>
Refer-To: <sip:Dave@D.example?Replaces=12345>
Referred-By: <sip:R@Ref.example>
Reject-Contact: *;Actor="msg-taker"
Replaces: 425928@B.example;to-tag=7743;from-tag=6472
Reply-To: Bob <sip:Bob@B.example>
Require: 100Rel
Retry-After: 18000;duration=3600
Retry-After: 120 (I'm in a Meeting)
Route: <sip:Big.example;lr>, <sip:x@Y:5060;lr>
RSeq: 0988789
Security-Client: IPsec-3gpp; alg=HMAC-md5
Security-Server: Tls;q=0.2
Security-Verify: Tls;q=0.2
Server: HomeServer V2
Service-Route: <sip:P2.example;lr>
Session-Expires: 4000;refresher=UAC
SIP-ETag: dx200Xyz
SIP-If-Match: Dx200xyz
Subject: Need more Boxes
Subject: 34020000001320000001:0,34020000002000000001:0
Subscription-State: Active;expires=60
Supported: 100rel, Timer
Target-Dialog: Fa77as7dad8
Timestamp: 54.10
To: The Operator <sip:Operator@Cs.example>;tag=287447
Trigger-Consent: sip:123@A.example;target-uri="sip:F@A.example"
Unsupported: Foo
User-Agent: Softphone Beta1.5
Via: SIP/2.0/UDP Erlang.example:5060;received=192.0.2.207;branch=z9hG4bK87A
Via: SIP / 2.0 / UDP first.example: 4000;ttl=16
Warning: 307 isi.edu "Session Parameter 'foo' not understood"
WWW-Authenticate: Digest realm="A.com", domain="sip:B.com", nonce="F84f1", algorithm=MD5
X-Ms-SipTag: Tag:%20A
X-RTP-Stat: CS=0;PS=1403
X-GB-ver: 2.0`, "\n") {
		k := strings.Index(t, ": ")
		l = append(l, [2]string{t[:k], t[k+2:]})
	}
	return
}()

// lengths of texts: all small ones and the neighbourhood of powers of two
var textLens = func() (l []int) {
	for n := 1; n <= 1100; n++ {
		l = append(l, n)
	}
	for n := 2048; n <= 65536; n *= 2 {
		l = append(l, n-1, n, n+1)
	}
	return
}()

func init() {
	uris := []uriParts{
		{"sip", "", "01798300765", "87.252.61.202", "5060", map[string]string{"user": "phone"}},
		{"sips", "", "bob", "biloxi.example.com", "", map[string]string{}},
		{"sip", "", "", "registrar.example", "", map[string]string{"lr": "", "transport": "tcp"}},
		{"tel", "", "+12125551212", "", "", map[string]string{}},
		{"sip", "", "a:pw", "[2001:db8::1]", "5061", map[string]string{}},
		{"sip", "", "", "[::1]", "5062", map[string]string{"lr": ""}},
	}
	mkReq := func(u uriParts) *sips.SIPRequest {
		r := sips.NewSIPRequest("")
		r.URIType, r.User, r.Host, r.Port, r.Args = u.typ, u.user, u.host, u.port, copyArgs(u.args)
		return r
	}
	bodies := [][]byte{nil, []byte("x"), []byte("v=0\r\no=- 1 1 IN IP4 a\r\n"), []byte("\r\n\r\nINVITE sip:a@b SIP/2.0\r\n"), {0, 1, 2, 0xff, '\n'}, []byte("\n"), repBytes(4096, 1), repBytes(4097, 2), repBytes(9000, 3)}

	register(&Prop{
		ID: "S01", Level: "exploration",
		Rule:        "Each evaluation builds a message with the real API, reads the serialised text with an independent reader, parses it with the real parser and compares every part, then serialises and parses once more.",
		Assumptions: []string{"Header values are printable text without line ends or surrounding blanks; request URIs have token-valued parts"},
		Findings:    map[string]string{"multi-value-folding": ""},
		Build: func(th bool) []*Scenario {
			hset := [][2]string{
				{"Via", "SIP/2.0/UDP 192.168.1.102:5060;rport;branch=z9hG4bK1"}, {"From", `"Bob" <sip:bob@b.example>;tag=1`}, {"To", "<sip:34@10.1.1.1:5060>"}, {"CSeq", "20 MESSAGE"},
				{"Call-ID", "1808031968@192.168.1.102"}, {"Contact", "<sip:a@b>;expires=60"}, {"Max-Forwards", "70"}, {"X-Empty", ""}, {"Subject", "a: b; c, \"d\" é"}, {"User-Agent", "goav/1.0 (x)"}, {"k", "100rel"}, {"Content-Length", "99"},
			}
			judge := func(c *Ctx, s *sips.SIP, m *sipModel, hs [][2]string, what string) {
				for round := 0; round < 3; round++ {
					b := append([]byte{}, s.Bytes()...)
					first, lines, blank, rest, err := readSip(b)
					c.Check(err == nil, "%s: %v", what, err)
					_ = first
					n := 0
					seen := map[string]string{}
					for _, l := range lines {
						k := l[0]
						_, dup := seen[k]
						c.Check(!dup, "%s: header %s is written twice", what, k)
						seen[k] = l[1]
						if k == "content-length" || k == "l" {
							n++
							c.Check(l[1] == strconv.Itoa(len(m.body)), "%s: Content-Length %s for %d bytes", what, l[1], len(m.body))
						}
					}
					c.Check(n == 1, "%s: %d Content-Length headers", what, n)
					c.Check(len(m.body) == 0 || blank, "%s: no blank line before the body", what)
					c.Check(bytes.Equal(rest, m.body) || (len(rest) == 0 && len(m.body) == 0), "%s: body %s", what, hx(rest))
					p, err := parseSip(b)
					c.Check(err == nil, "%s: round %d: %v", what, round, err)
					c.Check(p.Version == s.Version, "%s: version %d written and parsed as %d", what, s.Version, p.Version)
					checkSip(c, p, m, what)
					c.Check(len(p.Headers.GetAllHeaders()) == len(lines), "%s: %d headers parsed, %d written", what, len(p.Headers.GetAllHeaders()), len(lines))
					s = p
				}
				c.Outcome(s.String())
			}
			build := func(c *Ctx, resp bool, x int, u uriParts, hs [][2]string, body []byte) {
				h := sips.NewSIPHeader()
				m := &sipModel{resp: resp, version: sips.SIPVersion2, headers: map[string][]string{}, body: body, uri: u}
				for _, l := range hs {
					h.SetFirstHeader(l[0], l[1])
					m.headers[l[0]] = []string{l[1]}
				}
				m.headers["Content-Length"] = []string{strconv.Itoa(len(body))}
				keep := append([]byte{}, body...)
				var s *sips.SIP
				if resp {
					m.code = x
					m.reason = sips.SIPStatus(x).Text()
					s = sips.MakeResponse(sips.SIPStatus(x), h, body)
				} else {
					m.method = sipMethods[x].m
					s = sips.MakeRequest(m.method, mkReq(u), h, body)
				}
				judge(c, s, m, hs, fmt.Sprintf("response %v %d, URI %v, headers %v, body of %d bytes", resp, x, u, hs, len(body)))
				c.Check(bytes.Equal(keep, body), "the body was modified")
			}
			codes := sipCodes()
			var ss []*Scenario
			sub := pick(10, 12)
			ss = append(ss, &Scenario{Name: "header-sets", Note: fmt.Sprintf("every subset of %d headers x %d bodies x request or response", sub, len(bodies)), Run: func(c *Ctx) {
				mask := c.Choose(1 << uint(sub))
				var hs [][2]string
				for i := 0; i < sub; i++ {
					if mask>>uint(i)&1 == 1 {
						hs = append(hs, hset[(i+2)%len(hset)])
					}
				}
				body := bodies[c.Choose(len(bodies))]
				resp := c.Bool()
				x := 4
				if resp {
					x = 486
				}
				build(c, resp, x, uris[mask%len(uris)], hs, body)
				c.Eval(3)
			}})
			counts := []int{1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 2000, 4097}
			sizes := []int{1, 60, 1000, 5000}
			ss = append(ss, chunked("many-headers", fmt.Sprintf("messages with %v headers of %v bytes each", counts, sizes), len(counts)*len(sizes), 2, func(c *Ctx, i int) {
				n, l := counts[i/len(sizes)], sizes[i%len(sizes)]
				var hs [][2]string
				for k := 0; k < n && k*l < 4<<20; k++ {
					hs = append(hs, [2]string{fmt.Sprintf("X-H%d", k), rep(l + k%3)})
				}
				build(c, i&1 == 1, []int{4, 200}[i&1], uris[i%len(uris)], hs, bodies[i%len(bodies)])
			}))
			bigs := []int{}
			for e := uint(15); e <= uint(pick(25, 27)); e++ {
				bigs = append(bigs, 1<<e-1, 1<<e, 1<<e+1)
			}
			ss = append(ss, chunked("large-parts", "bodies and header values around powers of two up to 32 MB", 2*len(bigs), 1, func(c *Ctx, i int) {
				n := bigs[i/2]
				if i%2 == 0 {
					build(c, i&2 == 2, []int{4, 200}[i>>1&1], uris[0], hset[1:3], repBytes(n, i))
				} else if n < 1<<23 {
					build(c, i&2 == 2, []int{4, 200}[i>>1&1], uris[0], [][2]string{{"X-Value", rep(n)}, {"Subject", "s"}}, bodies[2])
				}
			}))
			ss = append(ss, chunked("start-lines", "every method x 6 URIs and every status code, x every body", (len(sipMethods)*len(uris)+len(codes))*len(bodies), 32, func(c *Ctx, i int) {
				body := bodies[i%len(bodies)]
				i /= len(bodies)
				if i < len(codes) {
					build(c, true, codes[i], uriParts{}, hset[:4], body)
					return
				}
				i -= len(codes)
				build(c, false, i%len(sipMethods), uris[i/len(sipMethods)], hset[:4], body)
			}))
			ss = append(ss, chunked("body-lengths", fmt.Sprintf("every body length 0..%d of binary data", pick(9000, 40000)), pick(9001, 40001), 64, func(c *Ctx, i int) {
				build(c, i&1 == 1, []int{4, 200}[i&1], uris[0], hset[1:3], repBytes(i, i))
			}))
			ss = append(ss, chunked("header-values", "every printable ASCII character and some UTF-8 at the start, middle and end of a value, and value lengths to 4000", 95*3+6+4000, 64, func(c *Ctx, i int) {
				v := ""
				switch {
				case i < 95*3:
					ch := string([]byte{byte(32 + i/3)})
					v = []string{ch + "x", "x" + ch + "y", "x" + ch}[i%3]
					if strings.TrimSpace(v) != v {
						return
					}
				case i < 95*3+6:
					v = []string{"é", "直播", "\u00a0x\u00a0", "x\ty", ": :", "\x01"}[i-95*3]
				default:
					v = rep(i - 95*3 - 6)
				}
				build(c, i&1 == 1, []int{4, 200}[i&1], uris[0], [][2]string{{"X-Value", v}, {"Subject", v}}, bodies[2])
			}))
			kb := append([][]byte{}, bodies...)
			for _, t := range []string{"v=0\r\ns=Play\r\n\r\n", "v=0\ns=Play\n", "\r\n\r\n", "<?xml version=\"1.0\"?>\r\n<A>b</A>\r\n", "{\"A\": 1}  ", "\xef\xbb\xbfA \x00\x00", " A\t"} {
				kb = append(kb, []byte(t))
			}
			ss = append(ss, chunked("known-headers", fmt.Sprintf("%d well-known header lines with typical values x %d bodies (descriptions, XML, JSON, line ends and zeros at either end) x request or response", len(wellKnown), len(kb)), len(wellKnown)*len(kb)*2, 16, func(c *Ctx, i int) {
				l := wellKnown[i/2/len(kb)]
				build(c, i&1 == 1, []int{4, 200}[i&1], uris[i/2%len(uris)], [][2]string{{"X-Own", "o"}, l}, kb[i/2%len(kb)])
			}))
			vs := []string{"SIP/1.0", "SIP/2.0", "sip/1.0", "sip/2.0"}
			hdrs := [][][2]string{nil, {{"v", "SIP/2.0/UDP h:1"}, {"SUBJECT", "s"}}, {{"From", `"A b" <sip:a@b>;tag=1`}, {"x-y", ""}, {"i", "1@h"}}, {{"Via", "SIP/2.0/TCP h;branch=b"}, {"Contact", "<sip:c@d>"}, {"User-Agent", "x: y"}}}
			var others []int
			for x := 100; x < 700; x++ {
				if _, ok := sipReasons[x]; !ok && x%17 == 0 {
					others = append(others, x)
				}
			}
			recv := len(sipMethods)*len(uris) + len(codes) + len(others)
			ss = append(ss, chunked("received", "received requests (every method x 6 URIs) and responses (every defined code and some others, standard and other reason phrases) x 4 spellings of both versions x 4 header sets x bodies: parsed, serialised, parsed, and again after the body or version was replaced", recv*len(vs)*len(hdrs), 16, func(c *Ctx, i int) {
				x, v, hs := i%recv, vs[i/recv%4], hdrs[i/recv/4]
				body := bodies[i%len(bodies)]
				m := &sipModel{headers: map[string][]string{}, body: body, version: sips.SIPVersion2}
				if strings.HasSuffix(v, "1.0") {
					m.version = sips.SIPVersion1
				}
				for _, l := range hs {
					m.headers[l[0]] = []string{l[1]}
				}
				var first string
				if x < len(sipMethods)*len(uris) {
					m.method, m.uri = sipMethods[x%len(sipMethods)].m, uris[x/len(sipMethods)]
					first = sipMethods[x%len(sipMethods)].s + " " + mkReq(m.uri).String() + " " + v
				} else {
					m.resp = true
					m.code = append(append([]int{}, codes...), others...)[x-len(sipMethods)*len(uris)]
					first = v + " " + strconv.Itoa(m.code) + " " + []string{"Some reason", "OK", "Ünïcode"}[i%3]
				}
				what := fmt.Sprintf("received %q, headers %q, body of %d bytes", first, hs, len(body))
				s, err := parseSip(sipText(first, hs, body))
				c.Check(err == nil, "%s: %v", what, err)
				for round := 0; round < 4; round++ {
					m.reason = s.ResponseStatus // reason phrases are for people, not compared
					checkSip(c, s, m, fmt.Sprintf("%s: round %d", what, round))
					switch round {
					case 1:
						m.body = bodies[(i/7+1)%len(bodies)]
						s.SetBody(m.body)
					case 2:
						m.version = 3 - m.version
						s.Version = m.version
					}
					if s, err = parseSip(s.Bytes()); err != nil {
						c.Fail("%s: round %d: %v", what, round, err)
					}
					m.headers["Content-Length"] = []string{strconv.Itoa(len(m.body))}
				}
				c.Outcome(first)
			}))
			ss = append(ss, chunked("no-values", "messages one header of which has lost all its values (an empty list in the header set) among 0..3 others: it is absent, the others are unharmed", 4*2*2*8, 4, func(c *Ctx, i int) {
				h := sips.NewSIPHeader()
				m := &sipModel{resp: i&1 == 1, version: sips.SIPVersion2, headers: map[string][]string{}, body: bodies[i/16], uri: uris[0], method: sipMethods[4].m, code: 200, reason: "OK"}
				for _, l := range hset[:i/2%4] {
					h.SetFirstHeader(l[0], l[1])
					m.headers[l[0]] = []string{l[1]}
				}
				h.SetSubject("x")
				v := h.GetAllHeaders()["subject"]
				h.GetAllHeaders()["subject"] = [][]string{nil, v[:0]}[i/8%2]
				m.headers["Content-Length"] = []string{strconv.Itoa(len(m.body))}
				s := sips.MakeRequest(m.method, mkReq(m.uri), h, m.body)
				if m.resp {
					s = sips.MakeResponse(sips.SIPStatus(m.code), h, m.body)
				}
				q, err := parseSip(s.Bytes())
				c.Check(err == nil, "%q does not parse: %v", s.Bytes(), err)
				checkSip(c, q, m, fmt.Sprintf("message without subject and %d other headers", i/2%4))
				c.Check(len(q.Headers.GetHeader("subject")) == 0, "%q: subject appeared", s.Bytes())
			}))
			ss = append(ss, chunked("multi-values", "1..4 values of a header received in separate lines, serialised again", 4*3, 4, func(c *Ctx, i int) {
				name := []string{"Via", "X-Any", "Contact"}[i/4]
				var hs [][2]string
				var vals []string
				for k := 0; k <= i%4; k++ {
					v := fmt.Sprintf("value%d", k)
					vals = append(vals, v)
					hs = append(hs, [2]string{name, v})
				}
				s, err := parseSip(sipText("OPTIONS sip:a@b SIP/2.0", hs, []byte("abc")))
				c.Check(err == nil, "%v", err)
				c.Check(eqStr(s.Headers.GetHeader(name), vals), "received values %q, want %q", s.Headers.GetHeader(name), vals)
				q, err := parseSip(s.Bytes())
				c.Check(err == nil, "%v", err)
				c.Check(string(q.Payload()) == "abc", "payload %q", q.Payload())
				if got := q.Headers.GetHeader(name); !eqStr(got, vals) {
					if len(vals) > 1 && eqStr(got, []string{strings.Join(vals, " ")}) {
						c.Known("multi-value-folding", "header %s with values %q comes back as %q", name, vals, got)
						return
					}
					c.Fail("header %s with values %q comes back as %q", name, vals, got)
				}
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "S02", Level: "model_checking",
		Rule:        "Every stream within the bounds is parsed message by message from a reader that delivers the bytes in the chosen pieces; every part of each message and the position of the reader afterwards are compared with the text that was written. A state is the position in the stream together with the split.",
		Assumptions: []string{"Lines end in CRLF; Content-Length is present"},
		Findings:    map[string]string{"bodyless-no-blank-line": ""},
		Build: func(th bool) []*Scenario {
			type msg struct {
				text []byte
				m    *sipModel
			}
			mk := func(k int, body []byte) msg {
				if k%3 == 2 {
					return msg{sipText("SIP/2.0 200 OK", [][2]string{{"Via", "SIP/2.0/UDP h:1"}, {"CSeq", fmt.Sprintf("%d INVITE", k)}}, body), &sipModel{resp: true, version: sips.SIPVersion2, code: 200, reason: "OK", headers: map[string][]string{"cseq": {fmt.Sprintf("%d INVITE", k)}}, body: body}}
				}
				return msg{sipText("INVITE sip:u@h SIP/2.0", [][2]string{{"Subject", fmt.Sprintf("m%d", k)}}, body), &sipModel{method: sips.SIPMethodInvite, version: sips.SIPVersion2, uri: uriParts{"sip", "", "u", "h", "", nil}, headers: map[string][]string{"subject": {fmt.Sprintf("m%d", k)}}, body: body}}
			}
			run := func(c *Ctx, msgs []msg, tail []byte, src io.Reader, what string) {
				r := bufio.NewReader(src)
				for i, m := range msgs {
					s := sips.NewSIP()
					err := s.Parse(r)
					c.Check(err == nil, "%s: message %d: %v", what, i, err)
					checkSip(c, s, m.m, fmt.Sprintf("%s: message %d", what, i))
					c.Step(1)
				}
				rest, _ := io.ReadAll(r)
				c.Check(bytes.Equal(rest, tail), "%s: the reader is left at %q, want %q", what, clip(string(rest), 60), clip(string(tail), 60))
			}
			join := func(ms []msg, tail []byte) (b []byte) {
				for _, m := range ms {
					b = append(b, m.text...)
				}
				return append(b, tail...)
			}
			tails := [][]byte{nil, []byte("\r\n"), []byte("BYE sip:x SIP/2.0\r\n")}
			var ss []*Scenario
			bl := [][]byte{nil, []byte("b"), []byte("\r\n"), []byte("\r\n\r\nSIP/2.0 200 OK\r\n\r\n"), repBytes(700, 1)}
			ss = append(ss, &Scenario{Name: "streams", Note: "every sequence of 1..3 messages (request or response, 5 bodies) x 3 tails x read sizes: all at once, 1, 2, 7, 64 bytes, with empty reads, with the last bytes together with end of stream", Run: func(c *Ctx) {
				n := 1 + c.Choose(3)
				var ms []msg
				for i := 0; i < n; i++ {
					k := c.Choose(2)
					ms = append(ms, mk(i*3+k*2, bl[c.Choose(len(bl))]))
				}
				tail := tails[c.Choose(len(tails))]
				b := join(ms, tail)
				sz := []int{0, 1, 2, 7, 64}[c.Choose(5)]
				mode := c.Choose(3)
				src := &chunkReader{data: b, zero: mode == 1, eofWith: mode == 2}
				for p := 0; sz > 0 && p < len(b); p += sz {
					src.sizes = append(src.sizes, sz)
				}
				run(c, ms, tail, src, fmt.Sprintf("%d messages in reads of %d", n, sz))
				c.Eval(n)
				c.State(b, sz)
				c.Outcome(b)
			}})
			gaps := []int{0, 1, 2, 3, 2050, 20000}
			ss = append(ss, &Scenario{Name: "keep-alives", Note: fmt.Sprintf("every sequence of 1..3 messages with %v line ends ahead of the first and between them, in reads of everything, 1 and 5 bytes", gaps), Run: func(c *Ctx) {
				n := 1 + c.Choose(3)
				var ms []msg
				for i := 0; i < n; i++ {
					k, body := 0, bl[1]
					if i < 2 {
						k, body = c.Choose(2), bl[c.Choose(pick(3, len(bl)))]
					}
					g := c.Choose(len(gaps))
					if i > 0 && g > 3 {
						g -= 3
					}
					m := mk(i*3+k*2, body)
					m.text = append(bytes.Repeat([]byte("\r\n"), gaps[g]), m.text...)
					ms = append(ms, m)
				}
				b := join(ms, tails[2])
				sz := []int{0, 1, 5}[c.Choose(3)]
				src := &chunkReader{data: b}
				for p := 0; sz > 0 && p < len(b); p += sz {
					src.sizes = append(src.sizes, sz)
				}
				run(c, ms, tails[2], src, fmt.Sprintf("%d messages in reads of %d", n, sz))
				c.Eval(n)
				c.State(b, sz)
			}})
			ss = append(ss, &Scenario{Name: "stream-ends", Note: "every sequence of 0..3 messages followed by 0..3 or 3000 line ends, in reads of everything, 1 and 5 bytes, the end of the stream alone or together with the last bytes: every message, then io.EOF, again and again", Run: func(c *Ctx) {
				n := c.Choose(4)
				var ms []msg
				for i := 0; i < n; i++ {
					ms = append(ms, mk(i*3+c.Choose(2)*2, bl[c.Choose(3)]))
				}
				tail := bytes.Repeat([]byte("\r\n"), []int{0, 1, 2, 3, 3000}[c.Choose(5)])
				b := join(ms, tail)
				sz := []int{0, 1, 5}[c.Choose(3)]
				src := &chunkReader{data: b, eofWith: c.Bool()}
				for p := 0; sz > 0 && p < len(b); p += sz {
					src.sizes = append(src.sizes, sz)
				}
				r := bufio.NewReader(src)
				for i, m := range ms {
					s := sips.NewSIP()
					err := s.Parse(r)
					c.Check(err == nil, "message %d: %v", i, err)
					checkSip(c, s, m.m, fmt.Sprintf("message %d", i))
				}
				for k := 0; k < 2; k++ {
					err := sips.NewSIP().Parse(r)
					c.Check(errors.Is(err, io.EOF), "after %d messages and %d line ends the stream ends: %v, want io.EOF", n, len(tail)/2, err)
				}
				c.Eval(n + 2)
				c.State(b, sz)
			}})
			lineLens := []int{15, 16, 17, 100, 4000, 4093, 4094, 4095, 4096, 4097, 4098, 5000, 8191, 8192, 8193, 12288, 65535, 65536, 70001}
			ss = append(ss, chunked("long-lines", fmt.Sprintf("a header value, a continuation line, the user of the request URI or a header name of %v bytes, in messages on one stream and as bytes, from readers with buffers of 16, 4096 and 65536 bytes", lineLens), len(lineLens)*4, 1, func(c *Ctx, i int) {
				n, where := lineLens[i/4], i%4
				long := strings.Repeat("abcdefghij", n/10+1)[:n]
				uri := uriParts{"sip", "", "u", "h", "", nil}
				m := &sipModel{method: sips.SIPMethodInvite, version: sips.SIPVersion2, headers: map[string][]string{"subject": {"s"}}, body: []byte("body")}
				first, hs := "INVITE sip:u@h SIP/2.0", [][2]string{{"Subject", "s"}}
				switch where {
				case 0:
					hs, m.headers["subject"] = [][2]string{{"Subject", long}}, []string{long}
				case 1:
					hs, m.headers["subject"] = [][2]string{{"Subject", "s\r\n " + long}}, []string{"s " + long}
				case 2:
					first, uri.user = "INVITE sip:"+long+"@h SIP/2.0", long
				case 3:
					hs = append(hs, [2]string{"x-" + long, "v"})
					m.headers["x-"+long] = []string{"v"}
				}
				m.uri = uri
				text := sipText(first, hs, m.body)
				for _, buf := range []int{16, 4096, 65536} {
					r := bufio.NewReaderSize(bytes.NewReader(cat(text, text, []byte("tail"))), buf)
					for k := 0; k < 2; k++ {
						s := sips.NewSIP()
						err := s.Parse(r)
						c.Check(err == nil, "line of %d bytes (kind %d), buffer of %d: %v", n, where, buf, err)
						checkSip(c, s, m, fmt.Sprintf("line of %d bytes (kind %d), buffer of %d", n, where, buf))
					}
					rest, _ := io.ReadAll(r)
					c.Check(string(rest) == "tail", "line of %d bytes (kind %d), buffer of %d: the reader is left at %q", n, where, buf, clip(string(rest), 60))
				}
				s, err := parseSip(text)
				c.Check(err == nil, "line of %d bytes (kind %d): %v", n, where, err)
				back, err := parseSip(s.Bytes())
				c.Check(err == nil, "line of %d bytes (kind %d), serialised again: %v", n, where, err)
				checkSip(c, back, m, "serialised again")
				c.Eval(8)
				c.State(n, where)
			}))
			two := []msg{mk(0, []byte("hello\r\nworld")), mk(2, []byte("12345")), mk(3, nil)}
			tb := join(two, tails[2])
			ss = append(ss, chunked("split-points", "a stream of three messages split at every pair of positions", len(tb)*len(tb), 256, func(c *Ctx, i int) {
				a, b := i/len(tb), i%len(tb)
				if a > b {
					return
				}
				run(c, two, tails[2], &chunkReader{data: tb, sizes: []int{a + 1, b - a + 1}}, fmt.Sprintf("split at %d and %d", a, b))
				c.State(a, b)
			}))
			ss = append(ss, chunked("body-lengths", fmt.Sprintf("every body length 0..%d, twice in a row, in reads of everything, 1000 and 4096 bytes", pick(13000, 70000)), pick(13001, 70001), 32, func(c *Ctx, i int) {
				ms := []msg{mk(0, repBytes(i, i)), mk(2, []byte("zz"))}
				b := join(ms, tails[2])
				src := &chunkReader{data: b}
				if sz := []int{0, 1000, 4096}[i%3]; sz > 0 {
					for p := 0; p < len(b); p += sz {
						src.sizes = append(src.sizes, sz)
					}
				}
				run(c, ms, tails[2], src, fmt.Sprintf("body of %d bytes", i))
				c.State(i)
			}))
			ss = append(ss, chunked("cut-bodies", "messages with bodies of 1..200 and 4000..4200 bytes cut at every position of the body: an error is required", 401*3, 4, func(c *Ctx, i int) {
				n := i/3 + 1
				if n > 200 {
					n += 3799
				}
				m := mk(i%3, repBytes(n, 1))
				head := len(m.text) - n
				for cut := 0; cut < n; cut++ {
					if n > 200 && cut > 50 && cut < n-150 && cut%61 != 0 {
						continue
					}
					s := sips.NewSIP()
					err := s.Parse(bufio.NewReader(&chunkReader{data: m.text[:head+cut], sizes: []int{head, 1}, eofWith: cut&1 == 1}))
					c.Check(err != nil, "body of %d bytes cut after %d is accepted, payload of %d bytes", n, cut, len(s.Payload()))
					s = sips.NewSIP()
					err = s.Parse(bufio.NewReader(&chunkReader{data: m.text[:head+cut], fail: errInjected}))
					c.Check(err != nil, "body of %d bytes, reader fails after %d: no error", n, cut)
					c.Eval(2)
				}
				c.State(n)
			}))
			var bigs []int
			for e := uint(12); e <= 20; e++ {
				bigs = append(bigs, 1<<e-1, 1<<e, 1<<e+1, 1<<e+1<<(e-1))
			}
			ss = append(ss, chunked("cut-large-bodies", fmt.Sprintf("messages with %d body lengths around powers of two to 2^20, whole (twice on one stream) and cut at multiples of 4096 and powers of two and next to them: an error is required", len(bigs)), len(bigs), 1, func(c *Ctx, i int) {
				n := bigs[i]
				m := mk(i%3, repBytes(n, 1))
				head := len(m.text) - n
				run(c, []msg{m, m}, tails[2], &chunkReader{data: join([]msg{m, m}, tails[2])}, fmt.Sprintf("body of %d bytes", n))
				var cuts []int
				for e := uint(0); e <= 20; e++ {
					cuts = append(cuts, 1<<e, 1<<e-1, 1<<e+1, n-1<<e, n-1<<e+1, 3<<e)
				}
				for k := 4096; k < n && k < 20*4096; k += 4096 {
					cuts = append(cuts, k, k-head, k-head+1, n-k)
				}
				for _, cut := range cuts {
					if cut < 0 || cut >= n {
						continue
					}
					s := sips.NewSIP()
					err := s.Parse(bufio.NewReader(bytes.NewReader(m.text[:head+cut])))
					c.Check(err != nil, "body of %d bytes cut after %d is accepted, payload of %d bytes", n, cut, len(s.Payload()))
					c.Eval(1)
				}
				c.State(n)
			}))
			var huge []int
			for e := uint(20); e <= uint(pick(26, 28)); e++ {
				huge = append(huge, 1<<e+1, 1<<e+1<<(e-2), 1<<e+1<<(e-1))
			}
			huge = append(huge, 999999, 1000001, 10000001)
			ss = append(ss, chunked("huge-bodies", fmt.Sprintf("messages with %d body lengths up to 100 MB, followed by another message", len(huge)), len(huge), 1, func(c *Ctx, i int) {
				ms := []msg{mk(i%3, repBytes(huge[i], 1)), mk(2, []byte("zz"))}
				run(c, ms, tails[2], bytes.NewReader(join(ms, tails[2])), fmt.Sprintf("body of %d bytes", huge[i]))
				c.State(huge[i])
			}))
			ss = append(ss, chunked("many-lines", "messages with 0..400, 1000, 5000 and 20000 header lines (one name, different names, continuation lines) ahead of Content-Length or behind it, in pairs on one stream", 404*6, 24, func(c *Ctx, i int) {
				n, kind, late := i/6, i%3, i/3%2 == 1
				if n > 400 {
					n = []int{1000, 5000, 20000}[n-401]
				}
				body := repBytes(11, i)
				var t []byte
				want := &sipModel{method: sips.SIPMethodInvite, version: sips.SIPVersion2, uri: uriParts{"sip", "", "u", "h", "", nil}, headers: map[string][]string{}, body: body}
				t = append(t, "INVITE sip:u@h SIP/2.0\r\n"...)
				if !late {
					t = append(t, "Content-Length: 11\r\n"...)
				}
				for k := 0; k < n; k++ {
					v := "v" + strconv.Itoa(k)
					switch {
					case kind == 0:
						t = append(t, "Via: "+v+"\r\n"...)
						want.headers["via"] = append(want.headers["via"], v)
					case kind == 1:
						t = append(t, "X-"+strconv.Itoa(k)+": "+v+"\r\n"...)
						want.headers["x-"+strconv.Itoa(k)] = []string{v}
					case k == 0:
						t = append(t, "Subject: "+v+"\r\n"...)
						want.headers["subject"] = []string{v}
					default:
						if n > 1000 {
							continue
						}
						t = append(t, "\t"+v+"\r\n"...)
						want.headers["subject"][0] += " " + v
					}
				}
				if late {
					t = append(t, "Content-Length: 11\r\n"...)
				}
				m := msg{cat(t, []byte("\r\n"), body), want}
				run(c, []msg{m, m}, tails[2], &chunkReader{data: join([]msg{m, m}, tails[2])}, fmt.Sprintf("%d header lines", n))
				c.State(i)
			}))
			lens := []string{"10", "010", "  10", "10 ", "\t10", "00000000000000000000000010", "0010 "}
			ss = append(ss, chunked("length-forms", "Content-Length under every spelling of its name and with zeros and blanks around the number", len(lens)*12, 8, func(c *Ctx, i int) {
				name := append(append(spellings("content-length"), "l", "L"), append(spellings("content-length"), "l", "L")...)[i%12]
				sep := ":"
				if i%12 >= 6 {
					sep = " \t:"
				}
				t := "INVITE sip:u@h SIP/2.0\r\n" + name + sep + lens[i/12] + "\r\nX: y\r\n\r\n1234567890"
				m := msg{[]byte(t), &sipModel{method: sips.SIPMethodInvite, version: sips.SIPVersion2, uri: uriParts{"sip", "", "u", "h", "", nil}, headers: map[string][]string{"x": {"y"}}, body: []byte("1234567890")}}
				if i/12 == 5 { // more digits than an int holds without leading zeros: parsing to 10 or refusing are both fine
					s := sips.NewSIP()
					if s.ParseBytes(m.text) != nil {
						return
					}
				}
				run(c, []msg{m, m}, []byte("tail"), bytes.NewReader(cat(m.text, m.text, []byte("tail"))), fmt.Sprintf("length header %q", name+sep+lens[i/12]))
				c.State(i)
			}))
			odd := []string{"-1", "-0", "-4", "-5000", "+5", "0x5", "5;x", "5,5", "5 5", "abc", "", "1e1", "5.0", "5-", "99999999999999999999", "-99999999999999999999", "4294967296", "4294967301", "9223372036854775807", "-9223372036854775808"}
			ss = append(ss, chunked("odd-lengths", fmt.Sprintf("%d Content-Length values that are negative, malformed or beyond any integer: an error, or exactly the reported payload is taken from the reader", len(odd)), len(odd), 1, func(c *Ctx, i int) {
				head := "INVITE sip:u@h SIP/2.0\r\nX: y\r\nContent-Length: " + odd[i] + "\r\n\r\n"
				for _, rest := range []string{"", "BYE sip:x SIP/2.0\r\nContent-Length: 0\r\n\r\n", strings.Repeat("0123456789", 1000)} {
					for _, sz := range []int{16, 4096, 65536} {
						r := bufio.NewReaderSize(strings.NewReader(head+rest), sz+len(head))
						s := sips.NewSIP()
						err := s.Parse(r)
						c.Eval(1)
						if err != nil {
							continue
						}
						c.Check(odd[i][0] != '-' || odd[i] == "-0", "Content-Length %q accepted", odd[i])
						p := string(s.Payload())
						c.Check(strings.HasPrefix(rest, p), "Content-Length %q: payload %q", odd[i], p)
						left, _ := io.ReadAll(r)
						c.Check(string(left) == rest[len(p):], "Content-Length %q, payload of %d bytes: the reader is left at %q", odd[i], len(p), clip(string(left), 60))
						c.Outcome(odd[i], p)
					}
				}
				c.State(odd[i])
			}))
			ss = append(ss, chunked("built-messages", "every ordered pair of built messages (with and without body, request or response) on one stream", 36, 6, func(c *Ctx, i int) {
				mkB := func(k int) (*sips.SIP, *sipModel) {
					body := [][]byte{nil, []byte("q"), []byte("abc\r\n")}[k/2]
					h := sips.NewSIPHeader()
					h.SetSubject(fmt.Sprintf("s%d", k))
					m := &sipModel{version: sips.SIPVersion2, headers: map[string][]string{"subject": {fmt.Sprintf("s%d", k)}}, body: body}
					if k%2 == 0 {
						m.method, m.uri = sips.SIPMethodInfo, uris[1]
						return sips.MakeRequest(sips.SIPMethodInfo, mkReq(uris[1]), h, body), m
					}
					m.resp, m.code, m.reason = true, 200, "OK"
					return sips.MakeResponse(sips.StatusOK, h, body), m
				}
				s1, m1 := mkB(i / 6)
				s2, m2 := mkB(i % 6)
				b1, b2 := s1.Bytes(), s2.Bytes()
				r := bufio.NewReader(bytes.NewReader(cat(b1, b2)))
				p := sips.NewSIP()
				err := p.Parse(r)
				c.Check(err == nil, "first message: %v", err)
				p2 := sips.NewSIP()
				rest, _ := io.ReadAll(r)
				if len(m1.body) == 0 && !bytes.Equal(rest, b2) {
					// the documented defect: the next message's lines are taken as headers
					c.Check(!bytes.HasSuffix(b1, []byte("\r\n\r\n")) && bytes.Equal(rest, m2.body), "after a message without body the reader is left at %q", rest)
					c.Known("bodyless-no-blank-line", "a built message without body is serialised without the blank line, so the next message on the stream is absorbed")
					return
				}
				checkSip(c, p, m1, "first message")
				c.Check(bytes.Equal(rest, b2), "the reader is left at %q, want %q", rest, b2)
				c.Check(p2.ParseBytes(rest) == nil, "second message refused")
				checkSip(c, p2, m2, "second message")
				c.State(i)
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "S03", Level: "exploration",
		Rule:        "Each evaluation gives one byte sequence to every textual parser of the real code; a panic or an execution that does not finish is a violation. A parsed message must deliver no more payload than was sent.",
		Assumptions: []string{"The input reaches its end"},
		Build: func(th bool) []*Scenario {
			all := func(c *Ctx, b []byte) {
				s := string(b)
				sp, err := parseSip(b)
				if err == nil {
					c.Check(len(sp.Payload()) <= len(b), "%d payload bytes from %d", len(sp.Payload()), len(b))
					if sp.IsResponse || sp.Request != nil {
						_ = sp.Bytes()
					}
				}
				o := sips.NewSIP() // an object that already has headers, used twice
				o.SetHeader(sips.SIPHeader{"to": {"x"}, "via": {}, "l": {"1"}})
				_ = o.ParseBytes(b)
				_ = o.ParseBytes(b)
				h := sips.NewSIP()
				for _, l := range strings.Split(s, "\n") {
					h.ParseHeader([]byte(l))
				}
				_ = h.Headers.Bytes()
				_, _ = h.Headers.GetContentLength()
				_ = h.Headers.GetSIPFrom().ToRequest().String()
				_ = h.Headers.GetAuthorization()
				_ = sips.NewSIP().ParseFirstLine(b)
				u := sips.NewSIPUser(s)
				_ = u.String()
				_ = u.ToRequest().ToUser().String()
				_ = sips.NewSIPRequest(s).String()
				_ = sips.NewSIPVia(s).String()
				_ = sips.NewSIPCseq(s).String()
				_ = sips.NewSIPAuth(s)
				_ = sips.NewSIPAuth("Digest " + s)
				a := sips.ParseArgs(s)
				_, _, _ = a.SemicolonString(), a.CommaString(), a.CRLFString()
				_ = sips.ParseArgsPairs(s)
			}
			addr := []string{"sip:", "sips:", "tel:", "a", "@", ":", ";", ",", "=", "\"", "\\", "<", ">", " ", "[", "]", "SIP/2.0/", "\n", "Digest "}
			msg := []string{"INVITE ", "sip:a@b ", "SIP/2.0", " 200 ", "OK", "\r\n", "\n", "\r", ":", " ", "\t", "l", "Content-Length", "v", "3", "-1", "99999999", "x", "\x00"}
			var ss []*Scenario
			ss = append(ss, allBytes("short-inputs", fmt.Sprintf("every byte string of up to %d bytes", pick(2, 3)), every256(), pick(2, 3), 2, all))
			for _, f := range []struct {
				name string
				tok  []string
				d    int
			}{{"address-tokens", addr, pick(4, 5)}, {"message-tokens", msg, pick(4, 5)}} {
				f := f
				n := 1
				for i := 0; i < f.d; i++ {
					n *= len(f.tok) + 1
				}
				ss = append(ss, chunked(f.name, fmt.Sprintf("every sequence of up to %d of %d tokens: %q", f.d, len(f.tok), f.tok), n, 512, func(c *Ctx, i int) {
					var b []byte
					for k := 0; k < f.d; k++ {
						if v := i % (len(f.tok) + 1); v > 0 {
							b = append(b, f.tok[v-1]...)
						}
						i /= len(f.tok) + 1
					}
					all(c, b)
				}))
			}
			var nums []string
			for k := uint(0); k < 64; k++ {
				nums = append(nums, fmt.Sprint(uint64(1)<<k), fmt.Sprint(uint64(1)<<k-1), fmt.Sprint(-1<<k))
			}
			for k := 0; k < 40; k++ {
				nums = append(nums, "1"+strings.Repeat("0", k), "-"+strings.Repeat("9", k))
			}
			ss = append(ss, chunked("numbers", fmt.Sprintf("%d numbers (powers of two and ten, their neighbours and negatives) as Content-Length, CSeq number, status code, port, Expires, Max-Forwards and q value, with a short body", len(nums)), len(nums)*7, 8, func(c *Ctx, i int) {
				f := []string{"", "200", "1", "5060", "60", "70", "0.5"}
				f[i%7] = nums[i/7]
				if f[0] == "" {
					f[0] = "4"
				}
				hs := fmt.Sprintf("l: %s\r\nCSeq: %s INVITE\r\nVia: SIP/2.0/UDP h:%s;rport=%s\r\nExpires: %s\r\nMax-Forwards: %s\r\nContact: <sip:a@b:%s>;q=%s\r\n\r\nbody", f[0], f[2], f[3], f[3], f[4], f[5], f[3], f[6])
				all(c, []byte("SIP/2.0 "+f[1]+" X\r\n"+hs))
				all(c, []byte("INVITE sip:a@b:"+f[3]+" SIP/2.0\r\n"+hs))
				c.State(i)
			}))
			tmpl := []string{"INVITE sip:a@b;c=d SIP/2.0\r\nVia: SIP/2.0/UDP h:5;b=c\r\nFrom: \"N\" <sip:u@h:1>;t=x\r\n cont\r\nCSeq: 1 INVITE\r\nl: 4\r\n\r\nbody", "SIP/2.0 200 OK\r\nContact: <sips:a@[::1]:2;lr>;q=\"a;b\\\"\"\r\nContent-Length: 0\r\n\r\n", "\"Mr. W\" <sip:w@x> ;q=0.7; e=3600, <mailto:w@b> ;q=0.1", "SIP/2.0/UDP 1.2.3.4:5060;rport;branch=z", "Digest username=\"A\", realm=\"x,y\",\n nonce=\"8\""}
			for _, t := range tmpl {
				t := []byte(t)
				vals := 256
				ss = append(ss, chunked("mutations-"+clip(string(t[:8]), 8), fmt.Sprintf("%q: every byte replaced by every value, every byte removed, every prefix and suffix, every byte doubled", clip(string(t), 40)), len(t)*(vals+4), 256, func(c *Ctx, i int) {
					k, v := i/(vals+4), i%(vals+4)
					b := append([]byte{}, t...)
					switch {
					case v < vals:
						b[k] = byte(v)
					case v == vals:
						b = append(b[:k], b[k+1:]...)
					case v == vals+1:
						b = b[:k]
					case v == vals+2:
						b = b[k:]
					default:
						b = append(b[:k+1], t[k:]...)
					}
					all(c, b)
				}))
			}
			ss = append(ss, chunked("substrings", "Substring of texts of 0..6 bytes for every pair of bounds in -3..10 and extreme ones", 7*16*16, 64, func(c *Ctx, i int) {
				b := func(k int) int {
					return append([]int{-1 << 63, 1<<63 - 1}, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)[k]
				}
				t, from, to := rep(i/256), b(i/16%16), b(i%16)
				got := sips.Substring(t, from, to)
				c.Check(strings.Contains(t, got), "Substring(%q, %d, %d) is %q", t, from, to, got)
				if from >= 0 && from <= to && to <= len(t) {
					c.Check(got == t[from:to], "Substring(%q, %d, %d) is %q", t, from, to, got)
				}
			}))
			reps := []string{"a", ";", "\"", "\\", "<", "sip:", " sip:", ":", "=", ",", "\n", "\r\n", " ", "@", "x: y\r\n", "l:1\r\n", "INVITE ", "[", "SIP/2.0/"}
			ss = append(ss, chunked("long-repeats", "each token repeated 1000, 4095, 4096, 4097 and 20000 times", len(reps)*5, 1, func(c *Ctx, i int) {
				all(c, []byte(strings.Repeat(reps[i/5], []int{1000, 4095, 4096, 4097, 20000}[i%5])))
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "S04", Level: "model_checking",
		Rule:        "Every history of header lines, continuation lines and sets within the bounds is applied to the real code next to a name-insensitive list model; after every step every name is asked for in several spellings. A state is a distinct header content.",
		Assumptions: []string{"The value of a continued empty header may or may not start with the joining space"},
		Build: func(th bool) []*Scenario {
			names := []string{"via", "v", "x-custom", "content-length", "l"}
			long := func(n string) string {
				n = strings.ToLower(n)
				for k, v := range sipCompact {
					if v == n {
						return k
					}
				}
				return n
			}
			same := func(got, want []string) bool {
				if len(got) != len(want) {
					return false
				}
				for i := range got {
					if strings.Contains(want[i], "  ") || strings.HasSuffix(want[i], " ") {
						// a continuation of blanks only: how many blanks remain is open
						if strings.Join(strings.Fields(got[i]), " ") != strings.Join(strings.Fields(want[i]), " ") {
							return false
						}
						continue
					}
					if got[i] != want[i] && !(strings.HasPrefix(want[i], " ") && got[i] == want[i][1:]) {
						return false
					}
				}
				return true
			}
			ask := func(c *Ctx, h sips.SIPHeader, model map[string][]string, names []string, what string) {
				for _, n := range names {
					if long(n) != strings.ToLower(n) {
						continue // asked for by the long name
					}
					for _, sp := range spellings(n) {
						want := model[n]
						got := h.GetHeader(sp)
						c.Check(same(got, want), "%s: header %s is %q, want %q", what, sp, got, want)
						f := h.GetFirstHeader(sp)
						if len(want) == 0 {
							c.Check(f == "", "%s: absent header %s yields %q", what, sp, f)
						} else {
							c.Check(same([]string{f}, want[:1]), "%s: first value of header %s is %q, want %q", what, sp, f, want[0])
						}
					}
				}
			}
			type op struct {
				name string
				line string // parsed line
				set  string // or a set
			}
			var ops []op
			for _, n := range names {
				for _, sp := range spellings(n)[:pick(2, 4)] {
					ops = append(ops, op{sp, "", ""})
				}
			}
			ops2 := []op{{"via", "Via: a", ""}, {"via", "v:b;x=\"y:z\"", ""}, {"via", "VIA \t:  c  ", ""}, {"call-id", "i: d", ""}, {"call-id", "call-ID:", ""}, {"x-y", "X-Y:e", ""}, {"x-y", "x-y: f:g", ""}, {"", " more", ""}, {"", "\t more \t", ""}, {"", " \t ", ""},
				{"via", "", "Via"}, {"via", "", "V"}, {"call-id", "", "CALL-id"}, {"x-y", "", "x-Y"}}
			d := pick(5, 6)
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "histories", Note: fmt.Sprintf("every history of up to %d of %d header lines (long, compact, odd case and blanks), continuation lines and sets", d, len(ops2)), Run: func(c *Ctx) {
				s := sips.NewSIP()
				model := map[string][]string{}
				last := ""
				n := 1 + c.Choose(d)
				for i := 0; i < n; i++ {
					o := ops2[c.Choose(len(ops2))]
					switch {
					case o.set != "":
						v := fmt.Sprintf("set%d", i)
						s.Headers.SetFirstHeader(o.set, v)
						model[o.name] = []string{v}
					case o.name == "":
						s.ParseHeader([]byte(o.line))
						if l := model[last]; len(l) > 0 {
							nl := append([]string{}, l...)
							nl[len(nl)-1] += " " + strings.Trim(o.line, " \t")
							model[last] = nl
						}
					default:
						s.ParseHeader([]byte(o.line))
						k := strings.IndexByte(o.line, ':')
						model[o.name] = append(append([]string{}, model[o.name]...), strings.Trim(o.line[k+1:], " \t"))
						last = o.name
					}
					c.Logf("%q set %q", o.line, o.set)
					ask(c, s.Headers, model, []string{"via", "call-id", "x-y", "from"}, fmt.Sprintf("step %d %q set %q", i, o.line, o.set))
					c.Step(1)
					c.State(fmt.Sprint(model))
				}
				c.Eval(n)
				c.Outcome(fmt.Sprint(model))
			}})
			var longs []string
			for k := range sipCompact {
				longs = append(longs, k)
			}
			sort.Strings(longs)
			ss = append(ss, chunked("compact-names", "all 19 standard compact names: every spelling written and every spelling asked for, parsed, set, and as whole messages", len(longs)*8*3, 8, func(c *Ctx, i int) {
				l := longs[i/24]
				w := append(spellings(l), sipCompact[l], strings.ToUpper(sipCompact[l]), caseOf(l, 0x1), caseOf(l, 0x333))[i/3%8]
				model := map[string][]string{l: {"v1;x"}}
				var h sips.SIPHeader
				switch i % 3 {
				case 0:
					h = sips.NewSIPHeader()
					h.SetFirstHeader(w, "v1;x")
				case 1:
					s := sips.NewSIP()
					s.ParseHeader([]byte(w + ": v1;x"))
					h = s.Headers
				case 2:
					val := "v1;x"
					t := "OPTIONS sip:a SIP/2.0\r\n" + w + ":" + val + "\r\nX-Last: 1\r\nContent-Length: 0\r\n\r\n"
					if l == "content-length" {
						t = "OPTIONS sip:a SIP/2.0\r\n" + w + ": 0\r\n\r\n"
						model[l] = []string{"0"}
					} else {
						model["content-length"] = []string{"0"}
						model["x-last"] = []string{"1"}
					}
					s, err := parseSip([]byte(t))
					c.Check(err == nil, "%s: %v", w, err)
					h = s.Headers
				}
				ask(c, h, model, append([]string{"x-last", "expires"}, longs...), "written as "+w)
				c.Step(1)
			}))
			ss = append(ss, chunked("one-letter-names", "all other one-letter and one-character header names stay themselves", 94, 8, func(c *Ctx, i int) {
				n := string([]byte{byte(33 + i)})
				if n == ":" || long(n) != strings.ToLower(n) {
					return
				}
				s := sips.NewSIP()
				s.ParseHeader([]byte(n + ": w"))
				ask(c, s.Headers, map[string][]string{strings.ToLower(n): {"w"}}, append([]string{strings.ToLower(n)}, longs...), "header "+n)
			}))
			ss = append(ss, chunked("continuations", "1..3 headers with up to 3 continuation lines each (blank, tab, both), inside whole messages", 3*64*3, 16, func(c *Ctx, i int) {
				n, mask, ws := i/192+1, i/3%64, []string{" ", "\t", " \t "}[i%3]
				model := map[string][]string{}
				t := "OPTIONS sip:a SIP/2.0\r\n"
				for k := 0; k < n; k++ {
					name := []string{"Subject", "X-A", "Subject"}[k]
					v := fmt.Sprintf("p%d", k)
					t += name + ": " + v + "\r\n"
					for q := 0; q < mask>>uint(2*k)&3; q++ {
						t += ws + fmt.Sprintf("q%d", q) + "\r\n"
						v += fmt.Sprintf(" q%d", q)
					}
					model[strings.ToLower(name)] = append(model[strings.ToLower(name)], v)
				}
				s, err := parseSip([]byte(t + "Content-Length: 2\r\n\r\nab"))
				c.Check(err == nil, "%v", err)
				ask(c, s.Headers, model, []string{"subject", "x-a", "via"}, t)
				c.Check(string(s.Payload()) == "ab", "payload %q", s.Payload())
				c.Step(1)
				c.State(t)
			}))
			ss = append(ss, chunked("many-values", "0..300 headers of one name, all different, all equal, or alternating, with another header between, under changing spellings, received and re-serialised", 301*3, 16, func(c *Ctx, i int) {
				n, kind := i/3, i%3
				model := map[string][]string{"content-length": {"0"}}
				s := sips.NewSIP()
				t := "OPTIONS sip:a SIP/2.0\r\n"
				for k := 0; k < n; k++ {
					v := "SIP/2.0/UDP h"
					if kind == 0 || kind == 2 && k&1 == 1 {
						v += strconv.Itoa(k)
					}
					name := []string{"Via", "v", "VIA", "V"}[k*(i%5)%4]
					t += name + ": " + v + "\r\n"
					model["via"] = append(model["via"], v)
					if k%7 == 3 {
						t += "X-Own: o\r\n"
						model["x-own"] = append(model["x-own"], "o")
					}
				}
				err := s.ParseBytes([]byte(t + "Content-Length: 0\r\n\r\n"))
				c.Check(err == nil, "%v", err)
				ask(c, s.Headers, model, append([]string{"x-own"}, longs...), fmt.Sprintf("%d values", n))
				c.Step(1)
				c.State(i)
			}))
			near := []string{"a", "A", "aB", "Ab", "AB", "ab", "a b", "a  b", "ab ", "", "ab;c=D", "ab;C=d", "ab;c=d", "a,b", "b,a", "a\tb", "é", "É", "k", "\u212a", "0", "00", "1", "a:", "<sip:A@h>", "<sip:a@h>", "<sip:a@H>"}
			ss = append(ss, chunked("near-values", fmt.Sprintf("every ordered triple of %d values that differ in case, blanks or order, set one after another under changing spellings, and received as lines of one message", len(near)), len(near)*len(near)*len(near), 256, func(c *Ctx, i int) {
				vs := []string{near[i/len(near)/len(near)], near[i/len(near)%len(near)], near[i%len(near)]}
				for _, n := range []string{"call-id", "x-own", "via"} {
					sp := spellings(n)
					h := sips.NewSIPHeader()
					s := sips.NewSIP()
					for k, v := range vs {
						h.SetFirstHeader(sp[(i+k)%len(sp)], v)
						got := h.GetHeader(sp[k%len(sp)])
						c.Check(len(got) == 1 && got[0] == v, "%s set to %q yields %q", n, vs[:k+1], got)
						s.ParseHeader([]byte(sp[(i+k)%len(sp)] + ": " + v))
					}
					got := s.Headers.GetHeader(n)
					c.Check(len(got) == 3, "%s received as %q yields %q", n, vs, got)
					for k := range got {
						c.Check(got[k] == strings.Trim(vs[k], " \t"), "%s received as %q yields %q", n, vs, got)
					}
				}
				c.State(i)
			}))
			ss = append(ss, chunked("name-lengths", "header names of every length up to 1100 and around powers of two up to 65536, set, received among others, continued and asked for in another letter case", len(textLens), 8, func(c *Ctx, i int) {
				n := textLens[i]
				if n < 2 {
					return
				}
				name := strings.Repeat("X-Own.", n/6+1)[:n-1] + "q"
				h := sips.NewSIPHeader()
				h.SetFirstHeader(name, "v")
				c.Check(h.GetFirstHeader(strings.ToUpper(name)) == "v", "a header with a name of %d bytes is set but not there", n)
				s, err := parseSip(sipText("OPTIONS sip:a SIP/2.0", [][2]string{{"Via", "w"}, {name, "1"}, {"Content-Length", "0"}, {strings.ToLower(name), "2\r\n more"}}, nil))
				c.Check(err == nil, "name of %d bytes: %v", n, err)
				c.Check(eqStr(s.Headers.GetHeader(strings.ToUpper(name)), []string{"1", "2 more"}), "a header with a name of %d bytes yields %q", n, s.Headers.GetHeader(name))
				c.Check(eqStr(s.Headers.GetHeader("via"), []string{"w"}), "Via next to a name of %d bytes yields %q", n, s.Headers.GetHeader("via"))
				c.State(n)
			}))
			ss = append(ss, chunked("value-lengths", "values of every length up to 1100 and around powers of two up to 65536, set, received, folded in the middle and serialised again, alone and as the second of three", len(textLens), 4, func(c *Ctx, i int) {
				n := textLens[i]
				v := strings.Repeat("x7-\"é; ", n/8+1)[:n]
				v = strings.Trim(v, " ")
				for _, name := range []string{"Identity", "x-own", "t"} {
					h := sips.NewSIPHeader()
					h.SetFirstHeader(name, v)
					c.Check(h.GetFirstHeader(long(name)) == v, "%s set to %d bytes yields %d bytes", name, len(v), len(h.GetFirstHeader(long(name))))
					lines := [][2]string{{name, "a"}, {name, v}, {name, "c"}, {"Content-Length", "0"}}
					if i%2 == 1 {
						lines = lines[1:]
					}
					want := []string{"a", v, "c"}[i%2:]
					s, err := parseSip(sipText("OPTIONS sip:a SIP/2.0", lines, nil))
					c.Check(err == nil, "%s of %d bytes: %v", name, len(v), err)
					c.Check(eqStr(s.Headers.GetHeader(long(name)), want), "%s received with %d bytes differs", name, len(v))
					if n > 4 && v != "" {
						k := n / 3
						a, b := strings.Trim(v[:k], " "), strings.Trim(v[k:], " ")
						if b == "" || a == "" {
							continue
						}
						s, err = parseSip(sipText("OPTIONS sip:a SIP/2.0", [][2]string{{name, a + "\r\n " + b}, {"Content-Length", "0"}}, nil))
						c.Check(err == nil, "%s of %d bytes: %v", name, len(v), err)
						c.Check(s.Headers.GetFirstHeader(long(name)) == a+" "+b, "%s received in two lines of %d and %d bytes differs", name, len(a), len(b))
					}
				}
				c.State(n)
			}))
			hv := []string{"v", "a: b", ": b", "a:", "a :b", "a;b=\"c: d\"", "sip:x@y:1", "<sip:x@[::1]:2>; q=1", "a\tb", "Via: x", "é: è", "0", "=", ",", "a,b , c", "\"", "\\", "a  b", "%3a", ""}
			hn := []string{"Subject", "s", "X-1", "via", "From", "t", "p_x", "Content-Type"}
			hsep := []string{":", ": ", " :", "\t:\t", " : ", ":   "}
			ss = append(ss, chunked("line-forms", fmt.Sprintf("%d names x %d separators x %d values (colons, quotes, blanks, addresses inside) x trailing blanks, alone and as the second value, followed by a continuation", len(hn), len(hsep), len(hv)), len(hn)*len(hsep)*len(hv)*4, 32, func(c *Ctx, i int) {
				n, sep, v := hn[i/4%len(hn)], hsep[i/4/len(hn)%len(hsep)], hv[i/4/len(hn)/len(hsep)]
				k := long(n)
				want := strings.Trim(v, " \t")
				model := map[string][]string{k: {want}, "content-length": {"1"}}
				t := "OPTIONS sip:a SIP/2.0\r\n"
				if i&1 == 1 {
					t += strings.ToUpper(k) + ": w: z\r\n"
					model[k] = []string{"w: z", want}
				}
				t += n + sep + v + strings.Repeat(" ", i>>1&1) + "\r\n"
				if i&2 == 2 {
					t += " k: " + v + "\r\n"
					l := model[k]
					l[len(l)-1] += " " + strings.Trim("k: "+v, " \t")
				}
				s, err := parseSip([]byte(t + "Content-Length: 1\r\n\r\nx"))
				c.Check(err == nil, "%q: %v", t, err)
				ask(c, s.Headers, model, append([]string{"x-last", "k"}, longs...), fmt.Sprintf("%q", t))
				c.Check(len(s.Headers.GetAllHeaders()) == 2, "%q: %d headers", t, len(s.Headers.GetAllHeaders()))
				c.Step(1)
				c.State(t)
			}))
			ss = append(ss, chunked("known-headers", fmt.Sprintf("%d well-known header lines with typical values, received or set, under 4 spellings, alone, twice, or behind another value: kept as they are", len(wellKnown)), len(wellKnown)*8*3, 16, func(c *Ctx, i int) {
				l := wellKnown[i/24]
				k, form := strings.ToLower(l[0]), i%3
				names := append([]string{"x-own", k}, longs...)
				name := spellings(k)[i/3%4]
				want := [][]string{{l[1]}, {l[1], l[1]}, {"z", l[1]}}[form]
				model := map[string][]string{k: want, "x-own": {"o"}}
				if i/12%2 == 1 {
					h := sips.NewSIPHeader()
					h.SetFirstHeader("X-Own", "o")
					h.SetFirstHeader(name, l[1])
					model[k] = want[len(want)-1:]
					ask(c, h, model, names, fmt.Sprintf("set %s to %q", name, l[1]))
					return
				}
				s := sips.NewSIP()
				t := "NOTIFY sip:a SIP/2.0\r\nX-Own: o\r\n"
				for _, v := range want {
					t += name + ": " + v + "\r\n"
				}
				if k != "content-length" {
					model["content-length"] = []string{"2"}
				}
				t += "Content-Length: 2\r\n\r\nab"
				err := s.ParseBytes([]byte(t))
				c.Check(err == nil, "%q: %v", t, err)
				ask(c, s.Headers, model, names, fmt.Sprintf("%q", t))
				c.Step(1)
				c.State(t)
			}))
			ss = append(ss, chunked("many-names", "1..300 headers of different names in one message, received, copied and set: all are there", 300*2, 4, func(c *Ctx, i int) {
				n := i/2 + 1
				model := map[string][]string{}
				var names []string
				s := sips.NewSIP()
				h := s.Headers
				t := "OPTIONS sip:a SIP/2.0\r\n"
				for k := 0; k < n; k++ {
					name := fmt.Sprintf("x-%d", k*7919%1009)
					if k%4 == 3 && k/4 < len(longs) {
						name = longs[k/4]
					}
					if name == "content-length" {
						continue
					}
					names = append(names, name)
					v := "v" + strconv.Itoa(k)
					model[name] = []string{v}
					t += name + ": " + v + "\r\n"
					if i&1 == 1 {
						h.SetFirstHeader(name, v)
					}
				}
				if i&1 == 0 {
					err := s.ParseBytes([]byte(t + "Content-Length: 0\r\n\r\n"))
					c.Check(err == nil, "%v", err)
					model["content-length"] = []string{"0"}
					h = s.Headers
				}
				ask(c, h, model, append(names, "x-absent"), fmt.Sprintf("%d names", n))
				d := sips.NewSIPHeader()
				d.CopyFrom(h, names...)
				delete(model, "content-length")
				ask(c, d, model, names, fmt.Sprintf("copy of %d names", n))
				c.Check(len(d.GetAllHeaders()) == len(model), "%d headers in the copy of %d", len(d.GetAllHeaders()), len(model))
				c.Step(1)
				c.State(i)
			}))
			ss = append(ss, chunked("copying", "copying every standard header, received under each spelling with 1..3 values or placed in the map under its long or short name, into a set that has it or not", len(longs)*8*6, 16, func(c *Ctx, i int) {
				l, k, nv := longs[i/48], i/6%8, i%3+1
				src := sips.NewSIP()
				var vals []string
				sp := append(spellings(l), sipCompact[l], strings.ToUpper(sipCompact[l]))
				for x := 0; x < nv; x++ {
					vals = append(vals, fmt.Sprintf("v%d", x))
					if k < 6 {
						src.ParseHeader([]byte(sp[(k+x)%6] + ": " + vals[x]))
					}
				}
				h := src.Headers
				if k == 6 {
					h = sips.SIPHeader{l: vals}
				} else if k == 7 {
					h = sips.SIPHeader{sipCompact[l]: vals}
				}
				ask(c, h, map[string][]string{l: vals}, longs, fmt.Sprintf("header %s in place %d", l, k))
				for _, as := range sp {
					d := sips.NewSIPHeader()
					d.SetFirstHeader("x-own", "o")
					if i/3%2 == 1 {
						d.SetFirstHeader(l, "old")
					}
					d.CopyFrom(h, as)
					ask(c, d, map[string][]string{l: vals[:1], "x-own": {"o"}}, append([]string{"x-own"}, longs...), fmt.Sprintf("copied as %s from place %d with %d values", as, k, nv))
					ask(c, h, map[string][]string{l: vals}, longs, "source after copying")
				}
				c.Step(6)
			}))
			ss = append(ss, chunked("typed-access", "typed setters and getters and header copying agree with the plain ones", 40, 4, func(c *Ctx, i int) {
				h := sips.NewSIPHeader()
				v := fmt.Sprint("v", i)
				u := sips.NewSIPUser("<sip:" + v + "@h>;tag=1")
				type acc struct {
					name string
					set  func()
					want string
				}
				accs := []acc{
					{"content-length", func() { h.SetContentLength(i) }, strconv.Itoa(i)}, {"call-id", func() { h.SetCallID(v) }, v}, {"max-forwards", func() { h.SetMaxForwards(i) }, strconv.Itoa(i)}, {"reason-phrase", func() { h.SetReasonPhrase(v) }, v},
					{"supported", func() { h.SetSupported(v) }, v}, {"subject", func() { h.SetSubject(v) }, v}, {"content-type", func() { h.SetContentType(v) }, v}, {"allow", func() { h.SetAllow(v) }, v},
					{"from", func() { h.SetSIPFrom(u) }, u.String()}, {"to", func() { h.SetSIPTo(u) }, u.String()}, {"contact", func() { h.SetSIPContact(u) }, u.String()},
					{"cseq", func() { h.SetSIPCseq(sips.NewSIPCseq(fmt.Sprint(i, " BYE"))) }, fmt.Sprint(i, " BYE")}, {"via", func() { h.SetSIPVia(sips.NewSIPVia("SIP/2.0/TCP " + v + ":1")) }, "SIP/2.0/TCP " + v + ":1"},
				}
				for k := range accs {
					a := accs[(k+i)%len(accs)]
					a.set()
					c.Check(h.GetFirstHeader(a.name) == a.want, "%s is %q, want %q", a.name, h.GetFirstHeader(a.name), a.want)
				}
				for _, a := range accs {
					c.Check(h.GetFirstHeader(a.name) == a.want && len(h.GetHeader(a.name)) == 1, "%s is %q, want %q", a.name, h.GetHeader(a.name), a.want)
				}
				n, err := h.GetContentLength()
				c.Check(err == nil && n == i, "content length %d %v", n, err)
				c.Check(h.GetCallID() == v && h.GetSIPFrom().User == v && h.GetSIPTo().User == v && h.GetSIPContact().Host == "h" && h.GetSIPCseq().ID == strconv.Itoa(i) && h.GetSIPVia().Host == v, "typed getters disagree: %s", h)
				g := sips.NewSIPHeader()
				g.CopyFrom(h, "Via", "CSEQ", "i", "from")
				for _, n := range []string{"via", "cseq", "call-id", "from"} {
					c.Check(eqStr(g.GetHeader(n), h.GetHeader(n)), "copied header %s is %q, want %q", n, g.GetHeader(n), h.GetHeader(n))
				}
				c.Check(len(g) == 4, "copying four headers gives %d", len(g))
				e := sips.NewSIPHeader()
				e.SetFirstHeader("Expires", v)
				e.SetFirstHeader("Authorization", `Digest username="`+v+`"`)
				c.Check(e.GetExpires() == v && e.GetAuthorization().Args.Get("username") == v, "typed getters disagree: %s", e)
			}))
			_ = ops
			return ss
		},
	})

	register(&Prop{
		ID: "S05", Level: "exploration",
		Rule:        "Each evaluation serialises an address, URI, Via or CSeq value with the real code and parses it back, or parses a written form, and compares every part; parameter order is enumerated when parsing.",
		Assumptions: []string{"Display names are printable text without surrounding blanks; other parts are tokens; tel addresses have a number only"},
		Build: func(th bool) []*Scenario {
			types := []string{"sip", "sips", "tel"}
			names := []string{"", "Bob", "Mr. Watson", "Anonymous", `a"b\c`, "x;y <z>, @:", "直播", "sip:x", "tab-less  two", "anonymous", "Anonymous <x>", "Anonymous\"y", "Anonymous; z", "<", ">", "\\", "\"", "sip:a@b;c", "A,B", "tab\tbed", "\U0001F468\u200d\U0001F469", "no\u00a0break"}
			users := []string{"bob", "+12125551212", "user:password", "a.b-c_d~e", "sip", "0", ""}
			hosts := []string{"host", "192.168.1.102", "[2001:db8::1]", "a-b.example.com", "sips", "[::1]", "[::]", "h", "[1:2:3:4:5:6:7::]", "[2001:db8:0:1:22:333:4444:fffe]", "[::ffff:192.0.2.1]"}
			ports := []string{"", "5060", "0", "65535"}
			var cases []uriParts
			for _, t := range types {
				for _, n := range names {
					for _, u := range users {
						for _, h := range hosts {
							for _, p := range ports {
								for _, a := range sipArgSets {
									if t == "tel" {
										if u == "" || strings.Contains(u, ":") || h != hosts[0] || p != "" {
											continue
										}
										cases = append(cases, uriParts{t, n, u, "", "", a})
										continue
									}
									cases = append(cases, uriParts{t, n, u, h, p, a})
								}
							}
						}
					}
				}
			}
			text := func(u uriParts, order []string) string {
				s := u.typ + ":" + u.user
				if u.user != "" && u.host != "" {
					s += "@"
				}
				s += u.host
				if u.port != "" {
					s += ":" + u.port
				}
				return s
			}
			argText := func(u uriParts, order []string, sep string) string {
				s := ""
				for _, k := range order {
					s += sep + ";" + sep + pairText(k, u.args[k])
				}
				return s
			}
			var ss []*Scenario
			ss = append(ss, chunked("addresses", fmt.Sprintf("%d combinations of scheme, display name, user, host, port and parameters: serialise, parse back, convert both ways", len(cases)), len(cases), 64, func(c *Ctx, i int) {
				u := cases[i]
				su := sips.NewSIPUser("")
				su.URIType, su.Name, su.User, su.Host, su.Port, su.Args = u.typ, u.name, u.user, u.host, u.port, copyArgs(u.args)
				for k := 0; k < 2; k++ { // parameter order in the text is not determined
					t := su.String()
					got := userParts(sips.NewSIPUser(t))
					c.Check(sameParts(got, u), "address %v serialises to %q, which parses to %v", u, t, got)
				}
				nu := u
				nu.name = ""
				got := reqParts(su.ToRequest())
				c.Check(sameParts(got, nu), "address %v converts to %v", u, got)
				sr := sips.NewSIPRequest("")
				sr.URIType, sr.User, sr.Host, sr.Port, sr.Args = u.typ, u.user, u.host, u.port, copyArgs(u.args)
				for k := 0; k < 2; k++ {
					t := sr.String()
					got = reqParts(sips.NewSIPRequest(t))
					c.Check(sameParts(got, nu), "URI %v serialises to %q, which parses to %v", nu, t, got)
				}
				got = userParts(sr.ToUser())
				c.Check(sameParts(got, nu), "URI %v converts to %v", nu, got)
				readBack(c, u, su, sr)
				c.Check(sameParts(userParts(su), u) && sameParts(reqParts(sr), nu), "serialising changed the value")
				c.Outcome(u.String())
			}))
			ss = append(ss, chunked("written-forms", "the same parts written in the documented forms: bare, in brackets, quoted and unquoted names, blanks around, parameters in every order, inside and outside the brackets", len(cases), 64, func(c *Ctx, i int) {
				u := cases[i]
				quoted := `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(u.name) + `"`
				plainName := true
				for _, ch := range u.name {
					plainName = plainName && (ch == ' ' || ch == '.' || ch == '-' || ch >= 'A' && ch <= 'Z' || ch >= 'a' && ch <= 'z')
				}
				for _, o := range argOrders(u.args) {
					for _, sep := range []string{"", " "} {
						var forms []string
						br := "<" + text(u, o) + ">"
						if u.name == "" {
							forms = append(forms, br+argText(u, o, sep), " "+br+" "+argText(u, o, sep), text(u, o)+argText(u, o, ""))
							if sep == "" {
								forms = append(forms, "<"+text(u, o)+argText(u, o, "")+">")
								for cut := 1; cut < len(o); cut++ {
									forms = append(forms, "<"+text(u, o)+argText(u, o[:cut], "")+">"+argText(u, o[cut:], ""))
								}
							}
						} else {
							forms = append(forms, quoted+" "+br+argText(u, o, sep), quoted+br+argText(u, o, sep), quoted+" "+br+" "+argText(u, o, sep))
							if plainName {
								forms = append(forms, u.name+" "+br+argText(u, o, sep))
							}
						}
						for _, f := range forms {
							got := userParts(sips.NewSIPUser(f))
							c.Check(sameParts(got, u), "%q parses to %v, want %v", f, got, u)
							h := sips.NewSIPHeader()
							h.SetFirstHeader("From", f)
							h.SetFirstHeader("To", f)
							h.SetFirstHeader("Contact", f)
							for _, x := range []*sips.SIPUser{h.GetSIPFrom(), h.GetSIPTo(), h.GetSIPContact()} {
								c.Check(sameParts(userParts(x), u), "header value %q parses to %v, want %v", f, userParts(x), u)
							}
						}
						if u.name == "" {
							f := text(u, o) + argText(u, o, sep)
							if sep == "" {
								got := reqParts(sips.NewSIPRequest(f))
								c.Check(sameParts(got, u), "URI %q parses to %v, want %v", f, got, u)
							}
						}
						c.Eval(len(forms))
					}
				}
			}))
			trans := []string{"UDP", "TCP", "TLS", "SCTP", "WS", "WSS", "TLS-SCTP", "u"}
			n := len(trans) * len(hosts) * len(ports) * len(sipArgSets)
			ss = append(ss, chunked("via", fmt.Sprintf("%d Via values: serialised and parsed back, and written with parameters in every order", n), n, 16, func(c *Ctx, i int) {
				tr, h, p, a := trans[i%8], hosts[i/8%len(hosts)], ports[i/8/len(hosts)%len(ports)], sipArgSets[i/8/len(hosts)/len(ports)]
				check := func(v *sips.SIPVia, f string) {
					c.Check(v.Trans == tr && v.Host == h && v.Port == p && argsText(v.Args) == argsText(a), "%q parses to transport %q host %q port %q args %s", f, v.Trans, v.Host, v.Port, argsText(v.Args))
				}
				v := &sips.SIPVia{Trans: tr, Host: h, Port: p, Args: copyArgs(a)}
				for k := 0; k < 2; k++ {
					check(sips.NewSIPVia(v.String()), v.String())
				}
				rt, rh, rp, ra, err := gramVia(v.String())
				c.Check(err == nil && rt == tr && rh == h && rp == p && argsText(ra) == argsText(a), "Via value %q reads as transport %q host %q port %q args %s (%v)", v.String(), rt, rh, rp, argsText(ra), err)
				for _, o := range argOrders(a) {
					for _, sep := range []string{"", " "} {
						f := "SIP/2.0/" + tr + " " + h
						if p != "" {
							f += ":" + p
						}
						f += argText(uriParts{args: a}, o, sep)
						check(sips.NewSIPVia(f), f)
						hd := sips.NewSIPHeader()
						hd.SetFirstHeader("v", f)
						check(hd.GetSIPVia(), f)
					}
				}
				c.Outcome(i)
			}))
			ss = append(ss, chunked("cseq", "every method with sequence numbers around powers of ten and two", len(sipMethods)*60, 16, func(c *Ctx, i int) {
				id := strconv.FormatUint([]uint64{0, 1, 9, 10, 4711, 65535, 1<<31 - 1, 1 << 31, 1<<32 - 1, uint64(i)}[i%10], 10)
				m := sipMethods[i/60].s
				q := sips.NewSIPCseq("")
				q.ID, q.Method = id, m
				r := sips.NewSIPCseq(q.String())
				c.Check(r.ID == id && r.Method == m, "%q parses to %q %q", q.String(), r.ID, r.Method)
				c.Check(eqStr(strings.Fields(q.String()), []string{id, m}), "sequence %q %q is written %q", id, m, q.String())
				r = sips.NewSIPCseq(id + " " + m)
				c.Check(r.ID == id && r.Method == m, "%q parses to %q %q", id+" "+m, r.ID, r.Method)
			}))
			toks := []string{"0", "00", "a", "-", "4294967296", "18446744073709551616", "12345678901", strings.Repeat("9", 40), strings.Repeat("7", 300)}
			ss = append(ss, chunked("cseq-tokens", "sequence parts of any length with every method and other method names, spelled in three cases", len(toks)*(len(sipMethods)+3)*3, 16, func(c *Ctx, i int) {
				id := toks[i%len(toks)]
				k := i / len(toks) / 3
				m := "X-NEW"
				if k < len(sipMethods) {
					m = sipMethods[k].s
				} else if k == len(sipMethods) {
					m = strings.Repeat("M", 64)
				} else if k == len(sipMethods)+1 {
					m = "a.b!c"
				}
				m = []string{m, strings.ToLower(m), caseOf(m, 0x5555)}[i/len(toks)%3]
				q := &sips.SIPCseq{ID: id, Method: m}
				for _, t := range []string{q.String(), id + " " + m} {
					r := sips.NewSIPCseq(t)
					c.Check(r.ID == id && r.Method == m, "%q parses to %q %q", t, r.ID, r.Method)
				}
				h := sips.NewSIPHeader()
				h.SetSIPCseq(q)
				c.Check(h.GetSIPCseq().ID == id && h.GetSIPCseq().Method == m, "header cseq is %q", h.GetFirstHeader("CSeq"))
			}))
			ss = append(ss, chunked("lengths", "every part of an address, URI and Via value grown to 1..300 characters", 300*7, 16, func(c *Ctx, i int) {
				x := rep(i/7 + 1)
				u := uriParts{"sip", "N", "u", "h", "5", map[string]string{"p": "v"}}
				tr := "UDP"
				switch i % 7 {
				case 0:
					u.name = x
				case 1:
					u.user = x
				case 2:
					u.host = x
				case 3:
					u.port = strings.Repeat("5", len(x))
				case 4:
					u.args = map[string]string{x: "v"}
				case 5:
					u.args = map[string]string{"p": x, "q": ""}
				case 6:
					tr = x
				}
				su := &sips.SIPUser{URIType: u.typ, Name: u.name, User: u.user, Host: u.host, Port: u.port, Args: copyArgs(u.args)}
				got := userParts(sips.NewSIPUser(su.String()))
				c.Check(sameParts(got, u), "address %v serialises to %q, which parses to %v", u, su.String(), got)
				v := &sips.SIPVia{Trans: tr, Host: u.host, Port: u.port, Args: copyArgs(u.args)}
				w := sips.NewSIPVia(v.String())
				c.Check(w.Trans == tr && w.Host == u.host && w.Port == u.port && argsText(w.Args) == argsText(u.args), "%q parses to transport %q host %q port %q args %s", v.String(), w.Trans, w.Host, w.Port, argsText(w.Args))
				u.name = ""
				r := su.ToRequest()
				got = reqParts(sips.NewSIPRequest(r.String()))
				c.Check(sameParts(got, u), "URI %v serialises to %q, which parses to %v", u, r.String(), got)
			}))
			ss = append(ss, chunked("many-parameters", "addresses (bare, in brackets), URIs and Via values with 1..200 and 1000 parameters, parsed and serialised again", 201, 4, func(c *Ctx, i int) {
				n := i + 1
				if n == 201 {
					n = 1000
				}
				u := uriParts{"sip", "", "u", "h", "5", map[string]string{}}
				t := ""
				for k := 0; k < n; k++ {
					key := "p" + strconv.Itoa(k)
					u.args[key] = []string{"", "v" + strconv.Itoa(k), "x"}[k%3]
					t += ";" + key
					if u.args[key] != "" {
						t += "=" + u.args[key]
					}
				}
				for _, a := range []string{"sip:u@h:5" + t, "<sip:u@h:5>" + t, "<sip:u@h:5" + t + ">"} {
					su := sips.NewSIPUser(a)
					c.Check(sameParts(userParts(su), u), "%d parameters of an address parse to %d", n, len(su.Args))
					c.Check(sameParts(userParts(sips.NewSIPUser(su.String())), u), "%d parameters of an address are lost when it is serialised", n)
				}
				r := sips.NewSIPRequest("sip:u@h:5" + t)
				c.Check(sameParts(reqParts(r), u), "%d parameters of a URI parse to %d", n, len(r.Args))
				c.Check(sameParts(reqParts(sips.NewSIPRequest(r.String())), u), "%d parameters of a URI are lost when it is serialised", n)
				v := sips.NewSIPVia("SIP/2.0/UDP h:5" + t)
				for k := 0; k < 2; k++ {
					c.Check(v.Trans == "UDP" && v.Host == "h" && v.Port == "5" && argsText(v.Args) == argsText(u.args), "%d parameters of a Via value parse to %d", n, len(v.Args))
					v = sips.NewSIPVia(v.String())
				}
				c.State(i)
			}))
			qv := []struct{ text, v string }{{`"x"`, "x"}, {`"a;b"`, "a;b"}, {`"a,b"`, "a,b"}, {`"<sip:x@y>"`, "<sip:x@y>"}, {`"x>y"`, "x>y"}, {`"a@b"`, "a@b"}, {`"a\"b"`, `a"b`}, {`" s "`, " s "}, {`"=x="`, "=x="}, {"a@b", "a@b"}, {"[::1]", "[::1]"}, {"a:b", "a:b"}, {"a/b?c", "a/b?c"}}
			ss = append(ss, chunked("rich-parameters", fmt.Sprintf("%d quoted and unquoted parameter values with separators inside, first or last, behind addresses in brackets (with and without own parameters), bare URIs and Via values, with and without user part", len(qv)), len(qv)*12, 4, func(c *Ctx, i int) {
				q := qv[i/12]
				u := uriParts{"sip", "", "u", "h.example", "5060", map[string]string{"t": q.v}}
				if i&1 == 1 {
					u.user = ""
				}
				if i>>1&1 == 1 {
					u.port = ""
				}
				at := text(u, nil)
				in, ps := "", ";t="+q.text
				switch i / 4 % 3 {
				case 1:
					u.args["z"] = ""
					ps += ";z"
				case 2:
					u.args["lr"], u.args["a"] = "", "1"
					in, ps = ";lr", ";a=1"+ps
				}
				for _, name := range []string{"", "Bob ", `"B >;< @" `} {
					f := name + "<" + at + in + ">" + ps
					w := u
					w.name = strings.Trim(name, `" `)
					got := userParts(sips.NewSIPUser(f))
					c.Check(sameParts(got, w), "%q parses to %v, want %v", f, got, w)
				}
				f := at + in + ps
				if !strings.ContainsAny(q.text, "\" <>") {
					got := reqParts(sips.NewSIPRequest(f))
					c.Check(sameParts(got, u), "URI %q parses to %v, want %v", f, got, u)
					got = userParts(sips.NewSIPUser(f))
					c.Check(sameParts(got, u), "address %q parses to %v, want %v", f, got, u)
				}
				for _, f := range []string{at + ps, at + " " + ps, " " + at + "  " + strings.Replace(ps, ";", "; ", -1)} {
					if strings.Contains(q.text, ";") && strings.Contains(f, "; ") {
						continue
					}
					w := u
					w.args = map[string]string{}
					for k, x := range u.args {
						if k != "lr" {
							w.args[k] = x
						}
					}
					got := userParts(sips.NewSIPUser(f))
					c.Check(sameParts(got, w), "address %q parses to %v, want %v", f, got, w)
				}
				f = "SIP/2.0/TLS h.example:5060" + in + ps
				v := sips.NewSIPVia(f)
				c.Check(v.Trans == "TLS" && v.Host == "h.example" && v.Port == "5060" && argsText(v.Args) == argsText(u.args), "%q parses to transport %q host %q port %q args %s", f, v.Trans, v.Host, v.Port, argsText(v.Args))
				c.Outcome(f)
			}))
			ss = append(ss, chunked("escapes", "every escape %00..%ff in upper and lower case, alone, doubled and inside other text, in user, parameter name and value, display name: kept as written", 256*2*4, 16, func(c *Ctx, i int) {
				e := []string{fmt.Sprintf("%%%02X", i&255), fmt.Sprintf("%%%02x", i&255)}[i>>8&1]
				x := []string{e, e + e, "a" + e + "b", "q%" + e + "." + e}[i>>9]
				for _, u := range []uriParts{{"sip", "", x, "h", "1", map[string]string{}}, {"sips", "N", x, "h", "", map[string]string{x: x}}, {"sip", x, "u", "h", "", map[string]string{"k": x}}, {"sip", "", "", "h", "", map[string]string{x: ""}}, {"sip", "", x + ":" + x, "h", "", map[string]string{}}} {
					su := &sips.SIPUser{URIType: u.typ, Name: u.name, User: u.user, Host: u.host, Port: u.port, Args: copyArgs(u.args)}
					got := userParts(sips.NewSIPUser(su.String()))
					c.Check(sameParts(got, u), "address %v serialises to %q, which parses to %v", u, su.String(), got)
					u.name = ""
					r := su.ToRequest()
					got = reqParts(sips.NewSIPRequest(r.String()))
					c.Check(sameParts(got, u), "URI %v serialises to %q, which parses to %v", u, r.String(), got)
					w := text(u, nil)
					got = reqParts(sips.NewSIPRequest(w + argText(u, argOrders(u.args)[0], "")))
					c.Check(sameParts(got, u), "URI %q parses to %v, want %v", w, got, u)
				}
				v := &sips.SIPVia{Trans: "UDP", Host: "h", Port: "1", Args: map[string]string{x: x}}
				w := sips.NewSIPVia(v.String())
				c.Check(w.Host == "h" && w.Port == "1" && argsText(w.Args) == argsText(v.Args), "%q parses to host %q port %q args %s", v.String(), w.Host, w.Port, argsText(w.Args))
				c.Outcome(x)
			}))
			ss = append(ss, chunked("part-characters", "every token character inside user, host name, parameter name and value, display name and Via parts", 94*2, 4, func(c *Ctx, i int) {
				ch := byte(33 + i/2)
				tok := ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || strings.IndexByte("-.!%*_+`'~", ch) >= 0
				x := []string{"x" + string([]byte{ch}) + "y", string([]byte{ch})}[i%2]
				us := []uriParts{{"sip", x, "u", "h", "1", map[string]string{}}}
				if tok {
					us = append(us, uriParts{"sip", "", x, "h", "1", map[string]string{}}, uriParts{"sips", "N", x, "h", "", map[string]string{x: x}}, uriParts{"sip", "", "", "h", "", map[string]string{x: ""}})
					if ch != '%' && ch != '*' {
						us = append(us, uriParts{"sip", "", "u", x, "1", map[string]string{}}, uriParts{"sips", "", "", x, "", map[string]string{}})
					}
				} else if strings.IndexByte("&=+$,/?", ch) >= 0 && ch != ',' { // user-unreserved
					us = append(us, uriParts{"sip", "", x, "h", "1", map[string]string{"t": "1"}})
				}
				for _, u := range us {
					su := sips.NewSIPUser("")
					su.URIType, su.Name, su.User, su.Host, su.Port, su.Args = u.typ, u.name, u.user, u.host, u.port, copyArgs(u.args)
					got := userParts(sips.NewSIPUser(su.String()))
					c.Check(sameParts(got, u), "address %v serialises to %q, which parses to %v", u, su.String(), got)
					u.name = ""
					r := su.ToRequest()
					got = reqParts(sips.NewSIPRequest(r.String()))
					c.Check(sameParts(got, u), "URI %v serialises to %q, which parses to %v", u, r.String(), got)
				}
				c.Outcome(i)
			}))
			return append(ss, sipGrammar(th)...)
		},
	})

	register(&Prop{
		ID: "S06", Level: "model_checking",
		Rule:        "Every argument list within the bounds is written, parsed with the real code and compared with its pairs; every set is serialised in the three styles and parsed back; every history of map operations is compared with a map. A state is a distinct argument set.",
		Assumptions: []string{"Keys are distinct tokens; values received unquoted are printable text without separators, quotes and blanks; values have no line ends"},
		Build: func(th bool) []*Scenario {
			type val struct{ text, v string }
			vals := []val{{"", ""}, {"=t0k-en", "t0k-en"}, {`="q"`, "q"}, {`="a;b, c=d"`, "a;b, c=d"}, {`="x\"y"`, `x"y`}, {`=""`, ""}, {`="` + "l1\nl2" + `"`, "l1\nl2"}, {"=a=b", "a=b"}, {`=" sp "`, " sp "}, {"=é", "é"}, {" = t", "t"}, {"\t=  \" ;,\"", " ;,"}, {"=\"\xe9\xff\"", "\xe9\xff"}}
			seps := []string{";", ",", "\n", "\r\n", " ; ", ", ", "\t,\t", ",\r\n ", ";;", "; ,"}
			keys := []string{"tag", "b", "realm-x", "Q"}
			d := pick(3, 4)
			var ss []*Scenario
			ss = append(ss, &Scenario{Name: "lists", Note: fmt.Sprintf("every list of 1..%d pairs of %d value forms joined by %d separators, with and without surrounding blanks and a leading semicolon", d, len(vals), len(seps)), Run: func(c *Ctx) {
				n := 1 + c.Choose(d)
				t := ""
				want := map[string]string{}
				for i := 0; i < n; i++ {
					if i > 0 {
						t += seps[c.Choose(len(seps))]
					}
					v := vals[c.Choose(len(vals))]
					t += keys[i] + v.text
					want[keys[i]] = v.v
				}
				wrap := c.Choose(3)
				var got sips.Args
				switch wrap {
				case 0:
					got = sips.ParseArgsPairs(t)
				case 1:
					t = " " + t + " \r\n"
					got = sips.ParseArgsPairs(t)
				case 2:
					t = "value;" + t
					got = sips.ParseArgs(t)
				}
				c.Logf("%q", t)
				c.Check(argsText(got) == argsText(want), "%q parses to %s, want %s", t, argsText(got), argsText(want))
				c.Step(1)
				c.Eval(1)
				c.State(argsText(got))
				c.Outcome(argsText(got))
			}})
			tv := []string{"", "v", "a48s", "z9hG4bK-.!%*_+`'~", "0"}
			ss = append(ss, &Scenario{Name: "sets", Note: "every set of up to 5 keys with 5 token values, serialised in three styles (twice, the order is not determined) and parsed back", Run: func(c *Ctx) {
				ks := []string{"a", "tag", "x-y", "lr", "Q"}
				want := map[string]string{}
				for _, k := range ks {
					if v := c.Choose(len(tv) + 1); v > 0 {
						want[k] = tv[v-1]
					}
				}
				a := copyArgs(want)
				for r := 0; r < 2; r++ {
					c.Check(argsText(sips.ParseArgs(a.SemicolonString())) == argsText(want), "semicolon form %q of %s parses to %s", a.SemicolonString(), argsText(want), argsText(sips.ParseArgs(a.SemicolonString())))
					c.Check(argsText(sips.ParseArgsPairs(a.CommaString())) == argsText(want), "comma form %q of %s", a.CommaString(), argsText(want))
					c.Check(argsText(sips.ParseArgsPairs(a.CRLFString())) == argsText(want), "line form %q of %s", a.CRLFString(), argsText(want))
				}
				c.Check(argsText(a) == argsText(want), "serialising changed the set")
				c.Step(3)
				c.Eval(1)
				c.State(argsText(want))
				c.Outcome(argsText(want))
			}})
			texts := []string{"a;b", "a,b", "INVITE,BYE", "<urn:uuid:0-1>", `"`, `"q"`, `a"b`, `\`, `a\`, `\"`, `a\\b"`, " ", " sp ", "a b", "\t", "a=b", "=", ">", "<", "a>b;c", `";x="y`, "é", "[::1]", "a:b/c?d&e"}
			ss = append(ss, chunked("text-values", "values with every byte but line ends alone, first, in the middle and last, and every ordered pair of 24 texts with separators, quotes, brackets and blanks: every style reads back", 253*4+24*24, 16, func(c *Ctx, i int) {
				want := map[string]string{"k1": "", "lr": "", "k2": "t"}
				if i < 253*4 {
					ch := byte(i/4 + 1)
					if ch >= '\n' {
						ch++
					}
					if ch >= '\r' {
						ch++
					}
					x := string([]byte{ch})
					want["k1"] = []string{x, x + "ab", "a" + x + "b", "ab" + x}[i%4]
				} else {
					want["k1"], want["k2"] = texts[(i-253*4)/24], texts[(i-253*4)%24]
				}
				a := copyArgs(want)
				for r := 0; r < 2; r++ {
					for k, f := range []string{a.SemicolonString(), a.CommaString(), a.CRLFString()} {
						got := sips.ParseArgsPairs(f)
						if k == 0 {
							got = sips.ParseArgs(f)
						}
						c.Check(argsText(got) == argsText(want), "%s is written as %q, which parses to %s", argsText(want), f, argsText(got))
					}
				}
				// behind an address, a URI and a Via value
				for _, name := range []string{"", "N"} {
					u := uriParts{"sip", name, "u", "h", "5060", want}
					su := &sips.SIPUser{URIType: "sip", Name: name, User: "u", Host: "h", Port: "5060", Args: copyArgs(want)}
					got := userParts(sips.NewSIPUser(su.String()))
					c.Check(sameParts(got, u), "address %v serialises to %q, which parses to %v", u, su.String(), got)
					u.name = ""
					r := su.ToRequest()
					got = reqParts(sips.NewSIPRequest(r.String()))
					c.Check(sameParts(got, u), "URI %v serialises to %q, which parses to %v", u, r.String(), got)
				}
				v := &sips.SIPVia{Trans: "UDP", Host: "h", Port: "1", Args: copyArgs(want)}
				w := sips.NewSIPVia(v.String())
				c.Check(w.Trans == "UDP" && w.Host == "h" && w.Port == "1" && argsText(w.Args) == argsText(want), "%q parses to host %q port %q args %s", v.String(), w.Host, w.Port, argsText(w.Args))
				c.Eval(11)
				c.State(argsText(want))
				c.Outcome(argsText(want))
			}))
			dm := pick(6, 7)
			ss = append(ss, &Scenario{Name: "map", Note: fmt.Sprintf("every history of %d set, delete and get operations on three keys", dm), Run: func(c *Ctx) {
				a := sips.NewArgs()
				m := map[string]string{}
				ks := []string{"a", "A", ""}
				for i := 0; i < dm; i++ {
					k := ks[c.Choose(3)]
					switch c.Choose(3) {
					case 0:
						a.Set(k, fmt.Sprint(i))
						m[k] = fmt.Sprint(i)
					case 1:
						a.Set(k, "")
						m[k] = ""
					case 2:
						a.Del(k)
						delete(m, k)
					}
					for _, k := range append(ks, "zz") {
						c.Check(a.Get(k) == m[k], "Get(%q) is %q, want %q", k, a.Get(k), m[k])
					}
					c.Check(len(a) == len(m) && argsText(a) == argsText(m), "set is %s, want %s", argsText(a), argsText(m))
					c.Step(1)
					c.State(argsText(m))
				}
				c.Eval(dm)
			}})
			ss = append(ss, chunked("lengths", "names and values of every length up to 1100 and around powers of two up to 65536, parsed with each separator and quoting, and serialised in three styles", len(textLens), 8, func(c *Ctx, i int) {
				t := rep(textLens[i])
				for k, want := range []map[string]string{{t: "v", "z": "1"}, {"k": t, "z": "1"}, {t: ""}, {"k": t + ";" + t, "z": ""}, {t: t}} {
					for _, sep := range []string{";", ", ", "\r\n"} {
						var parts []string
						for _, key := range []string{t, "k", "z"} {
							v, ok := want[key]
							switch {
							case !ok:
							case v == "":
								parts = append(parts, key)
							case k%2 == 1:
								parts = append(parts, key+`="`+v+`"`)
							default:
								parts = append(parts, key+"="+v)
							}
						}
						got := sips.ParseArgsPairs(strings.Join(parts, sep))
						c.Check(argsText(got) == argsText(want), "arguments with texts of %d bytes (%d) joined by %q parse to %s", len(t), k, sep, clip(argsText(got), 200))
					}
					a := sips.Args(copyArgs(want))
					for j, got := range []sips.Args{sips.ParseArgs("x" + a.SemicolonString()), sips.ParseArgsPairs(a.CommaString()), sips.ParseArgsPairs(a.CRLFString())} {
						c.Check(argsText(got) == argsText(want), "arguments with texts of %d bytes (%d) in style %d parse to %s", len(t), k, j, clip(argsText(got), 200))
					}
					c.Eval(6)
				}
				c.State(len(t))
			}))
			ss = append(ss, chunked("many-pairs", "1..400, 1000 and 5000 arguments, some without a value, joined by each separator, and sets of as many in three styles; authorizations of as many", 402*4, 32, func(c *Ctx, i int) {
				n := i/4 + 1
				if n > 400 {
					n = []int{1000, 5000}[n-401]
				}
				want := map[string]string{}
				var parts []string
				for k := 0; k < n; k++ {
					key := "k" + strconv.Itoa(k)
					want[key] = "v" + strconv.Itoa(k)
					if k%5 == 3 {
						want[key] = "a;b,c"
						parts = append(parts, key+`="a;b,c"`)
						continue
					}
					if k%7 == 2 && i%4 != 3 {
						want[key] = ""
						parts = append(parts, key)
						continue
					}
					parts = append(parts, key+"="+want[key])
				}
				t := strings.Join(parts, []string{";", ", ", "\r\n", ","}[i%4])
				got := sips.ParseArgsPairs(t)
				c.Check(argsText(got) == argsText(want), "%d pairs parse to %d", n, len(got))
				if i%4 == 3 {
					got = sips.NewSIPAuth("Digest " + t).Args
					c.Check(argsText(got) == argsText(want), "authorization of %d pairs parses to %d", n, len(got))
				}
				a := sips.Args(copyArgs(want))
				switch i % 4 {
				case 0:
					got = sips.ParseArgs("x" + a.SemicolonString())
				case 1:
					got = sips.ParseArgsPairs(a.CommaString())
				default:
					got = sips.ParseArgsPairs(a.CRLFString())
				}
				c.Check(argsText(got) == argsText(want), "a set of %d, serialised and parsed, has %d", n, len(got))
				c.State(i)
			}))
			ss = append(ss, chunked("escaped-bytes", "a backslash in front of every byte but line ends, in the first, middle and last place of a quoted value, alone, doubled and behind an escaped backslash: the byte stands for itself", 256*9, 64, func(c *Ctx, i int) {
				ch := byte(i / 9)
				if ch == '\r' || ch == '\n' || ch == 0 {
					return
				}
				e, v := string([]byte{'\\', ch}), string([]byte{ch})
				switch i / 3 % 3 {
				case 1:
					e, v = e+e, v+v
				case 2:
					e, v = `\\`+e, `\`+v
				}
				e = []string{e + "ab", "a" + e + "b", "ab" + e}[i%3]
				v = []string{v + "ab", "a" + v + "b", "ab" + v}[i%3]
				want := map[string]string{"k": v, "l": "1"}
				got := sips.ParseArgsPairs(`k="` + e + `", l=1`)
				c.Check(argsText(got) == argsText(want), "k=\"%s\" parses to %s, want %s", e, argsText(got), argsText(want))
				c.State(i)
			}))
			ss = append(ss, chunked("value-ends", "every pair of printable ASCII characters as first and last of a value, quoted and (unless separators) unquoted, with 0..2 characters between", 95*95*3, 256, func(c *Ctx, i int) {
				a, b := string([]byte{byte(32 + i/3/95)}), string([]byte{byte(32 + i/3%95)})
				mid := []string{"", "x", "y z"}[i%3]
				esc := func(s string) string {
					if s == `"` || s == `\` {
						return `\` + s
					}
					return s
				}
				t := `k1="` + esc(a) + mid + esc(b) + `", k2=1`
				want := map[string]string{"k1": a + mid + b, "k2": "1"}
				got := sips.ParseArgsPairs(t)
				c.Check(argsText(got) == argsText(want), "%q parses to %s, want %s", t, argsText(got), argsText(want))
				if i%3 < 2 && !strings.ContainsAny(a+b, " ,;\"") {
					t = "k1=" + a + mid + b + ";k2=1"
					got := sips.ParseArgsPairs(t)
					c.Check(argsText(got) == argsText(want), "%q parses to %s, want %s", t, argsText(got), argsText(want))
				}
				c.Eval(2)
			}))
			ss = append(ss, chunked("value-characters", "every byte inside a quoted value (quote and backslash escaped) every printable character but separators, quotes and blanks unquoted, and every token character in keys, in the first, middle and last place, and authorization lists", 256*9, 16, func(c *Ctx, i int) {
				ch := string([]byte{byte(i / 9)})
				if ch == "\x00" {
					return
				}
				esc := ch
				if ch == `"` || ch == `\` {
					esc = `\` + ch
				}
				place := i % 3
				v := []string{ch + "ab", "a" + ch + "b", "ab" + ch}[place]
				q := []string{esc + "ab", "a" + esc + "b", "ab" + esc}[place]
				t := fmt.Sprintf("k1=\"%s\"", q)
				want := map[string]string{"k1": v}
				switch i / 3 % 3 {
				case 1:
					t = "k0=1, " + t + `, k2="z"`
					want["k0"], want["k2"] = "1", "z"
				case 2:
					tok := ch[0] >= '0' && ch[0] <= '9' || ch[0] >= 'a' && ch[0] <= 'z' || ch[0] >= 'A' && ch[0] <= 'Z' || strings.Contains("-.!%*_+`'~", ch)
					if ch <= " " || ch == "\x7f" || strings.Contains(",;\"", ch) {
						return
					}
					if !tok {
						t = "k1=" + v + "; k2=" + v + ",k3=1"
						want = map[string]string{"k1": v, "k2": v, "k3": "1"}
						break
					}
					t = v + "x=" + v + "; " + v + "y"
					want = map[string]string{v + "x": v, v + "y": ""}
				}
				got := sips.ParseArgsPairs(t)
				c.Check(argsText(got) == argsText(want), "%q parses to %s, want %s", t, argsText(got), argsText(want))
				for _, sch := range []string{"Digest ", "DIGEST ", "digest "} {
					got = sips.NewSIPAuth(sch + t).Args
					c.Check(argsText(got) == argsText(want), "authorization %q parses to %s, want %s", sch+t, argsText(got), argsText(want))
				}
				c.State(argsText(want))
			}))
			return ss
		},
	})

	register(&Prop{
		ID: "S07", Level: "exploration",
		Rule:        "Each evaluation converts one name, version, status code or first line with the real code and compares with independent tables from the standards.",
		Assumptions: []string{"Letter case is that of ASCII letters; other characters are distinct from them"},
		Build: func(th bool) []*Scenario {
			var ss []*Scenario
			ss = append(ss, chunked("method-cases", "every letter case of every method name, and its value and text", len(sipMethods)*512, 64, func(c *Ctx, i int) {
				m, k := sipMethods[i/512], i%512
				if k >= 1<<uint(len(m.s)) {
					return
				}
				n := caseOf(m.s, k)
				got, err := sips.GetSIPMethod(n)
				c.Check(err == nil && got == m.m, "method %q gives %v, %v", n, got, err)
				c.Check(got.String() == m.s, "method %q is written %q", n, got.String())
				c.Outcome(n)
			}))
			known := map[string]bool{}
			for _, m := range sipMethods {
				known[m.s] = true
			}
			refuse := func(c *Ctx, n string) {
				if known[asciiUpper(n)] {
					return
				}
				got, err := sips.GetSIPMethod(n)
				c.Check(err != nil, "unknown method %q gives %v", n, got)
				e := sips.NewSIP().ParseFirstLine([]byte(n + " sip:a@b SIP/2.0"))
				if !strings.Contains(n, " ") {
					c.Check(e != nil, "first line with method %q accepted", n)
				}
			}
			ss = append(ss, chunked("other-methods", "every name of up to 4 capital letters, and every defined name with one character removed, replaced or added", 27*27*27*27, 1024, func(c *Ctx, i int) {
				var b []byte
				for k := 0; k < 4; k++ {
					if v := i % 27; v > 0 {
						b = append(b, byte('A'+v-1))
					}
					i /= 27
				}
				refuse(c, string(b))
			}))
			ss = append(ss, chunked("near-methods", "every defined method and version name with one character removed, replaced by or preceded by any ASCII character", len(sipMethods)*10*128, 256, func(c *Ctx, i int) {
				m, k, ch := sipMethods[i/1280].s, i/128%10, string([]byte{byte(i % 128)})
				if k <= len(m) {
					refuse(c, m[:k]+ch+m[k:])
					if k < len(m) {
						refuse(c, m[:k]+m[k+1:])
						refuse(c, m[:k]+ch+m[k+1:])
					}
				}
				v := []string{"SIP/1.0", "SIP/2.0"}[i/1280%2]
				var n string
				if k <= len(v) {
					n = v[:k] + ch + v[k:]
					if k < len(v) && i/1280 >= 4 {
						n = v[:k] + ch + v[k+1:]
					}
				}
				got, err := sips.GetSIPVersion(n)
				switch asciiUpper(n) {
				case "SIP/1.0":
					c.Check(err == nil && got == sips.SIPVersion1, "version %q gives %v, %v", n, got, err)
				case "SIP/2.0":
					c.Check(err == nil && got == sips.SIPVersion2, "version %q gives %v, %v", n, got, err)
				default:
					c.Check(err != nil, "unknown version %q gives %v", n, got)
				}
			}))
			ss = append(ss, chunked("look-alikes", "every letter of every method and version name replaced by every character U+0080..U+2FFF, and by every later one that Unicode case mapping or folding relates to ASCII", len(sipMethods)+2, 1, func(c *Ctx, i int) {
				name := "SIP/2.0"
				if i < len(sipMethods) {
					name = sipMethods[i].s
				} else if i > len(sipMethods) {
					name = "SIP/1.0"
				}
				for r := rune(0x80); r <= unicode.MaxRune; r++ {
					if r >= 0x3000 && unicode.ToUpper(r) >= 0x80 && unicode.ToLower(r) >= 0x80 && unicode.SimpleFold(r) >= 0x80 {
						continue
					}
					for k := 0; k < len(name); k++ {
						n := name[:k] + string(r) + name[k+1:]
						if i < len(sipMethods) {
							got, err := sips.GetSIPMethod(n)
							c.Check(err != nil, "unknown method %q gives %v", n, got)
							if r < 0x300 {
								refuse(c, n)
							}
							continue
						}
						got, err := sips.GetSIPVersion(n)
						c.Check(err != nil, "unknown version %q gives %v", n, got)
						if r < 0x300 {
							for _, l := range []string{"BYE sip:a@b " + n, n + " 200 OK"} {
								c.Check(sips.NewSIP().ParseFirstLine([]byte(l)) != nil, "first line %q accepted", l)
							}
						}
					}
				}
				c.Outcome(name)
			}))
			ss = append(ss, chunked("values", "every method value 0..65535 and version value: text and back", 65536, 1024, func(c *Ctx, i int) {
				name := ""
				for _, m := range sipMethods {
					if int(m.m) == i {
						name = m.s
					}
				}
				s := sips.SIPMethod(i).String()
				if name != "" {
					c.Check(s == name, "method %d is %q, want %q", i, s, name)
				} else {
					c.Check(!known[strings.ToUpper(s)], "undefined method %d is %q", i, s)
				}
				if i < 256 {
					v := sips.SIPVersion(i).String()
					c.Check((v == "SIP/1.0") == (i == 1), "version %d is %q", i, v)
					if i == 2 {
						c.Check(v == "SIP/2.0", "version 2 is %q", v)
					}
				}
			}))
			vers := []struct {
				s string
				v sips.SIPVersion
			}{{"SIP/1.0", sips.SIPVersion1}, {"SIP/2.0", sips.SIPVersion2}}
			ss = append(ss, chunked("versions", "every letter case of both versions, alone and in first lines", 16, 2, func(c *Ctx, i int) {
				v := vers[i%2]
				n := caseOf(v.s, i/2)
				got, err := sips.GetSIPVersion(n)
				c.Check(err == nil && got == v.v && got.String() == v.s, "version %q gives %v, %v", n, got, err)
				s := sips.NewSIP()
				err = s.ParseFirstLine([]byte("bYe sip:a@b " + n))
				c.Check(err == nil && s.Version == v.v && s.Method == sips.SIPMethodBye && !s.IsResponse, "request with version %q: %v", n, err)
				s = sips.NewSIP()
				err = s.ParseFirstLine([]byte(n + " 404 Not Found"))
				c.Check(err == nil && s.Version == v.v && s.IsResponse && s.ResponseCode.Int() == 404 && s.ResponseStatus == "Not Found", "response with version %q: %v", n, err)
			}))
			ss = append(ss, chunked("status", "every code 0..999: decimal form, reason phrase of the defined ones, and the first line of a response with it", 1000, 32, func(c *Ctx, i int) {
				st := sips.SIPStatus(i)
				c.Check(st.String() == strconv.Itoa(i) && st.Int() == i, "code %d is written %q", i, st.String())
				if r, ok := sipReasons[i]; ok {
					t := st.Text()
					c.Check(t == r || (i == 480 && t == "No Response"), "code %d has reason %q, want %q", i, t, r)
				} else {
					c.Check(st.Text() == "", "undefined code %d has reason %q", i, st.Text())
				}
				if i < 100 {
					return
				}
				for _, reason := range []string{"OK", "Some Other Reason 12", sips.SIPStatus(i).Text(), "x"} {
					s := sips.NewSIP()
					err := s.ParseFirstLine([]byte("SIP/2.0 " + strconv.Itoa(i) + " " + reason))
					c.Check(err == nil && s.IsResponse && s.ResponseCode == st && s.ResponseStatus == reason && s.Version == sips.SIPVersion2, "response line with code %d reason %q: %v %v %q", i, reason, err, s.ResponseCode, s.ResponseStatus)
				}
				c.Outcome(st.Text())
			}))
			ss = append(ss, chunked("reason-lengths", "reason phrases of every length up to 1100 and around powers of two up to 65536, of one word and of many", len(textLens), 16, func(c *Ctx, i int) {
				for _, w := range []string{"k", "ab ", "é"} {
					reason := strings.TrimRight(strings.Repeat(w, textLens[i]/len(w)+1)[:textLens[i]/len(w)*len(w)], " ")
					if reason == "" {
						continue
					}
					s := sips.NewSIP()
					err := s.ParseFirstLine([]byte("SIP/2.0 486 " + reason))
					c.Check(err == nil && s.ResponseStatus == reason && s.ResponseCode == 486, "reason phrase of %d bytes: %v, %d bytes", len(reason), err, len(s.ResponseStatus))
					s, err = parseSip([]byte("SIP/2.0 486 " + reason + "\r\nContent-Length: 0\r\n\r\n"))
					c.Check(err == nil && s.ResponseStatus == reason && s.ResponseCode == 486, "message with a reason phrase of %d bytes: %v", len(reason), err)
				}
				c.Outcome(textLens[i])
			}))
			ss = append(ss, chunked("request-lines", "every method x both versions x 6 URIs", len(sipMethods)*2*len(uris), 16, func(c *Ctx, i int) {
				m, v, u := sipMethods[i%len(sipMethods)], vers[i/len(sipMethods)%2], uris[i/len(sipMethods)/2]
				s := sips.NewSIP()
				err := s.ParseFirstLine([]byte(m.s + " " + mkReq(u).String() + " " + v.s))
				c.Check(err == nil && !s.IsResponse && s.Method == m.m && s.Version == v.v && sameParts(reqParts(s.Request), u), "request line: %v %v", err, s.Request)
			}))
			bad := []string{"", "INVITE", "INVITE sip:a", "SIP/2.0", "SIP/2.0 200", "SIP/2.0 abc OK", "SIP/3.0 200 OK", "SIP/2.0  200 OK", "INVITE sip:a SIP/2.1", "INVITE sip:a HTTP/1.1", "GET / HTTP/1.1", "INVITE sip:a SIP/2.0 ", " INVITE sip:a SIP/2.0", "SIP/2.0 2x0 OK", "SIP 200 OK", "INVITE  sip:a SIP/2.0", "SIP/2.0 0x64 OK", "SIP/2.0 0b1 OK", "SIP/2.0 0o17 OK", "SIP/2.0 1_00 OK", "SIP/2.0 2e2 OK", "SIP/2.0 200.0 OK", "SIP/2.0 OK 200", "SIP/2.0 99999999999999999999 OK", "SIP/2.0 ٢٠٠ OK",
				"INVITE sip:a SIP/2.0x", "INVITE sip:a SIP/2.00", "INVITE sip:a SIP/2", "INVITE sip:a sip:b SIP/2.0", "SIP/2.0x 200 OK", "SIP/2.00 200 OK", "SIPS/2.0 200 OK", "SIPPING sip:a SIP/2.0", "INVITEX sip:a SIP/2.0", "INVIT sip:a SIP/2.0", "INVITE/ sip:a SIP/2.0", "INVITE\tsip:a\tSIP/2.0", "Unknown sip:a SIP/2.0", "200 OK SIP/2.0", "SIP/2.0\t200 OK"}
			ss = append(ss, chunked("bad-lines", "first lines with missing parts, unknown versions, malformed codes", len(bad), 4, func(c *Ctx, i int) {
				s := sips.NewSIP()
				err := s.ParseFirstLine([]byte(bad[i]))
				c.Check(err != nil, "first line %q accepted", bad[i])
				c.Check(sips.NewSIP().ParseBytes([]byte(bad[i]+"\r\nContent-Length: 0\r\n\r\n")) != nil, "message with first line %q accepted", bad[i])
			}))
			return ss
		},
	})
}
