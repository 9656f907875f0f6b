package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/moggle-mog/goav/sips"
)

// An independent reader of the grammar of RFC 3261 for the values that are serialised.

func gramToken(c byte, extra string) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("-.!%*_+`'~", c) >= 0 || strings.IndexByte(extra, c) >= 0
}

func gramSpan(s string, extra string) string {
	i := 0
	for i < len(s) && gramToken(s[i], extra) {
		i++
	}
	return s[:i]
}

func gramBlank(s string) string { return strings.TrimLeft(s, " \t") }

// gramQuoted reads a quoted string at the beginning of s.
func gramQuoted(s string) (v, rest string, err error) {
	var b []byte
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '"':
			return string(b), s[i+1:], nil
		case s[i] == '\r' || s[i] == '\n':
			return "", "", fmt.Errorf("line end in a quoted string")
		case s[i] == '\\':
			i++
			if i >= len(s) || s[i] == '\r' || s[i] == '\n' {
				return "", "", fmt.Errorf("bad escape")
			}
			b = append(b, s[i])
		default:
			b = append(b, s[i])
		}
	}
	return "", "", fmt.Errorf("quoted string without end")
}

// gramParams reads ;name[=value] as often as they follow.
func gramParams(s string, m map[string]string) (rest string, err error) {
	for {
		t := gramBlank(s)
		if t == "" || t[0] != ';' {
			return s, nil
		}
		t = gramBlank(t[1:])
		k := gramSpan(t, "[]/:&$")
		if k == "" {
			return "", fmt.Errorf("parameter without a name at %q", t)
		}
		if _, dup := m[k]; dup {
			return "", fmt.Errorf("parameter %q twice", k)
		}
		t = t[len(k):]
		m[k] = ""
		s = t
		if t = gramBlank(t); t != "" && t[0] == '=' {
			t = gramBlank(t[1:])
			if t != "" && t[0] == '"' {
				if m[k], t, err = gramQuoted(t); err != nil {
					return "", err
				}
			} else {
				if m[k] = gramSpan(t, "[]/:&$"); m[k] == "" {
					return "", fmt.Errorf("parameter %q with = and no value", k)
				}
				t = t[len(m[k]):]
			}
			s = t
		}
	}
}

// gramHost reads host [":" port].
func gramHost(s string) (host, port, rest string, err error) {
	if s != "" && s[0] == '[' {
		i := strings.IndexByte(s, ']')
		if i < 0 {
			return "", "", "", fmt.Errorf("address reference without end")
		}
		host, s = s[:i+1], s[i+1:]
	} else {
		host = gramSpan(s, "")
		s = s[len(host):]
	}
	if host == "" {
		return "", "", "", fmt.Errorf("no host at %q", s)
	}
	if s != "" && s[0] == ':' {
		port = s[1:]
		for i := 0; i < len(port); i++ {
			if port[i] < '0' || port[i] > '9' {
				port = port[:i]
			}
		}
		if port == "" {
			return "", "", "", fmt.Errorf("colon without a port")
		}
		s = s[1+len(port):]
	}
	return host, port, s, nil
}

// gramURI reads scheme:[user@]host[:port]params or tel:number params.
func gramURI(s string) (u uriParts, rest string, err error) {
	u.args = map[string]string{}
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return u, "", fmt.Errorf("no scheme in %q", s)
	}
	u.typ, s = strings.ToLower(s[:i]), s[i+1:]
	switch u.typ {
	case "tel":
		u.user = gramSpan(s, "()")
		if u.user == "" {
			return u, "", fmt.Errorf("no number")
		}
		s = s[len(u.user):]
	case "sip", "sips":
		end := strings.IndexAny(s, "<> \"")
		if end < 0 {
			end = len(s)
		}
		if at := strings.IndexByte(s[:end], '@'); at >= 0 {
			u.user = s[:at]
			if u.user != gramSpan(u.user, "()&=+$,;?/:") || u.user == "" || u.user[0] == ':' {
				return u, "", fmt.Errorf("bad user part %q", u.user)
			}
			s = s[at+1:]
		}
		if u.host, u.port, s, err = gramHost(s); err != nil {
			return u, "", err
		}
	default:
		return u, "", fmt.Errorf("scheme %q", u.typ)
	}
	rest, err = gramParams(s, u.args)
	return u, rest, err
}

// gramAddress reads [name] <uri> params.
func gramAddress(s string) (u uriParts, err error) {
	s = gramBlank(s)
	name := ""
	if s != "" && s[0] == '"' {
		if name, s, err = gramQuoted(s); err != nil {
			return u, err
		}
	} else {
		name = strings.TrimRight(gramSpan(s, " \t"), " \t")
		s = s[len(name):]
	}
	if s = gramBlank(s); s == "" || s[0] != '<' {
		return u, fmt.Errorf("no address in brackets")
	}
	u, s, err = gramURI(s[1:])
	u.name = name
	if err != nil {
		return u, err
	}
	if s == "" || s[0] != '>' {
		return u, fmt.Errorf("%q where the bracket should close", s)
	}
	if s, err = gramParams(s[1:], u.args); err == nil && strings.TrimSpace(s) != "" {
		err = fmt.Errorf("%q behind the address", s)
	}
	return u, err
}

// gramVia reads protocol / version / transport host params.
func gramVia(s string) (tr, host, port string, args map[string]string, err error) {
	args = map[string]string{}
	for i := 0; i < 3; i++ {
		s = gramBlank(s)
		t := gramSpan(s, "")
		s = s[len(t):]
		switch {
		case i == 0 && strings.ToUpper(t) != "SIP", i == 1 && t != "2.0", t == "":
			return "", "", "", nil, fmt.Errorf("bad protocol part %q", t)
		case i == 2:
			tr = t
		default:
			if s = gramBlank(s); s == "" || s[0] != '/' {
				return "", "", "", nil, fmt.Errorf("no slash")
			}
			s = s[1:]
		}
	}
	t := gramBlank(s)
	if t == s {
		return "", "", "", nil, fmt.Errorf("no blank behind the transport")
	}
	if host, port, s, err = gramHost(t); err != nil {
		return
	}
	if s, err = gramParams(s, args); err == nil && strings.TrimSpace(s) != "" {
		err = fmt.Errorf("%q behind the value", s)
	}
	return
}

// readBack checks that an independent reader finds exactly the parts in the
// serialised address and URI.
func readBack(c *Ctx, u uriParts, su *sips.SIPUser, sr *sips.SIPRequest) {
	if su != nil {
		t := su.String()
		got, err := gramAddress(t)
		c.Check(err == nil && sameParts(got, u), "address %v serialises to %q, which reads as %v (%v)", u, t, got, err)
	}
	if sr != nil {
		u.name = ""
		t := sr.String()
		got, rest, err := gramURI(t)
		c.Check(err == nil && rest == "" && sameParts(got, u), "URI %v serialises to %q, which reads as %v, then %q (%v)", u, t, got, rest, err)
	}
}

func sipGrammar(th bool) []*Scenario {
	var ss []*Scenario
	// display names of every character
	n := 0x110000
	ss = append(ss, chunked("name-characters", "display names with every byte and every Unicode character but the line ends, alone, doubled and between letters", (256+n)/64+1, 256, func(c *Ctx, i int) {
		for k := i * 64; k < i*64+64; k++ {
			ch := ""
			if k < 256 {
				ch = string([]byte{byte(k)})
			} else if r := rune(k - 256); r < 0x110000 && utf8.ValidRune(r) {
				ch = string(r)
			}
			if ch == "" || ch == "\r" || ch == "\n" || ch == "\x00" {
				continue
			}
			for f, name := range []string{ch + ch, "a" + ch + "b", ch} {
				if strings.TrimSpace(name) != name {
					continue
				}
				if f > 0 && k >= 0x10000 && k%16 != 0 && !th {
					continue
				}
				su := &sips.SIPUser{URIType: "sip", Name: name, User: "u", Host: "h"}
				u := uriParts{"sip", name, "u", "h", "", map[string]string{}}
				t := su.String()
				got := sips.NewSIPUser(t)
				if got.Name != name || got.User != "u" || got.Host != "h" || len(got.Args) != 0 || got.URIType != "sip" || got.Port != "" {
					c.Fail("address %v serialises to %q, which parses to %v", u, t, userParts(got))
				}
				if k < 0x3000+256 {
					readBack(c, u, su, nil)
				}
			}
		}
		c.Outcome(i)
	}))
	// blanks and letter case in written values
	blanks := []string{"", " ", "\t", "  ", " \t "}
	us := []uriParts{
		{"sip", "", "bob", "host", "", map[string]string{}},
		{"sips", "", "", "[2001:db8::1]", "5060", map[string]string{"lr": ""}},
		{"tel", "", "+12125551212", "", "", map[string]string{"tag": "a48s"}},
		{"sip", "Bob", "user:password", "h", "0", map[string]string{"tag": "a48s", "lr": ""}},
		{"sips", "Mr. Watson", "u", "h", "", map[string]string{"t": "a,b;c"}},
		{"sip", `a"b\c<x>;y=z`, "bob", "h", "1", map[string]string{"q": "0.5"}},
	}
	schemes := func(s string) []string {
		var r []string
		for k := 0; k < 1<<uint(len(s)); k++ {
			r = append(r, caseOf(s, k))
		}
		return r
	}
	nb := len(blanks)
	ss = append(ss, chunked("blanks", fmt.Sprintf("%d addresses with every choice of %d kinds of blanks ahead, between name and address, ahead of and behind each semicolon and equals sign, at the end, the scheme in every letter case", len(us), nb), len(us)*nb*nb*nb*nb, 16, func(c *Ctx, i int) {
		u := us[i%len(us)]
		x := i / len(us)
		lead, semi, eq, end := blanks[x%nb], blanks[x/nb%nb], blanks[x/nb/nb%nb], blanks[x/nb/nb/nb%nb]
		for _, sc := range schemes(u.typ) {
			uri := sc + ":" + u.user
			if u.user != "" && u.host != "" {
				uri += "@"
			}
			uri += u.host
			if u.port != "" {
				uri += ":" + u.port
			}
			name := ""
			var names []string
			if u.name != "" {
				name = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(u.name) + `"`
				names = append(names, name+lead)
				if gramSpan(u.name, " ") == u.name && lead != "" {
					names = append(names, u.name+lead)
				}
			} else {
				names = append(names, "")
			}
			ps := ""
			for _, k := range argOrders(u.args)[0] {
				ps += semi + ";" + end + k
				if v := u.args[k]; v != "" {
					if v != gramSpan(v, "") {
						v = `"` + v + `"`
					}
					ps += eq + "=" + end + v
				}
			}
			for _, nm := range names {
				f := lead + nm + "<" + uri + ">" + ps + end
				got := sips.NewSIPUser(f)
				g := userParts(got)
				g.typ = strings.ToLower(g.typ)
				c.Check(sameParts(g, u), "%q parses to %v, want %v", f, g, u)
				s, err := parseSip(sipText("INVITE sip:a SIP/2.0", [][2]string{{"From", f}, {"m", f}, {"Content-Length", "0"}}, nil))
				c.Check(err == nil, "%q: %v", f, err)
				for _, m := range []*sips.SIPUser{s.From, s.Contact, s.Headers.GetSIPFrom()} {
					g = userParts(m)
					g.typ = strings.ToLower(g.typ)
					c.Check(sameParts(g, u), "header value %q parses to %v, want %v", f, g, u)
				}
				c.Eval(2)
			}
			if u.name == "" && x == 0 {
				f := uri + ps
				g := reqParts(sips.NewSIPRequest(f))
				g.typ = strings.ToLower(g.typ)
				c.Check(sameParts(g, u), "URI %q parses to %v, want %v", f, g, u)
				s, err := parseSip(sipText("INVITE "+f+" SIP/2.0", [][2]string{{"Content-Length", "0"}}, nil))
				c.Check(err == nil, "%q: %v", f, err)
				g = reqParts(s.Request)
				g.typ = strings.ToLower(g.typ)
				c.Check(sameParts(g, u), "request URI %q parses to %v, want %v", f, g, u)
			}
			c.Outcome(u.String(), sc)
		}
	}))
	type via struct {
		tr, host, port string
		args           map[string]string
	}
	vs := []via{{"UDP", "first.example.com", "4000", map[string]string{"ttl": "16", "branch": "z9hG4bKa7c6a8dlze.1"}}, {"TLS-SCTP", "[::1]", "", map[string]string{"rport": ""}}, {"tcp", "h", "5060", map[string]string{}}, {"UDP", "h", "", map[string]string{"t": "a,b;c"}}}
	more := []string{"", ",", ", SIP/2.0/TCP other:9;branch=other;x=1", " ,SIP/2.0/TLS o", ",\tSIP/2.0/UDP h, SIP/2.0/UDP i;rport=7"}
	ss = append(ss, chunked("via-blanks", fmt.Sprintf("%d Via values with every choice of %d kinds of blanks around the slashes, ahead of the host, around colon, semicolons and equals signs, with the protocol name in every letter case, alone and with up to two further values behind a comma", len(vs), nb), len(vs)*nb*nb*nb*nb*len(more), 64, func(c *Ctx, i int) {
		v := vs[i%len(vs)]
		x := i / len(vs)
		m := more[x%len(more)]
		x /= len(more)
		b1, b2, b3, b4 := blanks[x%nb], blanks[x/nb%nb], blanks[x/nb/nb%nb], blanks[x/nb/nb/nb%nb]
		sep := b3
		if sep == "" {
			sep = " "
		}
		f := caseOf("SIP", x&7) + b1 + "/" + b2 + "2.0" + b2 + "/" + b1 + v.tr + sep + v.host
		if v.port != "" {
			f += b3 + ":" + b4 + v.port
		}
		for _, k := range argOrders(v.args)[0] {
			f += b4 + ";" + b1 + k
			if a := v.args[k]; a != "" {
				if a != gramSpan(a, "") {
					a = `"` + a + `"`
				}
				f += b2 + "=" + b3 + a
			}
		}
		f += m
		check := func(g *sips.SIPVia) {
			c.Check(g.Trans == v.tr && g.Host == v.host && g.Port == v.port && argsText(g.Args) == argsText(v.args), "%q parses to transport %q host %q port %q args %s", f, g.Trans, g.Host, g.Port, argsText(g.Args))
		}
		check(sips.NewSIPVia(f))
		s, err := parseSip(sipText("INVITE sip:a SIP/2.0", [][2]string{{"v", f}, {"Via", "SIP/2.0/UDP behind"}, {"Content-Length", "0"}}, nil))
		c.Check(err == nil, "%q: %v", f, err)
		check(s.Via)
		check(s.Headers.GetSIPVia())
		c.Eval(2)
		c.Outcome(f)
	}))
	ids := []string{"0", "4711", "4294967295"}
	ss = append(ss, chunked("cseq-blanks", "sequence number and method with every kind of blanks between", len(ids)*len(sipMethods)*nb, 16, func(c *Ctx, i int) {
		b := blanks[i%nb]
		if b == "" {
			b = "\t\t"
		}
		id, m := ids[i/nb%len(ids)], sipMethods[i/nb/len(ids)].s
		f := id + b + m
		r := sips.NewSIPCseq(f)
		c.Check(r.ID == id && r.Method == m, "%q parses to %q %q", f, r.ID, r.Method)
		s, err := parseSip(sipText(m+" sip:a SIP/2.0", [][2]string{{"CSeq", f}, {"Content-Length", "0"}}, nil))
		c.Check(err == nil && s.Cseq.ID == id && s.Cseq.Method == m && s.Headers.GetSIPCseq().Method == m, "header value %q parses to %q %q (%v)", f, s.Cseq.ID, s.Cseq.Method, err)
	}))
	return ss
}
