// C15: the authentication decision of pkg/httpauth.
package main

import (
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"errors"
	"fmt"
	"net"
	"slices"
	"strings"

	fiber "github.com/gofiber/fiber/v3"
	"github.com/valyala/fasthttp"
	"golang.org/x/crypto/bcrypt"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/vatomic"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

type scopes = []httpauth.Scope

const (
	rd = httpauth.ScopeRead
	wr = httpauth.ScopeWrite
	ad = httpauth.ScopeAdmin
)

func hash(pw string) []byte {
	b, err := bcrypt.GenerateFromPassword([]byte(pw), bcrypt.MinCost)
	if err != nil {
		panic(err)
	}
	plainOf[string(b)] = pw
	return b
}

var plainOf = map[string]string{} // hash -> password

type user struct{ name, pw string }

var (
	uAnn = user{"ann", "pw:with:colons"}
	uBob = user{"bob", "b"}
)

func basics() [][]httpauth.BasicIdentity {
	a := httpauth.BasicIdentity{Username: "ann", ID: "user-ann", PasswordBcrypt: hash(uAnn.pw), Scopes: scopes{rd}}
	b := httpauth.BasicIdentity{Username: "bob", ID: "user-bob", PasswordBcrypt: hash(uBob.pw), Scopes: scopes{wr, ad}}
	n := httpauth.BasicIdentity{Username: "nopw", ID: "user-nopw", PasswordBcrypt: hash(""), Scopes: scopes{ad}}
	return [][]httpauth.BasicIdentity{nil, {a}, {b, a, n}}
}

func tokens() [][]httpauth.TokenIdentity {
	t1 := httpauth.TokenIdentity{ID: "t1", Token: "tok-1", Scopes: scopes{rd}}
	t2 := httpauth.TokenIdentity{ID: "t2", Token: "tok-2", Scopes: scopes{wr}}
	t3 := httpauth.TokenIdentity{ID: "t3", Token: "tok-", Scopes: scopes{rd, wr, ad}} // prefix of the others
	t4 := httpauth.TokenIdentity{ID: "t4", Token: "tok 4:é=", Scopes: scopes{ad}}
	return [][]httpauth.TokenIdentity{nil, {t1}, {t1, t2}, {t3, t2, t4, t1}}
}

func certs() [][]httpauth.CertIdentity {
	a := httpauth.CertIdentity{SubjectCN: "app", Scopes: scopes{rd}}
	b := httpauth.CertIdentity{SubjectCN: "app.internal", Scopes: scopes{wr, rd}}
	return [][]httpauth.CertIdentity{nil, {a}, {b, a}}
}

var errHook = errors.New("hook says no")

// conns
type tlsConn struct {
	net.Conn
	st tls.ConnectionState
}

func (tlsConn) Handshake() error                       { return nil }
func (c tlsConn) ConnectionState() tls.ConnectionState { return c.st }
func (tlsConn) RemoteAddr() net.Addr                   { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 9), Port: 1} }
func (tlsConn) LocalAddr() net.Addr                    { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }

type plainConn struct{ net.Conn }

func (plainConn) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 9), Port: 1} }
func (plainConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }

func crt(cn string) *x509.Certificate {
	return &x509.Certificate{Subject: pkix.Name{CommonName: cn}, DNSNames: []string{"app", "app.internal"}, Issuer: pkix.Name{CommonName: "app"}}
}

type conn struct {
	name string
	tls  bool
	cn   string // verified CN
	c    net.Conn
}

func conns() []conn {
	mk := func(name, cn string, st tls.ConnectionState) conn {
		return conn{name, true, cn, tlsConn{st: st}}
	}
	a, b, ab, e := crt("app"), crt("app.internal"), crt("APP"), crt("")
	return []conn{
		{"plain", false, "", plainConn{}},
		mk("tls", "", tls.ConnectionState{}),
		mk("tls-unverified-app", "", tls.ConnectionState{PeerCertificates: []*x509.Certificate{a}}),
		mk("tls-app", "app", tls.ConnectionState{PeerCertificates: []*x509.Certificate{a}, VerifiedChains: [][]*x509.Certificate{{a, b}}}),
		mk("tls-app.internal", "app.internal", tls.ConnectionState{PeerCertificates: []*x509.Certificate{b}, VerifiedChains: [][]*x509.Certificate{{b}, {b, a}}}),
		mk("tls-other-signed-by-app", "APP", tls.ConnectionState{PeerCertificates: []*x509.Certificate{ab, a}, VerifiedChains: [][]*x509.Certificate{{ab, a}}}),
		mk("tls-empty-cn", "", tls.ConnectionState{PeerCertificates: []*x509.Certificate{e, a}, VerifiedChains: [][]*x509.Certificate{{e, a}}}),
		mk("tls-empty-chain", "", tls.ConnectionState{PeerCertificates: []*x509.Certificate{a}, VerifiedChains: [][]*x509.Certificate{{}}}),
	}
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// headers: the Authorization header and what it proves.
type header struct {
	name, val  string
	token      string // the bearer token presented, when well-formed
	user, pass string
	basic      bool
}

func headers() []header {
	var hs []header
	bearer := func(tok string) { hs = append(hs, header{name: "bearer:" + tok, val: "Bearer " + tok, token: tok}) }
	raw := func(v string) { hs = append(hs, header{name: "raw:" + v, val: v}) }
	basic := func(u, p string) {
		hs = append(hs, header{name: "basic:" + u + ":" + p, val: "Basic " + b64(u+":"+p), user: u, pass: p, basic: true})
	}
	hs = append(hs, header{name: "none"})
	for _, t := range []string{"tok-1", "tok-2", "tok-", "tok 4:é=", "tok-11", "tok", "TOK-1", "tok-3", "t1"} {
		bearer(t)
	}
	raw("tok-1")
	raw("Bearer")
	raw("Bearer tok-1,tok-2")
	raw("Token tok-1")
	raw("Bearer  tok-1")
	raw("xBearer tok-1")
	raw("Basic " + b64("ann")) // no separator
	raw("Basic !!!" + b64("ann:pw:with:colons"))
	raw("Basic")
	raw(b64("ann:pw:with:colons"))
	raw("Bearer " + b64("ann:pw:with:colons"))
	raw("Basic ann:pw:with:colons")
	basic("ann", uAnn.pw)
	basic("ann", "pw")
	basic("ann", "")
	basic("ann", "b")
	basic("bob", "b")
	basic("bob", uAnn.pw)
	basic("nopw", "")
	basic("nopw", "x")
	basic("eve", "b")
	basic("", "b")
	basic("user-ann", uAnn.pw)
	basic("Ann", uAnn.pw)
	basic("ann", uAnn.pw+" ")
	return hs
}

// hooks: ServerVerify variants.
type hook struct {
	name string
	id   httpauth.Identity
	err  error
	set  bool
}

var hooks = []hook{
	{name: "nohook"},
	{name: "hook-no", err: errHook, set: true, id: httpauth.Identity{ID: "refused", Scopes: scopes{rd, wr, ad}}},
	{name: "hook-rd", set: true, id: httpauth.Identity{ID: "oidc", Scopes: scopes{rd}}},
	{name: "hook-none", set: true, id: httpauth.Identity{ID: "scopeless"}},
}

// the decision, restated.
type want struct {
	id     httpauth.Identity
	status int
	hook   int // how often the hook is asked
}

func decide(p httpauth.Policy, h hook, r header, c conn, required httpauth.Scope) want {
	id, ok, asked := who(p, h, r, c)
	switch {
	case !ok:
		return want{status: 401, hook: asked}
	case required != "" && !slices.Contains(id.Scopes, required):
		return want{status: 403, hook: asked}
	}
	return want{id: id, status: 200, hook: asked}
}

func who(p httpauth.Policy, h hook, r header, c conn) (httpauth.Identity, bool, int) {
	for _, t := range p.Tokens {
		if r.token != "" && t.Token == r.token {
			return httpauth.Identity{ID: t.ID, Scopes: t.Scopes}, true, 0
		}
	}
	if r.basic && (c.tls || p.AllowBasicWithoutTLS) {
		for _, b := range p.BasicIdentities {
			if b.Username == r.user && plainOf[string(b.PasswordBcrypt)] == r.pass {
				return httpauth.Identity{ID: b.ID, Scopes: b.Scopes}, true, 0
			}
		}
	}
	if c.cn != "" {
		for _, k := range p.CertIdentities {
			if k.SubjectCN == c.cn {
				return httpauth.Identity{ID: k.SubjectCN, Scopes: k.Scopes}, true, 0
			}
		}
	}
	asked := 0
	if h.set {
		if h.err == nil {
			return h.id, true, 1
		}
		asked = 1
	}
	if p.AllowAnonymous {
		return httpauth.Identity{ID: "anonymous", Scopes: scopes{rd, wr, ad}}, true, asked
	}
	return httpauth.Identity{}, false, asked
}

type probe struct {
	asked, ran int
	got        any
}

func policy(tk []httpauth.TokenIdentity, bs []httpauth.BasicIdentity, cs []httpauth.CertIdentity, h hook, anon, plainBasic bool, pr *probe) httpauth.Policy {
	p := httpauth.Policy{Tokens: tk, BasicIdentities: bs, CertIdentities: cs, AllowAnonymous: anon, AllowBasicWithoutTLS: plainBasic}
	if h.set {
		p.ServerVerify = func(fiber.Ctx) (httpauth.Identity, error) {
			if pr != nil {
				pr.asked++
			}
			return h.id, h.err
		}
	}
	return p
}

func sameID(got any, id httpauth.Identity) bool {
	g, ok := got.(httpauth.Identity)
	if !ok || g.ID != id.ID || len(g.Scopes) != len(id.Scopes) {
		return false
	}
	for _, s := range id.Scopes {
		if !slices.Contains(g.Scopes, s) {
			return false
		}
	}
	return true
}

func request(h header, c conn) *fasthttp.RequestCtx {
	var f fasthttp.RequestCtx
	f.Init2(c.c, nil, false)
	f.Request.Header.SetMethod("GET")
	f.Request.SetRequestURI("/x")
	if h.val != "" {
		f.Request.Header.Set("Authorization", h.val)
	}
	return &f
}

var allScopes = []httpauth.Scope{"", rd, wr, ad}

// decisions: every policy x request x required scope.
func decisions(p *kit.P) {
	hs, cn := headers(), conns()
	for it, tk := range tokens() {
		for ib, bs := range basics() {
			for ic, cs := range certs() {
				for _, hk := range hooks {
					for flags := range 4 {
						anon, pb := flags&1 > 0, flags&2 > 0
						if !p.Deep() && pb && (ib == 0 || ic == 2) {
							continue
						}
						id := fmt.Sprintf("tokens%d basics%d certs%d %s anon=%v plainbasic=%v", it, ib, ic, hk.name, anon, pb)
						if !p.Begin("%s", id) {
							continue
						}
						var pr probe
						pol := policy(tk, bs, cs, hk, anon, pb, &pr)
						if err := pol.Validate(); err != nil {
							p.Fail(id, "validate", "%s: valid policy refused: %v", id, err)
						}
						if got, w := pol.IsConfigured(), it > 0 || ib > 0 || ic > 0 || hk.set; got != w {
							p.Fail(id, "configured", "%s: IsConfigured %v", id, got)
						}
						app := fiber.New()
						for _, s := range allScopes {
							app.Get("/x"+string(s), pol.Middleware(s), func(c fiber.Ctx) error {
								pr.ran++
								pr.got = c.Locals(httpauth.IdentityKey)
								return c.SendString("ok")
							})
						}
						run := app.Handler()
						direct := fiber.New()
						for _, h := range hs {
							for _, c := range cn {
								for _, s := range allScopes {
									if h.basic && ib > 0 && !p.Deep() && (s == ad && hk.set || pb && c.cn != "") {
										continue // bcrypt is what costs
									}
									pr = probe{}
									f := request(h, c)
									f.Request.SetRequestURI("/x" + string(s))
									run(f)
									check(p, id, "middleware", h, c, s, decide(pol, hk, h, c, s), pr, f.Response.StatusCode(), string(f.Response.Body()))
									p.Steps++
									if h.basic && s != rd {
										continue
									}
									pr = probe{}
									f = request(h, c)
									fc := direct.AcquireCtx(f)
									err := pol.Verify(fc, s)
									pr.got = fc.Locals(httpauth.IdentityKey)
									st := 200
									if err == nil {
										pr.ran++
									} else {
										var fe *fiber.Error
										if !errors.As(err, &fe) {
											p.Fail(id, "error", "%s %s %s %q: error %v is not a *fiber.Error", id, h.name, c.name, s, err)
										} else {
											st = fe.Code
										}
										if pr.got != nil {
											p.Fail(id, "locals", "%s %s %s %q: refused, yet an identity %v is stored", id, h.name, c.name, s, pr.got)
										}
									}
									direct.ReleaseCtx(fc)
									check(p, id, "verify", h, c, s, decide(pol, hk, h, c, s), pr, st, "")
									p.Steps++
								}
							}
						}
					}
				}
			}
		}
	}
}

func check(p *kit.P, id, how string, h header, c conn, s httpauth.Scope, w want, pr probe, status int, body string) {
	req := fmt.Sprintf("%s %s [%s] %s required=%q", how, id, h.name, c.name, s)
	if status != w.status {
		p.Fail(id, fmt.Sprintf("status-%d-for-%d", status, w.status), "%s: status %d, want %d (identity %+v)", req, status, w.status, w.id)
		return
	}
	p.Outcome("%d %s", status, w.id.ID)
	if status != 200 {
		if pr.ran > 0 {
			p.Fail(id, "ran", "%s: refused with %d but the handler ran", req, status)
		}
	} else {
		if pr.ran != 1 {
			p.Fail(id, "not-run", "%s: authorised, handler ran %d times", req, pr.ran)
		}
		if !sameID(pr.got, w.id) {
			p.Fail(id, "identity", "%s: identity %+v, want %+v", req, pr.got, w.id)
		}
	}
	if pr.asked != w.hook {
		p.Fail(id, "hook", "%s: ServerVerify asked %d times, want %d", req, pr.asked, w.hook)
	}
	if status != 200 && (strings.Contains(body, "tok") || strings.Contains(body, "pw") || strings.Contains(body, "app")) {
		p.Fail(id, "leak", "%s: the refusal says %q", req, body)
	}
}

// histories: requests on one policy must not influence each other.
func histories(p *kit.P) {
	var hs []header
	for _, h := range headers() {
		switch h.name {
		case "none", "bearer:tok-1", "bearer:tok-2", "bearer:tok-3", "basic:ann:" + uAnn.pw, "basic:ann:pw", "basic:bob:b", "basic:bob:" + uAnn.pw, "basic:eve:b":
			hs = append(hs, h)
		}
	}
	all := conns()
	cn := []conn{all[0], all[1], all[3]}
	type rq struct {
		h header
		c conn
		s httpauth.Scope
	}
	var rqs []rq
	for _, h := range hs {
		for _, c := range cn {
			if c.name == "tls-app" && h.name != "none" && h.name != "basic:ann:pw" {
				continue
			}
			if c.name == "plain" && h.basic && h.name != "basic:ann:"+uAnn.pw {
				continue
			}
			rqs = append(rqs, rq{h, c, rd}, rq{h, c, wr})
		}
	}
	depth := 2
	if p.Deep() {
		depth = 3
	}
	pols := []struct {
		anon bool
		h    hook
	}{{false, hooks[0]}, {false, hooks[2]}, {true, hooks[1]}}
	for ip, v := range pols {
		var pr probe
		pol := policy(tokens()[2], basics()[2], certs()[1], v.h, v.anon, false, &pr)
		var rec func(seq []int)
		rec = func(seq []int) {
			if len(seq) == depth {
				names := ""
				for _, i := range seq {
					names += fmt.Sprintf(" [%s %s %s]", rqs[i].h.name, rqs[i].c.name, rqs[i].s)
				}
				id := fmt.Sprintf("policy%d%s", ip, names)
				if !p.Begin("%s", id) {
					return
				}
				app := fiber.New()
				for _, s := range allScopes {
					app.Get("/x"+string(s), pol.Middleware(s), func(c fiber.Ctx) error {
						pr.ran++
						pr.got = c.Locals(httpauth.IdentityKey)
						// a handler owns what it is given
						if g, ok := pr.got.(httpauth.Identity); ok {
							g.ID = "changed"
						}
						return c.SendString("ok")
					})
				}
				run := app.Handler()
				// the same connection object serves all requests, as keep-alive does
				var f fasthttp.RequestCtx
				for _, i := range seq {
					r := rqs[i]
					pr = probe{}
					f.Request.Reset()
					f.Response.Reset()
					f.ResetUserValues()
					f.Init2(r.c.c, nil, false)
					f.Request.Header.SetMethod("GET")
					f.Request.SetRequestURI("/x" + string(r.s))
					if r.h.val != "" {
						f.Request.Header.Set("Authorization", r.h.val)
					}
					run(&f)
					check(p, id, "history", r.h, r.c, r.s, decide(pol, v.h, r.h, r.c, r.s), pr, f.Response.StatusCode(), string(f.Response.Body()))
				}
				return
			}
			for i := range rqs {
				rec(append(slices.Clone(seq), i))
			}
		}
		rec(nil)
	}
}

// confusable: credentials that resemble a granted one, and the same names under
// several policies of one process, in every order of two (three) requests.
func confusable(p *kit.P) {
	basic := func(u, pw string) header {
		return header{name: fmt.Sprintf("basic:%q:%q", u, pw), val: "Basic " + b64(u+":"+pw), user: u, pass: pw, basic: true}
	}
	bearer := func(t string) header { return header{name: "bearer:" + t, val: "Bearer " + t, token: t} }
	tls1 := conns()[1]
	user := func(u, id, pw string, ss ...httpauth.Scope) httpauth.BasicIdentity {
		return httpauth.BasicIdentity{Username: u, ID: id, PasswordBcrypt: hash(pw), Scopes: ss}
	}
	pols := []httpauth.Policy{
		{BasicIdentities: []httpauth.BasicIdentity{user("ann", "1", "bc", rd), user("annb", "2", "c", wr), user("a\x00b", "3", "c", ad)},
			Tokens: []httpauth.TokenIdentity{{ID: "one", Token: "tok", Scopes: scopes{rd}}, {ID: "one", Token: "kot", Scopes: scopes{wr}}, {ID: "", Token: "noid", Scopes: scopes{ad}}}},
		{BasicIdentities: []httpauth.BasicIdentity{user("ann", "4", "xy", wr, rd), user("annb", "2", "bc", rd)},
			Tokens: []httpauth.TokenIdentity{{ID: "two", Token: "tok", Scopes: scopes{wr}}}},
	}
	creds := []header{basic("ann", "bc"), basic("annb", "c"), basic("ann", "c"), basic("annb", "bc"), basic("an", "nbc"), basic("annbc", ""), basic("ann", "xy"), basic("ANN", "bc"),
		basic("ann ", "bc"), basic("a\x00b", "c"), basic("a", "\x00bc"), basic("a", "b\x00c"), bearer("tok"), bearer("kot"), bearer("noid"), bearer("two")}
	type rq struct {
		pol int
		h   header
		s   httpauth.Scope
	}
	var rqs []rq
	for i := range pols {
		for j, h := range creds {
			rqs = append(rqs, rq{i, h, []httpauth.Scope{rd, wr}[(i+j)%2]})
		}
	}
	ask := func(id string, r rq) {
		app := fiber.New()
		fc := app.AcquireCtx(request(r.h, tls1))
		defer app.ReleaseCtx(fc)
		err := pols[r.pol].Verify(fc, r.s)
		st, pr := 200, probe{got: fc.Locals(httpauth.IdentityKey)}
		var fe *fiber.Error
		if errors.As(err, &fe) {
			st = fe.Code
		} else {
			pr.ran = 1
		}
		p.Steps++
		check(p, id, fmt.Sprintf("policy %d", r.pol), r.h, tls1, r.s, decide(pols[r.pol], hooks[0], r.h, tls1, r.s), pr, st, "")
	}
	for i, a := range rqs {
		for j, b := range rqs {
			id := fmt.Sprintf("%d:%s %d:%s", a.pol, a.h.name, b.pol, b.h.name)
			if !p.Begin("%s", id) {
				continue
			}
			ask(id, a)
			ask(id, b)
			if p.Deep() {
				ask(id, rqs[(i+j)%len(rqs)])
				ask(id, a)
			}
		}
	}
	// names and answers of a hook that are unusual, yet exactly these
	cert := func(cn string) conn {
		c := crt(cn)
		return conn{"tls:" + cn, true, cn, tlsConn{st: tls.ConnectionState{PeerCertificates: []*x509.Certificate{c}, VerifiedChains: [][]*x509.Certificate{{c}}}}}
	}
	cns := []string{"app", "app.", "App", " app", "app ", "*", "*.internal", "app.internal", "a.internal", "ap?", "app\x00", "", "APP", "äpp", "app/x", "CN=app", "www.app", ".app", "app,ops"}
	hks := []hook{{name: "none"}, {name: "no", err: errHook, set: true}, {name: "empty-id", set: true, id: httpauth.Identity{Scopes: scopes{rd}}},
		{name: "zero", set: true}, {name: "anonymous", set: true, id: httpauth.Identity{ID: "anonymous", Scopes: scopes{rd}}},
		{name: "token-id", set: true, id: httpauth.Identity{ID: "t1", Scopes: scopes{wr}}}, {name: "repeated", set: true, id: httpauth.Identity{ID: "r", Scopes: scopes{rd, wr, ad, "other"}}}}
	for _, conf := range cns {
		for _, hk := range hks {
			for flags := range 4 {
				id := fmt.Sprintf("cn=%q hook=%s flags=%d", conf, hk.name, flags)
				if !p.Begin("%s", id) {
					continue
				}
				var cs []httpauth.CertIdentity
				if conf != "" {
					cs = []httpauth.CertIdentity{{SubjectCN: conf, Scopes: scopes{rd}}}
				}
				var ts []httpauth.TokenIdentity
				if flags&2 > 0 {
					ts = tokens()[1]
				}
				var pr probe
				pol := policy(ts, nil, cs, hk, flags&1 > 0, false, &pr)
				for _, cn := range cns {
					for _, s := range []httpauth.Scope{rd, ad, ""} {
						c := cert(cn)
						pr = probe{}
						app := fiber.New()
						fc := app.AcquireCtx(request(header{name: "none"}, c))
						err := pol.Verify(fc, s)
						st := 200
						pr.got = fc.Locals(httpauth.IdentityKey)
						var fe *fiber.Error
						if errors.As(err, &fe) {
							st = fe.Code
						} else {
							pr.ran = 1
						}
						app.ReleaseCtx(fc)
						p.Steps++
						check(p, id, "names", header{name: "none"}, c, s, decide(pol, hk, header{}, c, s), pr, st, "")
					}
				}
			}
		}
	}
}

// edits has every text one edit away from s.
func edits(s string) []string {
	alpha := " \t\r\n\x00=:;,.+/-_%*\"'aAbBkKtTzZ019\xc3\xa9"
	seen := map[string]bool{s: true}
	var out []string
	add := func(e string) {
		if !seen[e] {
			seen[e] = true
			out = append(out, e)
		}
	}
	for i := range len(s) + 1 {
		for j := range len(alpha) {
			add(s[:i] + alpha[j:j+1] + s[i:])
			if i < len(s) {
				add(s[:i] + alpha[j:j+1] + s[i+1:])
			}
		}
		if i < len(s) {
			add(s[:i] + s[i+1:])
			add(s[:i] + s[i:i+1] + s[i:])
			add(s[i:])
			add(s[:i])
			b := []byte(s)
			b[i] ^= 0x20
			add(string(b))
		}
		if i+1 < len(s) {
			add(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
		}
	}
	add(s + s)
	add(s + "\r\n")
	add(" " + s + " ")
	return out
}

// neighbours: everything one edit away from a granted credential is refused.
func neighbours(p *kit.P) {
	tls1 := conns()[1]
	user := func(u, pw string) httpauth.BasicIdentity {
		return httpauth.BasicIdentity{Username: u, ID: "id-" + u, PasswordBcrypt: hash(pw), Scopes: scopes{rd}}
	}
	toks := []string{"abc", "a=b==", "Tok.en-1_2/3+4=", "x y", "tök", "K"}
	users := []struct{ name, pw string }{{"ann", "pw"}, {"a+b", "c/d=e"}, {"Bob ", " p\tw"}, {"zoë", "p:w:"}, {"e", ""}, {"~~~", "???>>>"}}
	pol := httpauth.Policy{}
	for _, t := range toks {
		pol.Tokens = append(pol.Tokens, httpauth.TokenIdentity{ID: "id-" + t, Token: t, Scopes: scopes{rd}})
	}
	for _, u := range users {
		pol.BasicIdentities = append(pol.BasicIdentities, user(u.name, u.pw))
	}
	ask := func(val string) (string, bool) {
		app := fiber.New()
		f := request(header{}, tls1)
		f.Request.Header.Set("Authorization", val)
		fc := app.AcquireCtx(f)
		defer app.ReleaseCtx(fc)
		err := pol.Verify(fc, rd)
		id, _ := fc.Locals(httpauth.IdentityKey).(httpauth.Identity)
		p.Steps++
		return id.ID, err == nil
	}
	sent := func(val string) string { // what the server sees of a header value
		f := request(header{}, tls1)
		f.Request.Header.Set("Authorization", val)
		return string(f.Request.Header.Peek("Authorization"))
	}
	right := func(hd string) string {
		if t, ok := strings.CutPrefix(hd, "Bearer "); ok && slices.Contains(toks, t) {
			return "id-" + t
		}
		if e, ok := strings.CutPrefix(hd, "Basic "); ok {
			if d, err := base64.StdEncoding.DecodeString(strings.TrimSpace(e)); err == nil {
				for _, u := range users {
					if string(d) == u.name+":"+u.pw {
						return "id-" + u.name
					}
				}
			}
		}
		return ""
	}
	try := func(id, what, hd string) bool {
		want := right(sent(hd))
		who, ok := ask(hd)
		if ok != (want != "") || who != want {
			p.Fail(id, "neighbour", "%s: Authorization %q passes %v as %q, want %q", what, hd, ok, who, want)
			return false
		}
		p.Outcome("%v", ok)
		return true
	}
	for _, t := range toks {
		id := fmt.Sprintf("token %q", t)
		if !p.Begin("%s", id) {
			continue
		}
		try(id, "itself", "Bearer "+t)
		for _, e := range edits("Bearer " + t) {
			if !try(id, "one edit", e) {
				return
			}
		}
	}
	for _, u := range users {
		id := fmt.Sprintf("user %q", u.name)
		if !p.Begin("%s", id) {
			continue
		}
		try(id, "itself", "Basic "+b64(u.name+":"+u.pw))
		for _, e := range edits(u.name + ":" + u.pw) {
			if u.pw == "" && strings.Trim(e, "\x00") == u.name+":" {
				continue // the same password to bcrypt
			}
			if !try(id, fmt.Sprintf("%q", e), "Basic "+b64(e)) {
				return
			}
		}
		for _, e := range edits("Basic " + b64(u.name+":"+u.pw)) {
			if d, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(e, "Basic ")); err == nil && u.pw == "" && strings.Trim(string(d), "\x00") == u.name+":" {
				continue
			}
			if !try(id, "one edit", e) {
				return
			}
		}
		for _, e := range []*base64.Encoding{base64.URLEncoding, base64.RawURLEncoding, base64.RawStdEncoding} {
			if !try(id, "another base64", "Basic "+e.EncodeToString([]byte(u.name+":"+u.pw))) {
				return
			}
		}
	}
}

// elsewhere: what a request says outside of Authorization and its connection
// proves nothing, and no method is exempt.
func elsewhere(p *kit.P) {
	extras := [][2]string{{"", ""}, {"X-Forwarded-Proto", "https"}, {"X-Forwarded-Protocol", "https"}, {"X-Forwarded-Ssl", "on"}, {"X-Url-Scheme", "https"}, {"Front-End-Https", "on"}, {"Forwarded", "proto=https;for=127.0.0.1"},
		{"X-Forwarded-For", "127.0.0.1"}, {"X-Real-Ip", "127.0.0.1"}, {"X-Client-Cert-Cn", "app"}, {"X-Ssl-Client-S-Dn", "CN=app"}, {"X-Forwarded-Client-Cert", "Subject=\"CN=app\""}, {"X-Remote-User", "ann"}, {"X-Api-Key", "tok-1"},
		{"X-Auth-Token", "tok-1"}, {"Proxy-Authorization", "Bearer tok-1"}, {"X-Authorization", "Bearer tok-1"}, {"Cookie", "Authorization=Bearer tok-1; token=tok-1"}, {"X-Http-Method-Override", "OPTIONS"},
		{"Origin", "http://localhost"}, {"Host", "localhost"}, {"Upgrade", "websocket"}, {"Content-Type", "application/grpc"}, {"User-Agent", "kube-probe/1.30"}, {"?", "access_token=tok-1"}, {"?", "token=tok-1"}, {"?", "Authorization=Bearer+tok-1"}}
	var hs []header
	for _, h := range headers() {
		switch h.name {
		case "none", "bearer:tok-1", "bearer:tok-2", "bearer:tok-3", "basic:ann:" + uAnn.pw, "basic:ann:pw":
			hs = append(hs, h)
		}
	}
	all := conns()
	for ie, x := range extras {
		for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"} {
			id := fmt.Sprintf("%d %s=%s %s", ie, x[0], x[1], m)
			if !p.Begin("%s", id) {
				continue
			}
			for flags := range 2 {
				var pr probe
				pol := policy(tokens()[2], cachedBasics[1], certs()[1], hooks[flags], false, false, &pr)
				app := fiber.New()
				for _, h := range hs {
					for _, c := range []conn{all[0], all[1], all[3]} {
						for _, s := range []httpauth.Scope{rd, ad} {
							f := request(h, c)
							f.Request.Header.SetMethod(m)
							if x[0] == "?" {
								f.Request.SetRequestURI("/x?" + x[1])
							} else if x[0] != "" {
								f.Request.Header.Set(x[0], x[1])
							}
							fc := app.AcquireCtx(f)
							pr = probe{}
							err := pol.Verify(fc, s)
							st := 200
							pr.got = fc.Locals(httpauth.IdentityKey)
							var fe *fiber.Error
							if errors.As(err, &fe) {
								st = fe.Code
							} else {
								pr.ran = 1
							}
							app.ReleaseCtx(fc)
							p.Steps++
							check(p, id, id, h, c, s, decide(pol, hooks[flags], h, c, s), pr, st, "")
						}
					}
				}
			}
		}
	}
}

// scopeLists has every sequence of scopes up to four, repeats included.
func scopeLists() []scopes {
	out := []scopes{nil}
	for i := 0; i < len(out); i++ {
		if len(out[i]) < 4 {
			for _, s := range allScopes[1:] {
				out = append(out, append(slices.Clone(out[i]), s))
			}
		}
	}
	return out
}

// identity: capabilities and scope checks.
func identity(p *kit.P) {
	for _, ss := range scopeLists() {
		id := fmt.Sprint(ss)
		if !p.Begin("%s", id) {
			continue
		}
		who := httpauth.Identity{ID: "x", Scopes: ss}
		caps := who.Capabilities()
		want := []string{}
		for _, s := range ss {
			want = append(want, "cache."+string(s))
		}
		if uniq := slices.Compact(slices.Sorted(slices.Values(caps))); caps == nil || len(caps) > len(ss) || !slices.Equal(uniq, slices.Compact(slices.Sorted(slices.Values(want)))) {
			p.Fail(id, "capabilities", "scopes %v: capabilities %v", ss, caps)
		}
		for _, s := range allScopes[1:] {
			has := slices.Contains(ss, s)
			if who.HasScope(s) != has || who.HasCapability("cache."+string(s)) != has || slices.Contains(caps, "cache."+string(s)) != has {
				p.Fail(id, "capabilities", "scopes %v: HasScope(%s)=%v capabilities %v", ss, s, who.HasScope(s), caps)
			}
			if who.HasCapability(string(s)) || who.HasCapability("cache."+strings.ToUpper(string(s))) || who.HasCapability("cache."+string(s)+"x") ||
				who.HasCapability(" cache."+string(s)) || who.HasCapability("cache."+string(s)+" ") || who.HasCapability("cache."+string(s)+"\n") || who.HasCapability("cache. "+string(s)) || who.HasCapability("Cache."+string(s)) ||
				who.HasCapability("cache."+string(s[:len(s)-1])) || who.HasCapability("cache:"+string(s)) || who.HasCapability("cache."+string(s)+".x") || who.HasScope(s+" ") || who.HasScope(" "+s) || who.HasScope(s[:2]) || who.HasScope("cache."+s) {
				p.Fail(id, "capability-loose", "scopes %v: a name that is no capability is accepted", ss)
			}
		}
		if who.HasScope("") || who.HasCapability("") || who.HasCapability("cache.") {
			p.Fail(id, "capability-empty", "scopes %v: the empty scope is held", ss)
		}
		if len(caps) > 0 {
			caps[0] = "cache.root"
			if who.HasCapability("cache.root") {
				p.Fail(id, "capability-alias", "changing the returned list grants a capability")
			}
		}
		p.Outcome("%d", len(caps))
	}
}

// validate: any single defective row is refused, wherever it stands.
func validate(p *kit.P) {
	good := httpauth.Policy{
		Tokens:          tokens()[2],
		BasicIdentities: basics()[2][:2],
		CertIdentities:  certs()[2],
	}
	h := hash("x")
	type bad struct {
		name string
		put  func(*httpauth.Policy, int)
	}
	ins := func(n, i int) int { return min(n, i) }
	bads := []bad{{name: "none", put: func(*httpauth.Policy, int) {}}}
	for _, t := range []httpauth.TokenIdentity{{ID: "secret-id", Scopes: scopes{rd}}, {Token: "secret-tok", Scopes: scopes{rd}}, {ID: "default", Scopes: scopes{rd, wr, ad}}, {Token: "secret-tok"}, {}, {ID: "t1"}, {Token: "tok-1"}} {
		bads = append(bads, bad{fmt.Sprintf("token%+v", t), func(p *httpauth.Policy, i int) {
			p.Tokens = slices.Insert(slices.Clone(p.Tokens), ins(len(p.Tokens), i), t)
		}})
	}
	for n, b := range []httpauth.BasicIdentity{
		{ID: "i", PasswordBcrypt: h, Scopes: scopes{rd}},
		{Username: "u", PasswordBcrypt: h, Scopes: scopes{rd}},
		{Username: "u", ID: "i", Scopes: scopes{rd}},
		{Username: "u", ID: "i", PasswordBcrypt: []byte("secret-plain"), Scopes: scopes{rd}},
		{Username: "u", ID: "i", PasswordBcrypt: h[:20], Scopes: scopes{rd}},
		{Username: "bob", ID: "user-bob", Scopes: scopes{rd}}, {Username: "ann", PasswordBcrypt: h}, {ID: "user-ann", PasswordBcrypt: h}, {},
		{Username: "u", ID: "i", PasswordBcrypt: append([]byte(" "), h...), Scopes: scopes{rd}},
		{Username: "u", ID: "i", PasswordBcrypt: append([]byte("x"), h...), Scopes: scopes{rd}},
		{Username: "u", ID: "i", PasswordBcrypt: []byte("$1$aaaaaaaa$bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"), Scopes: scopes{rd}},
	} {
		bads = append(bads, bad{fmt.Sprintf("basic%d", n), func(p *httpauth.Policy, i int) {
			p.BasicIdentities = slices.Insert(slices.Clone(p.BasicIdentities), ins(len(p.BasicIdentities), i), b)
		}})
	}
	bads = append(bads, bad{"cert", func(p *httpauth.Policy, i int) {
		p.CertIdentities = slices.Insert(slices.Clone(p.CertIdentities), ins(len(p.CertIdentities), i), httpauth.CertIdentity{Scopes: scopes{rd}})
	}})
	for _, b := range bads {
		for i := range 3 {
			for anon := range 2 {
				for base := range 2 {
					id := fmt.Sprintf("%s at %d anon=%d base=%d", b.name, i, anon, base)
					if !p.Begin("%s", id) {
						continue
					}
					var pol httpauth.Policy
					if base == 1 {
						pol = good
					}
					pol.AllowAnonymous = anon == 1
					b.put(&pol, i)
					err := pol.Validate()
					if (err != nil) != (b.name != "none") {
						p.Fail(id, "validate", "%s: Validate says %v", id, err)
					}
					if err != nil && !errors.Is(err, sentinel.ErrInsecureAuthConfig) {
						p.Fail(id, "sentinel", "%s: %v", id, err)
					}
					if err != nil && (strings.Contains(err.Error(), "secret-tok") || strings.Contains(err.Error(), "secret-plain")) {
						p.Fail(id, "leak", "%s: %v", id, err)
					}
					p.Outcome("%v", err != nil)
				}
			}
		}
	}
}

// concurrent: one policy, two requests at once.
func concurrent() {
	all := conns()
	hs := headers()
	pick := func(name string) header {
		for _, h := range hs {
			if h.name == name {
				return h
			}
		}
		panic(name)
	}
	rq := []header{pick("bearer:tok-1"), pick("bearer:tok-2"), pick("basic:ann:" + uAnn.pw), pick("basic:ann:pw"), pick("none")}
	a, b := vsched.Choose(len(rq)), vsched.Choose(len(rq))
	pol := policy(tokens()[2], cachedBasics[2], certs()[1], hooks[0], false, false, nil)
	var got [2]vatomic.Int64
	one := func(i int, h header) {
		app := fiber.New()
		for k := range 2 {
			fc := app.AcquireCtx(request(h, all[1]))
			st := 200
			err := pol.Verify(fc, rd)
			var fe *fiber.Error
			if errors.As(err, &fe) {
				st = fe.Code
			}
			want := decide(pol, hooks[0], h, all[1], rd)
			if st != want.status {
				vsched.Fail("[concurrent] %s (attempt %d) answered %d, want %d", h.name, k, st, want.status)
			}
			if st == 200 && !sameID(fc.Locals(httpauth.IdentityKey), want.id) {
				vsched.Fail("[concurrent-identity] %s got %+v", h.name, fc.Locals(httpauth.IdentityKey))
			}
			got[i].Store(int64(st))
		}
	}
	var g vsched.Group
	g.Go(func() { one(0, rq[a]) })
	g.Go(func() { one(1, rq[b]) })
	g.Wait()
	vsched.Outcome("%d %d", got[0].Load(), got[1].Load())
}

var cachedBasics = basics()

// sizes: a credential is compared in full, and every row counts, however long
// or many they are.
func sizes(p *kit.P) {
	ask := func(pol httpauth.Policy, hd string, c conn) (string, bool) {
		app := fiber.New()
		f := request(header{val: hd}, c)
		fc := app.AcquireCtx(f)
		defer app.ReleaseCtx(fc)
		err := pol.Verify(fc, rd)
		id, _ := fc.Locals(httpauth.IdentityKey).(httpauth.Identity)
		return id.ID, err == nil
	}
	variants := func(s string) []string { // all wrong
		out := []string{s + "x", s + " ", s + s[:1], s[:len(s)-1], s[1:]}
		for _, i := range []int{0, len(s) / 2, len(s) - 1} {
			b := []byte(s)
			b[i] ^= 1
			out = append(out, string(b))
		}
		return out
	}
	plain := conns()[0]
	for _, n := range kit.Sizes(3001) {
		id := fmt.Sprintf("length %d", n)
		if n < 2 || !p.Begin("%s", id) {
			continue
		}
		text := make([]byte, n)
		for i := range text {
			text[i] = "abcdefghijkmnopqrstuvwxyz"[(i*i+i/25)%25]
		}
		tok := string(text)
		pol := httpauth.Policy{Tokens: []httpauth.TokenIdentity{{ID: "other", Token: "z" + tok, Scopes: scopes{rd}}, {ID: "right", Token: tok, Scopes: scopes{rd}}}}
		if who, ok := ask(pol, "Bearer "+tok, plain); !ok || who != "right" {
			p.Fail(id, "token", "a token of %d bytes is not accepted (%q)", n, who)
			return
		}
		for i, v := range variants(tok) {
			if who, ok := ask(pol, "Bearer "+v, plain); ok {
				p.Fail(id, "token", "variant %d of a token of %d bytes passes as %q", i, n, who)
				return
			}
		}
		cpol := httpauth.Policy{CertIdentities: []httpauth.CertIdentity{{SubjectCN: tok, Scopes: scopes{rd}}}}
		cc := func(cn string) conn {
			c := crt(cn)
			return conn{"tls", true, cn, tlsConn{st: tls.ConnectionState{PeerCertificates: []*x509.Certificate{c}, VerifiedChains: [][]*x509.Certificate{{c}}}}}
		}
		if who, ok := ask(cpol, "", cc(tok)); !ok || who != tok {
			p.Fail(id, "cert", "a common name of %d bytes is not accepted", n)
			return
		}
		for i, v := range variants(tok) {
			if _, ok := ask(cpol, "", cc(v)); ok {
				p.Fail(id, "cert", "variant %d of a common name of %d bytes passes", i, n)
				return
			}
		}
		if n <= 72 || n == 1000 || p.Deep() { // bcrypt is what costs, and takes 72 bytes
			pw := tok[:min(n, 72)]
			bpol := httpauth.Policy{AllowBasicWithoutTLS: true, BasicIdentities: []httpauth.BasicIdentity{{ID: "u", Username: tok, PasswordBcrypt: hash(pw), Scopes: scopes{rd}}}}
			if _, ok := ask(bpol, "Basic "+b64(tok+":"+pw), plain); !ok {
				p.Fail(id, "basic", "a user with a name of %d and a password of %d bytes is not accepted", n, len(pw))
				return
			}
			for i, v := range variants(tok) {
				if _, ok := ask(bpol, "Basic "+b64(v+":"+pw), plain); ok {
					p.Fail(id, "basic", "variant %d of a user name of %d bytes passes", i, n)
					return
				}
			}
			for i, v := range variants(pw) {
				if len(v) > 72 {
					continue
				}
				if _, ok := ask(bpol, "Basic "+b64(tok+":"+v), plain); ok {
					p.Fail(id, "basic", "variant %d of a password of %d bytes passes", i, len(pw))
					return
				}
			}
		}
		p.Outcome("length")
	}
	h := hash("pw")
	for _, n := range kit.Sizes(1030) {
		id := fmt.Sprintf("%d rows", n)
		if n == 0 || !p.Begin("%s", id) {
			continue
		}
		pol := httpauth.Policy{AllowBasicWithoutTLS: true}
		for i := range n {
			pol.Tokens = append(pol.Tokens, httpauth.TokenIdentity{ID: fmt.Sprint("t", i), Token: fmt.Sprint("tok", i), Scopes: scopes{rd}})
			pol.BasicIdentities = append(pol.BasicIdentities, httpauth.BasicIdentity{ID: fmt.Sprint("u", i), Username: fmt.Sprint("user", i), PasswordBcrypt: h, Scopes: scopes{rd}})
			pol.CertIdentities = append(pol.CertIdentities, httpauth.CertIdentity{SubjectCN: fmt.Sprint("cn", i), Scopes: scopes{rd}})
		}
		if err := pol.Validate(); err != nil {
			p.Fail(id, "validate", "%v", err)
			return
		}
		step := 1
		if !p.Deep() {
			step = max(1, n/40)
		}
		for i := n - 1; i >= -1; i -= step {
			c := crt(fmt.Sprint("cn", i))
			tc := conn{"tls", true, "", tlsConn{st: tls.ConnectionState{PeerCertificates: []*x509.Certificate{c}, VerifiedChains: [][]*x509.Certificate{{c}}}}}
			for _, x := range []struct {
				hd   string
				c    conn
				want string
			}{{fmt.Sprint("Bearer tok", i), plain, fmt.Sprint("t", i)}, {"Basic " + b64(fmt.Sprintf("user%d:pw", i)), plain, fmt.Sprint("u", i)}, {"", tc, fmt.Sprint("cn", i)}} {
				if x.want[0] == 'u' && i != n-1 && i%7 != 0 && n > 20 && !p.Deep() {
					continue
				}
				if who, ok := ask(pol, x.hd, x.c); ok != (i >= 0) || ok && who != x.want {
					p.Fail(id, "row", "row %d of %d: %q, %v", i, n, who, ok)
					return
				}
			}
		}
		// a defect in the last row is found
		bad := pol
		bad.Tokens = append(slices.Clone(pol.Tokens), httpauth.TokenIdentity{ID: "x"})
		bad2 := pol
		bad2.BasicIdentities = append(slices.Clone(pol.BasicIdentities), httpauth.BasicIdentity{ID: "x", Username: "x", PasswordBcrypt: []byte("nohash")})
		bad3 := pol
		bad3.CertIdentities = append(slices.Clone(pol.CertIdentities), httpauth.CertIdentity{})
		for i, b := range []httpauth.Policy{bad, bad2, bad3} {
			if b.Validate() == nil {
				p.Fail(id, "validate", "a defect %d in row %d is accepted", i, n)
				return
			}
		}
		p.Outcome("rows")
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "decisions", Plain: decisions, Weight: 6},
		kit.Scenario{Name: "histories", Plain: histories, Weight: 3},
		kit.Scenario{Name: "confusable", Plain: confusable, Weight: 2},
		kit.Scenario{Name: "neighbours", Plain: neighbours, Weight: 2},
		kit.Scenario{Name: "elsewhere", Plain: elsewhere, Weight: 2},
		kit.Scenario{Name: "identity", Plain: identity},
		kit.Scenario{Name: "sizes", Plain: sizes, Weight: 3},
		kit.Scenario{Name: "validate", Plain: validate},
		kit.Scenario{Name: "concurrent", Body: concurrent, Quick: vsched.Opts{Preempt: 2}, Deep: vsched.Opts{Preempt: 4}, Race: true, Weight: 2},
	)
}
