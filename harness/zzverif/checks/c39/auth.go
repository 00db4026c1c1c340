package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"slices"
	"strings"
	"syscall"
	"time"

	"golang.org/x/crypto/bcrypt"

	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
)

// cred is a credential and the scopes it should have (nil: none is resolved).
type cred struct {
	name, hdr string
	id        string
	scopes    []string
}

type route struct {
	method, path string // K is a key, of which the value is "old"
	body         string
	scope        string // "" public
	port         int    // 0 API, 1 management, 2 dist
	effect       string // what K holds after a success: "", "new", "gone"
}

func routes() []route {
	return []route{
		{"GET", "/healthz", "", "", 0, ""}, {"GET", "/v1/openapi.yaml", "", "", 0, ""},
		{"GET", "/v1/cache/K", "", "read", 0, ""}, {"HEAD", "/v1/cache/K", "", "read", 0, ""}, {"GET", "/v1/owners/K", "", "read", 0, ""}, {"GET", "/v1/cache/keys", "", "read", 0, ""},
		{"POST", "/v1/cache/batch/get", `{"keys":["K"]}`, "read", 0, ""}, {"GET", "/v1/me", "", "read", 0, ""}, {"GET", "/v1/me/can?capability=cache.write", "", "read", 0, ""}, {"HEAD", "/v1/me", "", "read", 0, ""}, {"HEAD", "/v1/owners/K", "", "read", 0, ""},
		{"PUT", "/v1/cache/K", "new", "write", 0, "new"}, {"DELETE", "/v1/cache/K", "", "write", 0, "gone"},
		{"POST", "/v1/cache/batch/put", `{"items":[{"key":"K","value":"new"}]}`, "write", 0, "new"}, {"POST", "/v1/cache/batch/delete", `{"keys":["K"]}`, "write", 0, "gone"},
		{"GET", "/health", "", "", 1, ""}, {"GET", "/stats", "", "read", 1, ""}, {"GET", "/config", "", "read", 1, ""}, {"GET", "/dist/metrics", "", "read", 1, ""}, {"GET", "/dist/owners?key=K", "", "read", 1, ""},
		{"GET", "/cluster/members", "", "read", 1, ""}, {"GET", "/cluster/ring", "", "read", 1, ""}, {"GET", "/cluster/heartbeat", "", "read", 1, ""}, {"HEAD", "/stats", "", "read", 1, ""}, {"HEAD", "/cluster/members", "", "read", 1, ""},
		{"POST", "/evict", "", "admin", 1, ""}, {"POST", "/trigger-expiration", "", "admin", 1, ""}, {"POST", "/clear", "", "admin", 1, "gone"},
		{"GET", "/internal/get?key=K", "", "dist", 2, ""}, {"GET", "/internal/keys", "", "dist", 2, ""}, {"GET", "/internal/merkle", "", "dist", 2, ""}, {"GET", "/internal/cache/get?key=K", "", "dist", 2, ""},
		{"DELETE", "/internal/del?key=K&replicate=false", "", "dist", 2, "gone"},
	}
}

var allScopes = []string{"read", "write", "admin"}

const (
	tokRead  = "rrrr-reader-token"
	tokWrite = "wwww-writer-token"
	tokAdmin = "aaaa-admin-token"
	tokRW    = "rwrw-both-token"
	tokOps   = "oooo-everything-token"
	tokPeer  = "pppp-peer-token"
	password = "pa:ss word"
)

var tokens = `tokens:
  - {id: reader, token: ` + tokRead + `, scopes: [read]}
  - {id: writer, token: ` + tokWrite + `, scopes: [write]}
  - {id: admin, token: ` + tokAdmin + `, scopes: [admin]}
  - {id: both, token: ` + tokRW + `, scopes: [read, write]}
  - {id: ops, token: ` + tokOps + `, scopes: [read, write, admin]}
`

func users() string {
	h, err := bcrypt.GenerateFromPassword([]byte(password), bcrypt.MinCost)
	if err != nil {
		panic(err)
	}
	return "users:\n  - {id: basic-user, username: alice, password_bcrypt: '" + string(h) + "', scopes: [read, write]}\n"
}

func basicHdr(u, p string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
}

type posture struct {
	name  string
	env   func() []string
	creds []cred
	// what the dist port asks for
	peer string
}

func postures() []posture {
	anyone := cred{"nothing", "", "anonymous", allScopes}
	nobody := cred{"nothing", "", "", nil}
	toks := []cred{{"reader", "Bearer " + tokRead, "reader", []string{"read"}}, {"writer", "Bearer " + tokWrite, "writer", []string{"write"}}, {"admin", "Bearer " + tokAdmin, "admin", []string{"admin"}},
		{"both", "Bearer " + tokRW, "both", []string{"read", "write"}}, {"ops", "Bearer " + tokOps, "ops", allScopes}}
	var bad []cred
	for i, h := range []string{"Bearer wrong", "Bearer", "Bearer " + tokOps[:len(tokOps)-1], "Bearer " + tokOps + "x", tokOps, "Bearer  " + tokOps, "Token " + tokOps, "Basic " + tokOps, "Bearer " + tokOps + ", Bearer " + tokOps,
		basicHdr("ops", tokOps), basicHdr("alice", "wrong"), basicHdr("alice", ""), basicHdr("", password), basicHdr("bob", password), basicHdr("alice", "pa"), "Bearer eyJhbGciOiJub25lIn0.e30.", "Bearer " + strings.ToUpper(tokOps)} {
		bad = append(bad, cred{fmt.Sprintf("bad%d", i), h, "", nil})
	}
	basic := cred{"basic", basicHdr("alice", password), "basic-user", []string{"read", "write"}}
	deny := func(c cred) cred { c.id, c.scopes = "", nil; return c }
	anon := func(cs []cred) (out []cred) {
		for _, c := range cs {
			c.id, c.scopes = "anonymous", allScopes
			out = append(out, c)
		}
		return
	}
	cfg := func(s string, more ...string) func() []string {
		return func() []string { return append([]string{"HYPERCACHE_AUTH_CONFIG=" + file("auth.yaml", s)}, more...) }
	}
	return []posture{
		{"open", func() []string { return nil }, append(anon(bad[:3]), anyone), ""},
		{"token", func() []string { return []string{"HYPERCACHE_AUTH_TOKEN=" + tokOps} }, append(slices.Clone(bad), nobody, cred{"token", "Bearer " + tokOps, "default", allScopes}, deny(toks[0])), tokOps},
		{"config", cfg(tokens), append(append(slices.Clone(bad), toks...), nobody, deny(basic)), ""},
		{"config with users over plaintext", cfg(tokens + users()), append(slices.Clone(toks), nobody, deny(basic)), ""},
		{"config with users allowed over plaintext", cfg(tokens + users() + "allow_basic_without_tls: true\n"), append(append(slices.Clone(bad), toks...), nobody, basic), ""},
		{"config for anybody", cfg(tokens + "allow_anonymous: true\n"), append(append(anon(bad[:4]), toks...), anyone), ""},
		{"config and peer token", cfg(tokens, "HYPERCACHE_AUTH_TOKEN="+tokPeer), append(slices.Clone(toks), nobody, cred{"peer", "Bearer " + tokPeer, "", nil}), tokPeer},
		{"empty config", cfg("tokens: []\n"), append(anon(bad[:2]), anyone), ""},
	}
}

// gate makes one request and judges whether it was let in as it should.
func gate(p *kit.P, id string, s *server, rt route, c cred, peer string, before func(k string)) {
	k := tag(id)
	before(k)
	path, body := strings.ReplaceAll(rt.path, "K", k), []byte(nil)
	if rt.body != "" {
		body = []byte(strings.ReplaceAll(rt.body, "\"K\"", "\""+k+"\""))
	}
	var h []string
	if c.hdr != "" {
		h = append(h, "Authorization: "+c.hdr)
	}
	if strings.HasPrefix(rt.body, "{") {
		h = append(h, "Content-Type: application/json")
	}
	base := []string{s.api, s.mgmt, s.dist}[rt.port]
	a := s.call(rt.method, base, path, body, h...)
	want := 200
	switch {
	case rt.scope == "":
	case rt.scope == "dist":
		if peer != "" && c.hdr != "Bearer "+peer {
			want = 401
		}
	case c.scopes == nil:
		want = 401
	case !slices.Contains(c.scopes, rt.scope):
		want = 403
	}
	in := a.status >= 200 && a.status < 300
	if a.err != nil || in != (want == 200) || want != 200 && a.status != want {
		p.Fail(id, fmt.Sprintf("gate:%s %s", rt.method, rt.path), "%s: answered %v, expected %d", id, a, want)
	}
	if want != 200 && rt.port == 0 && rt.method != "HEAD" {
		if w := isErr(a, want, map[int]string{401: "UNAUTHORIZED", 403: "FORBIDDEN"}[want]); w != "" {
			p.Fail(id, "refusal", "%s: %s", id, w)
		}
	}
	if want == 200 && strings.HasPrefix(rt.path, "/v1/me") && rt.method == "GET" {
		me := a.json()
		caps := []any{}
		sc := []any{}
		for _, x := range c.scopes {
			sc, caps = append(sc, x), append(caps, "cache."+x)
		}
		if strings.Contains(rt.path, "can") {
			if me["capability"] != "cache.write" || me["allowed"] != slices.Contains(c.scopes, "write") {
				p.Fail(id, "can", "%s: %v", id, a)
			}
		} else if me["id"] != c.id || fmt.Sprint(me["scopes"]) != fmt.Sprint(sc) || fmt.Sprint(me["capabilities"]) != fmt.Sprint(caps) {
			p.Fail(id, "me", "%s: %v", id, a)
		}
	}
	effect := rt.effect
	if want != 200 {
		effect = ""
	}
	now := held(s, k, c, peer)
	if e := map[string]string{"": "old", "new": "new", "gone": ""}[effect]; now != e && now != "?" {
		p.Fail(id, "effect:"+rt.method+" "+rt.path, "%s: answered %v, and the key holds %q, not %q", id, a, now, e)
	}
	p.Outcome("%s %s %d", rt.method, rt.path, a.status)
}

// keeper is a credential that may do everything, by posture.
var keeper = map[*server]string{}

func held(s *server, k string, _ cred, _ string) string {
	var h []string
	if x := keeper[s]; x != "" {
		h = append(h, "Authorization: "+x)
	}
	a := s.do("GET", "/v1/cache/"+k, nil, h...)
	switch a.status {
	case 200:
		return string(a.body)
	case 404:
		return ""
	}
	return "?"
}

func store(s *server) func(string) {
	return func(k string) {
		var h []string
		if x := keeper[s]; x != "" {
			h = append(h, "Authorization: "+x)
		}
		if a := s.do("PUT", "/v1/cache/"+k, []byte("old"), h...); a.status != 200 {
			panic(fmt.Sprint("the owner of every scope cannot write: ", a))
		}
	}
}

func authz(p *kit.P) {
	for _, ps := range postures() {
		func() {
			nodes, stop := once(func() []*server {
				s := start(ps.env()...)
				for _, c := range ps.creds {
					if len(c.scopes) == 3 {
						keeper[s] = c.hdr
					}
				}
				return []*server{s}
			})
			defer stop()
			used := false
			for _, c := range ps.creds {
				for _, rt := range routes() {
					id := fmt.Sprintf("%s: %s %s with %s", ps.name, rt.method, rt.path, c.name)
					if !p.Begin("%s", id) {
						continue
					}
					used = true
					s := nodes()[0]
					gate(p, id, s, rt, c, ps.peer, store(s))
				}
				// every other spelling of a path is refused as well, or is nothing
				for _, v := range []string{"/V1/CACHE/K", "/v1/cache/K/", "//v1/cache/K", "/v1//cache/K", "/v1/./cache/K", "/v1/x/../cache/K", "/v1/cache/%4b", "/v1%2fcache/K", "/v1/cache/K?ttl=1h", "/healthz/../v1/cache/K", "/v1/cache/K%00", "/V1/me", "/v1/me/", "/v1/owners/K/"} {
					for _, m := range []string{"GET", "PUT", "DELETE", "POST", "PATCH", "OPTIONS", "TRACE"} {
						id := fmt.Sprintf("%s: %s %s with %s", ps.name, m, v, c.name)
						if c.scopes != nil && !p.Deep() || !p.Begin("%s", id) {
							continue
						}
						used = true
						s := nodes()[0]
						k := tag(id)
						store(s)(k)
						var h []string
						if c.hdr != "" {
							h = append(h, "Authorization: "+c.hdr)
						}
						a := s.do(m, strings.ReplaceAll(v, "K", k), []byte("new"), h...)
						if now := held(s, k, c, ""); c.scopes == nil && (now != "old" || a.status >= 200 && a.status < 300 || strings.Contains(string(a.body), "old")) {
							p.Fail(id, "variant:"+m, "%s: answered %v, the key holds %q", id, a, now)
						}
						p.Outcome("%s %d", m, a.status)
					}
				}
			}
			if used {
				s := nodes()[0]
				log := s.log.String()
				for _, t := range []string{tokRead, tokWrite, tokAdmin, tokRW, tokOps, tokPeer, password, "$2a$"} {
					if strings.Contains(log, t) {
						p.Fail(ps.name, "log", "%s: the log shows a credential: %s", ps.name, log)
					}
				}
				if !s.alive() {
					p.Fail(ps.name, "crash", "%s: the server ended: %s", ps.name, log)
				}
			}
		}()
	}
}

// idp is an OIDC provider.
type idp struct {
	url string
	key *rsa.PrivateKey
	srv *http.Server
}

func newIDP(wrongIssuer bool) *idp {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	l, err := net.Listen("tcp", home+":0")
	if err != nil {
		panic(err)
	}
	i := &idp{url: "http://" + l.Addr().String(), key: k}
	iss := i.url
	if wrongIssuer {
		iss += "/other"
	}
	mux := http.NewServeMux()
	mux.HandleFunc("/.well-known/openid-configuration", func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode(map[string]any{"issuer": iss, "jwks_uri": i.url + "/jwks", "authorization_endpoint": i.url + "/a", "token_endpoint": i.url + "/t", "id_token_signing_alg_values_supported": []string{"RS256"}})
	})
	mux.HandleFunc("/jwks", func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		b := base64.RawURLEncoding
		json.NewEncoder(w).Encode(map[string]any{"keys": []any{map[string]any{"kty": "RSA", "kid": "k1", "alg": "RS256", "use": "sig", "n": b.EncodeToString(k.N.Bytes()), "e": b.EncodeToString(big.NewInt(int64(k.E)).Bytes())}}})
	})
	i.srv = &http.Server{Handler: mux}
	go i.srv.Serve(l)
	return i
}

func b64u(v any) string {
	b, ok := v.([]byte)
	if !ok {
		b, _ = json.Marshal(v)
	}
	return base64.RawURLEncoding.EncodeToString(b)
}

func sign(k *rsa.PrivateKey, hdr, claims map[string]any) string {
	m := b64u(hdr) + "." + b64u(claims)
	d := sha256.Sum256([]byte(m))
	s, err := rsa.SignPKCS1v15(rand.Reader, k, crypto.SHA256, d[:])
	if err != nil {
		panic(err)
	}
	return m + "." + b64u(s)
}

type jwt struct {
	name   string
	tok    string
	id     string
	scopes []string
}

const audience = "the-cache"

func jwts(i *idp, idClaim, scopeClaim string) []jwt {
	now := time.Now().Unix()
	other, _ := rsa.GenerateKey(rand.Reader, 2048)
	rs := map[string]any{"alg": "RS256", "typ": "JWT", "kid": "k1"}
	mk := func(f func(map[string]any)) map[string]any {
		c := map[string]any{"iss": i.url, "aud": audience, "exp": now + 3600, "iat": now, idClaim: "bob", scopeClaim: "read write"}
		f(c)
		return c
	}
	good := func(name string, id string, sc []string, f func(map[string]any)) jwt {
		return jwt{name, sign(i.key, rs, mk(f)), id, sc}
	}
	no := func(name string, f func(map[string]any)) jwt { return jwt{name, sign(i.key, rs, mk(f)), "", nil} }
	set := func(k string, v any) func(map[string]any) { return func(c map[string]any) { c[k] = v } }
	del := func(k string) func(map[string]any) { return func(c map[string]any) { delete(c, k) } }
	valid := sign(i.key, rs, mk(set("x", 1)))
	parts := strings.Split(valid, ".")
	admin := mk(set(scopeClaim, "read write admin"))
	none := b64u(map[string]any{"alg": "none"}) + "." + b64u(admin) + "."
	mac := hmac.New(sha256.New, x509.MarshalPKCS1PublicKey(&i.key.PublicKey))
	hs := b64u(map[string]any{"alg": "HS256", "kid": "k1"}) + "." + b64u(admin)
	mac.Write([]byte(hs))
	hs += "." + b64u(mac.Sum(nil))
	rw := []string{"read", "write"}
	return []jwt{
		{"valid", valid, "bob", rw},
		good("aud list", "bob", rw, set("aud", []string{"x", audience})),
		good("scopes list", "bob", rw, set(scopeClaim, []string{"read", "write"})),
		good("scope read", "bob", []string{"read"}, set(scopeClaim, "read")),
		good("scope write", "bob", []string{"write"}, set(scopeClaim, []string{"write"})),
		good("scope admin", "bob", []string{"admin"}, set(scopeClaim, "admin")),
		good("all scopes", "bob", allScopes, set(scopeClaim, " read  write\tadmin ")),
		good("unknown scopes", "bob", []string{"read"}, set(scopeClaim, "openid read cache.write Write WRITE writer administrator")),
		good("scopes in one element", "bob", []string{}, set(scopeClaim, []string{"read write"})),
		good("odd scope elements", "bob", []string{"write"}, set(scopeClaim, []any{1, nil, "write", map[string]any{"read": true}})),
		good("no scope claim", "bob", []string{}, del(scopeClaim)),
		good("scope number", "bob", []string{}, set(scopeClaim, 7)),
		good("scope object", "bob", []string{}, set(scopeClaim, map[string]any{"read": true})),
		good("scope null", "bob", []string{}, set(scopeClaim, nil)),
		good("scopes in another claim", "bob", []string{}, func(c map[string]any) {
			delete(c, scopeClaim)
			c["scopes"], c["scp"], c["permissions"] = "admin", "admin", "admin"
		}),
		no("expired", set("exp", now-3600)), no("no expiry", del("exp")), no("other audience", set("aud", "else")), no("no audience", del("aud")), no("audience in a list of others", set("aud", []string{"a", "b"})),
		no("audience prefix", set("aud", audience[:5])), no("other issuer", set("iss", "http://evil")), no("issuer with slash", set("iss", i.url+"/")), no("no issuer", del("iss")), no("not yet", set("nbf", now+3600)),
		no("no identity", del(idClaim)), no("empty identity", set(idClaim, "")), no("number identity", set(idClaim, 42)), no("list identity", set(idClaim, []string{"bob"})), no("null identity", set(idClaim, nil)),
		{"signed by another", sign(other, rs, admin), "", nil}, {"unknown kid", sign(other, map[string]any{"alg": "RS256", "kid": "k2"}, admin), "", nil}, {"alg none", none, "", nil}, {"hmac", hs, "", nil},
		{"claims swapped", parts[0] + "." + b64u(admin) + "." + parts[2], "", nil}, {"signature cut", valid[:len(valid)-6], "", nil}, {"no signature", parts[0] + "." + parts[1] + ".", "", nil}, {"two parts", parts[0] + "." + parts[1], "", nil},
		{"rubbish", "a.b.c", "", nil}, {"empty", "", "", nil}, {"four parts", valid + ".x", "", nil},
	}
}

func oidc(p *kit.P) {
	shapes := []struct{ name, id, scope string }{{"defaults", "sub", "scope"}, {"own claims", "email", "cache_scopes"}}
	for _, sh := range shapes {
		for _, static := range []string{"alone", "with tokens", "with a token"} {
			func() {
				var provider *idp
				nodes, stop := once(func() []*server {
					provider = newIDP(false)
					env := []string{"HYPERCACHE_OIDC_ISSUER=" + provider.url, "HYPERCACHE_OIDC_AUDIENCE=" + audience}
					if sh.id != "sub" {
						env = append(env, "HYPERCACHE_OIDC_IDENTITY_CLAIM="+sh.id, "HYPERCACHE_OIDC_SCOPE_CLAIM="+sh.scope)
					}
					switch static {
					case "with tokens":
						env = append(env, "HYPERCACHE_AUTH_CONFIG="+file("auth.yaml", tokens))
					case "with a token":
						env = append(env, "HYPERCACHE_AUTH_TOKEN="+tokOps)
					}
					s := start(env...)
					now := time.Now().Unix()
					keeper[s] = "Bearer " + sign(provider.key, map[string]any{"alg": "RS256", "kid": "k1"}, map[string]any{"iss": provider.url, "aud": audience, "exp": now + 36000, sh.id: "keeper", sh.scope: []string{"read", "write"}})
					return []*server{s}
				})
				defer stop()
				// names only: the tokens exist once the provider does
				var list []jwt
				names := jwtNames()
				peer := ""
				extra := []cred{{"nothing", "", "", nil}, {"raw", "rubbish", "", nil}, {"basic", basicHdr("a", "b"), "", nil}, {"reader", "Bearer " + tokRead, "", nil}, {"ops", "Bearer " + tokOps, "", nil}}
				switch static {
				case "with tokens":
					extra[3].id, extra[3].scopes = "reader", []string{"read"}
					extra[4].id, extra[4].scopes = "ops", allScopes
				case "with a token":
					extra[4].id, extra[4].scopes = "default", allScopes
					peer = tokOps
				}
				for n := range len(names) + len(extra) {
					for _, rt := range routes() {
						if rt.port == 2 || !p.Deep() && rt.method == "HEAD" {
							continue
						}
						name := ""
						if n < len(names) {
							name = names[n]
						} else {
							name = extra[n-len(names)].name
						}
						id := fmt.Sprintf("%s, %s: %s %s with %s", sh.name, static, rt.method, rt.path, name)
						if !p.Begin("%s", id) {
							continue
						}
						s := nodes()[0]
						if list == nil {
							list = jwts(provider, sh.id, sh.scope)
						}
						var c cred
						if n < len(names) {
							j := list[n]
							c = cred{j.name, "Bearer " + j.tok, j.id, j.scopes}
							if j.scopes == nil {
								c.scopes = nil
							}
						} else {
							c = extra[n-len(names)]
						}
						gate(p, id, s, rt, c, peer, store(s))
						if strings.Contains(s.log.String(), "eyJ") {
							p.Fail(id, "log", "%s: a token is in the log", id)
						}
					}
				}
				if provider != nil {
					provider.srv.Close()
				}
			}()
		}
	}
}

func jwtNames() (out []string) {
	k, _ := rsa.GenerateKey(rand.Reader, 2048)
	for _, j := range jwts(&idp{url: "x", key: k}, "sub", "scope") {
		out = append(out, j.name)
	}
	return
}

// ca is a certificate authority.
type ca struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  string
}

func newCert(cn string, parent *ca, isCA bool, mod func(*x509.Certificate)) (*ca, string) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	sn, _ := rand.Int(rand.Reader, big.NewInt(1<<60))
	t := &x509.Certificate{SerialNumber: sn, Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IPAddresses: []net.IP{net.ParseIP(strings.Split(home, ":")[0])},
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, IsCA: isCA, BasicConstraintsValid: true}
	if mod != nil {
		mod(t)
	}
	p, pk := t, k
	if parent != nil {
		p, pk = parent.cert, parent.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p, &k.PublicKey, pk)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	kb, _ := x509.MarshalECPrivateKey(k)
	return &ca{c, k, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))}, string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}))
}

const certs = `cert_identities:
  - {subject_cn: reader.internal, scopes: [read]}
  - {subject_cn: ops.internal, scopes: [read, write, admin]}
`

func mtls(p *kit.P) {
	root, _ := newCert("root", nil, true, nil)
	evil, _ := newCert("root", nil, true, nil)
	inter, _ := newCert("ops.internal", root, true, nil) // an intermediate named like an identity
	srv, srvKey := newCert("server", root, false, nil)
	type cl struct {
		name   string
		cert   *ca
		key    string
		chain  string
		in     bool // gets past TLS
		id     string
		scopes []string
	}
	var clients []cl
	add := func(name, cn string, parent *ca, chain string, in bool, scopes []string, mod func(*x509.Certificate)) {
		c, k := newCert(cn, parent, false, mod)
		clients = append(clients, cl{name, c, k, c.pem + chain, in, cn, scopes})
	}
	add("reader", "reader.internal", root, "", true, []string{"read"}, nil)
	add("ops", "ops.internal", root, "", true, allScopes, nil)
	add("unknown", "nobody.internal", root, "", true, nil, nil)
	add("no name", "", root, "", true, nil, nil)
	add("prefix", "ops", root, "", true, nil, nil)
	add("upper case", "OPS.INTERNAL", root, "", true, nil, nil)
	add("name in SAN only", "nobody", root, "", true, nil, func(c *x509.Certificate) { c.DNSNames = []string{"ops.internal"} })
	add("below an intermediate", "reader.internal", inter, inter.pem, true, []string{"read"}, nil)
	add("unknown below an intermediate named ops", "nobody.internal", inter, inter.pem, true, nil, nil)
	add("another authority", "ops.internal", evil, "", false, nil, nil)
	add("another authority, chain", "ops.internal", evil, evil.pem+root.pem, false, nil, nil)
	add("expired", "ops.internal", root, "", false, nil, func(c *x509.Certificate) { c.NotAfter = time.Now().Add(-time.Minute) })
	add("server certificate", "ops.internal", root, "", false, nil, func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} })
	self, selfKey := newCert("ops.internal", nil, false, nil)
	clients = append(clients, cl{"self-signed", self, selfKey, self.pem, false, "", nil}, cl{"none", nil, "", "", false, "", nil})
	pool := x509.NewCertPool()
	pool.AddCert(root.cert)
	for _, mode := range []string{"mtls", "mtls and tokens", "tls"} {
		func() {
			nodes, stop := once(func() []*server {
				env := []string{"HYPERCACHE_API_TLS_CERT=" + file("srv.pem", srv.pem), "HYPERCACHE_API_TLS_KEY=" + file("srv.key", srvKey)}
				if mode != "tls" {
					env = append(env, "HYPERCACHE_API_TLS_CLIENT_CA="+file("ca.pem", root.pem))
				}
				cfg := certs
				if mode != "mtls" {
					cfg += tokens + users()
				}
				return []*server{start(append(env, "HYPERCACHE_AUTH_CONFIG="+file("auth.yaml", cfg))...)}
			})
			defer stop()
			for _, c := range clients {
				for _, cr := range []cred{{"nothing", "", "", nil}, {"reader token", "Bearer " + tokRead, "reader", []string{"read"}}, {"user", basicHdr("alice", password), "basic-user", []string{"read", "write"}}, {"wrong token", "Bearer x", "", nil}} {
					for _, rt := range routes() {
						if rt.port != 0 || strings.HasPrefix(rt.path, "/v1/cache/K") && rt.method == "HEAD" {
							continue
						}
						id := fmt.Sprintf("%s: %s %s, certificate %s, with %s", mode, rt.method, rt.path, c.name, cr.name)
						if !p.Begin("%s", id) {
							continue
						}
						s := *nodes()[0]
						s.scheme = "https"
						tc := &tls.Config{RootCAs: pool}
						if c.cert != nil {
							pair, err := tls.X509KeyPair([]byte(c.chain), []byte(c.key))
							if err != nil {
								panic(err)
							}
							tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &pair, nil }
						}
						tr := &http.Transport{TLSClientConfig: tc}
						s.hc = &http.Client{Transport: tr, Timeout: 20 * time.Second}
						who := cr
						if mode == "mtls" {
							who.id, who.scopes = "", nil
						}
						if who.scopes == nil && mode != "tls" {
							who.id, who.scopes = c.id, c.scopes
						}
						k := tag(id)
						path, body := strings.ReplaceAll(rt.path, "K", k), []byte(nil)
						if rt.body != "" {
							body = []byte(strings.ReplaceAll(rt.body, "\"K\"", "\""+k+"\""))
						}
						var h []string
						if cr.hdr != "" {
							h = append(h, "Authorization: "+cr.hdr)
						}
						a := s.do(rt.method, path, body, h...)
						want := 200
						switch {
						case mode != "tls" && !c.in:
							want = 0
						case rt.scope == "":
						case who.scopes == nil:
							want = 401
						case !slices.Contains(who.scopes, rt.scope):
							want = 403
						}
						if want == 200 && strings.HasSuffix(rt.path, "/K") && rt.method == "GET" && strings.Contains(rt.path, "cache") {
							want = 404 // nothing is stored
						}
						if (a.err != nil) != (want == 0) || a.status != want {
							p.Fail(id, "gate:"+rt.method+" "+rt.path, "%s: %v, expected %d", id, a, want)
						}
						if want == 200 && rt.path == "/v1/me" && rt.method == "GET" && a.json()["id"] != who.id {
							p.Fail(id, "me", "%s: %v, not %s", id, a, who.id)
						}
						tr.CloseIdleConnections()
						p.Outcome("%s %d", mode, a.status)
					}
				}
			}
		}()
	}
}

func boot(p *kit.P) {
	srv, srvKey := newCert("server", nil, false, nil)
	type bc struct {
		name string
		env  func() []string
	}
	cfg := func(s string) func() []string {
		return func() []string { return []string{"HYPERCACHE_AUTH_CONFIG=" + file("auth.yaml", s)} }
	}
	env := func(s ...string) func() []string { return func() []string { return s } }
	wrong := []bc{
		{"missing auth file", env("HYPERCACHE_AUTH_CONFIG=/nonexistent/auth.yaml")}, {"auth file is a folder", env("HYPERCACHE_AUTH_CONFIG=/tmp")}, {"missing auth file, token set", env("HYPERCACHE_AUTH_CONFIG=/nonexistent/auth.yaml", "HYPERCACHE_AUTH_TOKEN=x")},
		{"malformed auth file", cfg("tokens: [")}, {"empty auth file", cfg("")}, {"unknown field", cfg("token: []\n")}, {"unknown scope", cfg("tokens: [{id: a, token: t, scopes: [root]}]")}, {"no scopes", cfg("tokens: [{id: a, token: t}]")},
		{"empty token", cfg("tokens: [{id: a, token: '', scopes: [read]}]")}, {"no id", cfg("tokens: [{token: t, scopes: [read]}]")}, {"bad hash", cfg("users: [{id: a, username: a, password_bcrypt: secret, scopes: [read]}]")}, {"no cn", cfg("cert_identities: [{scopes: [read]}]")},
		{"token list", cfg("tokens: [" + tokOps + "]")},
		{"issuer without audience", env("HYPERCACHE_OIDC_ISSUER=http://" + home + ":1")}, {"audience without issuer", env("HYPERCACHE_OIDC_AUDIENCE=a")}, {"unreachable issuer", env("HYPERCACHE_OIDC_ISSUER=http://"+home+":1", "HYPERCACHE_OIDC_AUDIENCE=a")},
		{"cert without key", func() []string { return []string{"HYPERCACHE_API_TLS_CERT=" + file("srv.pem", srv.pem)} }}, {"key without cert", func() []string { return []string{"HYPERCACHE_API_TLS_KEY=" + file("srv.key", srvKey)} }},
		{"missing cert", env("HYPERCACHE_API_TLS_CERT=/nonexistent/c", "HYPERCACHE_API_TLS_KEY=/nonexistent/k")},
		{"rubbish cert", func() []string {
			return []string{"HYPERCACHE_API_TLS_CERT=" + file("srv.pem", "x"), "HYPERCACHE_API_TLS_KEY=" + file("srv.key", srvKey)}
		}},
		{"missing ca", func() []string {
			return []string{"HYPERCACHE_API_TLS_CERT=" + file("srv.pem", srv.pem), "HYPERCACHE_API_TLS_KEY=" + file("srv.key", srvKey), "HYPERCACHE_API_TLS_CLIENT_CA=/nonexistent/ca"}
		}},
		{"rubbish ca", func() []string {
			return []string{"HYPERCACHE_API_TLS_CERT=" + file("srv.pem", srv.pem), "HYPERCACHE_API_TLS_KEY=" + file("srv.key", srvKey), "HYPERCACHE_API_TLS_CLIENT_CA=" + file("ca.pem", "x")}
		}},
		{"issuer of another name", func() []string {
			return []string{"HYPERCACHE_OIDC_ISSUER=" + newIDP(true).url, "HYPERCACHE_OIDC_AUDIENCE=a"}
		}},
	}
	for _, w := range wrong {
		if !p.Begin("%s", w.name) {
			continue
		}
		e := baseEnv("n0")
		for _, x := range w.env() {
			k, v, _ := strings.Cut(x, "=")
			e[k] = v
		}
		s := spawn(e)
		if !until(20*time.Second, func() bool { return !s.alive() }) {
			open := s.do("GET", "/v1/cache/x", nil)
			p.Fail(w.name, "boot:"+w.name, "the server started with %s, and answers %v", w.name, open)
		} else if s.cmd.ProcessState.ExitCode() != 1 {
			p.Fail(w.name, "boot:"+w.name, "with %s the server ended with %v: %s", w.name, s.cmd.ProcessState, s.log)
		}
		if strings.Contains(s.log.String(), tokOps) || strings.TrimSpace(s.log.String()) == "" {
			p.Fail(w.name, "boot:message", "with %s the server says %q", w.name, s.log)
		}
		s.kill()
		p.Outcome("%s", w.name)
	}
	for _, sig := range []syscall.Signal{syscall.SIGTERM, syscall.SIGINT} {
		for _, n := range []int{1, 3} {
			for _, stream := range []bool{false, true} {
				id := fmt.Sprintf("%v to one of %d, stream=%v", sig, n, stream)
				if !p.Begin("%s", id) {
					continue
				}
				ss := startCluster(n, n)
				for i := range 20 {
					ss[0].do("PUT", fmt.Sprintf("/v1/cache/k%d", i), []byte("v"))
				}
				if stream {
					req, _ := http.NewRequest("GET", "http://"+ss[0].mgmt+"/cluster/events", nil)
					if resp, err := (&http.Client{}).Do(req); err == nil {
						defer resp.Body.Close()
					}
				}
				t0 := time.Now()
				ss[0].cmd.Process.Signal(sig)
				if !until(40*time.Second, func() bool { return !ss[0].alive() }) {
					p.Fail(id, "stop:hang", "%s: still there after %v: %s", id, time.Since(t0), ss[0].log)
				} else if c := ss[0].cmd.ProcessState.ExitCode(); c != 0 {
					p.Fail(id, "stop:code", "%s: ended with %v: %s", id, ss[0].cmd.ProcessState, ss[0].log)
				} else if !strings.Contains(ss[0].log.String(), "stopped cleanly") {
					p.Fail(id, "stop:log", "%s: %s", id, ss[0].log)
				}
				for i := range 20 { // its copies are on the others
					for _, s := range ss[1:] {
						if a := s.do("GET", fmt.Sprintf("/v1/cache/k%d", i), nil); a.status != 200 {
							p.Fail(id, "stop:lost", "%s: %s lost k%d: %v", id, s.id, i, a)
						}
					}
				}
				for _, s := range ss {
					s.kill()
				}
				p.Outcome("%s", id)
			}
		}
	}
}

func mgmt(p *kit.P) {
	for _, n := range []int{1, 3} {
		for _, r := range []int{1, 2, 3} {
			func() {
				nodes, stop := once(func() []*server { return startCluster(n, r) })
				defer stop()
				for at := range n {
					id := fmt.Sprintf("%d nodes, %d replicas, n%d", n, r, at)
					if !p.Begin("%s", id) {
						continue
					}
					ss := nodes()
					s := ss[at]
					get := func(path string) map[string]any {
						a := s.call("GET", s.mgmt, path, nil)
						if a.status != 200 {
							p.Fail(id, "answer:"+path, "%s: %s: %v", id, path, a)
						}
						return a.json()
					}
					// every node is known everywhere, at its address
					m := get("/cluster/members")
					list, _ := m["members"].([]any)
					got := map[string]string{}
					for _, x := range list {
						y, _ := x.(map[string]any)
						got[fmt.Sprint(y["ID"])] = fmt.Sprint(y["Address"], " ", y["State"])
					}
					ok := len(list) == n && m["replication"] == float64(r)
					for _, x := range ss {
						ok = ok && got[x.id] == x.dist+" alive"
					}
					if !ok {
						p.Fail(id, "members", "%s: %v", id, m)
					}
					if c := get("/config"); c["replication"] != float64(r) || c["virtualNodesPerNode"] != m["virtualNodes"] {
						p.Fail(id, "config", "%s: %v", id, c)
					}
					ring := get("/cluster/ring")
					if spots, _ := ring["vnodes"].([]any); ring["count"] != float64(len(spots)) || float64(len(spots)) != float64(n)*m["virtualNodes"].(float64) {
						p.Fail(id, "ring", "%s: %v spots in %d", id, ring["count"], len(spots))
					}
					for i := range 20 {
						k := fmt.Sprintf("%s%d", tag(id), i)
						a, b := get("/dist/owners?key="+k), s.do("GET", "/v1/owners/"+k, nil).json()
						o, _ := a["owners"].([]any)
						if len(o) != min(n, r) || fmt.Sprint(o) != fmt.Sprint(b["owners"]) || a["key"] != k {
							p.Fail(id, "owners", "%s: %v, the API says %v", id, a, b)
						}
						for _, x := range ss {
							if c := x.do("GET", "/v1/owners/"+k, nil).json(); fmt.Sprint(c["owners"]) != fmt.Sprint(o) {
								p.Fail(id, "owners:differ", "%s: %v, %s says %v", id, a, x.id, c)
							}
						}
					}
					for _, x := range []string{"/dist/metrics", "/cluster/heartbeat"} {
						if len(get(x)) == 0 {
							p.Fail(id, "empty:"+x, "%s: %s is empty", id, x)
						}
					}
					if a := s.call("GET", s.mgmt, "/dist/owners", nil); a.status != 400 {
						p.Fail(id, "owners:none", "%s: without a key: %v", id, a)
					}
					// clearing clears
					k := tag(id)
					s.do("PUT", "/v1/cache/"+k, []byte("v"))
					if a := s.call("POST", s.mgmt, "/clear", nil); a.status != 200 {
						p.Fail(id, "clear", "%s: %v", id, a)
					}
					if n == 1 {
						if w := listing(s, "", [2]string{}, model{}); w != "" {
							p.Fail(id, "clear:left", "%s: after /clear: %s", id, w)
						}
					}
					p.Outcome("%s", id)
				}
			}()
		}
	}
}
