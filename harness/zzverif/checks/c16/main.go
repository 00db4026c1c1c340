// C16: loading the authentication policy from the environment.
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

type scopes = []httpauth.Scope

var (
	dir string
	all = scopes{httpauth.ScopeRead, httpauth.ScopeWrite, httpauth.ScopeAdmin}
)

const (
	bcHash  = "$2a$04$0123456789abcdefghijkOYPDcyZRjmpuEkN9Utl.CNgBAbXBKTXG"
	secret1 = "s3cr3t-AAAA"
	secret2 = "pa$$:wörd \"x\" 'y' #z"
	secret3 = "hunter2"
)

func load(config, token *string) (httpauth.Policy, error) {
	for k, v := range map[string]*string{"HYPERCACHE_AUTH_CONFIG": config, "HYPERCACHE_AUTH_TOKEN": token} {
		if v == nil {
			os.Unsetenv(k)
		} else {
			os.Setenv(k, *v)
		}
	}
	return httpauth.LoadFromEnv()
}

func ptr(s string) *string { return &s }

func write(body string) string {
	f := filepath.Join(dir, "auth.yaml")
	if err := os.WriteFile(f, []byte(body), 0o600); err != nil {
		panic(err)
	}
	return f
}

// q is a YAML double-quoted scalar.
func q(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

type row struct{ f [][2]string } // ordered fields, YAML source of each value

func (r row) with(k, v string) row {
	n := row{slices.Clone(r.f)}
	for i := range n.f {
		if n.f[i][0] == k {
			n.f[i][1] = v
			return n
		}
	}
	n.f = append(n.f, [2]string{k, v})
	return n
}

func (r row) without(k string) row {
	n := row{}
	for _, f := range r.f {
		if f[0] != k {
			n.f = append(n.f, f)
		}
	}
	return n
}

func (r row) String() string {
	var b strings.Builder
	for i, f := range r.f {
		if i == 0 {
			b.WriteString("  - ")
		} else {
			b.WriteString("    ")
		}
		b.WriteString(f[0] + ": " + f[1] + "\n")
	}
	return b.String()
}

type doc struct {
	tokens, users, certs []row
	anon, plain          bool
	top                  string
}

func (d doc) String() string {
	var b strings.Builder
	for _, s := range []struct {
		n string
		r []row
	}{{"tokens", d.tokens}, {"users", d.users}, {"cert_identities", d.certs}} {
		if len(s.r) > 0 {
			b.WriteString(s.n + ":\n")
			for _, r := range s.r {
				b.WriteString(r.String())
			}
		}
	}
	fmt.Fprintf(&b, "allow_anonymous: %v\nallow_basic_without_tls: %v\n%s", d.anon, d.plain, d.top)
	return b.String()
}

func scopeText(ss scopes) string {
	var n []string
	for _, s := range ss {
		n = append(n, string(s))
	}
	return "[" + strings.Join(n, ", ") + "]"
}

func tokenRow(id, tok string, ss scopes) (row, httpauth.TokenIdentity) {
	return row{[][2]string{{"id", q(id)}, {"token", q(tok)}, {"scopes", scopeText(ss)}}}, httpauth.TokenIdentity{ID: id, Token: tok, Scopes: ss}
}

func userRow(id, name string, ss scopes) (row, httpauth.BasicIdentity) {
	return row{[][2]string{{"id", q(id)}, {"username", q(name)}, {"password_bcrypt", q(bcHash)}, {"scopes", scopeText(ss)}}},
		httpauth.BasicIdentity{ID: id, Username: name, PasswordBcrypt: []byte(bcHash), Scopes: ss}
}

func certRow(cn string, ss scopes) (row, httpauth.CertIdentity) {
	return row{[][2]string{{"subject_cn", q(cn)}, {"scopes", scopeText(ss)}}}, httpauth.CertIdentity{SubjectCN: cn, Scopes: ss}
}

func same(got, want httpauth.Policy) bool {
	return slices.EqualFunc(got.Tokens, want.Tokens, func(a, b httpauth.TokenIdentity) bool {
		return a.ID == b.ID && a.Token == b.Token && slices.Equal(a.Scopes, b.Scopes)
	}) && slices.EqualFunc(got.BasicIdentities, want.BasicIdentities, func(a, b httpauth.BasicIdentity) bool {
		return a.ID == b.ID && a.Username == b.Username && string(a.PasswordBcrypt) == string(b.PasswordBcrypt) && slices.Equal(a.Scopes, b.Scopes)
	}) && slices.EqualFunc(got.CertIdentities, want.CertIdentities, func(a, b httpauth.CertIdentity) bool {
		return a.SubjectCN == b.SubjectCN && slices.Equal(a.Scopes, b.Scopes)
	}) && got.AllowAnonymous == want.AllowAnonymous && got.AllowBasicWithoutTLS == want.AllowBasicWithoutTLS && got.ServerVerify == nil
}

func leaks(err error) string {
	s := err.Error()
	for _, x := range []string{secret1, secret1[:5], "pa$$", "wörd", secret3, bcHash, bcHash[7:16]} {
		if strings.Contains(s, x) {
			return x
		}
	}
	return ""
}

// refused checks what every refusal must look like.
func refused(p *kit.P, id string, pol httpauth.Policy, err error) {
	switch {
	case err == nil:
		p.Fail(id, "accepted", "%s: accepted as %+v", id, redacted(pol))
		return
	case !errors.Is(err, httpauth.ErrInvalidPolicy):
		p.Fail(id, "sentinel", "%s: %v does not wrap ErrInvalidPolicy", id, err)
	}
	if l := leaks(err); l != "" {
		p.Fail(id, "leak", "%s: the error shows %q: %v", id, l, err)
	}
	if pol.IsConfigured() || pol.AllowAnonymous || pol.AllowBasicWithoutTLS {
		p.Fail(id, "partial", "%s: refused, yet it returns the policy %+v", id, pol)
	}
}

func redacted(p httpauth.Policy) string {
	return fmt.Sprintf("%d tokens, %d users, %d certs, anonymous %v", len(p.Tokens), len(p.BasicIdentities), len(p.CertIdentities), p.AllowAnonymous)
}

// accepted: every combination of well-formed sections loads as written.
func accepted(p *kit.P) {
	scs := []scopes{{"read"}, {"write", "read"}, {"admin"}, all, {"admin", "write", "read"}}
	lens := 3
	if p.Deep() {
		lens = 4
	}
	for nt := range lens {
		for nu := range lens {
			for nc := range lens {
				for si := range scs {
					for flags := range 4 {
						d := doc{anon: flags&1 > 0, plain: flags&2 > 0}
						w := httpauth.Policy{AllowAnonymous: d.anon, AllowBasicWithoutTLS: d.plain}
						for i := range nt {
							r, t := tokenRow(fmt.Sprintf("id-%d", i), []string{secret1, secret2, " lead", "12345"}[i], scs[(si+i)%len(scs)])
							d.tokens, w.Tokens = append(d.tokens, r), append(w.Tokens, t)
						}
						for i := range nu {
							r, u := userRow(fmt.Sprintf("uid-%d", i), []string{"ann", "b:ob", "yes", "ü"}[i], scs[(si+2*i+1)%len(scs)])
							d.users, w.BasicIdentities = append(d.users, r), append(w.BasicIdentities, u)
						}
						for i := range nc {
							r, c := certRow([]string{"app.internal", "*", "a b", "null"}[i], scs[(si+3*i+2)%len(scs)])
							d.certs, w.CertIdentities = append(d.certs, r), append(w.CertIdentities, c)
						}
						for _, tok := range []*string{nil, ptr(""), ptr("legacy")} {
							id := fmt.Sprintf("tokens=%d users=%d certs=%d scopes=%d flags=%d legacy=%v", nt, nu, nc, si, flags, tok != nil && *tok != "")
							if !p.Begin("%s", id) {
								continue
							}
							pol, err := load(ptr(write(d.String())), tok)
							if err != nil {
								p.Fail(id, "refused", "%s: well-formed file refused: %v", id, err)
								continue
							}
							if !same(pol, w) {
								p.Fail(id, "policy", "%s: loaded %+v, want %+v", id, pol, w)
							}
							p.Outcome("%s", redacted(pol))
						}
					}
				}
			}
		}
	}
}

// repeated: one identity may hold several credentials, also with the same scopes.
func repeated(p *kit.P) {
	for m := range 27 {
		id := fmt.Sprintf("pattern %d", m)
		if !p.Begin("%s", id) {
			continue
		}
		var d doc
		var w httpauth.Policy
		for i, x := range []int{0, m % 3, m / 3 % 3, m / 9} {
			ss := all[x : x+1]
			r, t := tokenRow(fmt.Sprintf("id-%d", x), fmt.Sprintf("%s-%d", secret1, i), ss)
			d.tokens, w.Tokens = append(d.tokens, r), append(w.Tokens, t)
			r, u := userRow(fmt.Sprintf("id-%d", x), fmt.Sprintf("user-%d", i), ss)
			d.users, w.BasicIdentities = append(d.users, r), append(w.BasicIdentities, u)
			r, c := certRow(fmt.Sprintf("cn-%d", i), ss)
			d.certs, w.CertIdentities = append(d.certs, r), append(w.CertIdentities, c)
		}
		pol, err := load(ptr(write(d.String())), ptr("legacy"))
		if err != nil || !same(pol, w) {
			p.Fail(id, "policy", "%s: loaded %+v (%v), want %+v", id, pol, err, w)
		}
		p.Outcome("%s", redacted(pol))
	}
}

// environment: precedence of the two variables.
func environment(p *kit.P) {
	good, gt := tokenRow("file", secret1, scopes{"read"})
	for ci, c := range []string{"unset", "", "good", "missing", "directory", "unparsable"} {
		for ti, tok := range []*string{nil, ptr(""), ptr("legacy"), ptr(" x "), ptr(secret2)} {
			id := fmt.Sprintf("config=%s token=%d", c, ti)
			if !p.Begin("%s", id) {
				continue
			}
			var cfg *string
			w := httpauth.Policy{}
			bad := false
			if tok != nil && *tok != "" {
				w.Tokens = []httpauth.TokenIdentity{{ID: "default", Token: *tok, Scopes: all}}
			}
			switch ci {
			case 1:
				cfg = ptr("")
			case 2:
				cfg, w = ptr(write(doc{tokens: []row{good}}.String())), httpauth.Policy{Tokens: []httpauth.TokenIdentity{gt}}
			case 3:
				cfg, bad = ptr(filepath.Join(dir, "nope.yaml")), true
			case 4:
				cfg, bad = ptr(dir), true
			case 5:
				cfg, bad = ptr(write("tokens: [\n")), true
			}
			pol, err := load(cfg, tok)
			p.Outcome("%s err=%v", redacted(pol), err != nil)
			if bad {
				refused(p, id, pol, err)
				continue
			}
			if err != nil || !same(pol, w) {
				p.Fail(id, "policy", "%s: %+v, %v, want %+v", id, pol, err, w)
			}
			if pol.IsConfigured() != (len(w.Tokens) > 0) {
				p.Fail(id, "configured", "%s: IsConfigured %v", id, pol.IsConfigured())
			}
		}
	}
}

// defects: one defect anywhere in an otherwise good file.
func defects(p *kit.P) {
	t, _ := tokenRow("id-1", secret1, scopes{"read"})
	t2, _ := tokenRow("id-2", secret2, scopes{"write"})
	u, _ := userRow("uid-1", "ann", scopes{"read"})
	u2, _ := userRow("uid-2", "bob", scopes{"admin"})
	c, _ := certRow("cn-1", scopes{"read"})
	c2, _ := certRow("cn-2", scopes{"write"})
	badScopes := []string{"[]", "[reed]", "[READ]", `[" read"]`, "[read, root]", "[root, read]", `[""]`, "[read, write, admin, cache.read]", "read", "~", "{read: true}", "[[read]]"}
	for _, w := range []string{"Read", "WRITE", "Admin", "readwrite", "read-write", "read_write", "rw", "r", "ro", "readonly", "read-only", "*", "all", "any", "none", "root", "superuser",
		"delete", "owner", "user", "manage", "list", "cache.read", "cache.admin", "read,write", "read write", "read|write", "reads", "rea", "read ", "read\\t", "writes", "administrator", "true", "1", "null"} {
		badScopes = append(badScopes, `["`+w+`"]`, `[admin, "`+w+`"]`)
	}
	// a row which repeats the names of another has to be as good as any
	t3, _ := tokenRow("default", secret1, all)
	u3, _ := userRow("uid-1", "ann", all)
	c3, _ := certRow("cn-1", all)
	type mut struct {
		name string
		do   func(row) row
	}
	var muts []mut
	for _, b := range badScopes {
		muts = append(muts, mut{"scopes=" + b, func(r row) row { return r.with("scopes", b) }})
	}
	muts = append(muts, mut{"no scopes", func(r row) row { return r.without("scopes") }},
		mut{"unknown field", func(r row) row { return r.with("scope", "[read]") }},
		mut{"unknown field case", func(r row) row { return r.with("Scopes", "[read]") }})
	field := func(k string, vals ...string) (out []mut) {
		out = append(out, mut{"no " + k, func(r row) row { return r.without(k) }})
		for _, v := range append([]string{`""`, "~"}, vals...) {
			out = append(out, mut{k + "=" + v, func(r row) row { return r.with(k, v) }})
		}
		return out
	}
	wrongType := []string{"[" + secret1 + "]", "{a: " + secret1 + "}"}
	sections := []struct {
		name string
		rows []row
		m    []mut
	}{
		{"tokens", []row{t, t2}, slices.Concat(muts, field("id"), field("token", wrongType...), []mut{{"foreign", func(r row) row { return r.with("username", "x") }}})},
		{"users", []row{u, u2}, slices.Concat(muts, field("id"), field("username"), field("password_bcrypt", append(wrongType, secret3, q(bcHash[:30]), q(" "+bcHash), q("\t"+bcHash), q("{bcrypt}"+bcHash))...),
			[]mut{{"password", func(r row) row { return r.with("password", secret3) }}})},
		{"certs", []row{c, c2}, slices.Concat(muts, field("subject_cn"), []mut{{"foreign", func(r row) row { return r.with("id", "x") }}})},
	}
	sections = append(sections, sections...)
	for i, r := range [][]row{{t3, t3}, {u, u3}, {c, c3}} {
		sections[3+i].name += "-again"
		sections[3+i].rows = r
	}
	for si, s := range sections {
		for pos := range 2 {
			for _, m := range s.m {
				for ctxt := range 2 { // alone or among the other sections
					id := fmt.Sprintf("%s[%d] %s context=%d", s.name, pos, m.name, ctxt)
					if !p.Begin("%s", id) {
						continue
					}
					d := doc{anon: true}
					if ctxt == 1 {
						d.tokens, d.users, d.certs = []row{t, t2}, []row{u, u2}, []row{c, c2}
					}
					rows := slices.Clone(s.rows)
					rows[pos] = m.do(rows[pos])
					switch si % 3 {
					case 0:
						d.tokens = rows
					case 1:
						d.users = rows
					default:
						d.certs = rows
					}
					pol, err := load(ptr(write(d.String())), ptr("legacy"))
					p.Outcome("err=%v", err != nil)
					refused(p, id, pol, err)
				}
			}
		}
	}
	good := doc{tokens: []row{t}, anon: true}.String()
	for i, body := range []string{
		"tokenz: []\n" + good, "users_: x\n" + good, "Tokens: []\n", "allow_anonymus: true\n", "token: " + secret1 + "\n",
		"tokens: " + secret1 + "\n", "tokens: " + secret3 + "\n", "tokens: [" + secret1 + "]\n", "tokens: [" + secret3 + ", " + secret1 + "]\n",
		"tokens:\n  - " + secret3 + "\n", "users: [" + secret3 + "]\n", "users: {ann: " + secret3 + "}\n",
		"tokens:\n  - id: a\n    token: *" + secret3 + "\n    scopes: [read]\n",
		"tokens:\n  id: a\n  token: " + secret3 + "\n  scopes: [read]\n",
		"allow_anonymous: " + secret3 + "\n", "allow_anonymous: [" + secret1 + "]\n",
		"allow_anonymous: maybe\n" + "tokens: []\n", "- " + secret3 + "\n", secret1 + "\n", "\t" + good, good[:len(good)-12] + "\x00",
		"tokens: `" + secret3 + "` into\n", "tokens: \"x` into " + secret3 + "\"\n", "tokens: \"" + secret3 + "` x ` into " + secret1 + "\"\n", "tokens: \"a`" + secret3 + "\"\n",
		"tokens: \"" + secret3 + "\\n" + secret1 + "\"\n", "tokens: |\n  x\n  " + secret3 + "\n", "users:\n  - \"" + secret3 + "`\\n`" + secret1 + "\"\n", "allow_anonymous: \"\\n" + secret3 + "\"\n",
		"tokens:\n  - id: [" + secret3 + "]\n", "cert_identities: !!str " + secret3 + "\n", "tokens: !!binary " + secret3 + "\n", "allow_anonymous: !!int " + secret3 + "\n",
		"", " ", "\n\n", "# nothing but " + secret3 + "\n",
		"tokens:\n  - id: a\n    id: b\n    token: " + secret3 + "\n    scopes: [read]\n", "{", "tokens: [{id: a, token: " + secret1 + ", scopes: [read]}",
	} {
		id := fmt.Sprintf("file %d %q", i, body)
		if !p.Begin("%s", id) {
			continue
		}
		for _, tok := range []*string{nil, ptr("legacy")} {
			pol, err := load(ptr(write(body)), tok)
			p.Outcome("err=%v", err != nil)
			refused(p, id, pol, err)
		}
	}
}

// quoted: a value of the wrong type is not shown, whatever stands around the
// secret in it and wherever the value is.
func quoted(p *kit.P) {
	pieces := []string{secret3, "`", "\n", " ", "'", " into ", " as a ", ": "}
	n := 3
	if p.Deep() {
		n = 4
	}
	places := []string{"tokens: %s\n", "tokens:\n  - id: a\n  - %s\n", "users: [%s, 7]\n", "allow_anonymous: !!int %s\n", "allow_anonymous: %[1]s\ntokens: %[1]s\n",
		"cert_identities:\n  - subject_cn: c\n    scopes: %s\n"}
	var walk func(v string, left int)
	walk = func(v string, left int) {
		if strings.Contains(v, secret3) {
			val := strings.ReplaceAll(fmt.Sprintf("%q", v), "\\u00", "\\x")
			for i, f := range places {
				id := fmt.Sprintf("place %d %s", i, val)
				if p.Begin("%s", id) {
					pol, err := load(ptr(write(fmt.Sprintf(f, val))), nil)
					p.Outcome("err=%v", err != nil)
					refused(p, id, pol, err)
				}
			}
		}
		if left > 0 {
			for _, x := range pieces {
				walk(v+x, left-1)
			}
		}
	}
	walk("", n)
}

// truncated: a file cut anywhere never grants what the whole file does not.
func truncated(p *kit.P) {
	t, ti := tokenRow("id-1", secret1, scopes{"write", "read"})
	t2, ti2 := tokenRow("id-2", "other-token", scopes{"admin"})
	body := "# policy\n" + doc{tokens: []row{t, t2}}.String()
	for n := range len(body) + 1 {
		id := fmt.Sprintf("cut after %d", n)
		if !p.Begin("%s", id) {
			continue
		}
		pol, err := load(ptr(write(body[:n])), ptr("legacy"))
		p.Outcome("%s err=%v", redacted(pol), err != nil)
		if err != nil {
			refused(p, id, pol, err)
			continue
		}
		for i, k := range pol.Tokens {
			w := []httpauth.TokenIdentity{ti, ti2}[i]
			if k.Token != w.Token || k.ID != w.ID {
				p.Fail(id, "cut", "%s: grants %+v", id, k)
			}
			for _, s := range k.Scopes {
				if !slices.Contains(w.Scopes, s) {
					p.Fail(id, "cut", "%s: grants %+v", id, k)
				}
			}
		}
		if pol.AllowAnonymous || len(pol.BasicIdentities)+len(pol.CertIdentities) > 0 {
			p.Fail(id, "cut", "%s: %+v", id, pol)
		}
	}
}

// sizes: nothing of a long configuration is cut or skipped, and no defect in it
// is missed.
func sizes(p *kit.P) {
	try := func(id string, d doc, w httpauth.Policy, kind string) bool {
		pol, err := load(ptr(write(d.String())), nil)
		if err != nil || !same(pol, w) {
			p.Fail(id, kind, "%s: %v, %s of %s", id, err, redacted(pol), redacted(w))
			return false
		}
		p.Outcome("%s", kind)
		return true
	}
	for _, n := range kit.Sizes(1030) {
		id := fmt.Sprintf("%d rows", n)
		if n == 0 || !p.Begin("%s", id) {
			continue
		}
		var d doc
		var w httpauth.Policy
		for i := range n {
			r, t := tokenRow(fmt.Sprintf("id-%d", i), fmt.Sprintf("%s-%d", secret1, i), all[i%3:i%3+1])
			d.tokens, w.Tokens = append(d.tokens, r), append(w.Tokens, t)
			r, u := userRow(fmt.Sprintf("uid-%d", i), fmt.Sprintf("user-%d", i), all[i%3:])
			d.users, w.BasicIdentities = append(d.users, r), append(w.BasicIdentities, u)
			r, c := certRow(fmt.Sprintf("cn-%d", i), all[:i%3+1])
			d.certs, w.CertIdentities = append(d.certs, r), append(w.CertIdentities, c)
		}
		if !try(id, d, w, "rows") {
			return
		}
		for i, b := range []func(d *doc){
			func(d *doc) { d.tokens[n-1] = d.tokens[n-1].without("token") },
			func(d *doc) { d.users[n-1] = d.users[n-1].with("scopes", "[root]") },
			func(d *doc) { d.certs[n-1] = d.certs[n-1].with("scope", "read") },
			func(d *doc) { d.top = "extra: 1\n" },
		} {
			bad := doc{tokens: slices.Clone(d.tokens), users: slices.Clone(d.users), certs: slices.Clone(d.certs)}
			b(&bad)
			pol, err := load(ptr(write(bad.String())), nil)
			refused(p, fmt.Sprintf("%s defect %d", id, i), pol, err)
		}
	}
	for _, n := range kit.Sizes(70000) {
		id := fmt.Sprintf("texts of %d", n)
		if n == 0 || !p.Begin("%s", id) {
			continue
		}
		text := strings.Repeat("Abc:ü ", n/7+1)[:n]
		text = strings.ToValidUTF8(text, "x") + "e"
		var d doc
		var w httpauth.Policy
		r, t := tokenRow("i"+text, text, all)
		d.tokens, w.Tokens = append(d.tokens, r), append(w.Tokens, t)
		r, u := userRow("i"+text, "u"+text, all)
		d.users, w.BasicIdentities = append(d.users, r), append(w.BasicIdentities, u)
		r, c := certRow("c"+text, all)
		d.certs, w.CertIdentities = append(d.certs, r), append(w.CertIdentities, c)
		if !try(id, d, w, "texts") {
			return
		}
		pol, err := load(nil, &text)
		if err != nil || len(pol.Tokens) != 1 || pol.Tokens[0].Token != text {
			p.Fail(id, "variable", "a token of %d bytes in the environment variable: %v, %s", len(text), err, redacted(pol))
			return
		}
	}
	for _, n := range kit.Sizes(2 << 20) {
		id := fmt.Sprintf("after a comment of %d", n)
		if n < 2 || !p.Begin("%s", id) {
			continue
		}
		r, t := tokenRow("late", secret1, all)
		d := doc{tokens: []row{r}}
		body := "#" + strings.Repeat(strings.Repeat("c", 98)+"\n#", n/100) + strings.Repeat("c", n%100) + "\n" + d.String()
		pol, err := load(ptr(write(body)), nil)
		if err != nil || !same(pol, httpauth.Policy{Tokens: []httpauth.TokenIdentity{t}}) {
			p.Fail(id, "comment", "%s: %v, %s", id, err, redacted(pol))
			return
		}
		p.Outcome("comment")
	}
}

// documents: a file of several YAML documents is taken whole or not at all.
func documents(p *kit.P) {
	one, _ := tokenRow("first", secret1, all)
	w := httpauth.Policy{Tokens: []httpauth.TokenIdentity{{ID: "first", Token: secret1, Scopes: all}}}
	two, _ := tokenRow("second", secret2, all)
	first := doc{tokens: []row{one}}.String()
	for i, x := range []struct {
		rest  string
		empty bool
	}{
		{"---\n" + doc{tokens: []row{two}}.String(), false},
		{"---\nallow_anonymous: true\n", false},
		{"---\nallow_anonymuos: true\n", false},
		{"---\ntokens:\n  - {id: x\n", false},
		{"---\n- a\n", false},
		{"---\nhunter2\n", false},
		{"...\n---\ntokens: []\nusers: 7\n", false},
		{"---\n---\nallow_anonymous: true\n", false},
		{"---\n", true},
		{"---\n# nothing\n", true},
		{"...\n", true},
		{"# the end\n", true},
	} {
		id := fmt.Sprintf("documents %d", i)
		if !p.Begin("%s", id) {
			continue
		}
		pol, err := load(ptr(write(first+x.rest)), nil)
		if !x.empty {
			refused(p, id, pol, err)
			p.Outcome("refused")
			continue
		}
		// nothing is written there: either answer is right
		if err != nil {
			refused(p, id, pol, err)
		} else if !same(pol, w) {
			p.Fail(id, "documents", "%q after the configuration: %s", x.rest, redacted(pol))
		}
		p.Outcome("empty")
	}
}

func main() {
	var err error
	if dir, err = os.MkdirTemp("", "c16-"); err != nil {
		panic(err)
	}
	kit.Main(
		kit.Scenario{Name: "accepted", Plain: accepted, Weight: 3},
		kit.Scenario{Name: "sizes", Plain: sizes, Weight: 2},
		kit.Scenario{Name: "documents", Plain: documents, Single: true},
		kit.Scenario{Name: "repeated", Plain: repeated, Single: true},
		kit.Scenario{Name: "environment", Plain: environment},
		kit.Scenario{Name: "defects", Plain: defects, Weight: 2},
		kit.Scenario{Name: "quoted", Plain: quoted},
		kit.Scenario{Name: "truncated", Plain: truncated},
	)
}
