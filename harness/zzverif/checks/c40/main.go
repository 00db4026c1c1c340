// C40: redis stores connect exactly as their options say.
package main

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"math/big"
	"net"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	goredis "github.com/redis/go-redis/v9"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/pkg/backend/redis"
	"github.com/hyp3rd/hypercache/pkg/backend/rediscluster"
)

// conf is the part of both option structs hypercache configures.
type conf struct {
	Addrs                     []string
	Username, Password        string
	DB, MaxRetries            int
	DialTimeout               time.Duration
	ReadTimeout, WriteTimeout time.Duration
	PoolFIFO                  bool
	PoolSize, MinIdleConns    int
	PoolTimeout               time.Duration
	TLSConfig                 *tls.Config
}

func defaults() conf {
	return conf{
		MaxRetries: constants.RedisClientMaxRetries, DialTimeout: constants.RedisDialTimeout,
		ReadTimeout: constants.RedisClientReadTimeout, WriteTimeout: constants.RedisClientWriteTimeout,
		PoolSize: constants.RedisClientPoolSize, MinIdleConns: constants.RedisClientMinIdleConns, PoolTimeout: constants.RedisClientPoolTimeout,
	}
}

type opt struct {
	name    string
	set     func(*conf)
	single  redis.Option // nil: the store has no such option
	cluster rediscluster.Option
}

var tlsA, tlsB = &tls.Config{ServerName: "a"}, &tls.Config{ServerName: "b"}

func options() []opt {
	var os []opt
	add := func(name string, set func(*conf), s redis.Option, c rediscluster.Option) {
		os = append(os, opt{name, set, s, c})
	}
	for _, a := range []string{"10.0.0.1:6379", "Other.Example:1", "[::1]:6379", "", " \t"} {
		add("addr="+strconv.Quote(a), func(c *conf) { c.Addrs = []string{a} }, redis.WithAddr(a), rediscluster.WithAddrs(a))
	}
	add("addrs=a,b", func(c *conf) { c.Addrs = []string{"a:1", "b:2"} }, nil, rediscluster.WithAddrs("a:1", "b:2"))
	add("addrs=a,blank", func(c *conf) { c.Addrs = []string{"a:1", " "} }, nil, rediscluster.WithAddrs("a:1", " "))
	add("addrs=", func(c *conf) { c.Addrs = nil }, nil, rediscluster.WithAddrs())
	for _, v := range []string{"", "u ü", "x"} {
		add("user="+v, func(c *conf) { c.Username = v }, redis.WithUsername(v), rediscluster.WithUsername(v))
		add("pass="+v, func(c *conf) { c.Password = v }, redis.WithPassword(v), rediscluster.WithPassword(v))
	}
	for _, v := range []int{0, 3, 15, 16, 17, 1000} {
		add(fmt.Sprint("db=", v), func(c *conf) { c.DB = v }, redis.WithDB(v), nil)
	}
	for _, v := range []int{-1, 0, 5} {
		add(fmt.Sprint("retries=", v), func(c *conf) { c.MaxRetries = v }, redis.WithMaxRetries(v), rediscluster.WithMaxRetries(v))
		add(fmt.Sprint("pool=", v), func(c *conf) { c.PoolSize = v }, redis.WithPoolSize(v), rediscluster.WithPoolSize(v))
		add(fmt.Sprint("idle=", v), func(c *conf) { c.MinIdleConns = v }, redis.WithMinIdleConns(v), rediscluster.WithMinIdleConns(v))
	}
	for _, v := range []time.Duration{-1, 0, 5 * time.Millisecond} {
		add(fmt.Sprint("dial=", v), func(c *conf) { c.DialTimeout = v }, redis.WithDialTimeout(v), nil)
		add(fmt.Sprint("read=", v), func(c *conf) { c.ReadTimeout = v }, redis.WithReadTimeout(v), rediscluster.WithReadTimeout(v))
		add(fmt.Sprint("write=", v), func(c *conf) { c.WriteTimeout = v }, redis.WithWriteTimeout(v), rediscluster.WithWriteTimeout(v))
		add(fmt.Sprint("pooltimeout=", v), func(c *conf) { c.PoolTimeout = v }, redis.WithPoolTimeout(v), rediscluster.WithPoolTimeout(v))
	}
	for _, v := range []bool{true, false} {
		add(fmt.Sprint("fifo=", v), func(c *conf) { c.PoolFIFO = v }, redis.WithPoolFIFO(v), nil)
	}
	for i, v := range []*tls.Config{nil, tlsA, tlsB} {
		add(fmt.Sprint("tls=", i), func(c *conf) { c.TLSConfig = v }, redis.WithTLSConfig(v), rediscluster.WithTLSConfig(v))
	}
	return os
}

func configured(p *kit.P) {
	opts := options()
	depth := 2
	if p.Deep() {
		depth = 3
	}
	for _, cluster := range []bool{false, true} {
		var rec func(seq []int)
		rec = func(seq []int) {
			var names []string
			want := defaults()
			var so []redis.Option
			var co []rediscluster.Option
			for _, i := range seq {
				o := opts[i]
				if cluster && o.cluster == nil || !cluster && o.single == nil {
					return
				}
				names = append(names, o.name)
				o.set(&want)
				so, co = append(so, o.single), append(co, o.cluster)
			}
			id := fmt.Sprintf("cluster=%v %s", cluster, strings.Join(names, " "))
			if p.Begin("%s", id) {
				bad := len(want.Addrs) == 0
				for _, a := range want.Addrs {
					bad = bad || strings.TrimSpace(a) == ""
				}
				var got conf
				var err error
				var made bool
				if cluster {
					co = append(co, func(o *goredis.ClusterOptions) {
						got = conf{o.Addrs, o.Username, o.Password, 0, o.MaxRetries, want.DialTimeout, o.ReadTimeout, o.WriteTimeout, o.PoolFIFO, o.PoolSize, o.MinIdleConns, o.PoolTimeout, o.TLSConfig}
						o.MinIdleConns, o.PoolSize = 0, 5 // no background dials; go-redis refuses negative pools
					})
					var s *rediscluster.Store
					s, err = rediscluster.New(co...)
					if s != nil {
						made = s.Client != nil
						o := s.Client.Options()
						after(p, id, want, conf{o.Addrs, o.Username, o.Password, 0, o.MaxRetries, want.DialTimeout, o.ReadTimeout, o.WriteTimeout, o.PoolFIFO, o.PoolSize, o.MinIdleConns, o.PoolTimeout, o.TLSConfig})
						s.Client.Close()
					}
				} else {
					so = append(so, func(o *goredis.Options) {
						got = conf{[]string{o.Addr}, o.Username, o.Password, o.DB, o.MaxRetries, o.DialTimeout, o.ReadTimeout, o.WriteTimeout, o.PoolFIFO, o.PoolSize, o.MinIdleConns, o.PoolTimeout, o.TLSConfig}
						o.MinIdleConns, o.PoolSize = 0, 5 // no background dials; go-redis refuses negative pools
					})
					if want.Addrs == nil {
						want.Addrs = []string{""}
					}
					var s *redis.Store
					s, err = redis.New(so...)
					if s != nil {
						made = s.Client != nil
						if s.Client.Options().Addr != want.Addrs[0] {
							p.Fail(id, "addr", "%s: client for %q", id, s.Client.Options().Addr)
						}
						o := s.Client.Options()
						after(p, id, want, conf{[]string{o.Addr}, o.Username, o.Password, o.DB, o.MaxRetries, o.DialTimeout, o.ReadTimeout, o.WriteTimeout, o.PoolFIFO, o.PoolSize, o.MinIdleConns, o.PoolTimeout, o.TLSConfig})
						s.Client.Close()
					}
				}
				p.Outcome("cluster=%v err=%v", cluster, err != nil)
				if (err != nil) != bad || made != (err == nil) {
					p.Fail(id, "refusal", "%s: made=%v, error %v", id, made, err)
				}
				if err != nil && want.Password != "" && strings.Contains(err.Error(), want.Password) && want.Password != "x" {
					p.Fail(id, "leak", "%s: %v", id, err)
				}
				if len(got.Addrs) == 0 {
					got.Addrs = want.Addrs
					if len(want.Addrs) > 0 {
						p.Fail(id, "options", "%s: addresses lost", id)
					}
				}
				if !reflect.DeepEqual(got, want) || got.TLSConfig != want.TLSConfig {
					p.Fail(id, "options", "%s: configured %+v, want %+v", id, got, want)
				}
			}
			if len(seq) < depth {
				for i := range opts {
					rec(append(slices.Clone(seq), i))
				}
			}
		}
		rec(nil)
	}
}

// after: the made client still has what was configured; go-redis replaces
// only the zero and negative values, and the two set above.
func after(p *kit.P, id string, want, got conf) {
	time0 := func(w time.Duration, g *time.Duration) {
		if w <= 0 {
			*g = w
		}
	}
	if want.MaxRetries <= 0 {
		got.MaxRetries = want.MaxRetries
	}
	got.PoolSize, got.MinIdleConns = want.PoolSize, want.MinIdleConns
	time0(want.DialTimeout, &got.DialTimeout)
	time0(want.ReadTimeout, &got.ReadTimeout)
	time0(want.WriteTimeout, &got.WriteTimeout)
	time0(want.PoolTimeout, &got.PoolTimeout)
	if !reflect.DeepEqual(got, want) {
		p.Fail(id, "made", "%s: the client was made with %+v, want %+v", id, got, want)
	}
}

// server is a minimal redis that records what arrives.
type server struct {
	l    net.Listener
	tls  *tls.Config
	mu   sync.Mutex
	cmds [][]string
	kind []string
	wg   sync.WaitGroup
}

type peeked struct {
	net.Conn
	r *bufio.Reader
}

func (c peeked) Read(b []byte) (int, error) { return c.r.Read(b) }

func (s *server) serve() {
	for {
		c, err := s.l.Accept()
		if err != nil {
			return
		}
		s.wg.Add(1)
		go func() { defer s.wg.Done(); defer c.Close(); s.one(c) }()
	}
}

func (s *server) one(raw net.Conn) {
	_ = raw.SetDeadline(time.Now().Add(20 * time.Second))
	c := peeked{raw, bufio.NewReader(raw)}
	b, err := c.r.Peek(1)
	if err != nil {
		return
	}
	kind := "plain"
	var rw net.Conn = c
	if b[0] == 0x16 {
		kind = "tls"
		t := tls.Server(c, s.tls)
		if err := t.Handshake(); err != nil {
			s.mu.Lock()
			s.kind = append(s.kind, "tls-refused")
			s.mu.Unlock()
			return
		}
		rw = t
	}
	s.mu.Lock()
	s.kind = append(s.kind, kind)
	s.mu.Unlock()
	r := bufio.NewReader(rw)
	for {
		args, err := readCmd(r)
		if err != nil {
			return
		}
		s.mu.Lock()
		s.cmds = append(s.cmds, args)
		s.mu.Unlock()
		ans := "+OK\r\n"
		switch strings.ToLower(args[0]) {
		case "hello":
			ans = "%1\r\n+proto\r\n:3\r\n"
		case "ping":
			ans = "+PONG\r\n"
		case "cluster":
			host, port, _ := net.SplitHostPort(s.l.Addr().String())
			ans = fmt.Sprintf("*1\r\n*3\r\n:0\r\n:16383\r\n*3\r\n$%d\r\n%s\r\n:%s\r\n$1\r\nx\r\n", len(host), host, port)
		case "get":
			ans = "$1\r\nv\r\n"
		case "command":
			ans = "*0\r\n"
		}
		if _, err := io.WriteString(rw, ans); err != nil {
			return
		}
	}
}

func readCmd(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(line, "*")))
	if err != nil {
		return nil, err
	}
	var args []string
	for range n {
		l, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(l, "$")))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

func cert() (tls.Certificate, *x509.CertPool) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "r"}, DNSNames: []string{"redis.test"}, NotBefore: time.Unix(0, 0), NotAfter: time.Now().Add(24 * time.Hour * 365), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(c)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, pool
}

// connections: what goes over the wire for every combination of transport
// security, credentials and database.
func connections(p *kit.P) {
	crt, pool := cert()
	for _, cluster := range []bool{false, true} {
		for _, mode := range []string{"plain", "tls", "tls-untrusted", "tls-wrong-name"} {
			for _, user := range []string{"", "us er"} {
				for _, pass := range []string{"", "p@ss\r\n$1"} {
					for _, db := range []int{0, 4} {
						if cluster && db > 0 || user != "" && pass == "" {
							continue
						}
						id := fmt.Sprintf("cluster=%v %s user=%q pass=%q db=%d", cluster, mode, user, pass, db)
						if !p.Begin("%s", id) {
							continue
						}
						connect(p, id, cluster, mode, user, pass, db, crt, pool)
					}
				}
			}
		}
	}
}

func connect(p *kit.P, id string, cluster bool, mode, user, pass string, db int, crt tls.Certificate, pool *x509.CertPool) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		p.Outcome("no loopback: %v", err)
		return
	}
	s := &server{l: l, tls: &tls.Config{Certificates: []tls.Certificate{crt}}}
	go s.serve()
	var tc *tls.Config
	switch mode {
	case "tls":
		tc = &tls.Config{RootCAs: pool, ServerName: "redis.test"}
	case "tls-untrusted":
		tc = &tls.Config{RootCAs: x509.NewCertPool(), ServerName: "redis.test"}
	case "tls-wrong-name":
		tc = &tls.Config{RootCAs: pool, ServerName: "other.test"}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	var cl interface {
		Get(context.Context, string) *goredis.StringCmd
		Close() error
	}
	if cluster {
		st, err := rediscluster.New(rediscluster.WithAddrs(l.Addr().String()), rediscluster.WithUsername(user), rediscluster.WithPassword(pass),
			rediscluster.WithTLSConfig(tc), rediscluster.WithMinIdleConns(0), rediscluster.WithMaxRetries(-1),
			func(o *goredis.ClusterOptions) { o.DialerRetries = 1; o.MaxRedirects = 1 })
		if err != nil {
			p.Fail(id, "new", "%s: %v", id, err)
			return
		}
		cl = st.Client
	} else {
		st, err := redis.New(redis.WithAddr(l.Addr().String()), redis.WithUsername(user), redis.WithPassword(pass), redis.WithDB(db),
			redis.WithTLSConfig(tc), redis.WithMinIdleConns(0), redis.WithMaxRetries(-1),
			func(o *goredis.Options) { o.DialerRetries = 1 })
		if err != nil {
			p.Fail(id, "new", "%s: %v", id, err)
			return
		}
		cl = st.Client
	}
	v, err := cl.Get(ctx, "k").Result()
	_ = cl.Close()
	_ = l.Close()
	s.wg.Wait()
	s.mu.Lock()
	defer s.mu.Unlock()
	ok := mode == "plain" || mode == "tls"
	p.Outcome("%s kinds=%v err=%v", mode, slices.Compact(slices.Clone(s.kind)), err != nil)
	for _, k := range s.kind {
		if strings.HasPrefix(mode, "tls") != strings.HasPrefix(k, "tls") {
			p.Fail(id, "transport", "%s: connected with %s", id, k)
			return
		}
	}
	if !ok {
		if err == nil || len(s.cmds) > 0 {
			p.Fail(id, "untrusted", "%s: talked to a server that failed verification: %v, %v", id, s.cmds, err)
		}
		return
	}
	if err != nil || v != "v" {
		p.Fail(id, "connect", "%s: get answered %q, %v (connections %v)", id, v, err, s.kind)
		return
	}
	auth, sel := "", "0"
	for _, c := range s.cmds {
		name := strings.ToLower(c[0])
		switch name {
		case "hello":
			for i, a := range c {
				if strings.EqualFold(a, "auth") && i+2 < len(c) {
					auth = c[i+1] + "|" + c[i+2]
				}
			}
		case "auth":
			auth = "default|" + c[len(c)-1]
			if len(c) == 3 {
				auth = c[1] + "|" + c[2]
			}
		case "select":
			sel = c[1]
		}
	}
	wantAuth := ""
	if pass != "" {
		wantAuth = "default|" + pass
		if user != "" {
			wantAuth = user + "|" + pass
		}
	}
	if auth != wantAuth || sel != strconv.Itoa(db) {
		p.Fail(id, "credentials", "%s: authenticated as %q on database %s", id, auth, sel)
	}
}

func main() {
	kit.Main(
		kit.Scenario{Name: "configured", Plain: configured, Weight: 2},
		kit.Scenario{Name: "connections", Plain: connections},
	)
}
