package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var bg = context.Background()

// home is a loopback address of this process alone, so that nobody else can
// take a port between its choice and its use.
var home = fmt.Sprintf("127.%d.%d.%d", 64+os.Getpid()>>16, os.Getpid()>>8&255, os.Getpid()&255)

var nextPort atomic.Int32

// port returns an address nobody uses. The kernel does not hand out ports this low by itself.
func port() string {
	for {
		a := fmt.Sprintf("%s:%d", home, 10000+nextPort.Add(1)%20000)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
}

// server is a running hypercache-server.
type server struct {
	id, api, mgmt, dist string
	cmd                 *exec.Cmd
	log                 *syncBuf
	done                chan struct{}
	hc                  *http.Client
	scheme              string
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// spawn runs the binary with the given environment and nothing else in it.
func spawn(env map[string]string) *server {
	s := &server{id: env["HYPERCACHE_NODE_ID"], api: env["HYPERCACHE_API_ADDR"], mgmt: env["HYPERCACHE_MGMT_ADDR"], dist: env["HYPERCACHE_DIST_ADDR"],
		log: &syncBuf{}, done: make(chan struct{}), scheme: "http"}
	s.cmd = exec.Command(os.Getenv("VERIF_SERVER"))
	s.cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
	for k, v := range env {
		s.cmd.Env = append(s.cmd.Env, k+"="+v)
	}
	s.cmd.Stdout, s.cmd.Stderr = s.log, s.log
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { s.cmd.Wait(); close(s.done) }()
	s.hc = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 4}, Timeout: 20 * time.Second}
	return s
}

func (s *server) alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *server) kill() {
	if s != nil {
		s.cmd.Process.Kill()
		<-s.done
	}
}

// ready waits for all three listeners.
func (s *server) ready() bool {
	for range 400 {
		n := 0
		for _, a := range []string{s.api, s.mgmt, s.dist} {
			if c, err := net.Dial("tcp", a); err == nil {
				c.Close()
				n++
			}
		}
		if n == 3 {
			return true
		}
		if !s.alive() {
			return false
		}
		time.Sleep(25 * time.Millisecond)
	}
	return false
}

func baseEnv(id string) map[string]string {
	return map[string]string{
		"HYPERCACHE_NODE_ID": id, "HYPERCACHE_API_ADDR": port(), "HYPERCACHE_MGMT_ADDR": port(), "HYPERCACHE_DIST_ADDR": port(),
		"HYPERCACHE_REBALANCE_INTERVAL": "1h", "HYPERCACHE_HEARTBEAT": "1h", "HYPERCACHE_GOSSIP_INTERVAL": "1h", "GOMAXPROCS": "2",
	}
}

// start runs one server, ready to be used.
func start(extra ...string) *server { return startCluster(1, 1, extra...)[0] }

// startCluster runs n servers that know each other.
func startCluster(n, repl int, extra ...string) []*server {
	last := ""
	for range 5 {
		var envs []map[string]string
		for i := range n {
			envs = append(envs, baseEnv(fmt.Sprintf("n%d", i)))
		}
		var out []*server
		for i, e := range envs {
			var seeds []string
			for j, o := range envs {
				if i != j {
					seeds = append(seeds, o["HYPERCACHE_NODE_ID"]+"@"+o["HYPERCACHE_DIST_ADDR"])
				}
			}
			e["HYPERCACHE_SEEDS"] = strings.Join(seeds, ",")
			e["HYPERCACHE_REPLICATION"] = fmt.Sprint(repl)
			for _, x := range extra {
				k, v, _ := strings.Cut(x, "=")
				e[k] = v
			}
			out = append(out, spawn(e))
		}
		ok := true
		for _, s := range out {
			ok = s.ready() && ok
		}
		if ok {
			return out
		}
		last = out[0].log.String()
		for _, s := range out {
			s.kill()
		}
		fmt.Fprintln(os.Stderr, "server did not start:", last)
	}
	panic("servers do not start: " + last)
}

// ans is an answer.
type ans struct {
	status int
	h      http.Header
	body   []byte
	err    error
}

func (a ans) String() string {
	if a.err != nil {
		return "error: " + a.err.Error()
	}
	b := a.body
	if len(b) > 300 {
		b = b[:300]
	}
	return fmt.Sprintf("%d %s", a.status, b)
}

func (a ans) json() map[string]any {
	var m map[string]any
	json.Unmarshal(a.body, &m)
	return m
}

// call makes one request; path is used as it is.
func (s *server) call(method, base, path string, body []byte, hdr ...string) ans {
	var r io.Reader
	if body != nil {
		r = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, s.scheme+"://"+base+path, r)
	if err != nil {
		return ans{err: err}
	}
	for _, h := range hdr {
		k, v, _ := strings.Cut(h, ": ")
		req.Header.Set(k, v)
	}
	resp, err := s.hc.Do(req)
	if err != nil {
		return ans{err: err}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return ans{resp.StatusCode, resp.Header, b, err}
}

func (s *server) do(method, path string, body []byte, hdr ...string) ans {
	return s.call(method, s.api, path, body, hdr...)
}

func (s *server) post(path string, v any, hdr ...string) ans {
	b, _ := json.Marshal(v)
	return s.do("POST", path, b, append([]string{"Content-Type: application/json"}, hdr...)...)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// isErr reports what is wrong with an error answer ("" if nothing).
func isErr(a ans, status int, code string) string {
	if a.err != nil || a.status != status {
		return fmt.Sprintf("answered %v, not %d", a, status)
	}
	m := a.json()
	if m["code"] != code {
		return fmt.Sprintf("answered %v, without the code %s", a, code)
	}
	if s, _ := m["error"].(string); s == "" {
		return fmt.Sprintf("answered %v, without a message", a)
	}
	return ""
}
