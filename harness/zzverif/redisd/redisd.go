// Package redisd is a redis server in memory, alone or as a cluster, with the
// commands the backends use, a clock of its own, and faults on demand.
package redisd

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/web"
)

type entry struct {
	hash map[string]string
	set  map[string]bool
	str  *string
	exp  time.Duration // 0: none
}

// Fault is what happens to a command.
type Fault int

// The faults.
const (
	None   Fault = iota
	Refuse       // an error instead
	Drop         // the connection ends before it
	Cut          // it is done, but the connection ends before the answer
)

// Cluster is one server, or several which share the keys.
type Cluster struct {
	mu    sync.Mutex
	nodes []*node
	now   time.Duration
	Hook  func(cmd []string) Fault          // every command but those of the connection itself
	Gate  func(client string, cmd []string) // before every command that takes effect at once
	Log   [][]string
	conns map[net.Conn]bool
	wg    sync.WaitGroup
}

type node struct {
	c      *Cluster
	l      net.Listener
	addr   string
	lo, hi int
	db     map[string]*entry
}

// New starts n servers; n = 1: not a cluster unless asked.
func New(n int) *Cluster {
	c := &Cluster{conns: map[net.Conn]bool{}}
	for i := range n {
		var l net.Listener
		var err error
		for {
			if l, err = net.Listen("tcp", web.Addr()); err == nil {
				break
			}
		}
		nd := &node{c: c, l: l, addr: l.Addr().String(), lo: 16384 * i / n, hi: 16384*(i+1)/n - 1, db: map[string]*entry{}}
		c.nodes = append(c.nodes, nd)
		c.wg.Add(1)
		go nd.serve()
	}
	return c
}

// Addrs are the addresses of the servers.
func (c *Cluster) Addrs() (out []string) {
	for _, n := range c.nodes {
		out = append(out, n.addr)
	}
	return
}

// Advance moves the clock.
func (c *Cluster) Advance(d time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.now += d
	for _, n := range c.nodes {
		for k, e := range n.db {
			if e.exp > 0 && e.exp <= c.now {
				delete(n.db, k)
			}
		}
	}
}

// Close ends the servers.
func (c *Cluster) Close() {
	for _, n := range c.nodes {
		n.l.Close()
	}
	c.mu.Lock()
	for k := range c.conns {
		k.Close()
	}
	c.mu.Unlock()
	c.wg.Wait()
}

// Reset empties the servers and their clock, and ends faults.
func (c *Cluster) Reset() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.now, c.Log, c.Hook, c.Gate = 0, nil, nil, nil
	for _, n := range c.nodes {
		n.db = map[string]*entry{}
	}
}

// Set sets the hooks.
func (c *Cluster) Set(hook func(cmd []string) Fault, gate func(string, []string)) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Hook, c.Gate = hook, gate
}

// Take are the commands since the last Take, without those of connections.
func (c *Cluster) Take() [][]string {
	c.mu.Lock()
	defer c.mu.Unlock()
	l := c.Log
	c.Log = nil
	return l
}

// Keys are all keys on all servers.
func (c *Cluster) Keys() (out []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range c.nodes {
		for k := range n.db {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

func (n *node) serve() {
	defer n.c.wg.Done()
	for {
		k, err := n.l.Accept()
		if err != nil {
			return
		}
		n.c.mu.Lock()
		n.c.conns[k] = true
		n.c.mu.Unlock()
		n.c.wg.Add(1)
		go func() {
			defer n.c.wg.Done()
			defer func() {
				n.c.mu.Lock()
				delete(n.c.conns, k)
				n.c.mu.Unlock()
				k.Close()
			}()
			n.one(k)
		}()
	}
}

func (n *node) one(k net.Conn) {
	_ = k.SetDeadline(time.Now().Add(5 * time.Minute))
	r, w := bufio.NewReader(k), bufio.NewWriter(k)
	var queue [][]string
	multi, bad, client := false, false, ""
	watched := map[string]string{} // key -> what was there
	for {
		args, err := read(r)
		if err != nil {
			return
		}
		name := strings.ToLower(args[0])
		var ans string
		if name == "client" && len(args) == 3 && strings.EqualFold(args[1], "setname") {
			client = args[2]
		}
		switch name {
		case "hello", "client", "command":
			ans = "-ERR unknown command '" + name + "'\r\n"
			if client != "" && name == "client" {
				ans = "+OK\r\n"
			}
		case "ping":
			ans = "+PONG\r\n"
		case "select", "auth":
			ans = "+OK\r\n"
		case "cluster":
			ans = n.c.slots()
		default:
			n.c.mu.Lock()
			g := n.c.Gate
			n.c.mu.Unlock()
			if g != nil && name != "multi" && name != "discard" && (!multi || name == "exec") {
				g(client, args)
			}
			n.c.mu.Lock()
			n.c.Log = append(n.c.Log, args)
			f := None
			if h := n.c.Hook; h != nil {
				f = h(args)
			}
			if f == Drop {
				n.c.mu.Unlock()
				return
			}
			switch {
			case f == Refuse:
				ans = "-ERR refused\r\n"
				bad = bad || multi
				if name == "exec" {
					multi, queue = false, nil
				}
			case name == "watch" && !multi:
				ans = n.reject(append([]string{"exists"}, args[1:]...))
				for _, k := range args[1:] {
					if _, ok := watched[k]; !ok {
						watched[k] = n.dump(k)
					}
				}
				if ans == "" {
					ans = "+OK\r\n"
				}
			case name == "unwatch":
				clear(watched)
				ans = "+OK\r\n"
			case name == "multi":
				multi, bad, queue, ans = true, false, nil, "+OK\r\n"
			case name == "discard":
				multi, queue, ans = false, nil, "+OK\r\n"
			case name == "exec":
				changed := false
				for k, v := range watched {
					changed = changed || v != n.dump(k)
				}
				clear(watched)
				if changed && !bad {
					ans = "*-1\r\n"
				} else if bad {
					ans = "-EXECABORT Transaction discarded because of previous errors.\r\n"
				} else {
					var b strings.Builder
					fmt.Fprintf(&b, "*%d\r\n", len(queue))
					for _, q := range queue {
						b.WriteString(n.do(q))
					}
					ans = b.String()
				}
				multi, queue = false, nil
			case multi:
				if e := n.reject(args); e != "" {
					ans, bad = e, true
				} else {
					queue, ans = append(queue, args), "+QUEUED\r\n"
				}
			default:
				if ans = n.reject(args); ans == "" {
					ans = n.do(args)
				}
			}
			n.c.mu.Unlock()
			if f == Cut {
				return
			}
		}
		if _, err := w.WriteString(ans); err != nil {
			return
		}
		if r.Buffered() == 0 {
			if err := w.Flush(); err != nil {
				return
			}
		}
	}
}

// dump is all there is of a key. Caller holds the lock.
func (n *node) dump(k string) string {
	e := n.db[k]
	if e == nil {
		return ""
	}
	return fmt.Sprint(e.hash, e.set, e.exp)
}

func (c *Cluster) slots() string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(c.nodes))
	for i, n := range c.nodes {
		host, port, _ := net.SplitHostPort(n.addr)
		fmt.Fprintf(&b, "*3\r\n:%d\r\n:%d\r\n*3\r\n$%d\r\n%s\r\n:%s\r\n$2\r\nx%d\r\n", n.lo, n.hi, len(host), host, port, i)
	}
	return b.String()
}

// reject finds what is wrong with a command before it runs: its shape, and
// on a cluster its slots.
func (n *node) reject(a []string) string {
	name := strings.ToLower(a[0])
	min := map[string]int{"hset": 4, "hget": 3, "hgetall": 2, "sadd": 3, "srem": 3, "smembers": 2, "sismember": 3, "scard": 2, "del": 2, "unlink": 2, "exists": 2,
		"expire": 3, "pexpire": 3, "expireat": 3, "pexpireat": 3, "persist": 2, "pttl": 2, "ttl": 2, "dbsize": 1, "flushdb": 1, "flushall": 1, "type": 2,
		"hmset": 4, "hsetnx": 4, "hmget": 3, "hdel": 3, "hexists": 3, "hlen": 2, "hkeys": 2, "hvals": 2, "hstrlen": 3, "smismember": 3, "sscan": 3, "scan": 2, "keys": 2, "touch": 2, "unwatch": 1}[name]
	if min == 0 {
		return "-ERR unknown command '" + a[0] + "'\r\n"
	}
	if len(a) < min || (name == "hset" || name == "hmset") && len(a)%2 != 0 || name == "hsetnx" && len(a) != 4 {
		return "-ERR wrong number of arguments for '" + name + "' command\r\n"
	}
	if len(n.c.nodes) > 1 && len(a) > 1 && name != "flushdb" && name != "flushall" && name != "scan" && name != "keys" {
		keys := a[1:2]
		if name == "del" || name == "unlink" || name == "exists" || name == "touch" {
			keys = a[1:]
		}
		s := Slot(keys[0])
		for _, k := range keys {
			if Slot(k) != s {
				return "-CROSSSLOT Keys in request don't hash to the same slot\r\n"
			}
		}
		if s < n.lo || s > n.hi {
			for _, o := range n.c.nodes {
				if s >= o.lo && s <= o.hi {
					return fmt.Sprintf("-MOVED %d %s\r\n", s, o.addr)
				}
			}
		}
	}
	return ""
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
func array(l []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(l))
	for _, k := range l {
		b.WriteString(bulk(k))
	}
	return b.String()
}

func num(i int) string { return fmt.Sprintf(":%d\r\n", i) }

const wrongType = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"

// do runs a command. Caller holds the lock.
func (n *node) do(a []string) string {
	name := strings.ToLower(a[0])
	var e *entry
	if len(a) > 1 && name != "scan" && name != "keys" {
		e = n.db[a[1]]
	}
	isHash := strings.HasPrefix(name, "h")
	isSet := name == "sadd" || name == "srem" || name == "smembers" || name == "sismember" || name == "smismember" || name == "sscan" || name == "scard"
	if e != nil && (isHash && e.hash == nil || isSet && e.set == nil) {
		return wrongType
	}
	switch name {
	case "hset", "hmset", "hsetnx":
		if name == "hsetnx" && e != nil {
			if _, ok := e.hash[a[2]]; ok {
				return num(0)
			}
		}
		if e == nil {
			e = &entry{hash: map[string]string{}}
			n.db[a[1]] = e
		}
		added := 0
		for i := 2; i+1 < len(a); i += 2 {
			if _, ok := e.hash[a[i]]; !ok {
				added++
			}
			e.hash[a[i]] = a[i+1]
		}
		if name == "hmset" {
			return "+OK\r\n"
		}
		return num(added)
	case "hmget":
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a)-2)
		for _, f := range a[2:] {
			v, ok := "", false
			if e != nil {
				v, ok = e.hash[f]
			}
			if ok {
				b.WriteString(bulk(v))
			} else {
				b.WriteString("$-1\r\n")
			}
		}
		return b.String()
	case "hdel":
		gone := 0
		if e != nil {
			for _, f := range a[2:] {
				if _, ok := e.hash[f]; ok {
					delete(e.hash, f)
					gone++
				}
			}
			if len(e.hash) == 0 {
				delete(n.db, a[1])
			}
		}
		return num(gone)
	case "hexists", "hstrlen":
		if e != nil {
			if v, ok := e.hash[a[2]]; ok && name == "hstrlen" {
				return num(len(v))
			} else if ok {
				return num(1)
			}
		}
		return num(0)
	case "hlen":
		if e == nil {
			return num(0)
		}
		return num(len(e.hash))
	case "hkeys", "hvals":
		var l []string
		if e != nil {
			for k, v := range e.hash {
				if name == "hvals" {
					k = v
				}
				l = append(l, k)
			}
		}
		return array(l)
	case "hget":
		if e == nil {
			return "$-1\r\n"
		}
		if v, ok := e.hash[a[2]]; ok {
			return bulk(v)
		}
		return "$-1\r\n"
	case "hgetall":
		if e == nil {
			return "*0\r\n"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", 2*len(e.hash))
		for k, v := range e.hash {
			b.WriteString(bulk(k) + bulk(v))
		}
		return b.String()
	case "sadd":
		if e == nil {
			e = &entry{set: map[string]bool{}}
			n.db[a[1]] = e
		}
		added := 0
		for _, k := range a[2:] {
			if !e.set[k] {
				e.set[k] = true
				added++
			}
		}
		return num(added)
	case "srem":
		gone := 0
		if e != nil {
			for _, k := range a[2:] {
				if e.set[k] {
					delete(e.set, k)
					gone++
				}
			}
			if len(e.set) == 0 {
				delete(n.db, a[1])
			}
		}
		return num(gone)
	case "smembers":
		if e == nil {
			return "*0\r\n"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(e.set))
		for k := range e.set {
			b.WriteString(bulk(k))
		}
		return b.String()
	case "sismember":
		if e != nil && e.set[a[2]] {
			return num(1)
		}
		return num(0)
	case "smismember":
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a)-2)
		for _, k := range a[2:] {
			in := 0
			if e != nil && e.set[k] {
				in = 1
			}
			b.WriteString(num(in))
		}
		return b.String()
	case "sscan", "scan", "keys":
		// one page has everything
		pat, from := "*", 2
		switch name {
		case "keys":
			pat, from = a[1], 2
		case "sscan":
			from = 3
		}
		kind := ""
		for i := from; i+1 < len(a); i += 2 {
			switch strings.ToLower(a[i]) {
			case "match":
				pat = a[i+1]
			case "type":
				kind = strings.ToLower(a[i+1])
			}
		}
		var l []string
		if name == "sscan" {
			if e != nil {
				for k := range e.set {
					l = append(l, k)
				}
			}
		} else {
			for k, v := range n.db {
				if kind == "" || kind == "set" && v.set != nil || kind == "hash" && v.hash != nil {
					l = append(l, k)
				}
			}
		}
		l = slices.DeleteFunc(l, func(k string) bool {
			ok, err := path.Match(strings.ReplaceAll(pat, "[^", "[\\^"), strings.ReplaceAll(k, "/", "\x01"))
			return pat != "*" && (err != nil || !ok)
		})
		if name == "keys" {
			return array(l)
		}
		return "*2\r\n" + bulk("0") + array(l)
	case "scard":
		if e == nil {
			return num(0)
		}
		return num(len(e.set))
	case "del", "unlink":
		gone := 0
		for _, k := range a[1:] {
			if n.db[k] != nil {
				delete(n.db, k)
				gone++
			}
		}
		return num(gone)
	case "exists", "touch":
		c := 0
		for _, k := range a[1:] {
			if n.db[k] != nil {
				c++
			}
		}
		return num(c)
	case "expire", "pexpire", "expireat", "pexpireat":
		d, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		if e == nil {
			return num(0)
		}
		unit := time.Second
		if strings.HasPrefix(name, "p") {
			unit = time.Millisecond
		}
		at := n.c.now + time.Duration(d)*unit
		if strings.HasSuffix(name, "at") {
			// a client counts from its own clock, which the server shares
			at = n.c.now + time.Until(time.Unix(0, 0).Add(time.Duration(d)*unit)).Round(10*time.Millisecond)
		}
		for _, o := range a[3:] {
			switch strings.ToLower(o) {
			case "nx":
				if e.exp != 0 {
					return num(0)
				}
			case "xx":
				if e.exp == 0 {
					return num(0)
				}
			case "gt":
				if e.exp == 0 || at <= e.exp {
					return num(0)
				}
			case "lt":
				if e.exp != 0 && at >= e.exp {
					return num(0)
				}
			default:
				return "-ERR Unsupported option " + o + "\r\n"
			}
		}
		if at <= n.c.now {
			delete(n.db, a[1])
		} else {
			e.exp = at
		}
		return num(1)
	case "persist":
		if e == nil || e.exp == 0 {
			return num(0)
		}
		e.exp = 0
		return num(1)
	case "pttl", "ttl":
		switch {
		case e == nil:
			return num(-2)
		case e.exp == 0:
			return num(-1)
		case name == "ttl":
			return num(int((e.exp - n.c.now + time.Second/2) / time.Second))
		}
		return num(int((e.exp - n.c.now) / time.Millisecond))
	case "dbsize":
		return num(len(n.db))
	case "unwatch":
		return "+OK\r\n"
	case "flushdb", "flushall":
		n.db = map[string]*entry{}
		return "+OK\r\n"
	case "type":
		switch {
		case e == nil:
			return "+none\r\n"
		case e.set != nil:
			return "+set\r\n"
		}
		return "+hash\r\n"
	}
	return "-ERR unknown command\r\n"
}

func read(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(line, "*")))
	if err != nil || n < 1 {
		return nil, fmt.Errorf("not a command: %q", line)
	}
	var args []string
	for range n {
		l, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(l, "$")))
		if err != nil || k < 0 {
			return nil, fmt.Errorf("not an argument: %q", l)
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

// Slot is the hash slot of a key.
func Slot(k string) int {
	if i := strings.IndexByte(k, '{'); i >= 0 {
		if j := strings.IndexByte(k[i+1:], '}'); j > 0 {
			k = k[i+1 : i+1+j]
		}
	}
	crc := uint16(0)
	for _, b := range []byte(k) {
		crc ^= uint16(b) << 8
		for range 8 {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}
	return int(crc) % 16384
}
