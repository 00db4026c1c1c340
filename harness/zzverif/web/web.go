// Package web has what the checks need to talk to real listeners.
package web

import (
	"fmt"
	"net"
	"os"
	"sync/atomic"
	"time"
)

// home is a loopback address of this process alone, so that nobody else can
// take a port between its choice and its use.
var home = fmt.Sprintf("127.%d.%d.%d", 64+os.Getpid()>>16, os.Getpid()>>8&255, os.Getpid()&255)

var next atomic.Int32

// Addr is an address nobody uses. The kernel does not hand out ports this low by itself.
func Addr() string {
	for {
		a := fmt.Sprintf("%s:%d", home, 10000+next.Add(1)%20000)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
}

// Up reports whether somebody accepts connections there.
func Up(addr string) bool {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// Patience is how long anything may take that must happen.
const Patience = 20 * time.Second

// Until waits for something that must happen.
func Until(f func() bool) bool {
	end := time.Now().Add(Patience)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}
