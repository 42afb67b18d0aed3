package redislock

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/kit"
)

// What may go wrong with a command.
const (
	faultNone     = iota
	faultError    // an error reply, nothing done
	faultDropIn   // the connection breaks before the command arrives
	faultDropOut  // the command is done, the connection breaks before the reply
	faultSilence  // the command is done, the reply never comes
	faultLoading  // an error the client may retry
	faultNoScript // the script cache is lost
	nFaults
)

type entry struct {
	value   string
	expires time.Time // zero: never
	client  int       // who set it
	set     time.Time
}

// server is a Redis server with the commands a lock may use.
type server struct {
	mu      sync.Mutex
	data    map[string]*entry
	scripts map[string]string
	fault   func(client, n int, cmd string) int
	latency func(client, n int) time.Duration
	trace   func(format string, args ...any)
	n       map[int]int
	refused map[int]int       // by client: refused SETs in its present call
	lastErr map[int]bool      // its last command that tried to set a key got an error reply
	dels    map[int]int       // by client: keys it deleted
	last    map[int]time.Time // by client: when its last command arrived
	hurt    map[int]int       // by client: faults that hit it
	wg      sync.WaitGroup
}

func newServer() *server {
	return &server{data: map[string]*entry{}, scripts: map[string]string{}, n: map[int]int{}, refused: map[int]int{}, lastErr: map[int]bool{}, dels: map[int]int{}, last: map[int]time.Time{}, hurt: map[int]int{}}
}

// get is the live entry of a key; s.mu is held.
func (s *server) get(key string) *entry {
	e := s.data[key]
	if e != nil && !e.expires.IsZero() && !time.Now().Before(e.expires) {
		delete(s.data, key)
		return nil
	}
	return e
}

func (s *server) serve(client int, c net.Conn) {
	defer s.wg.Done()
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		args, err := readCommand(r)
		if err != nil {
			return
		}
		word := strings.ToUpper(args[0])
		admin := word == "HELLO" || word == "CLIENT" || word == "SELECT" || word == "PING"
		f := faultNone
		s.mu.Lock()
		n := s.n[client]
		if !admin {
			s.n[client]++
			if s.fault != nil {
				f = s.fault(client, n, word)
			}
		}
		s.mu.Unlock()
		if s.latency != nil {
			time.Sleep(s.latency(client, n))
		}
		s.mu.Lock()
		if f != faultNone {
			s.hurt[client]++
		}
		if !admin {
			s.last[client] = time.Now()
		}
		var reply string
		switch f {
		case faultDropIn:
			s.trace("server: client %d %q: dropped before", client, args)
			s.mu.Unlock()
			return
		case faultError, faultLoading:
			reply = "-OOM command not allowed when used memory > 'maxmemory'.\r\n"
			if f == faultLoading {
				reply = "-LOADING Redis is loading the dataset in memory\r\n"
			}
			if word == "SET" || word == "SETNX" {
				s.lastErr[client] = true
			}
		default:
			if f == faultNoScript {
				s.scripts = map[string]string{}
			}
			if word == "SET" || word == "SETNX" {
				s.lastErr[client] = false
			}
			reply = s.do(client, word, args[1:])
		}
		s.trace("server: client %d %.120q: %q (fault %d)", client, args, reply, f)
		s.mu.Unlock()
		switch f {
		case faultDropOut:
			return
		case faultSilence:
			_, _ = io.Copy(io.Discard, c) // until the client gives up
			return
		}
		if _, err := c.Write([]byte(reply)); err != nil {
			return
		}
	}
}

func bulk(v string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v) }
func num(n int) string     { return fmt.Sprintf(":%d\r\n", n) }

// do runs one command; s.mu is held.
func (s *server) do(client int, word string, a []string) string {
	switch word {
	case "HELLO":
		return "-ERR unknown command 'HELLO'\r\n"
	case "CLIENT", "SELECT":
		return "+OK\r\n"
	case "PING":
		return "+PONG\r\n"
	case "GET":
		if e := s.get(a[0]); e != nil {
			return bulk(e.value)
		}
		return "$-1\r\n"
	case "EXISTS":
		if s.get(a[0]) != nil {
			return num(1)
		}
		return num(0)
	case "SETNX":
		if s.get(a[0]) != nil {
			s.refused[client]++
			return num(0)
		}
		s.data[a[0]] = &entry{value: a[1], client: client, set: time.Now()}
		return num(1)
	case "SET":
		e := &entry{value: a[1], client: client, set: time.Now()}
		nx := false
		for i := 2; i < len(a); i++ {
			switch o := strings.ToUpper(a[i]); o {
			case "NX":
				nx = true
			case "PX", "EX":
				i++
				v, err := strconv.ParseInt(a[i], 10, 64)
				if err != nil || v <= 0 {
					return "-ERR invalid expire time in 'set' command\r\n"
				}
				d := time.Duration(v) * time.Second
				if o == "PX" {
					d = time.Duration(v) * time.Millisecond
				}
				e.expires = e.set.Add(d)
			default:
				kit.Harness("redis: SET option %q", o)
			}
		}
		if nx && s.get(a[0]) != nil {
			s.refused[client]++
			return "$-1\r\n"
		}
		s.data[a[0]] = e
		return "+OK\r\n"
	case "DEL", "UNLINK":
		n := 0
		for _, k := range a {
			if s.get(k) != nil {
				delete(s.data, k)
				n++
			}
		}
		s.dels[client] += n
		return num(n)
	case "PEXPIRE", "EXPIRE":
		e := s.get(a[0])
		if e == nil {
			return num(0)
		}
		v, _ := strconv.ParseInt(a[1], 10, 64)
		d := time.Duration(v) * time.Second
		if word == "PEXPIRE" {
			d = time.Duration(v) * time.Millisecond
		}
		e.expires = time.Now().Add(d)
		return num(1)
	case "PTTL", "TTL":
		e := s.get(a[0])
		switch {
		case e == nil:
			return num(-2)
		case e.expires.IsZero():
			return num(-1)
		case word == "TTL":
			return num(int(time.Until(e.expires) / time.Second))
		}
		return num(int(time.Until(e.expires) / time.Millisecond))
	case "EVALSHA":
		script, ok := s.scripts[a[0]]
		if !ok {
			return "-NOSCRIPT No matching script. Please use EVAL.\r\n"
		}
		return s.eval(client, script, a[1:])
	case "EVAL":
		h := sha1.Sum([]byte(a[0]))
		s.scripts[hex.EncodeToString(h[:])] = a[0]
		return s.eval(client, a[0], a[1:])
	case "SCRIPT":
		if strings.ToUpper(a[0]) == "LOAD" {
			h := sha1.Sum([]byte(a[1]))
			s.scripts[hex.EncodeToString(h[:])] = a[1]
			return bulk(hex.EncodeToString(h[:]))
		}
	}
	kit.Harness("redis: command %q %q", word, a)
	return ""
}

var scriptRe = regexp.MustCompile(`^\s*if\s+redis\.call\(["'](\w+)["'],\s*KEYS\[1\]\)\s*==\s*ARGV\[1\]\s+then\s+return\s+redis\.call\(["'](\w+)["'],\s*KEYS\[1\](,\s*ARGV\[2\])?\)\s+else\s+return\s+(-?\d+)\s+end\s*$`)

// eval runs a script of the form "if a command on the key gives ARGV[1], run another one".
func (s *server) eval(client int, script string, a []string) string {
	m := scriptRe.FindStringSubmatch(script)
	if m == nil {
		kit.Harness("redis: script %q", script)
	}
	nk, _ := strconv.Atoi(a[0])
	keys, args := a[1:1+nk], a[1+nk:]
	if strings.ToLower(m[1]) != "get" {
		kit.Harness("redis: script %q", script)
	}
	if e := s.get(keys[0]); e == nil || e.value != args[0] {
		v, _ := strconv.Atoi(m[4])
		return num(v)
	}
	cmd := []string{keys[0]}
	if m[3] != "" {
		cmd = append(cmd, args[1])
	}
	return s.do(client, strings.ToUpper(m[2]), cmd)
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line := func(mark byte) (int, error) {
		l, err := r.ReadString('\n')
		if err != nil {
			return 0, err
		}
		if len(l) < 3 || l[0] != mark {
			return 0, fmt.Errorf("bad command %q", l)
		}
		return strconv.Atoi(strings.TrimSpace(l[1:]))
	}
	n, err := line('*')
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		l, err := line('$')
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:l]))
	}
	return args, nil
}
