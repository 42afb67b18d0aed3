ID='C30-shared-token'; PROP='C30'
NEEDS='a key that expires at its holder and is taken anew by somebody in the same process before the former holder releases it'
BREAKS='the former holder releases the lock of the new one, and is told that it succeeded'
EDITS=[('lock/redis/redis.go','''		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
	)''','''		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30),
		// 用进程标识作为锁的值，便于排查锁被谁持有
		Token: fmt.Sprintf("%s:%d", hostname, os.Getpid())},
	)'''),('lock/redis/redis.go','''type RedisLock struct {''','''var hostname, _ = os.Hostname()

type RedisLock struct {'''),('lock/redis/redis.go','''	"context"
''','''	"context"
	"fmt"
	"os"
''')]
PKG='lock/redis'
DEMO='''package redis

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	goredis "github.com/redis/go-redis/v9"
)

// zzServer knows as much of Redis as the lock needs.
type zzServer struct {
	mu   sync.Mutex
	data map[string]string
	till map[string]time.Time
}

func (s *zzServer) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	num := func() int {
		l, err := r.ReadString('\\n')
		if err != nil {
			return -1
		}
		n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
		return n
	}
	for {
		n := num()
		if n < 0 {
			return
		}
		var a []string
		for i := 0; i < n; i++ {
			b := make([]byte, num()+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			a = append(a, string(b[:len(b)-2]))
		}
		s.mu.Lock()
		reply := s.do(a)
		s.mu.Unlock()
		if _, err := io.WriteString(c, reply); err != nil {
			return
		}
	}
}

func (s *zzServer) do(a []string) string {
	for k, t := range s.till {
		if time.Now().After(t) {
			delete(s.data, k)
			delete(s.till, k)
		}
	}
	switch strings.ToUpper(a[0]) {
	case "SET":
		for i := range a {
			if strings.EqualFold(a[i], "PX") || strings.EqualFold(a[i], "EX") {
				n, _ := strconv.Atoi(a[i+1])
				d := time.Duration(n) * time.Millisecond
				if strings.EqualFold(a[i], "EX") {
					d = time.Duration(n) * time.Second
				}
				if _, ok := s.data[a[1]]; ok {
					return "$-1\\r\\n"
				}
				s.data[a[1]], s.till[a[1]] = a[2], time.Now().Add(d)
				return "+OK\\r\\n"
			}
		}
	case "EVALSHA":
		return "-NOSCRIPT No matching script.\\r\\n"
	case "EVAL": // key and value: remove if it is the value
		if s.data[a[3]] != a[4] {
			return ":0\\r\\n"
		}
		delete(s.data, a[3])
		return ":1\\r\\n"
	case "CLIENT":
		return "+OK\\r\\n"
	}
	return "-ERR unknown command\\r\\n"
}

func TestZZ(t *testing.T) {
	s := &zzServer{data: map[string]string{}, till: map[string]time.Time{}}
	cli := goredis.NewClient(&goredis.Options{Addr: "x", Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
		a, b := net.Pipe()
		go s.serve(b)
		return a, nil
	}})
	defer cli.Close()
	ctx := context.Background()
	short, long := NewRedisLock(cli, 60*time.Millisecond), NewRedisLock(cli, time.Hour)
	l1, err := short.Lock(ctx, "k")
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(120 * time.Millisecond) // it expires
	if _, err := long.Lock(ctx, "k"); err != nil {
		t.Fatal(err)
	}
	if err := short.UnLock(ctx, l1); err == nil {
		t.Error("a lost lock is released without error")
	}
	if len(s.data) != 1 {
		t.Error(fmt.Sprintf("the lock of the new holder is gone: %v", s.data))
	}
}
'''
