package main

import (
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"
	"time"

	goredis "github.com/redis/go-redis/v9"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/kit"
	"github.com/hyp3rd/hypercache/internal/zzverif/redisd"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

func cacheOpts[T backend.IBackendConstrain](algo string) []hypercache.Option[T] {
	return []hypercache.Option[T]{
		hypercache.WithEvictionAlgorithm[T](algo),
		hypercache.WithEvictionInterval[T](0),
		hypercache.WithExpirationInterval[T](time.Hour),
		hypercache.WithEvictionShardCount[T](1),
	}
}

// open is a cache over a redis backend.
func open(srv *redisd.Cluster, cluster bool, capacity int, algo string) (hypercache.Service, func(), error) {
	if cluster {
		c := goredis.NewClusterClient(&goredis.ClusterOptions{Addrs: srv.Addrs(), MaxRetries: -1, PoolSize: 2})
		conf, err := hypercache.NewConfig[backend.RedisCluster](constants.RedisClusterBackend)
		if err != nil {
			return nil, nil, err
		}
		conf.RedisClusterOptions = []backend.Option[backend.RedisCluster]{backend.WithRedisClusterClient(c), backend.WithCapacity[backend.RedisCluster](capacity)}
		conf.HyperCacheOptions = cacheOpts[backend.RedisCluster](algo)
		h, err := hypercache.New(bg, hypercache.NewBackendManager(), conf)
		if err != nil {
			return nil, nil, err
		}
		return h, func() { _ = h.Stop(bg); c.Close() }, nil
	}
	c := goredis.NewClient(&goredis.Options{Addr: srv.Addrs()[0], MaxRetries: -1, PoolSize: 2})
	conf, err := hypercache.NewConfig[backend.Redis](constants.RedisBackend)
	if err != nil {
		return nil, nil, err
	}
	conf.RedisOptions = []backend.Option[backend.Redis]{backend.WithRedisClient(c), backend.WithCapacity[backend.Redis](capacity)}
	conf.HyperCacheOptions = cacheOpts[backend.Redis](algo)
	h, err := hypercache.New(bg, hypercache.NewBackendManager(), conf)
	if err != nil {
		return nil, nil, err
	}
	return h, func() { _ = h.Stop(bg); c.Close() }, nil
}

// whole: the cache over a redis backend, without limit and with one.
var whole = kit.Scenario{Name: "whole", Plain: func(p *kit.P) {
	type st struct {
		h hypercache.Service
		m map[string]any
	}
	keys := []string{"a", "b", "c"}
	type act struct {
		name string
		wr   string // key it writes
		do   func(s *st) string
	}
	var acts []act
	for i, k := range keys {
		v := fmt.Sprint("v", i)
		acts = append(acts,
			act{"set " + k, k, func(s *st) string {
				s.m[k] = v
				if err := s.h.Set(bg, k, v, 0); err != nil {
					return fmt.Sprint("set|", err)
				}
				return ""
			}})
		if k == "c" {
			continue
		}
		acts = append(acts,
			act{"getorset " + k, k, func(s *st) string {
				want, ok := s.m[k]
				if !ok {
					want = "o" + v
					s.m[k] = want
				}
				if got, err := s.h.GetOrSet(bg, k, "o"+v, time.Hour); err != nil || got != want {
					return fmt.Sprintf("getorset|GetOrSet(%s) = %v %v, want %v", k, got, err, want)
				}
				return ""
			}},
			act{"remove " + k, "", func(s *st) string {
				delete(s.m, k)
				if err := s.h.Remove(bg, k); err != nil {
					return fmt.Sprint("remove|", err)
				}
				return ""
			}})
	}
	acts = append(acts, act{"clear", "", func(s *st) string {
		clear(s.m)
		if err := s.h.Clear(bg); err != nil {
			return fmt.Sprint("clear|", err)
		}
		return ""
	}})
	depth := 3
	if p.Deep() {
		depth = 4
	}
	for _, cluster := range []bool{false, true} {
		for _, limit := range []int{0, 2} {
			for _, algo := range []string{"lru", "lfu"} {
				if limit == 0 && algo != "lru" {
					continue
				}
				seqs(len(acts), depth, func(seq []int) {
					var names []string
					for _, i := range seq {
						names = append(names, acts[i].name)
					}
					id := fmt.Sprintf("cluster %v, limit %d, %s: %s", cluster, limit, algo, strings.Join(names, ", "))
					if !p.Begin("%s", id) {
						return
					}
					srv := redisd.New(map[bool]int{false: 1, true: 2}[cluster])
					defer srv.Close()
					h, stop, err := open(srv, cluster, limit, algo)
					if err != nil {
						p.Fail(id, "new", "%s: %v", id, err)
						return
					}
					defer stop()
					s := &st{h, map[string]any{}}
					for _, i := range seq {
						if msg := acts[i].do(s); msg != "" {
							fail(p, id, id, msg)
							return
						}
						got, bad := h.GetMultiple(bg, keys...)
						if limit > 0 && len(s.m) > limit { // one of the others is evicted
							for _, k := range keys {
								if _, ok := got[k]; !ok && k != acts[i].wr && s.m[k] != nil && len(s.m) > limit {
									delete(s.m, k)
								}
							}
						}
						if !reflect.DeepEqual(got, s.m) {
							p.Fail(id, "get", "%s: GetMultiple = %v, want %v", id, got, s.m)
							return
						}
						for _, k := range keys {
							if _, ok := got[k]; ok != (bad[k] == nil) || !ok && !errors.Is(bad[k], sentinel.ErrKeyNotFound) {
								p.Fail(id, "failed", "%s: GetMultiple fails for %s with %v", id, k, bad[k])
							}
							v, ok := h.Get(bg, k)
							it, iok := h.GetWithInfo(bg, k)
							if w, want := s.m[k]; ok != want || iok != want || want && (v != w || it.Value != w) {
								p.Fail(id, "get", "%s: Get(%s) = %v %v, want %v", id, k, v, ok, w)
							}
						}
						if n := h.Count(bg); n != len(s.m) || limit > 0 && n > limit {
							p.Fail(id, "count", "%s: Count is %d with %v, limit %d", id, n, s.m, limit)
						}
						l, err := h.List(bg)
						var lk []string
						for _, it := range l {
							lk = append(lk, it.Key)
						}
						slices.Sort(lk)
						if wk := slices.Sorted(maps.Keys(s.m)); err != nil || !slices.Equal(lk, wk) {
							p.Fail(id, "list", "%s: List has %v %v, want %v", id, lk, err, wk)
						}
						if c := h.Capacity(); c != limit {
							p.Fail(id, "capacity", "%s: capacity %d, want %d", id, c, limit)
						}
					}
					p.Outcome("%v", s.m)
				})
			}
		}
	}
}}
