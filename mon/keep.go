package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"

	"github.com/Aize-Public/forego/enc"
)

// keeper holds on to results that were handed out, and finds those that changed afterwards.
type keeper struct {
	mu   sync.Mutex
	list []kept
}

type kept struct {
	what  string
	b     []byte
	bCopy []byte
	n     enc.Node
	nCopy enc.Node
	v     reflect.Value
	vCopy reflect.Value
}

func (k *keeper) add(x kept) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.list) < 64 {
		k.list = append(k.list, x)
		return
	}
	k.list[len(x.what)%len(k.list)] = x // some of them
}

func (k *keeper) Bytes(b []byte, f string, args ...any) {
	k.add(kept{what: cut(fmt.Sprintf(f, args...), 300), b: b, bCopy: bytes.Clone(b)})
}

func (k *keeper) Node(n enc.Node, f string, args ...any) {
	k.add(kept{what: cut(fmt.Sprintf(f, args...), 300), n: n, nCopy: copyNode(n)})
}

// Value keeps an addressable value of exported data
func (k *keeper) Value(v reflect.Value, f string, args ...any) {
	k.add(kept{what: cut(fmt.Sprintf(f, args...), 300), v: v, vCopy: deepCopy(v)})
}

// check fails for what is no longer as it was handed out, and forgets everything.
func (k *keeper) check(r *R, sig string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, x := range k.list {
		switch {
		case x.n != nil:
			if !reflect.DeepEqual(x.n, x.nCopy) {
				r.Fail(sig, "%s: the node given then became %s", x.what, cut(fmt.Sprint(x.n), 300))
			}
		case x.v.IsValid():
			if !reflect.DeepEqual(x.v.Interface(), x.vCopy.Interface()) {
				r.Fail(sig, "%s: the value given then became %s", x.what, cut(dump(x.v.Interface()), 300))
			}
		default:
			if !bytes.Equal(x.b, x.bCopy) {
				r.Fail(sig, "%s: the bytes given then, %q, became %q", x.what, cut(string(x.bCopy), 200), cut(string(x.b), 200))
			}
		}
	}
	r.Count("results_kept_and_compared_later", int64(len(k.list)))
	k.list = k.list[:0]
}

func copyNode(n enc.Node) enc.Node {
	switch n := n.(type) {
	case enc.Map:
		if n == nil {
			return n
		}
		out := make(enc.Map, len(n))
		for k, v := range n {
			out[k] = copyNode(v)
		}
		return out
	case enc.List:
		if n == nil {
			return n
		}
		out := make(enc.List, len(n))
		for i, v := range n {
			out[i] = copyNode(v)
		}
		return out
	case enc.Pairs:
		if n == nil {
			return n
		}
		out := make(enc.Pairs, len(n))
		for i, p := range n {
			p.Value = copyNode(p.Value)
			out[i] = p
		}
		return out
	}
	return n
}
