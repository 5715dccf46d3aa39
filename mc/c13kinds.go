package main

import (
	"errors"
	"fmt"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

// Visitors of many dynamic types, and functions that panic.

type valueVisitor struct {
	recVisitor
	list []int // cannot be compared
}

func (v valueVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	*v.ev = append(*v.ev, visitEvent{n, v.of})
	if n == nil || v.prune(n) {
		return nil
	}
	v.of = n
	return v
}

type funcVisitor func(n sqlast.Node) sqlast.Visitor

func (v funcVisitor) Visit(n sqlast.Node) sqlast.Visitor { return v(n) }

type mapVisitor map[string]recVisitor

func (v mapVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	r := v["r"]
	if r.Visit(n) == nil {
		return nil
	}
	r.of = n
	return mapVisitor{"r": r}
}

type sliceVisitor []recVisitor

func (v sliceVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	r := v[len(v)-1]
	if r.Visit(n) == nil {
		return nil
	}
	r.of = n
	return append(v[:len(v):len(v)], r)
}

type innerVisitor struct{ sqlast.Visitor }

// stayingVisitor is the visitor of all nodes and also gives itself at their ends.
type stayingVisitor struct{ recVisitor }

func (v *stayingVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	*v.ev = append(*v.ev, visitEvent{n, nil})
	if n != nil && v.prune(n) {
		return nil
	}
	return v
}

var visitorKinds = []struct {
	name string
	own  bool // each node has a visitor of its own
	mk   func(r recVisitor) sqlast.Visitor
}{
	{"value that cannot be compared", true, func(r recVisitor) sqlast.Visitor { return valueVisitor{recVisitor: r, list: []int{1}} }},
	{"function", true, func(r recVisitor) sqlast.Visitor {
		var mk func(of sqlast.Node) funcVisitor
		mk = func(of sqlast.Node) funcVisitor {
			return func(n sqlast.Node) sqlast.Visitor {
				*r.ev = append(*r.ev, visitEvent{n, of})
				if n == nil || r.prune(n) {
					return nil
				}
				return mk(n)
			}
		}
		return mk(nil)
	}},
	{"map", true, func(r recVisitor) sqlast.Visitor { return mapVisitor{"r": r} }},
	{"slice", true, func(r recVisitor) sqlast.Visitor { return sliceVisitor{r} }},
	{"visitor within another", true, func(r recVisitor) sqlast.Visitor { return innerVisitor{&innerVisitor{&r}} }},
	{"one visitor for all", false, func(r recVisitor) sqlast.Visitor { return &stayingVisitor{r} }},
}

func c13Kinds(c *Chooser) *Fail {
	root := genTree(c)
	if c.Skip {
		return nil
	}
	k := visitorKinds[c.Free(len(visitorKinds))]
	nodes := refNodes(root)
	i := c.Free(len(nodes) + 1)
	prune := func(n sqlast.Node) bool { return i < len(nodes) && n == nodes[i] }
	c.Desc += fmt.Sprintf("; visitor: %s; without the children of node %d", k.name, i)
	var ev []visitEvent
	sqlast.Walk(k.mk(recVisitor{nil, &ev, prune}), root)
	if f := checkVisits(root, ev, prune, k.own); f != nil {
		f.Msg = "Walk: " + f.Msg
		return f
	}
	return nil
}

type panicValue struct{ n int }

// panicValues are what functions panic with: some like what the library might use itself.
var panicValues = []interface{}{errors.New("x"), "text", new(int), &panicValue{1}, panicValue{2}, 0, false}

func caught(f func()) (v interface{}, was bool) {
	defer func() { v = recover() }()
	was = true
	f()
	return nil, false
}

// c14Panics: a panic of a function reaches the caller as it is, and a traversal after it is as ever.
func c14Panics(c *Chooser) *Fail {
	root := genTree(c)
	if c.Skip {
		return nil
	}
	v := panicValues[c.Free(len(panicValues))]
	nodes := refNodes(root)
	k := c.Free(2 * len(nodes))
	before := dumpOf(root)
	c.Desc += fmt.Sprintf("; panic with a %T in call %d", v, k)
	n := 0
	f := func(*sqlastutil.Cursor) bool {
		n++
		if n == k+1 {
			panic(v)
		}
		return true
	}
	got, was := caught(func() { sqlastutil.Apply(root, f, f) })
	if !was || got != v {
		return failf("the functions panic with %v, Apply with %v (panic: %v)", v, got, was)
	}
	if n != k+1 {
		return failf("%d calls after the panic", n-k-1)
	}
	if now := dumpOf(root); now != before {
		return failf("the tree has changed from %s to %s", before, now)
	}
	n = -4 * len(nodes)
	if r := sqlastutil.Apply(root, f, f); r != root || n != -2*len(nodes) {
		return failf("after the panic a traversal makes %d calls for %d nodes", n+4*len(nodes), len(nodes))
	}
	return nil
}
