package main

import (
	"reflect"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

// tree building for the checks of the traversals

// genTree parses a generated statement and gives the statement, or a file of it, as the tree to traverse.
func genTree(c *Chooser) sqlast.Node { return genTreeOf(c, (*G).any) }

func genTreeOf(c *Chooser, stmt func(g *G) sqlast.Stmt) sqlast.Node {
	g := newG(c)
	g.plainIdents, g.plainLits = true, true
	stmt(g)
	c.Desc = render(g.L)
	return mustTree(c, c.Desc)
}

func mustTree(c *Chooser, src string) sqlast.Node {
	st, err := parseOne(src, generic)
	if err != nil {
		panic("rejected: " + err.Error())
	}
	return st
}

// rareTrees are trees of node types that no text gives.
func rareTrees() []sqlast.Node {
	id := func(s string) *sqlast.Ident { return &sqlast.Ident{Value: s} }
	sel := func() *sqlast.SQLSelect {
		return &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: id("a")}, &sqlast.WildcardSelectItem{}}}
	}
	bin := func(r sqlast.Node) sqlast.Node {
		return &sqlast.BinaryExpr{Left: id("a"), Op: &sqlast.Operator{Type: sqlast.Eq}, Right: r}
	}
	out := []sqlast.Node{
		&sqlast.SelectExpr{Select: sel()},
		&sqlast.QueryStmt{Body: &sqlast.SelectExpr{Select: sel()}},
		&sqlast.SetOperationExpr{Op: &sqlast.UnionOperator{}, Left: &sqlast.SelectExpr{Select: sel()}, Right: &sqlast.QueryExpr{Query: &sqlast.QueryStmt{Body: sel()}}},
		bin(&sqlast.DateValue{}), bin(&sqlast.TimeValue{}), bin(&sqlast.DateTimeValue{}), bin(&sqlast.TimestampValue{}),
		&sqlast.File{},
	}
	for _, t := range []sqlast.Type{&sqlast.Clob{}, &sqlast.Binary{}, &sqlast.Varbinary{}, &sqlast.Blob{}} {
		out = append(out, &sqlast.Cast{Expr: id("a"), DataType: t})
	}
	return out
}

// samePlaces lists the nodes of a tree by identity, with the number of places each is held at.
func nodeCounts(n sqlast.Node) map[sqlast.Node]int {
	m := map[sqlast.Node]int{}
	for _, x := range refNodes(n) {
		m[x]++
	}
	return m
}

type visitEvent struct {
	node sqlast.Node // nil: end
	by   sqlast.Node // node whose visitor was called (nil: the caller's)
}

type recVisitor struct {
	of    sqlast.Node
	ev    *[]visitEvent
	prune func(sqlast.Node) bool
}

func (v *recVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	*v.ev = append(*v.ev, visitEvent{n, v.of})
	if n == nil || v.prune(n) {
		return nil
	}
	return &recVisitor{n, v.ev, v.prune}
}

// checkVisits checks the events of a walk against the tree.
func checkVisits(root sqlast.Node, ev []visitEvent, prune func(sqlast.Node) bool, visitors bool) *Fail {
	i := 0
	var visit func(n, parent sqlast.Node) *Fail
	visit = func(n, parent sqlast.Node) *Fail {
		if visitors && ev[i].by != parent {
			return failf("%s is visited by the visitor of %v, its parent is %v", nodeName(n), name0(ev[i].by), name0(parent))
		}
		i++
		if prune(n) {
			return nil
		}
		want := map[sqlast.Node]int{}
		left := 0
		for _, c := range refChildren(n) {
			want[c.node]++
			left++
		}
		for {
			if i >= len(ev) {
				return failf("the walk ends within %s %q", nodeName(n), n.ToSQLString())
			}
			e := ev[i]
			if e.node == nil {
				if left > 0 {
					for c, k := range want {
						if k > 0 {
							return failf("child %s %q of %s %q is not visited", nodeName(c), c.ToSQLString(), nodeName(n), n.ToSQLString())
						}
					}
				}
				if visitors && e.by != n {
					return failf("the end of %s is told to the visitor of %v", nodeName(n), name0(e.by))
				}
				i++
				return nil
			}
			if want[e.node] == 0 {
				return failf("%s %q is visited within %s %q: it is no child or visited again", nodeName(e.node), e.node.ToSQLString(), nodeName(n), n.ToSQLString())
			}
			want[e.node]--
			left--
			if f := visit(e.node, n); f != nil {
				return f
			}
		}
	}
	if len(ev) == 0 || ev[0].node != root {
		return failf("the root is not visited first")
	}
	if f := visit(root, nil); f != nil {
		return f
	}
	if i != len(ev) {
		return failf("%d visits after the end of the root", len(ev)-i)
	}
	return nil
}

func name0(n sqlast.Node) string {
	if n == nil {
		return "nothing"
	}
	return nodeName(n)
}

func c13Walks(root sqlast.Node, prune func(sqlast.Node) bool) *Fail {
	var ev []visitEvent
	sqlast.Walk(&recVisitor{nil, &ev, prune}, root)
	if f := checkVisits(root, ev, prune, true); f != nil {
		f.Msg = "Walk: " + f.Msg
		return f
	}
	ev = ev[:0]
	sqlast.Inspect(root, func(n sqlast.Node) bool {
		ev = append(ev, visitEvent{n, nil})
		return n != nil && !prune(n)
	})
	if f := checkVisits(root, ev, prune, false); f != nil {
		f.Msg = "Inspect: " + f.Msg
		return f
	}
	return nil
}

// pruneSets runs f for no node, every node, every two nodes (if there are few) and all nodes of each kind.
func pruneSets(c *Chooser, root sqlast.Node, pairs int, f func(prune func(sqlast.Node) bool, what string) *Fail) *Fail {
	c.Evals = 0
	if pairs < 0 {
		c.Evals = 1
		return f(func(sqlast.Node) bool { return false }, "every node entered")
	}
	nodes := refNodes(root)
	do := func(what string, set ...sqlast.Node) *Fail {
		c.Evals++
		m := map[sqlast.Node]bool{}
		for _, n := range set {
			m[n] = true
		}
		x := f(func(n sqlast.Node) bool { return m[n] }, what)
		if x != nil {
			x.Msg += "\n  with " + what
		}
		return x
	}
	if x := do("every node entered"); x != nil {
		return x
	}
	if x := do("no node entered", nodes...); x != nil {
		return x
	}
	for i, n := range nodes {
		if x := do(nodeName(n)+" "+n.ToSQLString()+" not entered", n); x != nil {
			return x
		}
		if len(nodes) <= pairs {
			for _, m := range nodes[i+1:] {
				if x := do(nodeName(n)+" "+n.ToSQLString()+" and "+nodeName(m)+" "+m.ToSQLString()+" not entered", n, m); x != nil {
					return x
				}
			}
		}
	}
	kinds := map[reflect.Type][]sqlast.Node{}
	for _, n := range nodes {
		t := reflect.TypeOf(n)
		kinds[t] = append(kinds[t], n)
	}
	for t, l := range kinds {
		if len(l) > 1 {
			if x := do("no "+t.String()+" entered", l...); x != nil {
				return x
			}
		}
	}
	return nil
}

func c13Check(c *Chooser, root sqlast.Node, pairs int) *Fail {
	before := deepCopy(root)
	if f := pruneSets(c, root, pairs, func(prune func(sqlast.Node) bool, what string) *Fail { return c13Walks(root, prune) }); f != nil {
		return f
	}
	if d := diffPos(root, before); d != "" {
		return failf("walking changed the tree%s", d)
	}
	return nil
}

// deepCopy copies a tree.
func deepCopy(n sqlast.Node) sqlast.Node {
	return deepCopyMap(n, nil)
}

// deepCopyMap copies a tree and records which node is copied to which.
func deepCopyMap(n sqlast.Node, m map[sqlast.Node]sqlast.Node) sqlast.Node {
	return copyValue(reflect.ValueOf(n), m).Interface().(sqlast.Node)
}

func copyValue(v reflect.Value, m map[sqlast.Node]sqlast.Node) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		w := reflect.New(v.Type()).Elem()
		w.Set(copyValue(v.Elem(), m))
		return w
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		w := reflect.New(v.Type().Elem())
		w.Elem().Set(copyValue(v.Elem(), m))
		if m != nil {
			if n, ok := v.Interface().(sqlast.Node); ok {
				m[n] = w.Interface().(sqlast.Node)
			}
		}
		return w
	case reflect.Struct:
		w := reflect.New(v.Type()).Elem()
		w.Set(v)
		if v.Type() == posType {
			return w
		}
		for _, f := range fieldsOf(v.Type()) {
			if f.pos {
				continue
			}
			w.Field(f.i).Set(copyValue(v.Field(f.i), m))
		}
		return w
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		w := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			w.Index(i).Set(copyValue(v.Index(i), m))
		}
		return w
	}
	return v
}

// C14

type applyEvent struct {
	post   bool
	node   sqlast.Node
	parent sqlast.Node
	name   string
	index  int
}

// holds tells whether a parent holds a node at a place.
func holds(parent sqlast.Node, name string, index int, n sqlast.Node) bool {
	v := reflect.Indirect(reflect.ValueOf(parent))
	if v.Kind() != reflect.Struct {
		return false
	}
	f := v.FieldByName(name)
	if !f.IsValid() {
		return false
	}
	if f.Kind() == reflect.Slice {
		if index < 0 || index >= f.Len() {
			return false
		}
		f = f.Index(index)
	} else if index != -1 {
		return false
	}
	if isNilNode(f) {
		return n == nil
	}
	x, ok := f.Interface().(sqlast.Node)
	return ok && x == n
}

type c14Spec struct {
	prune func(sqlast.Node) bool
	abort func(sqlast.Node) bool
	noPre bool
	noPos bool
}

func c14Apply(root sqlast.Node, s c14Spec) *Fail {
	var ev []applyEvent
	var fail *Fail
	aborted := false
	rec := func(post bool) sqlastutil.ApplyFunc {
		return func(c *sqlastutil.Cursor) bool {
			if aborted && fail == nil {
				fail = failf("a call after the traversal was ended")
			}
			n, p := c.Node(), c.Parent()
			ev = append(ev, applyEvent{post, n, p, c.Name(), c.Index()})
			if n == nil {
				if fail == nil {
					fail = failf("a call for no node, in field %s of %T", c.Name(), p)
				}
				return true
			}
			if !holds(p, c.Name(), c.Index(), n) && fail == nil {
				fail = failf("the cursor of %s %q says field %s, index %d of %T, which does not hold it", nodeName(n), n.ToSQLString(), c.Name(), c.Index(), p)
			}
			if post {
				if s.abort != nil && s.abort(n) {
					aborted = true
					return false
				}
				return true
			}
			return s.prune == nil || !s.prune(n)
		}
	}
	var pre, post sqlastutil.ApplyFunc
	if !s.noPre {
		pre = rec(false)
	}
	if !s.noPos {
		post = rec(true)
	}
	res := sqlastutil.Apply(root, pre, post)
	if fail != nil {
		return fail
	}
	if res != root {
		return failf("the result is another tree")
	}
	// the events against the tree
	i := 0
	next := func() *applyEvent {
		if i < len(ev) {
			return &ev[i]
		}
		return nil
	}
	stopped := false
	var visit func(n, parent sqlast.Node, where childRef) *Fail
	visit = func(n, parent sqlast.Node, where childRef) *Fail {
		at := func(e *applyEvent) *Fail {
			if parent != nil && (e.parent != parent || e.name != where.field || e.index != where.index) {
				return failf("the cursor of %s %q says field %s, index %d of %T, it is in field %s, index %d of %s", nodeName(n), n.ToSQLString(), e.name, e.index, e.parent, where.field, where.index, nodeName(parent))
			}
			return nil
		}
		if !s.noPre {
			e := next()
			if e == nil || e.post || e.node != n {
				return failf("no first call for %s %q in its turn", nodeName(n), n.ToSQLString())
			}
			if f := at(e); f != nil {
				return f
			}
			i++
			if s.prune != nil && s.prune(n) {
				return nil
			}
		}
		kids := refChildren(n)
		done := make([]bool, len(kids))
		if !s.noPre {
			for {
				e := next()
				if e == nil {
					if s.noPos {
						break
					}
					return failf("the traversal ends within %s %q", nodeName(n), n.ToSQLString())
				}
				if e.post {
					break
				}
				k := -1
				for j, c := range kids {
					if !done[j] && c.node == e.node && c.field == e.name && c.index == e.index {
						k = j
						break
					}
				}
				if k < 0 {
					if s.noPos {
						break // a call for a node outside n
					}
					return failf("a call for %s %q within %s %q: it is no child or visited again", nodeName(e.node), e.node.ToSQLString(), nodeName(n), n.ToSQLString())
				}
				done[k] = true
				if f := visit(e.node, n, kids[k]); f != nil || stopped {
					return f
				}
			}
		} else {
			// the order of the children is given by their second calls: find it from the events
			for range kids {
				k := -1
				// the next child is the one whose subtree the next event belongs to
				e := next()
				if e == nil {
					return failf("the traversal ends within %s %q", nodeName(n), n.ToSQLString())
				}
				for j, c := range kids {
					if !done[j] {
						for _, x := range refNodes(c.node) {
							if x == e.node {
								k = j
								break
							}
						}
					}
				}
				if k < 0 {
					return failf("a second call for %s within %s out of turn", name0(e.node), nodeName(n))
				}
				done[k] = true
				if f := visit(kids[k].node, n, kids[k]); f != nil || stopped {
					return f
				}
			}
		}
		for j := range kids {
			if !done[j] {
				return failf("child %s %q in field %s of %s is not visited", nodeName(kids[j].node), kids[j].node.ToSQLString(), kids[j].field, nodeName(n))
			}
		}
		if !s.noPos {
			e := next()
			if e == nil || !e.post || e.node != n {
				return failf("no second call for %s %q in its turn", nodeName(n), n.ToSQLString())
			}
			if f := at(e); f != nil {
				return f
			}
			i++
			if s.abort != nil && s.abort(n) {
				stopped = true
			}
		}
		return nil
	}
	if s.noPre && s.noPos {
		return nil
	}
	if f := visit(root, nil, childRef{}); f != nil {
		return f
	}
	if i != len(ev) {
		return failf("%d calls too many", len(ev)-i)
	}
	return nil
}

func c14Check(c *Chooser, root sqlast.Node, pairs int) *Fail {
	before := deepCopy(root)
	nodes := refNodes(root)
	evals := 0
	// pruning alone, ending alone, and both
	if f := pruneSets(c, root, pairs, func(set func(sqlast.Node) bool, what string) *Fail {
		if f := c14Apply(root, c14Spec{prune: set}); f != nil {
			f.Msg = "pruning: " + f.Msg
			return f
		}
		if f := c14Apply(root, c14Spec{abort: set}); f != nil {
			f.Msg = "ending: " + f.Msg
			return f
		}
		if f := c14Apply(root, c14Spec{prune: set, noPos: true}); f != nil {
			f.Msg = "pruning, no second function: " + f.Msg
			return f
		}
		if f := c14Apply(root, c14Spec{abort: set, noPre: true}); f != nil {
			f.Msg = "ending, no first function: " + f.Msg
			return f
		}
		return nil
	}); f != nil {
		return f
	}
	evals = 4 * c.Evals
	if len(nodes) <= pairs {
		for _, p := range nodes {
			for _, a := range nodes {
				evals++
				if f := c14Apply(root, c14Spec{prune: func(n sqlast.Node) bool { return n == p }, abort: func(n sqlast.Node) bool { return n == a }}); f != nil {
					f.Msg += "\n  pruned at " + nodeName(p) + ", ended at " + nodeName(a)
					return f
				}
			}
		}
	}
	if f := c14Apply(root, c14Spec{noPre: true, noPos: true}); f != nil {
		return f
	}
	c.Evals = evals + 1
	if d := diffPos(root, before); d != "" {
		return failf("a traversal without edits changed the tree%s", d)
	}
	return nil
}

func traversalSpaces(tier string, check func(c *Chooser, root sqlast.Node, pairs int) *Fail, q, th, large int) []*Space {
	pairs := 16
	if tier == "thorough" {
		pairs = 28
	}
	return []*Space{
		{Name: "node types no text gives", Rule: "hand-built trees", Run: func(c *Chooser) *Fail {
			l := rareTrees()
			i := c.Free(len(l))
			c.Desc = "tree " + itoa(i) + ": " + nodeName(l[i])
			return check(c, l[i], 100)
		}},
		{Name: "files", Bound: 1, Thorough: 2, Rule: "files of up to three statements, with comments", Run: func(c *Chooser) *Fail {
			k := c.Free(3)
			src := ""
			for i := 0; i < k; i++ {
				src += "/* " + itoa(i) + " */" + joinLex(plainStmt(c)) + ";\n"
			}
			c.Desc = src
			f, err := parseFile(src, generic, true)
			if err != nil {
				return failf("rejected: %v", err)
			}
			return check(c, f, pairs)
		}},
		{Name: "statements", Bound: q, Thorough: th, Rule: "every generated statement; traversed whole, with each node, each two nodes of small trees and all nodes of a kind pruned (and ended at)", Run: func(c *Chooser) *Fail {
			return check(c, genTree(c), pairs)
		}},
		{Name: "more statements", Bound: q + 1, Thorough: th + 1, Rule: "every generated statement, traversed whole", Run: func(c *Chooser) *Fail {
			return check(c, genTree(c), -1)
		}},
		{Name: "large parts", Bound: large, Thorough: 1, Rule: "statements with one large part: list, name, literal, chain, nest; traversed whole", Run: func(c *Chooser) *Fail {
			return check(c, genTreeOf(c, upTo(257)), -1)
		}},
		{Name: "clauses and constructs", Bound: 1, Thorough: 2, Rule: "every combination of the optional clauses of every statement, and statements that begin at a construct deep in the grammar, traversed whole", Run: func(c *Chooser) *Fail {
			return check(c, genTreeOf(c, (*G).wide), -1)
		}},
	}
}

func init() {
	register(&Check{
		ID:    "C13",
		Level: "exploration",
		Rule:  "one case per tree, one evaluation per choice of where to stop; distinct texts counted",
		Assumptions: []string{
			"the children of a node are those its public fields hold (comments of a file excepted)",
		},
		Spaces: func(tier string) []*Space {
			return append([]*Space{
				{Name: "kinds of visitors", Bound: 1, Thorough: 2, Rule: "every generated statement, whole or with one node pruned, visited by 6 kinds of visitors, some of types that cannot be compared", Run: c13Kinds},
			}, traversalSpaces(tier, c13Check, 2, 3, 1)...)
		},
	})
	register(&Check{
		ID:    "C14",
		Level: "exploration",
		Rule:  "one case per tree, one evaluation per choice of where to prune and end; distinct texts counted",
		Assumptions: []string{
			"the children of a node are those its public fields hold (comments of a file excepted)",
		},
		Spaces: func(tier string) []*Space {
			return append([]*Space{
				{Name: "panics", Bound: 0, Thorough: 1, Rule: "every plain statement, a panic in each of the calls with 7 kinds of values: it reaches the caller, nothing is called after it, the tree is unchanged and the next traversal is whole", Run: c14Panics},
			}, traversalSpaces(tier, c14Check, 2, 3, 0)...)
		},
	})
}
