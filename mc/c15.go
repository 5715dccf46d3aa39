package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

// Edits through the cursor, compared with the same edits made on a list model. An edit is a letter: R replace,
// I replace by an identifier (where one may stand), B insert before, A insert after, D delete.

func opSequences(max int, letters string) []string {
	out := []string{}
	var rec func(s string)
	rec = func(s string) {
		if s != "" {
			out = append(out, s)
		}
		if len(s) == max || strings.HasSuffix(s, "D") {
			return
		}
		for _, l := range letters {
			rec(s + string(l))
		}
	}
	rec("")
	return out
}

type editSlot struct {
	before, after []sqlast.Node
	self          sqlast.Node // nil: deleted
}

type placeKey struct {
	parent sqlast.Node
	field  string
	index  int
}

type editRun struct {
	script  map[sqlast.Node][2]string // edits made in the first and second call for a node
	stopAt  sqlast.Node               // the second call for it ends the traversal
	pruneAt sqlast.Node
}

func (e editRun) String() string {
	var b strings.Builder
	var l []string
	for n, s := range e.script {
		for i, w := range []string{"first", "second"} {
			if s[i] != "" {
				l = append(l, fmt.Sprintf("; %s in the %s call for %s %q", s[i], w, nodeName(n), n.ToSQLString()))
			}
		}
	}
	sort.Strings(l)
	b.WriteString(strings.Join(l, ""))
	if e.stopAt != nil {
		fmt.Fprintf(&b, "; ended at %s %q", nodeName(e.stopAt), e.stopAt.ToSQLString())
	}
	if e.pruneAt != nil {
		fmt.Fprintf(&b, "; pruned at %s %q", nodeName(e.pruneAt), e.pruneAt.ToSQLString())
	}
	return b.String()
}

// c15Apply makes the edits on the tree (which it changes) and compares.
func c15Apply(root sqlast.Node, run editRun) *Fail {
	desc := run.String()
	// the tree as it is before
	copies := map[sqlast.Node]sqlast.Node{}
	expRoot := deepCopyMap(root, copies)
	nodes := refNodes(root)
	parentOf := map[sqlast.Node]sqlast.Node{}
	slots := map[placeKey]*editSlot{}
	place := map[sqlast.Node]placeKey{}
	kids := map[sqlast.Node][]childRef{}
	for _, n := range nodes {
		kids[n] = refChildren(n)
		for _, c := range kids[n] {
			k := placeKey{n, c.field, c.index}
			parentOf[c.node] = n
			slots[k] = &editSlot{self: c.node}
			place[c.node] = k
		}
	}
	slots[placeKey{}] = &editSlot{self: root}
	place[root] = placeKey{}
	inserted := map[sqlast.Node]bool{}
	insertedCopy := map[sqlast.Node]sqlast.Node{}
	replacedBy := map[sqlast.Node]sqlast.Node{}
	gone := map[sqlast.Node]bool{} // replaced or deleted in the first call
	pre, post := map[sqlast.Node]int{}, map[sqlast.Node]int{}
	serial := 0
	fresh := func(n sqlast.Node, ident bool) sqlast.Node {
		serial++
		var x sqlast.Node
		if ident {
			x = &sqlast.Ident{Value: "z" + itoa(serial)}
		} else {
			x = deepCopy(n)
			for _, i := range refNodes(x) {
				if id, ok := i.(*sqlast.Ident); ok {
					id.Value = "z" + itoa(serial)
				}
			}
		}
		inserted[x] = true
		insertedCopy[x] = deepCopy(x)
		return x
	}
	var fail *Fail
	bad := func(format string, a ...interface{}) {
		if fail == nil {
			fail = failf(format, a...)
		}
	}
	ended := false
	call := func(second bool) sqlastutil.ApplyFunc {
		return func(c *sqlastutil.Cursor) bool {
			n := c.Node()
			if ended {
				bad("a call after the end")
				return true
			}
			if n == nil {
				bad("a call for no node")
				return true
			}
			if inserted[n] {
				// the second call may show the replacement of the node it is for
				orig := sqlast.Node(nil)
				for o, r := range replacedBy {
					if second && r == n && pre[o] == 1 && post[o] == 0 {
						orig = o
					}
				}
				if orig == nil {
					bad("inserted node %s %q is visited", nodeName(n), n.ToSQLString())
					return true
				}
				n = orig
			}
			k, ok := place[n]
			if !ok {
				bad("visited %s %q, no node of the tree", nodeName(n), n.ToSQLString())
				return true
			}
			if second {
				post[n]++
			} else {
				pre[n]++
			}
			w := 0
			if second {
				w = 1
			}
			sl := slots[k]
			if sl.self != nil {
				// the cursor tells where the node is
				cur := sl.self
				if !holds(c.Parent(), c.Name(), c.Index(), cur) {
					bad("the cursor of %s %q says field %s, index %d of %T, which does not hold it", nodeName(n), n.ToSQLString(), c.Name(), c.Index(), c.Parent())
					return true
				}
			}
			for _, op := range run.script[n][w] {
				if sl.self == nil {
					break
				}
				switch op {
				case 'R', 'I':
					x := fresh(n, op == 'I')
					if op == 'I' {
						t := fieldTypeOf(c.Parent(), c.Name())
						if !reflect.TypeOf(x).AssignableTo(t) {
							continue
						}
					}
					c.Replace(x)
					sl.self = x
					replacedBy[n] = x
					if !second {
						gone[n] = true
					}
				case 'B':
					x := fresh(n, false)
					c.InsertBefore(x)
					sl.before = append(sl.before, x)
				case 'A':
					x := fresh(n, false)
					c.InsertAfter(x)
					sl.after = append([]sqlast.Node{x}, sl.after...)
				case 'D':
					c.Delete()
					sl.self = nil
					if !second {
						gone[n] = true
					}
				}
				if sl.self != nil && !holds(c.Parent(), c.Name(), c.Index(), sl.self) {
					bad("after %c the cursor of %s %q says field %s, index %d of %T, which does not hold it", op, nodeName(n), n.ToSQLString(), c.Name(), c.Index(), c.Parent())
					return true
				}
			}
			if second {
				if n == run.stopAt {
					ended = true
					return false
				}
				return true
			}
			return n != run.pruneAt
		}
	}
	res := sqlastutil.Apply(root, call(false), call(true))
	with := func(f *Fail) *Fail {
		f.Msg += "\n  edits: " + strings.TrimPrefix(desc, "; ")
		return f
	}
	if fail != nil {
		return with(fail)
	}
	// visits
	for _, n := range nodes {
		free, below := ended, false
		for p := n; p != nil; p = parentOf[p] {
			if gone[p] {
				free = true
			}
			if p == run.pruneAt && p != n {
				below = true
			}
		}
		wantPost := 1
		if n == run.pruneAt {
			wantPost = 0
		}
		switch {
		case pre[n] > 1 || post[n] > 1:
			return with(failf("%s %q is visited %d and %d times", nodeName(n), n.ToSQLString(), pre[n], post[n]))
		case below && pre[n]+post[n] > 0:
			return with(failf("%s %q is visited, below the pruned node", nodeName(n), n.ToSQLString()))
		case below || free && !(ended && false):
		case pre[n] != 1 || post[n] != wantPost:
			return with(failf("%s %q has %d first and %d second calls", nodeName(n), n.ToSQLString(), pre[n], post[n]))
		}
	}
	// the expected tree: the same edits on the copy
	exp := func(n sqlast.Node) reflect.Value {
		if c, ok := insertedCopy[n]; ok {
			return reflect.ValueOf(c)
		}
		return reflect.ValueOf(copies[n])
	}
	for _, n := range nodes {
		if len(kids[n]) == 0 {
			continue
		}
		v := reflect.Indirect(reflect.ValueOf(copies[n]))
		av := reflect.Indirect(reflect.ValueOf(n))
		detached := false
		for p := n; p != nil; p = parentOf[p] {
			if s := slots[place[p]]; s.self != p {
				detached = true
			}
		}
		if detached {
			continue
		}
		for i, c := range kids[n] {
			sl := slots[placeKey{n, c.field, c.index}]
			f, af := v.FieldByName(c.field), av.FieldByName(c.field)
			if c.index < 0 {
				if af.Interface().(sqlast.Node) != sl.self {
					return with(failf("field %s of %s holds %s, want %s", c.field, nodeName(n), show(af), show(reflect.ValueOf(sl.self))))
				}
				f.Set(exp(sl.self))
				continue
			}
			if i > 0 && kids[n][i-1].field == c.field {
				continue
			}
			// the whole list
			var want []sqlast.Node
			for j := i; j < len(kids[n]) && kids[n][j].field == c.field; j++ {
				s := slots[placeKey{n, c.field, kids[n][j].index}]
				want = append(want, s.before...)
				if s.self != nil {
					want = append(want, s.self)
				}
				want = append(want, s.after...)
			}
			list := reflect.MakeSlice(f.Type(), 0, len(want))
			for _, x := range want {
				list = reflect.Append(list, exp(x))
			}
			f.Set(list)
			same := af.Len() == len(want)
			for j := 0; same && j < af.Len(); j++ {
				same = !isNilNode(af.Index(j)) && af.Index(j).Interface().(sqlast.Node) == want[j]
			}
			if !same {
				var a, b []string
				for j := 0; j < af.Len(); j++ {
					if isNilNode(af.Index(j)) {
						a = append(a, "nil")
						continue
					}
					a = append(a, af.Index(j).Interface().(sqlast.Node).ToSQLString())
				}
				for _, x := range want {
					b = append(b, x.ToSQLString())
				}
				return with(failf("list %s of %s is %q, want %q", c.field, nodeName(n), a, b))
			}
		}
	}
	wantRoot := expRoot
	if s := slots[placeKey{}].self; s != root {
		wantRoot = insertedCopy[s]
		if res != s {
			return with(failf("the result is not the replacement of the root"))
		}
	} else if res != root {
		return with(failf("the result is another tree"))
	}
	if d := diffPos(res, wantRoot); d != "" {
		return with(failf("the edited tree%s", d))
	}
	a, b := printed(res), printed(wantRoot)
	if a != b {
		return with(failf("printed %q, want %q", a, b))
	}
	return nil
}

func printed(n sqlast.Node) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic"
		}
	}()
	return n.ToSQLString()
}

func fieldTypeOf(parent sqlast.Node, name string) reflect.Type {
	t := reflect.Indirect(reflect.ValueOf(parent)).FieldByName(name).Type()
	if t.Kind() == reflect.Slice {
		return t.Elem()
	}
	return t
}

// inList tells of each node of a tree whether a list holds it.
func inList(root sqlast.Node) map[sqlast.Node]bool {
	m := map[sqlast.Node]bool{}
	for _, n := range refNodes(root) {
		for _, c := range refChildren(n) {
			if c.index >= 0 {
				m[c.node] = true
			}
		}
	}
	return m
}

var listStmts = []string{
	"SELECT %s FROM t",
	"SELECT a FROM t GROUP BY %s",
	"SELECT a FROM t ORDER BY %s",
	"SELECT a FROM %s WHERE a = 1",
	"SELECT f(%s)",
	"SELECT a IN (%s)",
	"INSERT INTO t (%s) VALUES (1)",
	"INSERT INTO t (a) VALUES (%s)",
	"UPDATE t SET %s",
	"CREATE TABLE t (%s)",
	"SELECT x.%s",
	"WITH %s SELECT 1",
}

var listElems = []string{"c#", "c#", "c#", "c#", "c#", "c#", "c#", "c#", "c# = 1", "c# INT", "c#", "c# AS (SELECT 1)"}

func init() {
	register(&Check{
		ID:    "C15",
		Level: "exploration",
		Rule:  "one case per tree and set of edits; distinct combinations counted",
		Assumptions: []string{
			"the expected result of edits is that of a list model (mc/c15.go); no edit is made after deleting the same node, and nothing is expected of the nodes below one replaced or deleted in its first call but that they are visited at most once",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			listOps := opSequences(3, "RIBAD")
			fewOps := opSequences(2, "RBAD")
			pick := func(c *Chooser, isList bool, ops []string) string {
				if !isList {
					return []string{"R", "I", "RR"}[c.Free(3)]
				}
				return ops[c.Free(len(ops))]
			}
			one := func(c *Chooser) *Fail {
				root := genTree(c)
				nodes := refNodes(root)
				l := inList(root)
				n := nodes[c.Free(len(nodes))]
				var s [2]string
				s[c.Free(2)] = pick(c, l[n], listOps)
				run := editRun{script: map[sqlast.Node][2]string{n: s}}
				c.Hash = c.Desc + run.String()
				return c15Apply(root, run)
			}
			two := func(c *Chooser) *Fail {
				root := genTree(c)
				nodes := refNodes(root)
				l := inList(root)
				i, j := c.Free(len(nodes)), c.Free(len(nodes))
				if j < i {
					c.Skip = true
					return nil
				}
				run := editRun{script: map[sqlast.Node][2]string{}}
				if i == j {
					run.script[nodes[i]] = [2]string{pick(c, l[nodes[i]], fewOps), pick(c, l[nodes[i]], fewOps)}
				} else {
					for _, k := range []int{i, j} {
						var s [2]string
						s[c.Free(2)] = pick(c, l[nodes[k]], fewOps)
						run.script[nodes[k]] = s
					}
				}
				c.Hash = c.Desc + run.String()
				return c15Apply(root, run)
			}
			// listOf is statement k with a list of m elements
			listOf := func(c *Chooser, k, m int) (sqlast.Node, []sqlast.Node) {
				var el []string
				for i := 0; i < m; i++ {
					el = append(el, strings.Replace(listElems[k], "#", itoa(i), 1))
				}
				sep := ", "
				if strings.HasPrefix(listStmts[k], "SELECT x.") {
					sep = "."
				}
				c.Desc = strings.Replace(listStmts[k], "%s", strings.Join(el, sep), 1)
				root := mustTree(c, c.Desc)
				// the list: the first one holding as many elements, found by its place
				var list []sqlast.Node
				for _, n := range refNodes(root) {
					by := map[string][]sqlast.Node{}
					for _, ch := range refChildren(n) {
						if ch.index >= 0 {
							by[ch.field] = append(by[ch.field], ch.node)
						}
					}
					for _, l := range by {
						if len(l) >= len(el) && strings.HasPrefix(strings.TrimPrefix(l[len(l)-1].ToSQLString(), "x."), "c"+itoa(len(el)-1)) && list == nil {
							list = l
						}
					}
				}
				if list == nil {
					panic("list not found: " + c.Desc)
				}
				return root, list
			}
			lists := func(max int, ops []string, stops bool) func(c *Chooser) *Fail {
				return func(c *Chooser) *Fail {
					root, list := listOf(c, c.Free(len(listStmts)), 1+c.Free(max))
					run := editRun{script: map[sqlast.Node][2]string{}}
					for _, n := range list {
						i := c.Free(1 + 2*len(ops))
						if i == 0 {
							continue
						}
						var s [2]string
						s[(i-1)%2] = ops[(i-1)/2]
						run.script[n] = s
					}
					if stops {
						nodes := refNodes(root)
						n := nodes[c.Free(len(nodes))]
						if c.Free(2) == 1 {
							run.stopAt = n
						} else {
							run.pruneAt = n
						}
					}
					c.Hash = c.Desc + run.String()
					return c15Apply(root, run)
				}
			}
			long := func(c *Chooser) *Fail {
				m := pickSize(c, 300)
				root, list := listOf(c, c.Free(len(listStmts)), m)
				ops := fewOps[c.Free(len(fewOps))]
				call := c.Free(2)
				run := editRun{script: map[sqlast.Node][2]string{}}
				how := c.Free(7)
				for i, n := range list {
					if how < 5 && i != []int{0, 1, m / 2, m - 2, m - 1}[how] || how == 6 && i%2 == 0 {
						continue
					}
					var s [2]string
					s[call] = ops
					run.script[n] = s
				}
				c.Hash = fmt.Sprint(c.Desc, ops, call, how)
				return c15Apply(root, run)
			}
			longOps := opSequences(3, "RBAD")
			m := 3
			if th {
				m = 4
			}
			return []*Space{
				{Name: "every element of a list", Rule: "lists of every kind, each element edited by up to two edits in either call", Run: lists(m, fewOps, false)},
				{Name: "long edits of a list", Rule: "lists of up to two elements, each element edited by up to three edits in either call", Run: lists(2, longOps, false)},
				{Name: "edits and stops", Rule: "lists of up to two elements (three in the thorough tier), traversal ended or pruned at every node", Run: lists(m-1, opSequences(1, "RBAD"), true)},
				{Name: "long lists", Bound: 1, Thorough: 1, Rule: "lists of up to 300 elements, one, every second or every element edited", Run: long},
				{Name: "two places", Bound: 0, Thorough: 1, Rule: "every two nodes of a statement edited by up to two edits each, in either call", Run: two},
				{Name: "one place", Bound: 1, Thorough: 2, Rule: "every node of every statement edited by up to three edits, in either call", Run: one},
			}
		},
	})
}
