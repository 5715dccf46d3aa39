package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/google/go-cmp/cmp"
)

// the helper that compares trees

// concreteNodes are node values, one per type found in the trees of the default statements and the rare trees.
var concreteNodes = sync.OnceValue(func() []reflect.Value {
	seen := map[reflect.Type]bool{}
	var out []reflect.Value
	add := func(n sqlast.Node) {
		for _, x := range refNodes(n) {
			if t := reflect.TypeOf(x); !seen[t] {
				seen[t] = true
				out = append(out, reflect.New(t.Elem()))
			}
		}
	}
	for _, n := range rareTrees() {
		add(n)
	}
	for i := 0; i < nStmts; i++ {
		c := &Chooser{}
		c.reset(nil)
		g := newG(c)
		g.plainIdents, g.plainLits = true, true
		g.stmt(i)
		if st, err := parseOne(render(g.L), generic); err == nil {
			add(st)
		}
	}
	for _, op := range []sqlast.Node{&sqlast.UnionOperator{}, &sqlast.ExceptOperator{}, &sqlast.IntersectOperator{}} {
		add(op)
	}
	return out
})

// edits calls f for every single change of the public content below v (with all: in more ways); the change is undone when f returns.
func edits(v reflect.Value, path string, all bool, f func(path string)) {
	try := func(what string, w reflect.Value) {
		old := reflect.New(v.Type()).Elem()
		old.Set(v)
		v.Set(w)
		f(path + ": " + what)
		v.Set(old)
	}
	zero := reflect.Zero(v.Type())
	switch v.Kind() {
	case reflect.Bool:
		try("negated", reflect.ValueOf(!v.Bool()).Convert(v.Type()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		for _, d := range []int64{1, -1} {
			if d < 0 && !all {
				break
			}
			w := reflect.New(v.Type()).Elem()
			w.SetInt(v.Int() + d)
			try(fmt.Sprintf("%+d", d), w)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		w := reflect.New(v.Type()).Elem()
		w.SetUint(v.Uint() + 1)
		try("+1", w)
	case reflect.Float32, reflect.Float64:
		w := reflect.New(v.Type()).Elem()
		w.SetFloat(v.Float() + 0.5)
		try("+0.5", w)
	case reflect.String:
		s := v.String()
		seen := map[string]bool{s: true}
		for i, a := range []string{s + "x", strings.ToUpper(s), strings.ToLower(s), s + " ", " " + s, "", s + "'", "\"" + s + "\"", s + "\x00"} {
			if !seen[a] && (all || i < 3) {
				seen[a] = true
				try(fmt.Sprintf("%q", a), reflect.ValueOf(a).Convert(v.Type()))
			}
		}
	case reflect.Ptr:
		if v.IsNil() {
			try("set", reflect.New(v.Type().Elem()))
			return
		}
		try("nil", zero)
		edits(v.Elem(), path, all, f)
	case reflect.Interface:
		k := 0
		for _, n := range concreteNodes() {
			if !n.Type().AssignableTo(v.Type()) || (!v.IsNil() && v.Elem().Type() == n.Type()) {
				continue
			}
			if k++; k > 4 || (k > 2 && !all) {
				break
			}
			w := reflect.New(n.Type().Elem())
			if !v.IsNil() && v.Elem().Kind() == reflect.Ptr && !v.Elem().IsNil() {
				// another type of node with as much of the same content as it can hold
				copyFields(w.Elem(), v.Elem().Elem())
			}
			try("a "+n.Type().Elem().Name(), w)
		}
		if v.IsNil() {
			return
		}
		try("nil", zero)
		if v.Elem().Kind() == reflect.Ptr {
			if !v.Elem().IsNil() {
				edits(v.Elem().Elem(), path, all, f)
			}
			return
		}
		// a value held in an interface: change a copy of it
		w := reflect.New(v.Elem().Type()).Elem()
		w.Set(v.Elem())
		edits(w, path, all, func(p string) {
			old := reflect.New(v.Type()).Elem()
			old.Set(v)
			v.Set(w)
			f(p)
			v.Set(old)
		})
	case reflect.Slice:
		n := v.Len()
		join := func(parts ...reflect.Value) reflect.Value {
			w := reflect.MakeSlice(v.Type(), 0, n+1)
			for _, p := range parts {
				w = reflect.AppendSlice(w, p)
			}
			return w
		}
		if n == 0 {
			e := reflect.Zero(v.Type().Elem())
			if v.Type().Elem().Kind() == reflect.Ptr {
				e = reflect.New(v.Type().Elem().Elem())
			}
			try("an element more", reflect.Append(join(v), e))
			if strings.HasSuffix(path, ".Args") { // f and f() are different tables
				if v.IsNil() {
					try("empty", reflect.MakeSlice(v.Type(), 0, 0))
				} else {
					try("nil", zero)
				}
			}
			return
		}
		try("no elements", join())
		if n > 1 && all {
			try("without the first", join(v.Slice(1, n)))
			try("without the last", join(v.Slice(0, n-1)))
		}
		try("last twice", join(v, v.Slice(n-1, n)))
		for i := 0; i+1 < n; i++ {
			if diffValue(v.Index(i), v.Index(i+1), true) != "" {
				try(fmt.Sprintf("%d and %d swapped", i, i+1), join(v.Slice(0, i), v.Slice(i+1, i+2), v.Slice(i, i+1), v.Slice(i+2, n)))
			}
		}
		for i := 0; i < n; i++ {
			edits(v.Index(i), path+"["+itoa(i)+"]", all, f)
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			try("a second later", reflect.ValueOf(t.Add(time.Second)))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				edits(v.Field(i), path+"."+v.Type().Field(i).Name, all, f)
			}
		}
	default:
		panic("a field of kind " + v.Kind().String() + " at " + path)
	}
}

func copyFields(to, from reflect.Value) {
	for i := 0; i < to.NumField(); i++ {
		sf := to.Type().Field(i)
		if sf.PkgPath != "" {
			continue
		}
		if x := from.FieldByName(sf.Name); x.IsValid() && x.Type() == sf.Type {
			to.Field(i).Set(x)
		}
	}
}

// c26Verdict asks the helper both ways, and the option it is made of.
func c26Verdict(a, b interface{}) (equal bool, f *Fail) {
	x := xsqlparser.CompareWithoutMarker(a, b)
	y := xsqlparser.CompareWithoutMarker(b, a)
	if (x == "") != (y == "") {
		return false, failf("one way the helper says %q, the other way %q", x, y)
	}
	if e := cmp.Equal(a, b, xsqlparser.IgnoreMarker); e != (x == "") {
		return false, failf("IgnoreMarker makes them equal: %v, the helper says %q", e, x)
	}
	return x == "", nil
}

func c26Tree(c *Chooser, root interface{}, all bool) *Fail {
	rv := reflect.ValueOf(root)
	cp := copyValue(rv, nil)
	kept := copyValue(rv, nil)
	eq, f := c26Verdict(root, root)
	if f == nil && !eq {
		f = failf("the tree differs from itself")
	}
	if f != nil {
		return f
	}
	eq, f = c26Verdict(root, cp.Interface())
	if f == nil && !eq {
		f = failf("the tree differs from a copy of it: %s", xsqlparser.CompareWithoutMarker(root, cp.Interface()))
	}
	if f != nil {
		return f
	}
	var fail *Fail
	n := 1
	hold := reflect.New(cp.Type()).Elem()
	hold.Set(cp)
	var each func(v reflect.Value, path string)
	each = func(v reflect.Value, path string) {
		edits(v, path, all, func(what string) {
			if fail != nil {
				return
			}
			n++
			var eq bool
			var f *Fail
			if all {
				eq, f = c26Verdict(root, hold.Interface())
			} else if n&1 == 0 {
				eq = xsqlparser.CompareWithoutMarker(root, hold.Interface()) == ""
			} else {
				eq = xsqlparser.CompareWithoutMarker(hold.Interface(), root) == ""
			}
			if f == nil && eq {
				f = failf("no difference")
			}
			if f != nil {
				f.Msg = "changed " + what + ": " + f.Msg
				fail = f
			}
		})
	}
	if hold.Kind() == reflect.Ptr {
		each(hold.Elem(), "")
	} else {
		each(hold, "")
	}
	c.Evals = n
	if fail != nil {
		return fail
	}
	if d := diffPos(root, kept.Interface()); d != "" {
		return failf("comparing changed the first tree%s", d)
	}
	if d := diffPos(cp.Interface(), kept.Interface()); d != "" {
		return failf("comparing changed the second tree%s", d)
	}
	return nil
}

// c26Large compares two large texts that differ in one element or character.
func c26Large(c *Chooser) *Fail {
	kind := c.Free(7)
	n := pickSize(c, 5000)
	if kind < 4 && n > 513 {
		n = 513
	}
	at := []int{0, 1, n / 2, n - 2, n - 1}[c.Free(5)]
	make1 := func(change int) interface{} {
		var el []string
		for i := 0; i < n; i++ {
			e := "c" + itoa(i)
			if kind >= 4 {
				e = "x"
			}
			if i == change {
				e = "y"
			}
			el = append(el, e)
		}
		src := ""
		switch kind {
		case 0:
			src = "DROP INDEX " + strings.Join(el, ",")
		case 1:
			src = "INSERT INTO t (" + strings.Join(el, ",") + ") VALUES (1)"
		case 2:
			src = "SELECT " + strings.Join(el, ",") + " FROM t"
		case 3:
			src = "SELECT 1; DELETE FROM " + strings.Join(el, "; DELETE FROM ")
		case 4:
			src = "SELECT " + strings.Join(el, "") + " FROM t"
		case 5:
			src = "SELECT '" + strings.Join(el, "") + "' FROM t"
		case 6:
			src = "SELECT a /* " + strings.Join(el, "") + " */ FROM t"
		}
		f, err := parseFile(src, generic, true)
		if err != nil {
			panic("rejected: " + src)
		}
		return f
	}
	c.Desc = fmt.Sprintf("kind %d, size %d, changed at %d", kind, n, at)
	a, same, other := make1(-1), make1(-1), make1(at)
	eq, f := c26Verdict(a, same)
	if f == nil && !eq {
		f = failf("equal trees differ")
	}
	if f != nil {
		return f
	}
	eq, f = c26Verdict(a, other)
	if f == nil && eq {
		f = failf("no difference")
	}
	return f
}

// deepTree is an expression of a depth.
func deepTree(kind, depth int) sqlast.Node {
	var n sqlast.Node = &sqlast.Ident{Value: "a"}
	for i := 0; i < depth; i++ {
		switch kind {
		case 0:
			n = &sqlast.Nested{AST: n}
		case 1:
			n = &sqlast.BinaryExpr{Left: &sqlast.Ident{Value: "b"}, Op: &sqlast.Operator{Type: sqlast.Plus}, Right: n}
		case 2:
			n = &sqlast.SubQuery{Query: &sqlast.QueryStmt{Body: &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: n}}}}}
		}
	}
	return n
}

func init() {
	register(&Check{
		ID:    "C26",
		Level: "exploration",
		Rule:  "one case per tree or pair of trees, one evaluation per single change; distinct texts counted",
		Assumptions: []string{
			"the public content of a tree is what its exported fields hold, positions and comments included; whether an absent list equals an empty one is left open",
		},
		Spaces: func(tier string) []*Space {
			files := 2
			if tier == "thorough" {
				files = 3
			}
			return []*Space{
				{Name: "node types no text gives", Rule: "hand-built trees and zero nodes of every type; every single change", Run: func(c *Chooser) *Fail {
					l := rareTrees()
					i := c.Free(len(l) + len(concreteNodes()))
					if i < len(l) {
						c.Desc = "tree " + itoa(i) + ": " + nodeName(l[i])
						return c26Tree(c, l[i], true)
					}
					t := concreteNodes()[i-len(l)].Type()
					c.Desc = "zero " + t.String()
					return c26Tree(c, reflect.New(t.Elem()).Interface(), true)
				}},
				{Name: "deep trees", Bound: 1, Thorough: 1, Rule: "expressions and subqueries of depth up to 40 (thorough 120); every single change", Run: func(c *Chooser) *Fail {
					depths := []int{1, 5, 12, 40}
					if tier == "thorough" {
						depths = append(depths, 80, 120)
					}
					k, d := c.Free(3), depths[c.Free(len(depths))]
					if k == 2 { // go-cmp compares the elements of lists within lists again and again
						d = 1 + d%5
					}
					c.Desc = fmt.Sprintf("tree of kind %d, depth %d", k, d)
					return c26Tree(c, deepTree(k, d), d < 20)
				}},
				{Name: "statements", Bound: 1, Thorough: 2, Rule: "every generated statement; every single change of a public field", Run: func(c *Chooser) *Fail {
					return c26Tree(c, genTree(c), true)
				}},
				{Name: "large parts", Bound: 1, Thorough: 1, Rule: "lists, names, literals and comments of sizes up to 4097, one element or character changed", Run: c26Large},
				{Name: "pairs", Bound: 2, Thorough: 2, Rule: "every two generated statements, within the bound together; the verdict compared with that of the reference comparison", Run: func(c *Chooser) *Fail {
					a := genTree(c)
					da := c.Desc
					b := genTree(c)
					c.Desc = da + " | " + c.Desc
					eq, f := c26Verdict(a, b)
					if f != nil {
						return f
					}
					if d := diffPos(a, b); (d == "") != eq {
						return failf("the helper finds them equal: %v, but the difference is %q", eq, d)
					}
					return nil
				}},
				{Name: "files", Bound: 1, Thorough: 1, Rule: "files of up to one statement (thorough two) with comments, alone and as a list of statements; every single change", Run: func(c *Chooser) *Fail {
					k := c.Free(files)
					src := ""
					for i := 0; i < k; i++ {
						src += "/* " + itoa(i) + " */" + joinLex(plainStmt(c)) + ";\n-- " + itoa(i) + "\n"
					}
					c.Desc = src
					f, err := parseFile(src, generic, true)
					if err != nil {
						return failf("rejected: %v", err)
					}
					if c.Free(2) == 1 {
						c.Desc = "list of " + src
						return c26Tree(c, f.Stmts, false)
					}
					return c26Tree(c, f, false)
				}},
			}
		},
	})
}
