package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// trees assembled by a program

// setPositions gives every position of a tree a value.
func setPositions(v reflect.Value, p sqltoken.Pos) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			setPositions(v.Elem(), p)
		}
	case reflect.Struct:
		for _, f := range fieldsOf(v.Type()) {
			if f.pos {
				v.Field(f.i).Set(reflect.ValueOf(p))
			} else {
				setPositions(v.Field(f.i), p)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			setPositions(v.Index(i), p)
		}
	}
}

// ownPositions gives the positions of one node a value.
func ownPositions(n sqlast.Node, p sqltoken.Pos) {
	v := reflect.Indirect(reflect.ValueOf(n))
	if v.Kind() != reflect.Struct {
		return
	}
	for _, f := range fieldsOf(v.Type()) {
		if f.pos {
			v.Field(f.i).Set(reflect.ValueOf(p))
		}
	}
}

// texts prints every node of a tree.
func texts(nodes []sqlast.Node) []string {
	l := make([]string, len(nodes))
	for i, n := range nodes {
		l[i] = n.ToSQLString()
	}
	return l
}

// visits is the order in which a walk enters the nodes of a tree, as indexes into nodes.
func visits(root sqlast.Node, nodes []sqlast.Node) string {
	at := map[sqlast.Node]int{}
	for i, n := range nodes {
		at[n] = i
	}
	var b strings.Builder
	sqlast.Inspect(root, func(n sqlast.Node) bool {
		if n == nil {
			b.WriteString(") ")
			return true
		}
		fmt.Fprintf(&b, "%d(", at[n])
		return true
	})
	b.WriteString("; ")
	sqlastutil.Apply(root, func(cur *sqlastutil.Cursor) bool {
		fmt.Fprintf(&b, "%d/%s/%d(", at[cur.Node()], cur.Name(), cur.Index())
		return true
	}, func(cur *sqlastutil.Cursor) bool {
		fmt.Fprintf(&b, "%d) ", at[cur.Node()])
		return true
	})
	return b.String()
}

func c28Tree(c *Chooser, stmt func(g *G) sqlast.Stmt, mixed bool) *Fail {
	g := newG(c)
	made := stmt(g)
	if c.Skip {
		return nil
	}
	c.Desc = render(g.L)
	parsed, err := parseOne(c.Desc, generic)
	if err != nil {
		return failf("rejected: %v", err)
	}
	if d := diff(made, parsed); d != "" {
		return failf("not the expected tree, see C01: %s", d)
	}
	nodes := refNodes(parsed)
	want := texts(nodes)
	order := visits(parsed, nodes)
	same := func(what string, root sqlast.Node) *Fail {
		l := refNodes(root)
		if len(l) != len(nodes) {
			return failf("%s: %d nodes, parsed %d", what, len(l), len(nodes))
		}
		for i, t := range texts(l) {
			if t != want[i] {
				return failf("%s: the %s prints as %q, parsed as %q", what, nodeName(l[i]), t, want[i])
			}
		}
		if o := visits(root, l); o != order {
			return failf("%s: visited as %s, parsed as %s", what, o, order)
		}
		for i := len(l) - 1; i >= 0; i-- {
			l[i].Pos()
			l[i].End()
		}
		sqlast.NewCommentMap(&sqlast.File{Stmts: []sqlast.Stmt{root.(sqlast.Stmt)}})
		return nil
	}
	if f := same("assembled without positions", made); f != nil {
		return f
	}
	if _, f := printAll(made); f != nil {
		return f
	}
	cleared := deepCopy(parsed)
	setPositions(reflect.ValueOf(cleared), sqltoken.Pos{})
	if len(nodes) < 60 { // the comparison takes time exponential in the depth of lists
		if d := xsqlparser.CompareWithoutMarker(deepCopy(cleared), cleared); d != "" {
			return failf("two trees without positions are not equal: %s", d)
		}
	}
	for _, p := range []sqltoken.Pos{{}, {Line: 77, Col: 7}, {Line: -1, Col: -1}} {
		m := deepCopy(parsed)
		setPositions(reflect.ValueOf(m), p)
		if f := same(fmt.Sprintf("all positions %v", p), m); f != nil {
			return f
		}
	}
	if !mixed {
		return nil
	}
	// parts that are parsed and parts that are assembled
	for i := range nodes {
		one, rest := deepCopy(parsed), deepCopy(parsed)
		ownPositions(refNodes(one)[i], sqltoken.Pos{})
		for j, n := range refNodes(rest) {
			if j != i {
				ownPositions(n, sqltoken.Pos{})
			}
		}
		if f := same(fmt.Sprintf("the %s %q without position", nodeName(nodes[i]), want[i]), one); f != nil {
			return f
		}
		if f := same(fmt.Sprintf("only the %s %q with position", nodeName(nodes[i]), want[i]), rest); f != nil {
			return f
		}
	}
	return nil
}

// constructed checks a literal made by a constructor: it holds the value, and its text denotes it.
func constructed(n sqlast.Node, want string) *Fail {
	if l := literalsIn(n); len(l) != 1 || l[0] != want {
		return failf("holds %q, want %q", l, want)
	}
	if v := valueText(n.(sqlast.Value)); v != want {
		return failf("Value() is %q, want %q", v, want)
	}
	text, f := printAll(n)
	if f != nil {
		return f
	}
	e, err := parseExpr(text, generic)
	if err != nil {
		return failf("printed as %q, which is rejected: %v", text, err)
	}
	sign := ""
	if u, ok := e.(*sqlast.UnaryExpr); ok && u.Op.Type == sqlast.Minus {
		sign, e = "-", u.Expr
	}
	l := literalsIn(e)
	if len(l) == 1 && sign == "-" {
		k := strings.IndexByte(l[0], ' ')
		l[0] = l[0][:k+1] + "-" + l[0][k+1:]
	}
	if len(l) != 1 || l[0] != want {
		return failf("printed as %q, which denotes %q, want %q", text, l, want)
	}
	return nil
}

var (
	longEdges   = []int64{0, 1, 2, 7, 9, 10, 99, 100, 255, 256, 999, 1000, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 999999999999999999, 1000000000000000000, math.MaxInt64 - 1, math.MaxInt64}
	doubleEdges = []float64{0, 0.5, 1, 2, 10, 1.5, 0.1, 0.25, 1e-5, 1e-7, 1e5, 1e6, 1e7, 999999.5, 1e20, 1e21, 1e22, 123456789.125, 1e-20, 1e100, 1.7976931348623157e308, 5e-324, 4503599627370497.5, 9007199254740993, 1 << 53, 1 << 63, 1 << 64, 3.141592653589793}
	textPieces  = []string{"'", "''", "\"", "\\", "a", "N", "é", "--", "/*", "*/", "\n", "\t", ";", " ", "0", "\x00", "日", "\r\n", "%", "`"}
	namePieces  = []string{"a", "B", "_", "1", "é", "select", "FROM", ".", `"`, `"a.b"`, `"From"`}
)

func init() {
	register(&Check{
		ID:    "C28",
		Level: "exploration",
		Rule:  "one case per tree or constructor call; distinct texts counted",
		Assumptions: []string{
			"the reference grammar assembles each tree from the exported node types, without positions, beside the text",
			"negative numbers are those of the sign and the number: no literal has a sign of its own",
		},
		Spaces: func(tier string) []*Space {
			n := func(q, t int) int {
				if tier == "thorough" {
					return t
				}
				return q
			}
			return []*Space{
				{Name: "statements", Bound: 2, Thorough: 3, Rule: "every generated statement, assembled and parsed: without positions, with others, and with those of one node or of all others cleared", Run: func(c *Chooser) *Fail { return c28Tree(c, (*G).any, true) }},
				{Name: "clauses and constructs", Bound: 1, Thorough: 2, Rule: "every combination of the optional clauses, and statements that begin at a construct deep in the grammar", Run: func(c *Chooser) *Fail { return c28Tree(c, (*G).wide, false) }},
				{Name: "large parts", Bound: n(0, 1), Thorough: 1, Rule: "statements with one large part", Run: func(c *Chooser) *Fail { return c28Tree(c, upTo(257), false) }},
				{Name: "node types no text gives", Rule: "hand-built trees: visited, printed in all ways, asked for positions", Run: func(c *Chooser) *Fail {
					l := rareTrees()
					i := c.Free(len(l))
					c.Desc = "tree " + itoa(i) + ": " + nodeName(l[i])
					if f, ok := l[i].(*sqlast.File); ok && len(f.Stmts) == 0 {
						c.Skip = true
						return nil
					}
					for _, x := range refNodes(l[i]) {
						x.Pos()
						x.End()
						if _, f := printAll(x); f != nil {
							return f
						}
					}
					return nil
				}},
				{Name: "deep trees", Rule: "every two node types that can stand in each other, at each place, nested 100 deep: positions, printing, visiting", Run: c28Deep},
				{Name: "integers and decimals", Rule: "constructors of numbers: edges of the representation, with either sign, and all small ones", Run: func(c *Chooser) *Fail {
					if c.Free(2) == 0 {
						k := c.Free(len(longEdges) + 3000)
						v := int64(k - len(longEdges))
						if k < len(longEdges) {
							v = longEdges[k]
						}
						if c.Free(2) == 1 {
							v = -v
						}
						c.Desc = fmt.Sprintf("NewLongValue(%d)", v)
						return constructed(sqlast.NewLongValue(v), fmt.Sprintf("integer %d", v))
					}
					k := c.Free(len(doubleEdges) + 3000)
					v := float64(k-len(doubleEdges)) / 8
					if k < len(doubleEdges) {
						v = doubleEdges[k]
					}
					if v != 0 && c.Free(2) == 1 {
						v = -v
					}
					c.Desc = "NewDoubleValue(" + strconv.FormatFloat(v, 'g', -1, 64) + ")"
					return constructed(sqlast.NewDoubleValue(v), "decimal "+ratText(v))
				}},
				{Name: "texts", Rule: "constructors of strings: all sequences of up to 3 (thorough 4) of 20 pieces", Run: func(c *Chooser) *Fail {
					s := ""
					for i := 0; i < n(3, 4); i++ {
						k := c.Free(len(textPieces) + 1)
						if k == 0 {
							break
						}
						s += textPieces[k-1]
					}
					if c.Free(2) == 0 {
						c.Desc = fmt.Sprintf("NewSingleQuotedString(%q)", s)
						return constructed(sqlast.NewSingleQuotedString(s), "string "+s)
					}
					c.Desc = fmt.Sprintf("NewNationalStringLiteral(%q)", s)
					return constructed(sqlast.NewNationalStringLiteral(s), "national "+s)
				}},
				{Name: "names", Rule: "constructors of names: all lists of up to 3 names of up to 2 pieces", Run: c28Names},
				{Name: "others", Rule: "the other constructors and conversions, and times: every second of a day and days of the calendar", Run: c28Others},
			}
		},
	})
}

func c28Names(c *Chooser) *Fail {
	var l []string
	for len(l) < 3 {
		s := ""
		for i := 0; i < 2; i++ {
			k := c.Free(len(namePieces) + 1)
			if k == 0 {
				break
			}
			s += namePieces[k-1]
		}
		if s == "" {
			break
		}
		l = append(l, s)
	}
	c.Desc = fmt.Sprintf("NewObjectName(%q)", l)
	if len(l) == 0 {
		c.Skip = true
		return nil
	}
	given := append([]string{}, l...)
	name := sqlast.NewObjectName(l...)
	for i := range l {
		l[i] = "changed"
	}
	if len(name.Idents) != len(given) {
		return failf("%d names, want %d", len(name.Idents), len(given))
	}
	for i, id := range name.Idents {
		for _, x := range []*sqlast.Ident{id, sqlast.NewIdent(given[i]), sqlast.NewIdentWithPos(given[i], sqltoken.Pos{}, sqltoken.Pos{})} {
			if x.Value != given[i] || x.Pos() != (sqltoken.Pos{}) || x.End() != (sqltoken.Pos{}) {
				return failf("the name %q is %q from %v to %v", given[i], x.Value, x.Pos(), x.End())
			}
			if t, f := printAll(x); f != nil || t != given[i] {
				return failf("the name %q is printed as %q", given[i], t)
			}
			var b bytes.Buffer
			if k, err := x.WriteStringTo(&b); err != nil || int(k) != len(given[i]) || b.String() != given[i] {
				return failf("the name %q is written as %q: %d, %v", given[i], b.String(), k, err)
			}
		}
		p := sqlast.NewIdentWithPos(given[i], sqltoken.Pos{Line: 3, Col: i + 1}, sqltoken.Pos{Line: 4, Col: i + 7})
		if p.Value != given[i] || p.Pos() != (sqltoken.Pos{Line: 3, Col: i + 1}) || p.End() != (sqltoken.Pos{Line: 4, Col: i + 7}) {
			return failf("NewIdentWithPos gives %q from %v to %v", p.Value, p.Pos(), p.End())
		}
	}
	want := strings.Join(given, ".")
	if t, f := printAll(name); f != nil || t != want {
		return failf("printed as %q, want %q", t, want)
	}
	for _, s := range given {
		if !plainName.MatchString(s) {
			c.Triv = true // no name
			return nil
		}
	}
	// the name stands where the parser puts such a name
	drop := &sqlast.DropTableStmt{TableNames: []*sqlast.ObjectName{name}}
	st, err := parseOne(drop.ToSQLString(), generic)
	if err != nil {
		return failf("printed as %q, which is rejected: %v", drop.ToSQLString(), err)
	}
	if d := diff(st, drop); d != "" {
		return failf("printed as %q, which gives another tree%s", drop.ToSQLString(), d)
	}
	return nil
}

var plainName = regexp.MustCompile(`^([A-Za-z][A-Za-z0-9_]*|"[^"]+")$`)

func c28Others(c *Chooser) *Fail {
	check := func(what string, n sqlast.Node, want string) *Fail {
		t, f := printAll(n)
		if f != nil {
			return f
		}
		if t != want {
			return failf("%s is printed as %q, want %q", what, t, want)
		}
		return nil
	}
	switch c.Free(4) {
	case 0:
		b := c.Free(2) == 1
		c.Desc = fmt.Sprintf("NewBooleanValue(%v)", b)
		if f := constructed(sqlast.NewBooleanValue(b), fmt.Sprintf("boolean %v", b)); f != nil {
			return f
		}
		return constructed(sqlast.NewNullValue(), "null")
	case 1:
		k := uint(c.Free(300))
		if c.Free(2) == 1 {
			k = math.MaxUint64 - k
		}
		c.Desc = fmt.Sprintf("NewSize(%d)", k)
		a, b := sqlast.NewSize(k), sqlast.NewSize(k+1)
		if *a != k || *b != k+1 {
			return failf("the size is %d", *a)
		}
		v := &sqlast.VarcharType{Size: a}
		return check("the type", v, fmt.Sprintf("character varying(%d)", k))
	case 2:
		for f := sqlast.TEXTFILE; f <= sqlast.JSONFILE; f++ {
			if x := f.FromStr(f.ToSQLString()); x != f {
				return failf("FromStr(%q) is %v", f.ToSQLString(), x)
			}
		}
		for _, u := range []sqlast.WindowFrameUnit{{Type: sqlast.RowsUnit}, {Type: sqlast.RangeUnit}, {Type: sqlast.GroupsUnit}} {
			x, err := u.FromStr(u.ToSQLString())
			if err != nil || x == nil || x.Type != u.Type {
				return failf("FromStr(%q) is %v, %v", u.ToSQLString(), x, err)
			}
		}
		if x, err := (sqlast.WindowFrameUnit{}).FromStr("SELECT"); err == nil {
			return failf("FromStr(SELECT) is %v", x)
		}
		c.Desc = "FromStr"
		return nil
	}
	// times
	t := time.Date([]int{2019, 1970, 1, 1999, 2000, 9999}[c.Free(6)], 1, 1, 0, 0, 0, 0, []*time.Location{time.UTC, time.FixedZone("x", 5*3600+1800)}[c.Free(2)])
	if c.Free(2) == 0 {
		t = t.AddDate(0, 0, c.Free(366))
	} else {
		t = t.Add(time.Duration(c.Free(86400)) * time.Second)
	}
	c.Desc = "times of " + t.String()
	day := fmt.Sprintf("%04d-%02d-%02d", t.Year(), int(t.Month()), t.Day())
	clock := fmt.Sprintf("%02d:%02d:%02d", t.Hour(), t.Minute(), t.Second())
	for _, x := range []struct {
		v    sqlast.Value
		text string
	}{{&sqlast.DateValue{Date: t}, day}, {sqlast.NewTimeValue(t), clock}, {sqlast.NewDateTimeValue(t), day + " " + clock}, {sqlast.NewTimestampValue(t), day + " " + clock}} {
		if v, ok := x.v.Value().(time.Time); !ok || !v.Equal(t) || v.Location() != t.Location() {
			return failf("the value of the %s is %v", nodeName(x.v), x.v.Value())
		}
		if f := check("the "+nodeName(x.v), x.v, x.text); f != nil {
			return f
		}
	}
	return nil
}

func ratText(v float64) string { return new(big.Rat).SetFloat64(v).String() }

// a part of a tree whose type can stand inside itself, directly or by way of another one

type nodeSlot struct {
	n     sqlast.Node
	field string
	index int
	typ   reflect.Type
}

// nodeSlots are examples of all node types with each place for a child.
var nodeSlots = sync.OnceValue(func() []nodeSlot {
	seen := map[string]bool{}
	var out []nodeSlot
	add := func(root sqlast.Node) {
		setPositions(reflect.ValueOf(root), sqltoken.Pos{})
		for _, n := range refNodes(root) {
			shape := nodeName(n)
			refs := refChildren(n)
			for _, r := range refs {
				shape += " " + r.field
			}
			if seen[shape] {
				continue
			}
			seen[shape] = true
			v := reflect.ValueOf(n).Elem()
			for _, r := range refs {
				t := v.FieldByName(r.field).Type()
				if r.index > 0 {
					continue
				}
				if r.index == 0 {
					t = t.Elem()
				}
				out = append(out, nodeSlot{n, r.field, r.index, t})
			}
		}
	}
	for _, src := range append(append([]string{}, historyInputs[:4]...),
		"SELECT a IS NULL, b IS NOT NULL, NOT EXISTS (SELECT a), (SELECT b), (c), - d, a IN (SELECT b), a :: INT, CASE a WHEN b THEN c END, f(a), * FROM t CROSS JOIN u JOIN v USING (a, b) LEFT JOIN (SELECT c) AS w ON a, (SELECT a EXCEPT SELECT b INTERSECT (SELECT c)) AS x, t WITH (NOLOCK)",
		"SELECT sum(a) OVER (PARTITION BY b), sum(a) OVER (ORDER BY b), sum(a) OVER (ROWS UNBOUNDED PRECEDING), sum(a) OVER (ROWS BETWEEN 1 FOLLOWING AND UNBOUNDED FOLLOWING) FROM t LIMIT 1",
		"CREATE TABLE t (a INT CHECK (a > 1), b INT UNIQUE REFERENCES u (c), CHECK (a), UNIQUE (a, b), PRIMARY KEY (a))",
		"CREATE VIEW v AS SELECT a", "CREATE MATERIALIZED VIEW v AS SELECT a", "CREATE UNIQUE INDEX i ON t USING gin (a) WHERE b", "DROP INDEX i", "DROP TABLE a CASCADE",
		"ALTER TABLE t ADD COLUMN a INT", "ALTER TABLE t ALTER COLUMN a SET DEFAULT 1", "ALTER TABLE t ALTER COLUMN a TYPE INT", "ALTER TABLE t ADD CONSTRAINT a UNIQUE (a)", "ALTER TABLE t DROP CONSTRAINT a", "ALTER TABLE t DROP COLUMN a CASCADE", "ALTER TABLE t ALTER COLUMN a DROP DEFAULT",
		"EXPLAIN SELECT a", "DELETE FROM t WHERE a", "DELETE FROM t", "INSERT INTO t SELECT a", "INSERT INTO t VALUES (a) ON DUPLICATE KEY UPDATE a = 1", "SELECT a :: INT ARRAY, b :: NUMERIC(1)", "SELECT a FROM t NATURAL JOIN u", "SELECT a GROUP BY b HAVING c ORDER BY d") {
		f, err := parseFile(src, generic, false)
		if err != nil {
			panic("C28 example: " + src + ": " + err.Error())
		}
		for _, st := range f.Stmts {
			add(st)
		}
	}
	for _, n := range rareTrees() {
		add(n)
	}
	return out
})

// put is a copy of the example with a child at the place.
func (s nodeSlot) put(n sqlast.Node) sqlast.Node {
	m := deepCopy(s.n)
	f := reflect.ValueOf(m).Elem().FieldByName(s.field)
	if s.index >= 0 {
		f = f.Index(s.index)
	}
	f.Set(reflect.ValueOf(n))
	return m
}

func (s nodeSlot) takes(n sqlast.Node) bool { return reflect.TypeOf(n).AssignableTo(s.typ) }

const deepChain = 100

func c28Deep(c *Chooser) *Fail {
	slots := nodeSlots()
	a, b := slots[c.Free(len(slots))], slots[c.Free(len(slots))]
	if !a.takes(b.n) || !b.takes(a.n) {
		c.Skip = true
		return nil
	}
	c.Desc = fmt.Sprintf("%s.%s of %q and %s.%s of %q in each other", nodeName(a.n), a.field, a.n.ToSQLString(), nodeName(b.n), b.field, b.n.ToSQLString())
	n := deepCopy(a.n)
	for i := 0; i < deepChain; i += 2 {
		n = a.put(b.put(n))
	}
	if c.Free(2) == 1 {
		setPositions(reflect.ValueOf(n), sqltoken.Pos{Line: 3, Col: 3})
		c.Desc += ", with positions"
	}
	count := len(refNodes(n))
	n.Pos()
	n.End()
	if _, f := printAll(n); f != nil {
		return f
	}
	entered, left := 0, 0
	sqlast.Inspect(n, func(n sqlast.Node) bool {
		if n != nil {
			entered++
		} else {
			left++
		}
		return true
	})
	if entered != count || left != count {
		return failf("walking enters %d and leaves %d of %d nodes", entered, left, count)
	}
	entered = 0
	sqlastutil.Apply(n, func(*sqlastutil.Cursor) bool { entered++; return true }, nil)
	if entered != count {
		return failf("rewriting enters %d of %d nodes", entered, count)
	}
	return nil
}
