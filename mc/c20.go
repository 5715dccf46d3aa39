package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// dump writes the public content of a value, positions included.
func dump(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nothing")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		for _, f := range fieldsOf(v.Type()) {
			dump(b, v.Field(f.i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

func dumpOf(vals ...interface{}) string {
	var b strings.Builder
	for _, v := range vals {
		dump(&b, reflect.ValueOf(v))
		b.WriteByte('\n')
	}
	return b.String()
}

// scramble changes everything that a holder of v can reach and change.
func scramble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem(), seen)
			if v.CanSet() {
				v.Set(reflect.Zero(v.Type()))
			}
		}
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		if v.Type().Elem().Size() > 0 {
			seen[v.Pointer()] = true
		}
		scramble(v.Elem(), seen)
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Struct:
		for _, f := range fieldsOf(v.Type()) {
			scramble(v.Field(f.i), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), seen)
		}
		// what append would overwrite, too
		all := v.Slice(0, v.Cap())
		for i := 0; i < all.Len(); i++ {
			all.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(77)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(77)
		}
	}
}

func scrambleAll(vals ...interface{}) {
	seen := map[uintptr]bool{}
	for _, v := range vals {
		scramble(reflect.ValueOf(v), seen)
	}
}

// kept is a result that later operations must not change.
type kept struct {
	what string
	live []interface{}
	was  string
}

type history struct {
	kept []kept
}

func (h *history) keep(what string, live ...interface{}) {
	h.kept = append(h.kept, kept{what, live, dumpOf(live...)})
}

func (h *history) check() *Fail {
	for _, k := range h.kept {
		if now := dumpOf(k.live...); now != k.was {
			return failf("an earlier result (%s) has changed from %s to %s", k.what, k.was, now)
		}
	}
	return nil
}

// historyInputs are what the operations work on.
var historyInputs = []string{
	"SELECT DISTINCT a.b, count(x) OVER (PARTITION BY p ORDER BY q DESC ROWS BETWEEN 1 PRECEDING AND CURRENT ROW) AS c, t.* FROM t AS u JOIN v ON u.a = v.a -- c\n WHERE a NOT IN (1, 2.5, 'x''y') AND b BETWEEN -1 AND 2 OR NOT EXISTS (SELECT 1) GROUP BY a HAVING a > 1 ORDER BY a ASC LIMIT 3 OFFSET 4",
	"CREATE TABLE t (a INT PRIMARY KEY, b VARCHAR(10) DEFAULT 'x' NOT NULL, /* c */ CONSTRAINT k FOREIGN KEY (a) REFERENCES u (b)) ENGINE = InnoDB",
	"INSERT INTO t (a, b) VALUES (1, N'x'), (true, NULL); -- end\nUPDATE t SET a = CASE WHEN b IS NULL THEN 1 ELSE CAST(c AS NUMERIC(1, 2)) END WHERE a LIKE 'x%'",
	"WITH x AS (SELECT 1 UNION ALL SELECT \"select\") SELECT * FROM x, (SELECT a FROM b) AS d NATURAL LEFT JOIN e",
	"select from where", // rejected
	"SELECT 'abc",       // not even tokens
}

var errHistory = errors.New("write failed")

type limitWriter int

func (w *limitWriter) Write(p []byte) (int, error) {
	if n := int(*w); len(p) > n {
		*w = 0
		return n, errHistory
	}
	*w -= limitWriter(len(p))
	return len(p), nil
}

type panicVisitor int

func (v *panicVisitor) Visit(sqlast.Node) sqlast.Visitor {
	if *v--; *v <= 0 {
		panic("visitor")
	}
	return v
}

func guarded(f func()) {
	defer func() { recover() }()
	f()
}

// historyOps are the operations of a history. Each one leaves what it got with the history, except where it scrambles it.
var historyOps = []struct {
	name string
	run  func(h *history, in string)
}{
	{"tokenize", func(h *history, in string) {
		ts, _ := realTokens(in, generic)
		h.keep("tokens of "+in, ts)
	}},
	{"tokenize and edit the tokens", func(h *history, in string) {
		ts, _ := realTokens(in, generic)
		scrambleAll(ts)
	}},
	{"tokenize with another dialect, without comments", func(h *history, in string) {
		d := &setDialect{start: "SELabcdefgh", part: "ELECTMabc ", delim: "'(;"}
		ts, _ := sqltoken.NewTokenizerWithOptions(strings.NewReader(in), sqltoken.Dialect(d), sqltoken.DisableParseComment()).Tokenize()
		h.keep("tokens of "+in, ts)
	}},
	{"scan into one token", func(h *history, in string) {
		tk := sqltoken.NewTokenizer(strings.NewReader(in), mysql)
		var t sqltoken.Token
		for i := 0; i < 5; i++ {
			tk.Scan(&t)
		}
		if w, ok := t.Value.(*sqltoken.SQLWord); ok {
			w.Value, w.Keyword = "scrambled", "SCRAMBLED"
		}
		t.Value = 1
	}},
	{"make keywords", func(h *history, in string) {
		for _, w := range append(strings.Fields(in), "SELECT", "select", "from", "x") {
			scrambleAll(sqltoken.MakeKeyword(w, 0), sqltoken.MakeKeyword(w, '"'))
		}
	}},
	{"parse", func(h *history, in string) {
		if ss, err := parseSQL(in, generic); err == nil {
			h.keep("trees of "+in, ss)
		}
	}},
	{"parse and edit the trees", func(h *history, in string) {
		ss, _ := parseSQL(in, postgres)
		scrambleAll(ss)
	}},
	{"parse with comments, edit the file", func(h *history, in string) {
		f, err := parseFile(in, mysql, true)
		if err == nil {
			scrambleAll(f)
		}
	}},
	{"parse a file", func(h *history, in string) {
		if f, err := parseFile(in, generic, true); err == nil {
			h.keep("file of "+in, f)
		}
	}},
	{"parse tokens, edit the tokens", func(h *history, in string) {
		ts, err := realTokens(in, generic)
		if err != nil {
			return
		}
		p := xsqlparser.NewParserWithOptions(xsqlparser.ParseComment())
		p.SetTokens(ts)
		if ss, err := p.ParseSQL(); err == nil {
			h.keep("trees of tokens of "+in, ss)
		}
		scrambleAll(ts)
	}},
	{"parse tokens twice, edit the trees", func(h *history, in string) {
		ts, err := realTokens(in, generic)
		if err != nil {
			return
		}
		h.keep("tokens of "+in, ts)
		for i := 0; i < 2; i++ {
			p := xsqlparser.NewParserWithOptions()
			p.SetTokens(ts)
			ss, err := p.ParseSQL()
			if err == nil {
				if i == 0 {
					h.keep("trees of tokens of "+in, ss)
				} else {
					scrambleAll(ss)
				}
			}
		}
	}},
	{"parse a part", func(h *history, in string) {
		p, err := xsqlparser.NewParser(strings.NewReader(in), generic, xsqlparser.ParseComment())
		if err == nil {
			p.ParseExpr()
			p.ParseDataType()
			if st, err := p.ParseStatement(); err == nil {
				scrambleAll(st)
			}
		}
		if p, err = xsqlparser.NewParser(strings.NewReader("a.b + 1 NUMERIC(3, 4) x"), generic); err == nil {
			x, _ := p.ParseExpr()
			t, _ := p.ParseDataType()
			scrambleAll(x, t)
		}
	}},
	{"print", func(h *history, in string) {
		if f, err := parseFile(in, generic, true); err == nil {
			h.keep("printed file of "+in, f)
			f.ToSQLString()
			for _, s := range f.Stmts {
				s.ToSQLString()
				s.WriteTo(io.Discard)
			}
		}
	}},
	{"print to failing writers", func(h *history, in string) {
		if f, err := parseFile(in, generic, true); err == nil {
			h.keep("printed file of "+in, f)
			for _, n := range []limitWriter{0, 5, 20, 45} {
				w := n
				f.WriteTo(&w)
				for _, s := range f.Stmts {
					w = n
					s.WriteTo(&w)
				}
			}
		}
	}},
	{"print, writer panics", func(h *history, in string) {
		if f, err := parseFile(in, generic, false); err == nil {
			h.keep("printed file of "+in, f)
			for _, s := range f.Stmts {
				guarded(func() { s.WriteTo(nil) })
			}
		}
	}},
	{"walk, also with panics", func(h *history, in string) {
		if f, err := parseFile(in, generic, false); err == nil {
			h.keep("walked file of "+in, f)
			sqlast.Inspect(f, func(sqlast.Node) bool { return true })
			n := 0
			sqlast.Inspect(f, func(sqlast.Node) bool { n++; return n%3 != 0 })
			for i := 1; i < 9; i += 3 {
				v := panicVisitor(i)
				guarded(func() { sqlast.Walk(&v, f) })
			}
		}
	}},
	{"rewrite by replacing, aborting and panicking", func(h *history, in string) {
		for i := 0; i < 4; i++ {
			f, err := parseFile(in, generic, false)
			if err != nil {
				return
			}
			n := 0
			guarded(func() {
				sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
					if _, ok := c.Node().(*sqlast.Ident); ok {
						if c.Index() >= 0 && i == 1 {
							c.InsertAfter(&sqlast.Ident{Value: "q"})
						} else if i != 3 {
							guarded(func() { c.Replace(&sqlast.Ident{Value: "z"}) })
						} else if c.Index() >= 0 {
							c.Delete()
						}
					}
					return true
				}, func(c *sqlastutil.Cursor) bool {
					if n++; n == 7 && i == 2 {
						panic("post")
					}
					return n < 12 || i != 1
				})
			})
		}
	}},
	{"map comments", func(h *history, in string) {
		if f, err := parseFile(in, generic, true); err == nil {
			h.keep("file of "+in, f)
			m := sqlast.NewCommentMap(f)
			for k := range m {
				m[k] = nil
			}
			sqlast.NewCommentMap(f)
		}
	}},
	{"take positions", func(h *history, in string) {
		if f, err := parseFile(in, generic, true); err == nil {
			h.keep("file of "+in, f)
			for _, n := range refNodes(f) {
				n.Pos()
				n.End()
			}
		}
	}},
	{"parse often", func(h *history, in string) {
		for i := 0; i < 300; i++ {
			parseSQL(in, generic)
		}
	}},
	{"tokenize wrong texts often", func(h *history, in string) {
		for i := 0; i < 100; i++ {
			realTokens("SELECT "+in[:i%len(in)]+"!", generic)
			parseSQL(in[:i%len(in)], postgres)
		}
	}},
}

// historyProbes are the inputs whose results are compared with those in a new process.
func historyProbes() []string {
	out := append([]string(nil), historyInputs...)
	for k := 0; k < nStmts; k++ {
		c := &Chooser{}
		g := newG(c)
		g.plainIdents, g.plainLits = true, true
		g.stmt(k)
		out = append(out, render(g.L))
	}
	return append(out, "select A.b from T where a and not b or c is not null", "INSERT INTO t SELECT * FROM u", "ALTER TABLE t ADD COLUMN c TIMESTAMP WITH TIME ZONE", "")
}

// probe collects everything the library says about an input.
func probe(h *history, in string) string {
	var b strings.Builder
	for _, d := range dialects {
		ts, err := realTokens(in, d)
		h.keep("tokens of "+in, ts)
		fmt.Fprintf(&b, "tokens %s error %v\n", dumpOf(ts), err != nil)
	}
	ts, err := sqltoken.NewTokenizerWithOptions(strings.NewReader(in), sqltoken.DisableParseComment()).Tokenize()
	fmt.Fprintf(&b, "without comments %s error %v\n", dumpOf(ts), err != nil)
	ss, err := parseSQL(in, generic)
	fmt.Fprintf(&b, "trees %s error %v\n", dumpOf(ss), err != nil)
	if err == nil {
		h.keep("trees of "+in, ss)
	}
	for _, comments := range []bool{false, true} {
		f, err := parseFile(in, generic, comments)
		if err != nil {
			b.WriteString("no file\n")
			continue
		}
		h.keep("file of "+in, f)
		fmt.Fprintf(&b, "file %s\n", dumpOf(f))
		text, fail := printAll(f)
		fmt.Fprintf(&b, "printed %s %v\n", text, fail != nil)
		w := limitWriter(len(text) / 2)
		n, err := f.WriteTo(&w)
		fmt.Fprintf(&b, "printed in part: %d %v\n", n, err != nil)
		for _, s := range f.Stmts {
			text, fail := printAll(s)
			fmt.Fprintf(&b, "printed %s %v\n", text, fail != nil)
		}
		sqlast.Inspect(f, func(n sqlast.Node) bool {
			if n != nil {
				fmt.Fprintf(&b, "%T %v %v ", n, n.Pos(), n.End())
			} else {
				b.WriteString("up ")
			}
			return true
		})
		m := sqlast.NewCommentMap(f)
		for _, n := range refNodes(f) {
			if gs := m[n]; gs != nil {
				fmt.Fprintf(&b, "comments at %T %v: %s", n, n.Pos(), dumpOf(gs))
			}
		}
		e, err := parseFile(in, generic, comments)
		if err != nil {
			b.WriteString("not again\n")
			continue
		}
		sqlastutil.Apply(e, func(c *sqlastutil.Cursor) bool {
			fmt.Fprintf(&b, "%T %s %d ", c.Node(), c.Name(), c.Index())
			if id, ok := c.Node().(*sqlast.Ident); ok && c.Index() > 0 && len(id.Value) == 1 {
				c.Delete()
			}
			return true
		}, nil)
		fmt.Fprintf(&b, "rewritten %s\n", dumpOf(e))
	}
	if p, err := xsqlparser.NewParser(strings.NewReader(in), generic); err == nil {
		x, err := p.ParseExpr()
		fmt.Fprintf(&b, "expression error %v", err != nil)
		if err == nil {
			b.WriteString(dumpOf(x))
		}
	}
	return b.String()
}

func hash(s string) string {
	x := sha256.Sum256([]byte(s))
	return hex.EncodeToString(x[:12])
}

// golden are the results of each probe as the first operation of a process.
var golden struct {
	once   sync.Once
	inputs []string
	hashes []string
}

func prepareGolden() {
	golden.once.Do(func() {
		golden.inputs = historyProbes()
		golden.hashes = make([]string, len(golden.inputs))
		var wg sync.WaitGroup
		sem := make(chan bool, 16)
		for i := range golden.inputs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				out, err := exec.Command(self(), "probe", strconv.Itoa(i)).Output()
				if err != nil {
					out = []byte("failed: " + err.Error())
				}
				golden.hashes[i] = strings.TrimSpace(string(out))
			}()
		}
		wg.Wait()
	})
}

type opCall struct{ Op, In int }

// runHistory makes the operations and checks that everything is as without them.
func runHistory(ops []opCall, first, reverse bool, want []string) *Fail {
	h := &history{}
	inputs := historyProbes()
	probes := func() *Fail {
		for i := range inputs {
			if reverse {
				i = len(inputs) - 1 - i
			}
			if got := probe(h, inputs[i]); hash(got) != want[i] {
				return failf("the results for %q are not those of a new process, but %.3000s", inputs[i], got)
			}
		}
		return nil
	}
	if first {
		if f := probes(); f != nil {
			return f
		}
	}
	for _, o := range ops {
		historyOps[o.Op].run(h, historyInputs[o.In])
	}
	if f := h.check(); f != nil {
		return f
	}
	if f := probes(); f != nil {
		return f
	}
	return h.check()
}

func init() {
	subcommands["probe"] = func(args []string) {
		i, _ := strconv.Atoi(args[0])
		silence()
		in := historyProbes()[i]
		fmt.Fprintln(realStdout, hash(probe(&history{}, in)))
	}
	// a history in a process of its own: operations and expected hashes on standard input
	subcommands["history"] = func([]string) {
		silence()
		var req struct {
			Ops            []opCall
			First, Reverse bool
			Want           []string
		}
		if err := json.NewDecoder(os.Stdin).Decode(&req); err != nil {
			fatal("%v", err)
		}
		f := runSafe(func(*Chooser) *Fail { return runHistory(req.Ops, req.First, req.Reverse, req.Want) }, nil)
		if f != nil {
			fmt.Fprintln(realStdout, f.Msg)
			os.Exit(1)
		}
		fmt.Fprintln(realStdout, "same")
	}
	process := func(ops []opCall, first, reverse bool) *Fail {
		req, _ := json.Marshal(map[string]interface{}{"Ops": ops, "First": first, "Reverse": reverse, "Want": golden.hashes})
		for try := 0; ; try++ {
			cmd := exec.Command(self(), "history")
			cmd.Stdin = bytes.NewReader(req)
			out, err := cmd.Output()
			if err == nil && strings.TrimSpace(string(out)) == "same" {
				return nil
			}
			if len(out) > 0 || try > 2 {
				return failf("%s (%v)", out, err)
			}
		}
	}
	describe := func(ops []opCall, first, reverse bool) string {
		var l []string
		for _, o := range ops {
			l = append(l, fmt.Sprintf("%s %.30q", historyOps[o.Op].name, historyInputs[o.In]))
		}
		return fmt.Sprintf("%s; results before %v, probes reversed %v", strings.Join(l, "; "), first, reverse)
	}
	register(&Check{
		ID:    "C20",
		Level: "exploration",
		Rule:  "one case per history of operations, or per tree and sequence of reading operations; distinct ones counted",
		Assumptions: []string{
			"results in a new process are the results without history",
			"a history that matters shows within the enumerated lengths (operations that repeat a call 300 times are among them)",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			n := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			call := func(c *Chooser, ins int) opCall { return opCall{c.Free(len(historyOps)), c.Free(ins)} }
			return []*Space{
				{Name: "histories in a new process", Prepare: prepareGolden, Rule: "each sequence of up to 2 operations in a process of its own, then all probes", Run: func(c *Chooser) *Fail {
					var ops []opCall
					k := c.Free(3)
					for i := 0; i < k; i++ {
						ops = append(ops, call(c, n([]int{3, 6, 2}[k], 6)))
					}
					first := c.Free(2) == 1
					reverse := !first && k < 2 && c.Free(2) == 1
					c.Desc = describe(ops, first, reverse)
					return process(ops, first, reverse)
				}},
				{Name: "longer histories in a new process", Bound: 0, Prepare: prepareGolden, Rule: "each sequence of 3 operations on one input (thorough)", Run: func(c *Chooser) *Fail {
					if !th {
						c.Skip = true
						return nil
					}
					var ops []opCall
					in := c.Free(2)
					for i := 0; i < 3; i++ {
						ops = append(ops, opCall{c.Free(len(historyOps)), in})
					}
					c.Desc = describe(ops, false, false)
					return process(ops, false, false)
				}},
				{Name: "operations within operations", Rule: "each of 11 operations that call what the caller gave them, on each of 3 inputs: in each of these calls each of 20 operations on each input; each gives what it gives alone", Run: func(c *Chooser) *Fail { return c20Nested(c, false) }},
				{Name: "operations within all calls", Rule: "the same with the operation made in every one of these calls", Run: func(c *Chooser) *Fail { return c20Nested(c, true) }},
				{Name: "independent results", Bound: 2, Thorough: 3, Rule: "for every statement: two token lists, two trees, two files: editing one of them changes no other one, and later results are the same", Run: c20Independent},
				{Name: "one parser for several inputs", Bound: 0, Rule: "a parser is given up to 2 token lists (thorough 3) in turn, each used by one of 6 calls: the last result is that of a new parser and the earlier results stay", Run: func(c *Chooser) *Fail { return c20Reuse(c, n(2, 3)) }},
				{Name: "reading changes nothing", Rule: "every statement, commented: all sequences of up to 3 reading operations", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents, g.plainLits = true, true
					g.any()
					return c20Read(c, g, n(3, 4))
				}},
				{Name: "reading changes nothing, large parts", Rule: "statements with one large part: list, name, literal, chain, nest; each reading operation twice", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents, g.plainLits = true, true
					g.scaled(129)
					return c20Read(c, g, 1)
				}},
				{Name: "reading changes nothing, more statements", Bound: 2, Thorough: 3, Rule: "all statements of the bound, commented: each reading operation twice", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.any()
					if c.Skip {
						return nil
					}
					return c20Read(c, g, 1)
				}},
			}
		},
	})
}

// c20Independent: the results of repeated calls share nothing that can be edited.
func c20Independent(c *Chooser) *Fail {
	g := newG(c)
	g.any()
	if c.Skip {
		return nil
	}
	src := "/* a */ " + strings.Join(lexTexts(g.L), " ") + " -- b"
	c.Desc = src
	// the results, in the order of the calls
	make1 := func() ([]interface{}, *Fail) {
		ts, err := realTokens(src, generic)
		if err != nil {
			return nil, failf("tokenize: %v", err)
		}
		p := xsqlparser.NewParserWithOptions()
		p.SetTokens(ts)
		fromTokens, err := p.ParseSQL()
		if err != nil {
			return nil, failf("tokens: %v", err)
		}
		ss, err := parseSQL(src, generic)
		if err != nil {
			return nil, failf("ParseSQL: %v", err)
		}
		f, err := parseFile(src, generic, true)
		if err != nil {
			return nil, failf("ParseFile: %v", err)
		}
		return []interface{}{ts, fromTokens, ss, f}, nil
	}
	names := []string{"tokens", "trees of these tokens", "trees", "file"}
	var res []interface{}
	for i := 0; i < 2; i++ {
		r, f := make1()
		if f != nil {
			return f
		}
		res = append(res, r...)
	}
	var was []string
	for _, r := range res {
		was = append(was, dumpOf(r))
	}
	for i := range names {
		if was[i] != was[i+4] {
			return failf("%s differ from call to call: %s and %s", names[i], was[i], was[i+4])
		}
	}
	k := c.Free(4)
	scrambleAll(res[k])
	for i := range res {
		if i != k && dumpOf(res[i]) != was[i] {
			return failf("editing the %s of the first call changes the %s of call %d", names[k], names[i%4], i/4+1)
		}
	}
	r, f := make1()
	if f != nil {
		return failf("after the %s are edited: %s", names[k], f.Msg)
	}
	for i := range names {
		if got := dumpOf(r[i]); got != was[i] {
			return failf("after the %s are edited, the %s are %s, want %s", names[k], names[i], got, was[i])
		}
	}
	return nil
}

// c20Read: reading operations change nothing in the tree, and give the same each time.
func c20Read(c *Chooser, g *G, length int) *Fail {
	src := "/* a */ " + strings.Join(lexTexts(g.L), " /* c */ ") + " -- b\n; -- d"
	c.Desc = src
	toks, err := realTokens(src, generic)
	if err != nil {
		return failf("%v", err)
	}
	toks = append(toks, &sqltoken.Token{Kind: sqltoken.Semicolon, Value: ";"}) // spare capacity to be left alone
	spare := toks
	toks = toks[:len(toks)-1]
	wasToks := dumpOf(spare)
	p := xsqlparser.NewParserWithOptions(xsqlparser.ParseComment())
	p.SetTokens(toks)
	f, err := p.ParseFile()
	if err != nil {
		return failf("%v", err)
	}
	if now := dumpOf(spare); now != wasToks {
		return failf("parsing changes the tokens handed over: %s, before %s", now, wasToks)
	}
	was := dumpOf(f)
	ops := []struct {
		name string
		run  func() string
	}{
		{"ToSQLString", func() string {
			s := f.ToSQLString()
			for _, n := range refNodes(f) {
				s += "|" + n.ToSQLString()
			}
			return s
		}},
		{"WriteTo", func() string {
			var b bytes.Buffer
			n, err := f.WriteTo(&b)
			return fmt.Sprint(b.String(), n, err)
		}},
		{"WriteTo failing", func() string {
			w := limitWriter(len(src) / 4)
			n, err := f.WriteTo(&w)
			return fmt.Sprint(n, err)
		}},
		{"Inspect", func() string {
			var b strings.Builder
			sqlast.Inspect(f, func(n sqlast.Node) bool { fmt.Fprintf(&b, "%T ", n); return true })
			return b.String()
		}},
		{"Apply without edits", func() string {
			var b strings.Builder
			r := sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool { fmt.Fprintf(&b, "%T ", c.Node()); return true }, func(c *sqlastutil.Cursor) bool { return true })
			if r != sqlast.Node(f) {
				return "another root"
			}
			return b.String()
		}},
		{"Pos and End", func() string {
			var b strings.Builder
			for _, n := range refNodes(f) {
				fmt.Fprint(&b, n.Pos(), n.End())
			}
			return b.String()
		}},
		{"NewCommentMap", func() string {
			m := sqlast.NewCommentMap(f)
			var b strings.Builder
			for i, n := range refNodes(f) {
				if gs := m[n]; gs != nil {
					fmt.Fprint(&b, i, dumpOf(gs))
				}
			}
			return b.String()
		}},
	}
	first := map[string]string{}
	seq := make([]int, 0, 8)
	if length == 1 {
		k := c.Free(len(ops))
		seq = append(seq, k, k)
	} else {
		for i, k := 0, 1+c.Free(length); i < k; i++ {
			seq = append(seq, c.Free(len(ops)))
		}
	}
	done := ""
	for _, k := range seq {
		o := ops[k]
		done += o.name + " "
		got := o.run()
		if now := dumpOf(f); now != was {
			return failf("%schanged the tree: %s, before %s", done, now, was)
		}
		if want, ok := first[o.name]; ok && got != want {
			return failf("%sgives %s, the first time %s", done, got, want)
		}
		first[o.name] = got
	}
	c.Hash = src + done
	if now := dumpOf(spare); now != wasToks {
		return failf("the tokens handed over have changed: %s, before %s", now, wasToks)
	}
	return nil
}

// reuseInputs are token lists for one parser: rejected ones, empty ones, and statements of the same number of tokens that
// are blank, commented or continued at different places.
var reuseInputs = append([]string{
	"SELECT a , b FROM t",
	"SELECT a, b  FROM t",
	"SELECT a,b FROM t c",
	"SELECT a, b FROM tt",
	"/* a */SELECT a,b FROM t",
	"SELECT a,b FROM t/* a */",
	"SELECT a,b/* a */FROM t",
	"-- a\nSELECT a\n-- b\n",
	"SELECT a\n-- b\n;-- c",
	"",
	" ",
	"-- a",
	"/* a */ /* b */",
	";",
	"a + b * c",
	"a * b + c",
	"NOT a = 1 AND b",
	"INT",
	"VARCHAR(10)",
	"SELECT a FROM t WHERE (b = 1 OR c) AND d; DELETE FROM t",
	"DELETE FROM t; SELECT a FROM t WHERE (b = 1 OR c) AND d",
	"SELECT (a",
	"SELECT a; SELECT ; SELECT b",
	"DROP TABLE a, b",
	"ALTER TABLE t DROP COLUMN a",
	"EXPLAIN SELECT a",
}, historyInputs[:5]...)

var reuseGolden sync.Map

func c20Reuse(c *Chooser, most int) *Fail {
	var opts []xsqlparser.ParserOption
	comments := c.Free(2) == 1
	if comments {
		opts = append(opts, xsqlparser.ParseComment())
	}
	type use struct{ in, call int }
	var uses []use
	for len(uses) < most {
		if len(uses) > 0 && c.Free(2) == 0 {
			break
		}
		in := len(reuseInputs)
		if len(uses) < most-2 {
			in = 9 // the first of three
		}
		uses = append(uses, use{c.Free(in), c.Free(nCalls + 1)})
	}
	for _, u := range uses {
		c.Desc += fmt.Sprintf("%q ", reuseInputs[u.in])
		if u.call < nCalls {
			c.Desc += callName(u.call) + "; "
		}
	}
	c.Desc += fmt.Sprintf("comments %v", comments)
	on := func(p *xsqlparser.Parser, u use) (parseRun, *Fail) {
		ts, err := realTokens(reuseInputs[u.in], generic)
		if err != nil {
			return parseRun{}, failf("tokenize: %v", err)
		}
		p.SetTokens(ts)
		if u.call == nCalls {
			return parseRun{}, nil // never parsed
		}
		return calls(feed{mk: func() (*xsqlparser.Parser, error) { return p, nil }}, u.call), nil
	}
	text := func(r parseRun) string { return dumpOf(r.nodes, r.file, fmt.Sprint(r.err)) }
	last := uses[len(uses)-1]
	key := fmt.Sprint(last, comments)
	want, ok := reuseGolden.Load(key)
	if !ok {
		r, f := on(xsqlparser.NewParserWithOptions(opts...), last)
		if f != nil {
			return f
		}
		want = text(r)
		reuseGolden.Store(key, want)
	}
	p := xsqlparser.NewParserWithOptions(opts...)
	var h history
	for i, u := range uses {
		r, f := on(p, u)
		if f != nil {
			return f
		}
		if i < len(uses)-1 {
			h.keep(reuseInputs[u.in], r.nodes, r.file)
			continue
		}
		if got := text(r); got != want {
			return failf("the result is %s, of a new parser %s", got, want)
		}
	}
	return h.check()
}
