package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

// Nesting far beyond what any stack can hold. A stack that overflows ends the whole process, so each text is given to the
// library in a process of its own.

// deepForm is a construct that holds itself: head, n times open, core, n times close.
type deepForm struct{ name, head, open, core, close string }

var deepForms = []deepForm{
	{"parentheses", "SELECT ", "(", "a", ")"},
	{"signs", "SELECT ", "- ", "a", ""},
	{"NOT", "SELECT ", "NOT ", "a", ""},
	{"calls", "SELECT ", "f(", "a", ")"},
	{"ELSE", "SELECT ", "CASE WHEN a THEN b ELSE ", "a", " END"},
	{"WHEN", "SELECT ", "CASE WHEN ", "a", " THEN b END"},
	{"scalar subqueries", "SELECT ", "(SELECT ", "a", ")"},
	{"EXISTS", "SELECT ", "EXISTS (SELECT ", "a", ")"},
	{"derived tables", "SELECT a FROM ", "(SELECT a FROM ", "t", ") x"},
	{"CAST", "SELECT ", "CAST(", "a", " AS int)"},
	{"IN lists", "SELECT ", "a IN (", "a", ")"},
	{"IN subqueries", "SELECT ", "a IN (SELECT ", "a", ")"},
	{"BETWEEN", "SELECT ", "a BETWEEN 1 AND (", "a", ")"},
	{"EXPLAIN", "", "EXPLAIN ", "SELECT a", ""},
	{"WITH", "", "WITH a AS (", "SELECT a", ") SELECT a"},
	{"queries in parentheses", "INSERT INTO t SELECT a UNION ", "(SELECT a UNION ", "(SELECT b)", ")"},
	{"sums", "SELECT ", "", "a", " + a"},
	{"conjunctions", "DELETE FROM t WHERE ", "", "a", " AND b"},
	{"comparisons", "SELECT ", "", "a", " = b"},
	{"casts", "SELECT ", "", "a", "::int"},
	{"IS NULL", "SELECT ", "", "a", " IS NULL"},
	{"NOT LIKE", "SELECT ", "", "a", " NOT LIKE b"},
	{"UNION", "", "", "SELECT a", " UNION SELECT a"},
	{"CROSS JOIN", "SELECT a FROM ", "", "t", " CROSS JOIN t"},
	{"NATURAL JOIN", "SELECT a FROM ", "", "t", " NATURAL JOIN t"},
	{"joins to the right", "SELECT a FROM ", "t JOIN ", "t", " ON a"},
	{"DEFAULT", "CREATE TABLE t (a int DEFAULT ", "(", "1", ")"},
	{"sums in a DEFAULT", "CREATE TABLE t (a int DEFAULT ", "", "1", " + 1"},
}

func (f deepForm) text(n int, whole bool) string {
	s := f.head + strings.Repeat(f.open, n) + f.core
	if whole {
		s += strings.Repeat(f.close, n)
		if strings.HasPrefix(f.head, "CREATE") {
			s += ")"
		}
	}
	return s
}

// mixed nests chains in nests: each reaches a depth that is still accepted, the tree that of both.
func (f deepForm) mixed(inner deepForm, n int) string {
	f.core = "(" + strings.Repeat(inner.open, n) + inner.core + strings.Repeat(inner.close, n) + ")"
	return f.text(n, true)
}

// deepRun gives one text to the library.
func deepRun(src string, comments bool) {
	var opts []xsqlparser.ParserOption
	if comments {
		opts = append(opts, xsqlparser.ParseComment())
	}
	p, err := xsqlparser.NewParser(strings.NewReader(src), &dialect.GenericSQLDialect{}, opts...)
	if err != nil {
		fmt.Println("rejected")
		return
	}
	file, err := p.ParseFile()
	if err != nil {
		_ = err.Error()
		fmt.Println("rejected")
		return
	}
	file.Pos()
	file.End()
	for _, s := range file.Stmts {
		s.Pos()
		s.End()
	}
	file.WriteTo(io.Discard)
	sqlast.Inspect(file, func(sqlast.Node) bool { return true })
	sqlast.Walk(&countVisitor{}, file)
	sqlastutil.Apply(file, func(*sqlastutil.Cursor) bool { return true }, func(*sqlastutil.Cursor) bool { return true })
	fmt.Println("accepted")
}

// deepSizes: depths that are ordinary, that a limit of the library may just allow, and that no stack can hold.
func (f deepForm) size(k int) int {
	switch k {
	case 0:
		return 1000
	case 1:
		return 99990
	}
	if len(f.open)+len(f.close) > 6 {
		return 700000
	}
	return 1800000
}

// deepText gives one text of a form.
func deepText(i, size, variant int) string {
	f := deepForms[i]
	switch variant {
	case 0:
		return f.text(f.size(size), true)
	case 1:
		return f.text(f.size(size), false)
	}
	return f.mixed(deepForms[variant-2], f.size(size))
}

func init() {
	subcommands["deep"] = func(args []string) {
		silence()
		var a [4]int
		for k := range a {
			a[k], _ = strconv.Atoi(args[k])
		}
		deepRun(deepText(a[0], a[1], a[2]), a[3] == 1)
	}
}

// c06Deep gives one text to the library in a process of its own, which must end by itself.
func c06Deep(c *Chooser, form, size, variant, comments int) *Fail {
	c.Desc = fmt.Sprintf("%s, %d deep, %s, comments %v", deepForms[form].name, deepForms[form].size(size), variantName(variant), comments == 1)
	cmd := exec.Command(self(), "deep", itoa(form), itoa(size), itoa(variant), itoa(comments))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.Run()
	got := out.String()
	switch {
	case strings.Contains(errs.String(), "stack overflow") || strings.Contains(errs.String(), "goroutine stack exceeds"):
		return failf("the stack overflows, which ends the process: %s", clip(errs.String()))
	case strings.Contains(errs.String(), "panic:") || strings.Contains(errs.String(), "fatal error:"):
		return failf("the process crashes: %s", clip(errs.String()))
	case got == "rejected\n" && variant != 1 && size == 0:
		return failf("a complete text of ordinary depth is rejected")
	}
	// a process that was ended from outside decides nothing
	return nil
}

func variantName(v int) string {
	switch v {
	case 0:
		return "whole"
	case 1:
		return "cut"
	}
	return "around " + deepForms[v-2].name
}

// deepSpaces are the spaces of such texts.
func deepSpaces(thorough bool) []*Space {
	sp := []*Space{{Name: "depth no stack can hold", Serial: true, Shards: 4, Rule: "every construct that can hold itself, nested or chained 1000, 99990 and at least 700000 times, complete; each in a process of its own", Run: func(c *Chooser) *Fail {
		return c06Deep(c, c.Free(len(deepForms)), c.Free(3), 0, 0)
	}}}
	if thorough {
		sp = append(sp, &Space{Name: "depth no stack can hold, cut or commented", Serial: true, Shards: 4, Rule: "the same texts without what closes them, and with comment collection", Run: func(c *Chooser) *Fail {
			form, size := c.Free(len(deepForms)), c.Free(3)
			v := 1 + c.Free(2)
			return c06Deep(c, form, size, v%2, v-1)
		}}, &Space{Name: "depth no stack can hold, mixed", Serial: true, Shards: 4, Rule: "every expression form around every other one, both 99990 deep", Run: func(c *Chooser) *Fail {
			form, inner := c.Free(len(deepForms)), c.Free(len(deepForms))
			if deepForms[form].core != "a" || deepForms[inner].core != "a" {
				c.Skip = true
				return nil
			}
			return c06Deep(c, form, 1, 2+inner, 0)
		}})
	}
	return sp
}
