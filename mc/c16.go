package main

import (
	"errors"
	"io"
	"os"

	"github.com/akito0107/xsqlparser/sqlast"
)

// faultWriter accepts a number of bytes, or of calls, and fails then.
type faultWriter struct {
	got    []byte
	bytes  int // bytes accepted before the failure, -1: no limit
	calls  int // the call (from 1) that accepts all of its bytes and fails, 0: none
	n      int
	err    error
	failed bool
	late   bool // a call after the failure
}

func (w *faultWriter) write(b string) (int, error) {
	if w.failed {
		w.late = true
		return 0, w.err
	}
	w.n++
	if w.bytes >= 0 && len(b) > w.bytes-len(w.got) {
		k := w.bytes - len(w.got)
		w.got = append(w.got, b[:k]...)
		w.failed = true
		return k, w.err
	}
	w.got = append(w.got, b...)
	if w.n == w.calls {
		w.failed = true
		return len(b), w.err
	}
	return len(b), nil
}

type faultPlain struct{ f *faultWriter }

func (w faultPlain) Write(b []byte) (int, error) { return w.f.write(string(b)) }

type faultString struct{ f *faultWriter }

func (w faultString) Write(b []byte) (int, error)       { return w.f.write(string(b)) }
func (w faultString) WriteString(s string) (int, error) { return w.f.write(s) }

type faultAll struct{ f *faultWriter }

func (w faultAll) Write(b []byte) (int, error)       { return w.f.write(string(b)) }
func (w faultAll) WriteString(s string) (int, error) { return w.f.write(s) }
func (w faultAll) WriteByte(c byte) error {
	_, err := w.f.write(string([]byte{c}))
	return err
}
func (w faultAll) WriteRune(r rune) (int, error) { return w.f.write(string(r)) }
func (w faultAll) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	b := make([]byte, 3)
	for {
		k, err := r.Read(b)
		m, werr := w.f.write(string(b[:k]))
		n += int64(m)
		if werr != nil {
			return n, werr
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

var errWrite = errors.New("writer broken")
var faultErrors = []error{errWrite, io.EOF, io.ErrShortWrite, os.ErrClosed}

func c16Check(c *Chooser, n sqlast.Node) *Fail {
	full, f := printAll(n)
	if f != nil {
		return f
	}
	evals := 0
	for kind := 0; kind < 3; kind++ {
		try := func(bytes, calls int, e error) (*faultWriter, *Fail) {
			evals++
			w := &faultWriter{bytes: bytes, calls: calls, err: e}
			var wr io.Writer = faultPlain{w}
			if kind == 1 {
				wr = faultString{w}
			} else if kind == 2 {
				wr = faultAll{w}
			}
			k, err := n.WriteTo(wr)
			bad := func(format string, a ...interface{}) *Fail {
				x := failf(format, a...)
				x.Msg = nodeName(n) + ", writer kind " + itoa(kind) + ", failing after " + itoa(bytes) + " bytes or at the end of call " + itoa(calls) + ": " + x.Msg
				return x
			}
			if k != int64(len(w.got)) {
				return w, bad("%d bytes reported, the writer accepted %d", k, len(w.got))
			}
			if len(w.got) > len(full) || full[:len(w.got)] != string(w.got) {
				return w, bad("wrote %q, no prefix of %q", w.got, full)
			}
			if w.late {
				return w, bad("written to after its failure")
			}
			if !w.failed {
				if err != nil {
					return w, bad("error %v without a failure", err)
				}
				if string(w.got) != full {
					return w, bad("wrote %q, want %q", w.got, full)
				}
			} else if !errors.Is(err, e) {
				return w, bad("error %v, want %v", err, e)
			}
			return w, nil
		}
		w, f := try(-1, 0, errWrite)
		if f != nil {
			return f
		}
		for i := 1; i <= w.n; i++ {
			if _, f := try(-1, i, faultErrors[i%len(faultErrors)]); f != nil {
				return f
			}
		}
		for i := 0; i < len(full); i++ {
			if _, f := try(i, 0, errWrite); f != nil {
				return f
			}
		}
		for _, e := range faultErrors {
			for i := 0; i < len(full); i += 7 {
				if _, f := try(i, 0, e); f != nil {
					return f
				}
			}
		}
	}
	c.Evals = evals
	return nil
}

func init() {
	register(&Check{
		ID:    "C16",
		Level: "exploration",
		Rule:  "one case per tree, one evaluation per failure point and kind of writer; distinct texts counted",
		Assumptions: []string{
			"writers keep the contract of io.Writer: a call that accepts less than it is given returns an error",
		},
		Spaces: func(tier string) []*Space {
			return []*Space{
				{Name: "node types no text gives", Rule: "hand-built trees", Run: func(c *Chooser) *Fail {
					l := rareTrees()
					i := c.Free(len(l))
					c.Desc = "tree " + itoa(i) + ": " + nodeName(l[i])
					return c16Check(c, l[i])
				}},
				{Name: "kinds of writers", Bound: 0, Thorough: 1, Rule: "every node of every statement, and files with comments, to 18 kinds of writers of the standard library and others, and to 6 that fail", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents, g.plainLits = true, true
					g.any()
					if c.Skip {
						return nil
					}
					f, err := parseFile("-- c\n"+render(g.L)+" /* d */; SELECT 1", generic, true)
					if err != nil {
						return failf("rejected: %v", err)
					}
					l := append(refNodes(f), f.Comments[0])
					return c16Kinds(c, l[c.Free(len(l))])
				}},
				{Name: "every node", Bound: 2, Thorough: 3, Rule: "every node of every statement, all failure points", Run: func(c *Chooser) *Fail {
					l := refNodes(genTree(c))
					n := l[c.Free(len(l))]
					c.Hash = c.Desc + nodeName(n) + n.ToSQLString()
					return c16Check(c, n)
				}},
				{Name: "files", Bound: 0, Thorough: 1, Rule: "files of up to three statements and their comment groups, all failure points", Run: func(c *Chooser) *Fail {
					k := c.Free(4)
					src := ""
					for i := 0; i < k; i++ {
						src += "/* " + itoa(i) + " */\n--" + itoa(i) + "\n" + joinLex(plainStmt(c)) + ";\n"
					}
					c.Desc = src
					f, err := parseFile(src, generic, true)
					if err != nil {
						return failf("rejected: %v", err)
					}
					e := 0
					for _, g := range f.Comments {
						if x := c16Check(c, g); x != nil {
							return x
						}
						e += c.Evals
						for _, m := range g.List {
							if x := c16Check(c, m); x != nil {
								return x
							}
							e += c.Evals
						}
					}
					x := c16Check(c, f)
					c.Evals += e
					return x
				}},
				{Name: "names and literals", Bound: 2, Thorough: 3, Rule: "every statement with all name and literal forms, all failure points", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.any()
					c.Desc = render(g.L)
					return c16Check(c, mustTree(c, c.Desc))
				}},
				{Name: "statements", Bound: 3, Thorough: 4, Rule: "every statement, all failure points", Run: func(c *Chooser) *Fail {
					return c16Check(c, genTree(c))
				}},
				{Name: "large parts", Bound: 0, Thorough: 1, Rule: "statements with one large part: list, name, literal, chain, nest; all failure points", Run: func(c *Chooser) *Fail {
					return c16Check(c, genTreeOf(c, upTo(129)))
				}},
				{Name: "clauses and constructs", Bound: 1, Thorough: 2, Rule: "every combination of the optional clauses of every statement, and statements that begin at a construct deep in the grammar, all failure points", Run: func(c *Chooser) *Fail {
					return c16Check(c, genTreeOf(c, (*G).wide))
				}},
			}
		},
	})
}
