package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"testing/iotest"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// chunkReader delivers data in the given pieces.
type chunkReader struct {
	data    []byte
	pieces  []int // sizes; what remains after the last one comes at once
	zeros   int   // empty reads before every piece
	z       int
	withEnd bool  // the end (or failure) comes together with the last data
	failAt  int   // position of the failure, -1: none
	err     error // the failure
	goOn    bool  // the reader delivers the rest after having failed
	failed  bool
	pos     int
	i       int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	end := len(r.data)
	last := io.EOF
	if r.failAt >= 0 && !(r.failed && r.goOn) {
		end, last = r.failAt, r.err
	}
	stop := func() error {
		if last != io.EOF {
			r.failed = true
		}
		return last
	}
	if r.pos >= end {
		return 0, stop()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.z < r.zeros {
		r.z++
		return 0, nil
	}
	r.z = 0
	n := end - r.pos
	if r.i < len(r.pieces) && r.pieces[r.i] < n {
		n = r.pieces[r.i]
	}
	if n > len(p) {
		n = len(p)
	}
	r.i++
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.withEnd && r.pos >= end {
		return n, stop()
	}
	return n, nil
}

type tokRec struct {
	kind     sqltoken.Kind
	val      string
	quote    rune
	from, to sqltoken.Pos
}

func recToken(t *sqltoken.Token) tokRec {
	r := tokRec{kind: t.Kind, from: t.From, to: t.To}
	if v, q, ok := tokValue(t); ok {
		r.val, r.quote = v, q
	} else {
		r.val = fmt.Sprintf("%v", t.Value)
	}
	return r
}

// inputResult is what the entry points give for an input.
type inputResult struct {
	toks [3][]tokRec // Tokenize, NextToken, Scan into one token
	errs [3]error
	file *sqlast.File
	ferr error
	sql  []sqlast.Stmt
	serr error
	stmt sqlast.Stmt
	terr error
	expr sqlast.Node
	xerr error
}

func runInput(mk func() io.Reader, d dialect.Dialect) *inputResult {
	r := &inputResult{}
	ts, err := sqltoken.NewTokenizer(mk(), d).Tokenize()
	r.errs[0] = err
	for _, t := range ts {
		r.toks[0] = append(r.toks[0], recToken(t))
	}
	tk := sqltoken.NewTokenizer(mk(), d)
	for {
		t, err := tk.NextToken()
		if err != nil {
			r.errs[1] = err
			break
		}
		if t != nil {
			r.toks[1] = append(r.toks[1], recToken(t))
		}
	}
	tk = sqltoken.NewTokenizer(mk(), d)
	var tok sqltoken.Token
	for {
		t, err := tk.Scan(&tok)
		if err != nil {
			r.errs[2] = err
			break
		}
		if t != nil {
			r.toks[2] = append(r.toks[2], recToken(t))
		}
	}
	p, err := xsqlparser.NewParser(mk(), d, xsqlparser.ParseComment())
	if err != nil {
		r.ferr = err
	} else {
		r.file, r.ferr = p.ParseFile()
	}
	p, err = xsqlparser.NewParser(mk(), d)
	if err != nil {
		r.serr = err
	} else {
		r.sql, r.serr = p.ParseSQL()
	}
	p, err = xsqlparser.NewParser(mk(), d)
	if err != nil {
		r.terr = err
	} else {
		r.stmt, r.terr = p.ParseStatement()
	}
	p, err = xsqlparser.NewParser(mk(), d)
	if err != nil {
		r.xerr = err
	} else {
		r.expr, r.xerr = p.ParseExpr()
	}
	return r
}

func sameErr(a, b error) bool { return (a == nil) == (b == nil) && (a == io.EOF) == (b == io.EOF) }

// compareResults: the same bytes give the same results.
func compareResults(got, want *inputResult) *Fail {
	names := []string{"Tokenize", "NextToken", "Scan"}
	for k := range names {
		if !sameErr(got.errs[k], want.errs[k]) {
			return failf("%s ends with %v, want %v", names[k], got.errs[k], want.errs[k])
		}
		if len(got.toks[k]) != len(want.toks[k]) {
			return failf("%s gives %d tokens %v, want %d %v", names[k], len(got.toks[k]), got.toks[k], len(want.toks[k]), want.toks[k])
		}
		for i := range got.toks[k] {
			if got.toks[k][i] != want.toks[k][i] {
				return failf("%s gives token %+v, want %+v", names[k], got.toks[k][i], want.toks[k][i])
			}
		}
	}
	cmp := func(what string, a, b interface{}, ea, eb error) *Fail {
		if (ea == nil) != (eb == nil) {
			return failf("%s: %v, want %v", what, ea, eb)
		}
		if ea != nil {
			return nil
		}
		if d := diffPos(a, b); d != "" {
			return failf("%s: tree%s", what, d)
		}
		return nil
	}
	if f := cmp("ParseFile", got.file, want.file, got.ferr, want.ferr); f != nil {
		return f
	}
	if f := cmp("ParseSQL", got.sql, want.sql, got.serr, want.serr); f != nil {
		return f
	}
	if f := cmp("ParseStatement", got.stmt, want.stmt, got.terr, want.terr); f != nil {
		return f
	}
	return cmp("ParseExpr", got.expr, want.expr, got.xerr, want.xerr)
}

var errRead = errors.New("the reader is broken")
var readErrors = []error{errRead, io.ErrUnexpectedEOF, io.ErrNoProgress, fmt.Errorf("connection lost: %w", io.EOF)}

// failedRead: every entry point reports the error of the reader.
func failedRead(r *inputResult, e error, full *inputResult) *Fail {
	reports := func(what string, err error) *Fail {
		if err == nil {
			return failf("%s succeeds though the reader failed with %q", what, e)
		}
		if !errors.Is(err, e) && !strings.Contains(err.Error(), e.Error()) {
			return failf("%s gives %q though the reader failed with %q", what, err, e)
		}
		return nil
	}
	for k, n := range []string{"Tokenize", "NextToken", "Scan"} {
		if f := reports(n, r.errs[k]); f != nil {
			return f
		}
	}
	if len(r.toks[0]) > 0 {
		return failf("Tokenize presents %d tokens though the reader failed", len(r.toks[0]))
	}
	if r.file != nil || r.sql != nil {
		return failf("a tree is presented though the reader failed")
	}
	for _, x := range []struct {
		n string
		e error
	}{{"ParseFile", r.ferr}, {"ParseSQL", r.serr}, {"ParseStatement", r.terr}, {"ParseExpr", r.xerr}} {
		if f := reports(x.n, x.e); f != nil {
			return f
		}
	}
	return nil
}

var readInputs = []string{
	"SELECT a;",
	"a<=b<>c!=",
	"'it''s'N'x",
	"'é' \"ü\" ñ",
	"\xff'\xfe'\xc3",
	"\ufeffa 世b",
	"/*é*/--ü\r\n",
	"/**/*--\n/*",
	"a\r\n\r\nb\r",
	"1.5 .2 10.",
	"x::y||z%w",
	"`a`[b]\"c\"",
	"DROP TABLE",
	"\U0001f600 '\U0001f600'",
	"--\U0001f600\n1",
	"\"abc",
	"'abc",
	"a\tb\n\tc",
	"TRUE,NULL",
	"",
	"é",
	"\xe4\xb8",
}

var longFillers = []struct{ head, unit, tail string }{
	{"", " ", ""},
	{"/*", "x", "*/ "},
	{"/*", "é", "*/ "},
	{"--", "y", "\n"},
	{"'", "z", "',"},
	{"\"", "世", "\","},
	{"a", "b", ","},
	{"", "\r\n", ""},
	{"", "1,", ""},
}

func c17Base(src string) *inputResult {
	return runInput(func() io.Reader { return strings.NewReader(src) }, generic)
}

// richReader offers what readers often offer beside Read.
type richReader struct{ chunkReader }

func (r *richReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		if n, err := r.Read(b[:]); n == 1 || err != nil {
			if n == 1 {
				err = nil
			}
			return b[0], err
		}
	}
}

func (r *richReader) ReadRune() (rune, int, error) {
	b, err := r.ReadByte()
	if err != nil {
		return 0, 0, err
	}
	buf := []byte{b}
	for !utf8.FullRune(buf) {
		b, err := r.ReadByte()
		if err != nil {
			break
		}
		buf = append(buf, b)
	}
	x, n := utf8.DecodeRune(buf)
	r.pos -= len(buf) - n
	return x, n, nil
}

func (r *richReader) WriteTo(w io.Writer) (int64, error) {
	var sum int64
	buf := make([]byte, 7)
	for {
		n, err := r.Read(buf)
		m, werr := w.Write(buf[:n])
		sum += int64(m)
		if werr != nil {
			return sum, werr
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}

func (r *richReader) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += int64(r.pos)
	case io.SeekEnd:
		offset += int64(len(r.data))
	}
	if offset < 0 {
		return 0, errors.New("negative offset")
	}
	r.pos = int(offset)
	return offset, nil
}

func (r *richReader) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	if r.failAt >= 0 && off+int64(len(p)) > int64(r.failAt) {
		n := 0
		if off < int64(r.failAt) {
			n = copy(p, r.data[off:r.failAt])
		}
		return n, r.err
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (r *richReader) Len() int     { return max(0, len(r.data)-r.pos) }
func (r *richReader) Size() int64  { return int64(len(r.data)) }
func (r *richReader) Close() error { return nil }

// c17Files: one scratch file for each text, removed at the end.
var c17Files struct {
	sync.Mutex
	m map[string]string
}

func scratchFile(src string) string {
	c17Files.Lock()
	defer c17Files.Unlock()
	if c17Files.m == nil {
		c17Files.m = map[string]string{}
	}
	if c17Files.m[src] == "" {
		f, err := os.CreateTemp(workDir(), "c17")
		if err != nil {
			panic(err)
		}
		f.WriteString(src)
		f.Close()
		c17Files.m[src] = f.Name()
	}
	return c17Files.m[src]
}

// openFile closes itself when it was read to its end.
type openFile struct {
	*os.File
	done bool
}

func (f *openFile) Read(p []byte) (int, error) {
	if f.done {
		return 0, io.EOF
	}
	n, err := f.File.Read(p)
	if err != nil {
		f.done = true
		f.File.Close()
	}
	return n, err
}

var readerKinds = []struct {
	name string
	mk   func(src string) io.Reader
}{
	{"strings.Reader", func(src string) io.Reader { return strings.NewReader(src) }},
	{"bytes.Buffer", func(src string) io.Reader { return bytes.NewBufferString(src) }},
	{"bytes.Reader", func(src string) io.Reader { return bytes.NewReader([]byte(src)) }},
	{"bufio.Reader of 16", func(src string) io.Reader { return bufio.NewReaderSize(strings.NewReader(src), 16) }},
	{"bufio.Reader", func(src string) io.Reader { return bufio.NewReader(strings.NewReader(src)) }},
	{"bufio.ReadWriter", func(src string) io.Reader {
		return bufio.NewReadWriter(bufio.NewReader(strings.NewReader(src)), bufio.NewWriter(io.Discard))
	}},
	{"io.MultiReader", func(src string) io.Reader {
		return io.MultiReader(strings.NewReader(src[:len(src)/2]), strings.NewReader(src[len(src)/2:]))
	}},
	{"io.LimitedReader", func(src string) io.Reader {
		return io.LimitReader(strings.NewReader(src+"xyz"), int64(len(src)))
	}},
	{"io.SectionReader", func(src string) io.Reader {
		return io.NewSectionReader(strings.NewReader("abc"+src+"xyz"), 3, int64(len(src)))
	}},
	{"io.TeeReader", func(src string) io.Reader { return io.TeeReader(strings.NewReader(src), io.Discard) }},
	{"iotest.OneByteReader", func(src string) io.Reader { return iotest.OneByteReader(strings.NewReader(src)) }},
	{"iotest.DataErrReader", func(src string) io.Reader { return iotest.DataErrReader(strings.NewReader(src)) }},
	{"io.NopCloser", func(src string) io.Reader { return io.NopCloser(strings.NewReader(src)) }},
	{"rich reader", func(src string) io.Reader { return &richReader{chunkReader{data: []byte(src), failAt: -1}} }},
	{"pipe", func(src string) io.Reader {
		r, w := io.Pipe()
		go func() {
			io.WriteString(w, src)
			w.Close()
		}()
		return r
	}},
	{"file", func(src string) io.Reader {
		f, err := os.Open(scratchFile(src))
		if err != nil {
			panic(err)
		}
		return &openFile{File: f}
	}},
}

// readFrom gives a reader of src, of which the head before it was read already.
func readFrom(k int, head, src string) io.Reader {
	r := readerKinds[k].mk(head + src)
	if _, err := io.ReadFull(r, make([]byte, len(head))); err != nil {
		panic(err)
	}
	return r
}

func init() {
	register(&Check{
		ID:    "C17",
		Level: "exploration",
		Rule:  "one case per input and behaviour of the reader; distinct combinations counted",
		Assumptions: []string{
			"readers keep the contract of io.Reader and end after finitely many empty reads",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			n := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			run := func(c *Chooser, src string, base *inputResult, r chunkReader) *Fail {
				r.data = []byte(src)
				c.Desc = src
				if len(src) > 300 {
					c.Desc = src[:100] + "..." + src[len(src)-100:]
				}
				c.Hash = src + fmt.Sprint(r.pieces, r.zeros, r.withEnd, r.failAt, r.goOn, r.err)
				got := runInput(func() io.Reader { x := r; return &x }, generic)
				var f *Fail
				if r.failAt >= 0 {
					f = failedRead(got, r.err, base)
				} else {
					f = compareResults(got, base)
				}
				if f != nil {
					f.Msg += fmt.Sprintf("\n  pieces %v, %d empty reads before each, end with the last data: %v, failure at %d, going on after it: %v", r.pieces, r.zeros, r.withEnd, r.failAt, r.goOn)
				}
				return f
			}
			split := func(c *Chooser, src string) []int {
				var l []int
				k := 1
				for i := 1; i < len(src); i++ {
					if c.Free(2) == 1 {
						l = append(l, k)
						k = 0
					}
					k++
				}
				return l
			}
			uniform := func(k, n int) []int {
				var l []int
				for i := 0; k > 0 && i < n; i += k {
					l = append(l, k)
				}
				return l
			}
			failure := func(c *Chooser, r *chunkReader) {
				r.err = readErrors[c.Free(len(readErrors))]
				r.withEnd = c.Free(2) == 1
				r.goOn = c.Free(2) == 1
			}
			return []*Space{
				{Name: "all splits", Rule: "short inputs, every way to split them into reads, empty reads, end with the last data", Run: func(c *Chooser) *Fail {
					src := readInputs[c.Free(len(readInputs))]
					r := chunkReader{failAt: -1, zeros: c.Free(3), withEnd: c.Free(2) == 1}
					r.pieces = split(c, src)
					return run(c, src, c17Base(src), r)
				}},
				{Name: "all failure points", Rule: "short inputs, every failure point, several kinds of failure and sizes of reads", Run: func(c *Chooser) *Fail {
					src := readInputs[c.Free(len(readInputs))]
					r := chunkReader{failAt: c.Free(len(src) + 1), zeros: c.Free(2)}
					failure(c, &r)
					r.pieces = uniform(c.Free(4), len(src))
					return run(c, src, nil, r)
				}},
				{Name: "kinds of readers", Rule: "short inputs from many kinds of readers, fresh ones and ones of which the head was read before", Run: func(c *Chooser) *Fail {
					src := readInputs[c.Free(len(readInputs))]
					k := c.Free(len(readerKinds))
					head := []string{"", "x", "SELECT 'é'\n -- h\n"}[c.Free(3)]
					c.Desc = fmt.Sprintf("%s from a %s after %q was read", src, readerKinds[k].name, head)
					c.Hash = c.Desc
					return compareResults(runInput(func() io.Reader { return readFrom(k, head, src) }, generic), c17Base(src))
				}},
				{Name: "kinds of failing readers", Rule: "short inputs from readers that offer more than Read, every failure point, fresh or partly read", Run: func(c *Chooser) *Fail {
					src := readInputs[c.Free(len(readInputs))]
					head := []string{"", "SELECT 'é'\n -- h\n"}[c.Free(2)]
					at := c.Free(len(src) + 1)
					together := c.Free(2) == 1
					c.Desc = fmt.Sprintf("%s from a rich reader after %q was read, failing at %d, together with data %v", src, head, at, together)
					c.Hash = c.Desc
					return failedRead(runInput(func() io.Reader {
						r := &richReader{chunkReader{data: []byte(head + src), failAt: len(head) + at, err: errRead, withEnd: together}}
						io.ReadFull(r, make([]byte, len(head)))
						return r
					}, generic), errRead, nil)
				}},
				{Name: "long inputs", Rule: "inputs of one to three buffers of the scanner, a short input at every offset around the borders; read whole, in pieces, or failing", Run: func(c *Chooser) *Fail {
					fl := longFillers[c.Free(len(longFillers))]
					tail := readInputs[c.Free(len(readInputs))]
					size := []int{1024, 2048, 3072}[c.Free(n(1, 3))] - c.Free(len(tail)+3)
					var b strings.Builder
					b.WriteString(fl.head)
					for b.Len()+len(fl.unit)+len(fl.tail) <= size {
						b.WriteString(fl.unit)
					}
					b.WriteString(fl.tail)
					for b.Len() < size {
						b.WriteByte(' ')
					}
					at := b.Len()
					src := b.String() + tail
					r := chunkReader{failAt: -1}
					switch c.Free(5) {
					case 0:
					case 1:
						r.pieces = uniform(1, len(src))
					case 2:
						r.pieces = uniform(1000, len(src))
						r.withEnd = true
					case 3:
						r.pieces = []int{at}
					case 4:
						r.failAt = at + c.Free(len(tail)+1)
						r.err = errRead
						r.withEnd = c.Free(2) == 1
						r.goOn = c.Free(2) == 1
					}
					return run(c, src, c17Base(src), r)
				}},
				{Name: "statements, split", Bound: 2, Thorough: 3, Rule: "every statement, split at every one place, in pieces of every size up to 7", Run: func(c *Chooser) *Fail {
					src := joinLex(plainStmt(c)) + ";"
					base := c17Base(src)
					r := chunkReader{failAt: -1}
					if k := c.Free(7 + len(src)); k < 7 {
						r.pieces = uniform(k+1, len(src))
						r.withEnd = k%2 == 1
					} else {
						r.pieces = []int{k - 6}
						r.zeros = 1
					}
					return run(c, src, base, r)
				}},
				{Name: "statements, failing", Bound: 1, Thorough: 3, Rule: "every statement, every failure point", Run: func(c *Chooser) *Fail {
					src := joinLex(plainStmt(c)) + " -- é\n;"
					r := chunkReader{failAt: c.Free(len(src) + 1), err: errRead}
					k := c.Free(4)
					r.withEnd, r.goOn = k&1 == 1, k&2 == 2
					return run(c, src, nil, r)
				}},
			}
		},
	})
}
