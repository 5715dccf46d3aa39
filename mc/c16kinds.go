package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// fullWriter offers what buffers and files offer, and keeps a record of what it was asked for.
type fullWriter struct {
	b      []byte
	other  string // what was asked for beside writing and growing
	closed bool
}

func (w *fullWriter) Write(p []byte) (int, error) {
	if w.closed {
		return 0, os.ErrClosed
	}
	w.b = append(w.b, p...)
	return len(p), nil
}
func (w *fullWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *fullWriter) WriteByte(c byte) error            { _, err := w.Write([]byte{c}); return err }
func (w *fullWriter) WriteRune(r rune) (int, error)     { return w.Write([]byte(string(r))) }
func (w *fullWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, _ := w.Write(b)
	return int64(n), err
}
func (w *fullWriter) Flush() error            { return nil }
func (w *fullWriter) Sync() error             { return nil }
func (w *fullWriter) Grow(n int)              {}
func (w *fullWriter) Len() int                { return len(w.b) }
func (w *fullWriter) Cap() int                { return cap(w.b) }
func (w *fullWriter) Size() int               { return 16 }
func (w *fullWriter) Available() int          { return 7 }
func (w *fullWriter) Buffered() int           { return len(w.b) }
func (w *fullWriter) AvailableBuffer() []byte { return nil }
func (w *fullWriter) Bytes() []byte           { return w.b }
func (w *fullWriter) String() string          { return "a writer" }
func (w *fullWriter) Close() error            { w.closed = true; w.other += "Close "; return nil }
func (w *fullWriter) Reset()                  { w.b = nil; w.other += "Reset " }
func (w *fullWriter) Truncate(n int)          { w.b = w.b[:n]; w.other += "Truncate " }
func (w *fullWriter) Seek(o int64, whence int) (int64, error) {
	w.other += "Seek "
	return int64(len(w.b)), nil
}

// sliceWriter cannot be compared, nor can it be a key of a map.
type sliceWriter struct {
	b    *strings.Builder
	list []func()
}

func (w sliceWriter) Write(p []byte) (int, error) { return w.b.Write(p) }

// funcWriter is no struct and no pointer.
type funcWriter func(p []byte) (int, error)

func (w funcWriter) Write(p []byte) (int, error) { return w(p) }

// writerKinds: each gives a writer and a function that tells what has arrived.
var writerKinds = []struct {
	name string
	mk   func() (w io.Writer, got func() string)
}{
	{"bytes.Buffer that holds text", func() (io.Writer, func() string) {
		b := bytes.NewBufferString("before ")
		return b, func() string { return strings.TrimPrefix(b.String(), "before ") }
	}},
	{"strings.Builder that holds text", func() (io.Writer, func() string) {
		var b strings.Builder
		b.WriteString("before ")
		return &b, func() string { return strings.TrimPrefix(b.String(), "before ") }
	}},
	{"bytes.Buffer with a capacity", func() (io.Writer, func() string) {
		b := bytes.NewBuffer(make([]byte, 0, 1<<16))
		return b, b.String
	}},
	{"bytes.Buffer read in part", func() (io.Writer, func() string) {
		b := bytes.NewBufferString("before ")
		b.Next(3)
		return b, func() string { return strings.TrimPrefix(b.String(), "ore ") }
	}},
	{"small bufio.Writer", func() (io.Writer, func() string) {
		var b strings.Builder
		w := bufio.NewWriterSize(&b, 16)
		return w, func() string { w.Flush(); return b.String() }
	}},
	{"bufio.Writer that holds text", func() (io.Writer, func() string) {
		var b strings.Builder
		w := bufio.NewWriter(&b)
		w.WriteString("before ")
		return w, func() string { w.Flush(); return strings.TrimPrefix(b.String(), "before ") }
	}},
	{"bufio.ReadWriter", func() (io.Writer, func() string) {
		var b strings.Builder
		w := bufio.NewReadWriter(bufio.NewReader(strings.NewReader("input")), bufio.NewWriter(&b))
		return w, func() string { w.Flush(); return b.String() }
	}},
	{"io.MultiWriter", func() (io.Writer, func() string) {
		var a, b strings.Builder
		return io.MultiWriter(&a, plainOf{&b}), func() string {
			if a.String() != b.String() {
				return "different: " + a.String() + " and " + b.String()
			}
			return b.String()
		}
	}},
	{"hash", func() (io.Writer, func() string) {
		h := sha256.New()
		return h, func() string { return hex.EncodeToString(h.Sum(nil)) }
	}},
	{"gzip.Writer", func() (io.Writer, func() string) {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		return w, func() string {
			w.Close()
			r, err := gzip.NewReader(&b)
			if err != nil {
				return err.Error()
			}
			t, _ := io.ReadAll(r)
			return string(t)
		}
	}},
	{"writer with many methods", func() (io.Writer, func() string) {
		w := &fullWriter{b: []byte("before ")}
		return w, func() string { return w.other + strings.TrimPrefix(string(w.b), "before ") }
	}},
	{"writer that is a value with a slice", func() (io.Writer, func() string) {
		var b strings.Builder
		return sliceWriter{b: &b, list: []func(){nil}}, b.String
	}},
	{"writer that is a function", func() (io.Writer, func() string) {
		var b strings.Builder
		return funcWriter(b.Write), b.String
	}},
	{"file", func() (io.Writer, func() string) {
		f, err := os.CreateTemp(workDir(), "c16")
		if err != nil {
			panic(err)
		}
		f.WriteString("before ")
		return f, func() string {
			defer os.Remove(f.Name())
			if _, err := f.WriteString(" after"); err != nil {
				return err.Error()
			}
			f.Close()
			t, _ := os.ReadFile(f.Name())
			return strings.TrimSuffix(strings.TrimPrefix(string(t), "before "), " after")
		}
	}},
	{"file, writing before its end", func() (io.Writer, func() string) {
		f, err := os.CreateTemp(workDir(), "c16")
		if err != nil {
			panic(err)
		}
		f.WriteString("before " + strings.Repeat("#", 1<<16))
		f.Seek(7, io.SeekStart)
		return f, func() string {
			defer os.Remove(f.Name())
			f.Close()
			t, _ := os.ReadFile(f.Name())
			if len(t) != 7+1<<16 {
				return "the file is cut to " + itoa(len(t)) + " bytes"
			}
			return strings.TrimRight(strings.TrimPrefix(string(t), "before "), "#")
		}
	}},
	{"file, appending", func() (io.Writer, func() string) {
		p := filepath.Join(scratch(), "f")
		os.WriteFile(p, []byte("before "), 0o666)
		f, err := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		return f, func() string {
			f.Close()
			t, _ := os.ReadFile(p)
			os.RemoveAll(filepath.Dir(p))
			return strings.TrimPrefix(string(t), "before ")
		}
	}},
	{"pipe", func() (io.Writer, func() string) {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		done := make(chan string)
		go func() {
			t, _ := io.ReadAll(r)
			r.Close()
			done <- string(t)
		}()
		return w, func() string { w.Close(); return <-done }
	}},
	{"pipe within the process", func() (io.Writer, func() string) {
		r, w := io.Pipe()
		done := make(chan string)
		go func() {
			t, _ := io.ReadAll(r)
			done <- string(t)
		}()
		return w, func() string { w.Close(); return <-done }
	}},
}

type plainOf struct{ w io.Writer }

func (p plainOf) Write(b []byte) (int, error) { return p.w.Write(b) }

// failingKinds: writers that fail, with err if that is not nil; got tells what they took before.
var failingKinds = []struct {
	name string
	mk   func() (w io.Writer, got func() string, err error)
}{
	{"closed file", func() (io.Writer, func() string, error) {
		f, err := os.CreateTemp(workDir(), "c16")
		if err != nil {
			panic(err)
		}
		f.Close()
		os.Remove(f.Name())
		return f, func() string { return "" }, os.ErrClosed
	}},
	{"file open for reading", func() (io.Writer, func() string, error) {
		p := filepath.Join(scratch(), "f")
		os.WriteFile(p, nil, 0o666)
		f, err := os.Open(p)
		if err != nil {
			panic(err)
		}
		return f, func() string { f.Close(); os.RemoveAll(filepath.Dir(p)); return "" }, nil
	}},
	{"device that is full", func() (io.Writer, func() string, error) {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		return f, func() string { f.Close(); return "" }, nil
	}},
	{"pipe within the process whose reader leaves", func() (io.Writer, func() string, error) {
		r, w := io.Pipe()
		done := make(chan string)
		go func() {
			b := make([]byte, 5)
			n, _ := io.ReadFull(r, b)
			r.CloseWithError(errWrite)
			done <- string(b[:n])
		}()
		return w, func() string { w.Close(); return <-done }, errWrite
	}},
	{"io.MultiWriter, the second fails", func() (io.Writer, func() string, error) {
		var a strings.Builder
		f := &faultWriter{bytes: 0, err: errWrite}
		return io.MultiWriter(faultPlain{f}, &a), func() string { return a.String() }, errWrite
	}},
	{"writer with many methods, closed", func() (io.Writer, func() string, error) {
		w := &fullWriter{closed: true}
		return w, func() string { return w.other + string(w.b) }, os.ErrClosed
	}},
}

func c16Kinds(c *Chooser, n sqlast.Node) *Fail {
	full := n.ToSQLString()
	k := c.Free(len(writerKinds) + len(failingKinds))
	if k < len(writerKinds) {
		kind := writerKinds[k]
		c.Desc = kind.name + ": " + full
		w, got := kind.mk()
		m, err := n.WriteTo(w)
		g := got()
		want := full
		if kind.name == "hash" {
			h := sha256.Sum256([]byte(full))
			want = hex.EncodeToString(h[:])
		}
		if err != nil || m != int64(len(full)) || g != want {
			return failf("%s to a %s: %d bytes, error %v, %q; want %q", nodeName(n), kind.name, m, err, g, want)
		}
		return nil
	}
	kind := failingKinds[k-len(writerKinds)]
	c.Desc = kind.name + ": " + full
	w, got, e := kind.mk()
	m, err := n.WriteTo(w)
	g := got()
	if err == nil && len(g) < len(full) || e != nil && err != nil && !errors.Is(err, e) {
		return failf("%s to a %s: error %v", nodeName(n), kind.name, err)
	}
	if m != int64(len(g)) || !strings.HasPrefix(full, g) {
		return failf("%s to a %s: %d bytes reported, %q arrived", nodeName(n), kind.name, m, g)
	}
	return nil
}
