package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// The reference view of a tree, taken from the public fields of the nodes by reflection.

var (
	nodeType    = reflect.TypeOf((*sqlast.Node)(nil)).Elem()
	commentType = reflect.TypeOf((*sqlast.CommentGroup)(nil))
)

// childRef is a child of a node and the place where the node holds it.
type childRef struct {
	node  sqlast.Node
	field string
	index int // -1 if the field is no list
}

func isNilNode(v reflect.Value) bool {
	for v.Kind() == reflect.Interface {
		if v.IsNil() {
			return true
		}
		v = v.Elem()
	}
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// refChildren lists the children of a node in the order of its fields.
func refChildren(n sqlast.Node) []childRef {
	v := reflect.ValueOf(n)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	var out []childRef
	for _, f := range fieldsOf(v.Type()) {
		if f.pos {
			continue
		}
		fv := v.Field(f.i)
		if fv.Kind() == reflect.Slice {
			if fv.Type().Elem() == commentType || !fv.Type().Elem().Implements(nodeType) {
				continue
			}
			for i := 0; i < fv.Len(); i++ {
				e := fv.Index(i)
				if isNilNode(e) {
					continue
				}
				out = append(out, childRef{e.Interface().(sqlast.Node), f.name, i})
			}
			continue
		}
		if !fv.Type().Implements(nodeType) || isNilNode(fv) {
			continue
		}
		out = append(out, childRef{fv.Interface().(sqlast.Node), f.name, -1})
	}
	return out
}

// refNodes lists all nodes of a tree, parents first.
func refNodes(n sqlast.Node) []sqlast.Node {
	out := []sqlast.Node{n}
	for _, c := range refChildren(n) {
		out = append(out, refNodes(c.node)...)
	}
	return out
}

func nodeName(n sqlast.Node) string {
	return strings.TrimPrefix(fmt.Sprintf("%T", n), "*sqlast.")
}

// plainWriter hides everything but Write.
type plainWriter struct{ b *bytes.Buffer }

func (p plainWriter) Write(b []byte) (int, error) { return p.b.Write(b) }

// oddWriter offers WriteString, WriteByte and ReadFrom as well.
type oddWriter struct{ b *bytes.Buffer }

func (p oddWriter) Write(b []byte) (int, error)       { return p.b.Write(b) }
func (p oddWriter) WriteString(s string) (int, error) { return p.b.WriteString(s) }
func (p oddWriter) WriteByte(c byte) error            { return p.b.WriteByte(c) }

// printAll prints a node in all ways and reports a difference.
func printAll(n sqlast.Node) (string, *Fail) {
	s := n.ToSQLString()
	for i, mk := range []func(b *bytes.Buffer) io.Writer{
		func(b *bytes.Buffer) io.Writer { return b },
		func(b *bytes.Buffer) io.Writer { return plainWriter{b} },
		func(b *bytes.Buffer) io.Writer { return oddWriter{b} },
	} {
		var b bytes.Buffer
		k, err := n.WriteTo(mk(&b))
		if err != nil {
			return s, failf("WriteTo a writer that never fails: %v", err)
		}
		if b.String() != s {
			return s, failf("%s: WriteTo (writer kind %d) wrote %q, ToSQLString gives %q", nodeName(n), i, b.String(), s)
		}
		if k != int64(b.Len()) {
			return s, failf("%s: WriteTo (writer kind %d) reported %d of %d bytes", nodeName(n), i, k, b.Len())
		}
	}
	var sb strings.Builder
	if _, err := n.WriteTo(&sb); err != nil || sb.String() != s {
		return s, failf("%s: WriteTo a strings.Builder wrote %q (%v), ToSQLString gives %q", nodeName(n), sb.String(), err, s)
	}
	return s, nil
}
