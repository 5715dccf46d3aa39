package main

import (
	"reflect"
	"sync"
)

type fieldInfo struct {
	i    int
	name string
	pos  bool
	args bool
}

var fieldCache sync.Map // reflect.Type -> []fieldInfo

// fieldsOf lists the exported fields of a struct type (markers are unexported embedded structs).
func fieldsOf(t reflect.Type) []fieldInfo {
	if v, ok := fieldCache.Load(t); ok {
		return v.([]fieldInfo)
	}
	var out []fieldInfo
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		out = append(out, fieldInfo{i, f.Name, f.Type == posType, t.Name() == "Table" && f.Name == "Args"})
	}
	fieldCache.Store(t, out)
	return out
}
