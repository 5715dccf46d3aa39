package main

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
)

var (
	generic  dialect.Dialect = &dialect.GenericSQLDialect{}
	mysql    dialect.Dialect = &dialect.MySQLDialect{}
	postgres dialect.Dialect = &dialect.PostgresqlDialect{}
	dialects                 = []dialect.Dialect{generic, mysql, postgres}
	dnames                   = []string{"generic", "mysql", "postgres"}
)

func parseSQL(src string, d dialect.Dialect) ([]sqlast.Stmt, error) {
	p, err := xsqlparser.NewParser(strings.NewReader(src), d)
	if err != nil {
		return nil, err
	}
	return p.ParseSQL()
}

// parseOne parses a script of one statement.
func parseOne(src string, d dialect.Dialect) (sqlast.Stmt, error) {
	ss, err := parseSQL(src, d)
	if err != nil {
		return nil, err
	}
	if len(ss) != 1 {
		return nil, fmt.Errorf("%d statements instead of one", len(ss))
	}
	return ss[0], nil
}

func parseExpr(src string, d dialect.Dialect) (sqlast.Node, error) {
	p, err := xsqlparser.NewParser(strings.NewReader(src), d)
	if err != nil {
		return nil, err
	}
	return p.ParseExpr()
}

func parseFile(src string, d dialect.Dialect, comments bool) (*sqlast.File, error) {
	var opts []xsqlparser.ParserOption
	if comments {
		opts = append(opts, xsqlparser.ParseComment())
	}
	p, err := xsqlparser.NewParser(strings.NewReader(src), d, opts...)
	if err != nil {
		return nil, err
	}
	return p.ParseFile()
}
