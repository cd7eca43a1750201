package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

func parseFile(p string) (*ast.File, error) {
	return parser.ParseFile(token.NewFileSet(), p, nil, parser.ParseComments)
}

func formSeparable(d *Form) int {
	return rSat
}

var debugOn = os.Getenv("VSYM_DEBUG") != ""
