//go:build verifpath

package main

import (
	"fmt"

	"github.com/fivebinaries/go-cardano-serialization/veriftrace"
)

var pathBuild = true

func pathStart(keep bool) { veriftrace.Start(keep) }
func pathEnd() pathSum    { return pathSum{veriftrace.H, veriftrace.S, veriftrace.N} }
func pathRec() []uint64   { return veriftrace.Rec }

// pathWhere describes one step of a path.
func pathWhere(v uint64) string {
	s := veriftrace.Where[v>>40]
	if v>>39&1 == 1 {
		return fmt.Sprintf("element %d at %s", v&(1<<39-1), s)
	}
	return "block at " + s
}
