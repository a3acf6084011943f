//go:build !verifpath

package main

var pathBuild = false

func pathStart(bool)            {}
func pathEnd() pathSum          { return pathSum{} }
func pathRec() []uint64         { return nil }
func pathWhere(v uint64) string { return "" }
