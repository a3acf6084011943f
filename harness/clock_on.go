//go:build verifclock

package main

import "syscall"

func tapEnv(f func(string)) bool {
	syscall.VerifEnv = f
	return true
}
