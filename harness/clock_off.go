//go:build !verifclock

package main

func tapEnv(func(string)) bool { return false }
