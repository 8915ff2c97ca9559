//go:build !vstep

package main

func stepClock(e *Env) {}
