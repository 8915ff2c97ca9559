//go:build vhook

package main

import "github.com/funny-falcon/go-iproto/vhook"

func hookLevel(l uint32)    { vhook.SetLevel(l) }
func hookStats() (int, int) { return vhook.Stats() }
