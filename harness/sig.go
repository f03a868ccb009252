package main

import (
	"os/signal"
	"syscall"

	"gotor/bf"
)

func ignoreXFSZ() { signal.Ignore(syscall.SIGXFSZ) }

func newBf(n int64) *bf.Bitfield { return bf.NewBitfield(n) }
