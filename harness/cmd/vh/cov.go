//go:build vhcov

package main

import (
	"verifharness/cov"
	"verifharness/pbt"
)

func init() {
	pbt.Edges = cov.Counters()
	pbt.Compared = cov.Compared[:]
}
