//go:build geth

package main

import "verifgo/geth"

func init() {
	gethRun = func(b []byte) (uint64, []byte, error) {
		g := geth.Contract.RequiredGas(b)
		r, err := geth.Contract.Run(b)
		return g, r, err
	}
}
