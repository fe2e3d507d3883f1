// Package common stands in for go-ethereum's.
package common

import (
	"encoding/hex"
	"math/big"
)

const (
	HashLength    = 32
	AddressLength = 20
)

type Hash [HashLength]byte
type Address [AddressLength]byte

var (
	Big0  = big.NewInt(0)
	Big1  = big.NewInt(1)
	Big2  = big.NewInt(2)
	Big3  = big.NewInt(3)
	Big32 = big.NewInt(32)
	Big256 = big.NewInt(256)
	Big257 = big.NewInt(257)
)

func CopyBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

func RightPadBytes(slice []byte, l int) []byte {
	if l <= len(slice) {
		return slice
	}
	padded := make([]byte, l)
	copy(padded, slice)
	return padded
}

func LeftPadBytes(slice []byte, l int) []byte {
	if l <= len(slice) {
		return slice
	}
	padded := make([]byte, l)
	copy(padded[l-len(slice):], slice)
	return padded
}

func TrimLeftZeroes(s []byte) []byte {
	i := 0
	for ; i < len(s) && s[i] == 0; i++ {
	}
	return s[i:]
}

func TrimRightZeroes(s []byte) []byte {
	i := len(s)
	for ; i > 0 && s[i-1] == 0; i-- {
	}
	return s[:i]
}

func Bytes2Hex(d []byte) string { return hex.EncodeToString(d) }

func Hex2Bytes(s string) []byte {
	b, _ := hex.DecodeString(s)
	return b
}

func FromHex(s string) []byte {
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		s = s[2:]
	}
	if len(s)%2 == 1 {
		s = "0" + s
	}
	return Hex2Bytes(s)
}

func (h *Hash) SetBytes(b []byte) {
	if len(b) > len(h) {
		b = b[len(b)-HashLength:]
	}
	copy(h[HashLength-len(b):], b)
}
func (h Hash) Bytes() []byte   { return h[:] }
func (h Hash) Big() *big.Int   { return new(big.Int).SetBytes(h[:]) }
func (h Hash) Hex() string     { return "0x" + hex.EncodeToString(h[:]) }
func (h Hash) String() string  { return h.Hex() }
func BytesToHash(b []byte) Hash {
	var h Hash
	h.SetBytes(b)
	return h
}
func BigToHash(b *big.Int) Hash { return BytesToHash(b.Bytes()) }
func HexToHash(s string) Hash   { return BytesToHash(FromHex(s)) }

func (a *Address) SetBytes(b []byte) {
	if len(b) > len(a) {
		b = b[len(b)-AddressLength:]
	}
	copy(a[AddressLength-len(b):], b)
}
func (a Address) Bytes() []byte  { return a[:] }
func (a Address) Hex() string    { return "0x" + hex.EncodeToString(a[:]) }
func (a Address) String() string { return a.Hex() }
func BytesToAddress(b []byte) Address {
	var a Address
	a.SetBytes(b)
	return a
}
func HexToAddress(s string) Address { return BytesToAddress(FromHex(s)) }
