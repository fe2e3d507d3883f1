// Package abi stands in for go-ethereum's: unpacking as that does it (bytes and strings are parts of the input, not copies).
package abi

import (
	"errors"
	"fmt"
	"math/big"
)

const (
	IntTy byte = iota
	UintTy
	BoolTy
	StringTy
	SliceTy
	ArrayTy
	TupleTy
	AddressTy
	FixedBytesTy
	BytesTy
	HashTy
	FixedPointTy
	FunctionTy
)

type Type struct {
	Elem       *Type
	Size       int
	T          byte
	stringKind string
}

func (t Type) String() string { return t.stringKind }

type ArgumentMarshaling struct {
	Name         string
	Type         string
	InternalType string
	Components   []ArgumentMarshaling
	Indexed      bool
}

func NewType(t string, internalType string, components []ArgumentMarshaling) (Type, error) {
	switch t {
	case "bytes":
		return Type{T: BytesTy, stringKind: t}, nil
	case "string":
		return Type{T: StringTy, stringKind: t}, nil
	case "uint", "uint256":
		return Type{T: UintTy, Size: 256, stringKind: "uint256"}, nil
	case "bool":
		return Type{T: BoolTy, stringKind: t}, nil
	case "bytes32":
		return Type{T: FixedBytesTy, Size: 32, stringKind: t}, nil
	}
	return Type{}, fmt.Errorf("unsupported arg type: %s", t)
}

type Argument struct {
	Name    string
	Type    Type
	Indexed bool
}

type Arguments []Argument

func (a Arguments) NonIndexed() Arguments {
	var r []Argument
	for _, x := range a {
		if !x.Indexed {
			r = append(r, x)
		}
	}
	return r
}

func (a Arguments) Unpack(data []byte) ([]any, error) {
	if len(data) == 0 {
		if len(a.NonIndexed()) != 0 {
			return nil, errors.New("abi: attempting to unmarshal an empty string while arguments are expected")
		}
		return make([]any, 0), nil
	}
	return a.UnpackValues(data)
}

func (a Arguments) UnpackValues(data []byte) ([]any, error) {
	r := make([]any, 0)
	for i, x := range a.NonIndexed() {
		v, err := toGoType(i*32, x.Type, data)
		if err != nil {
			return nil, err
		}
		r = append(r, v)
	}
	return r, nil
}

func (a Arguments) UnpackIntoMap(v map[string]any, data []byte) error {
	if v == nil {
		return errors.New("abi: cannot unpack into a nil map")
	}
	if len(data) == 0 {
		if len(a.NonIndexed()) != 0 {
			return errors.New("abi: attempting to unmarshal an empty string while arguments are expected")
		}
		return nil
	}
	u, err := a.UnpackValues(data)
	if err != nil {
		return err
	}
	for i, x := range a.NonIndexed() {
		v[x.Name] = u[i]
	}
	return nil
}

func toGoType(index int, t Type, output []byte) (any, error) {
	if index+32 > len(output) {
		return nil, fmt.Errorf("abi: cannot marshal in to go type: length insufficient %d require %d", len(output), index+32)
	}
	word := output[index : index+32]
	switch t.T {
	case BytesTy, StringTy:
		begin, length, err := lengthPrefixPointsTo(index, output)
		if err != nil {
			return nil, err
		}
		if t.T == StringTy {
			return string(output[begin : begin+length]), nil
		}
		return output[begin : begin+length], nil
	case UintTy:
		return new(big.Int).SetBytes(word), nil
	case FixedBytesTy:
		return [32]byte(word), nil
	case BoolTy:
		for _, b := range word[:31] {
			if b != 0 {
				return false, errors.New("abi: improperly encoded boolean value")
			}
		}
		if word[31] > 1 {
			return false, errors.New("abi: improperly encoded boolean value")
		}
		return word[31] == 1, nil
	}
	return nil, fmt.Errorf("abi: unknown type %v", t.T)
}

func lengthPrefixPointsTo(index int, output []byte) (start int, length int, err error) {
	bigOffsetEnd := new(big.Int).SetBytes(output[index : index+32])
	bigOffsetEnd.Add(bigOffsetEnd, big.NewInt(32))
	outputLength := big.NewInt(int64(len(output)))
	if bigOffsetEnd.Cmp(outputLength) > 0 {
		return 0, 0, fmt.Errorf("abi: cannot marshal in to go slice: offset %v would go over slice boundary (len=%v)", bigOffsetEnd, outputLength)
	}
	if bigOffsetEnd.BitLen() > 63 {
		return 0, 0, fmt.Errorf("abi offset larger than int64: %v", bigOffsetEnd)
	}
	offsetEnd := int(bigOffsetEnd.Uint64())
	lengthBig := new(big.Int).SetBytes(output[offsetEnd-32 : offsetEnd])
	totalSize := new(big.Int).Add(bigOffsetEnd, lengthBig)
	if totalSize.BitLen() > 63 {
		return 0, 0, fmt.Errorf("abi: length larger than int64: %v", totalSize)
	}
	if totalSize.Cmp(outputLength) > 0 {
		return 0, 0, fmt.Errorf("abi: cannot marshal in to go type: length insufficient %v require %v", outputLength, totalSize)
	}
	return offsetEnd, int(lengthBig.Uint64()), nil
}
