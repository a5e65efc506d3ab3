// Package vrand stands in for crypto/rand: a scripted entropy source.
package vrand

import (
	"errors"
	"io"
	"math/big"
)

var (
	// Next produces the bytes of the n-th request; nil: a fixed counter stream.
	Next func(call int, p []byte)
	// FailCall is the index of the request that fails (-1: none).
	FailCall = -1
	// Calls counts requests; Sizes and Given record them.
	Calls int
	Given [][]byte
	ctr   byte
	// Short bounds the bytes that the n-th request delivers (0: no bound).
	Short func(call, want int) int

	ErrRand = errors.New("injected entropy failure")
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	i := Calls
	Calls++
	if FailCall >= 0 && i == FailCall {
		return 0, ErrRand
	}
	if Short != nil && len(p) > 0 {
		if k := Short(i, len(p)); k > 0 && k < len(p) {
			p = p[:k]
		}
	}
	if Next != nil {
		Next(i, p)
	} else {
		for j := range p {
			ctr += 37
			p[j] = ctr ^ byte(j*11+i*101)
		}
	}
	Given = append(Given, append([]byte(nil), p...))
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return nil, errors.New("vrand.Int") }

func Text() string { return "AAAAAAAAAAAAAAAAAAAAAAAAAA" }
