// Package simcrand mirrors package crypto/rand with choices of the simulator.
package simcrand

import (
	"encoding/base32"
	"io"

	"verifsim/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	simrt.Rand(b)
	return len(b), nil
}

// Reader mirrors rand.Reader.
var Reader io.Reader = reader{}

// Read mirrors rand.Read.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Text mirrors rand.Text.
func Text() string {
	b := make([]byte, 17)
	simrt.Rand(b)
	return base32.StdEncoding.EncodeToString(b)[:26]
}
