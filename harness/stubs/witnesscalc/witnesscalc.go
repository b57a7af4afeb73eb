// Package witnesscalc stands in for the WASM witness calculator: the circuit
// is a Go function registered by the harness under the content of the file.
package witnesscalc

import (
	"fmt"
	"io/ioutil"
	"math/big"
)

// Circuits maps the content of a circuit file to its constraint system: it
// returns the public signals, or an error when a constraint does not hold.
var Circuits = map[string]func(inputs map[string]interface{}) ([]*big.Int, error){}

// CalculateWitnessBinWASM returns the witness: one, then the public signals.
func CalculateWitnessBinWASM(wasmBytes []byte, inputs map[string]interface{}) ([]*big.Int, error) {
	f, ok := Circuits[string(wasmBytes)]
	if !ok {
		return nil, fmt.Errorf("not a circuit: %q", wasmBytes)
	}
	pub, err := f(inputs)
	if err != nil {
		return nil, err
	}
	return append([]*big.Int{big.NewInt(1)}, pub...), nil
}

// CalculateWitness does the same from a file.
func CalculateWitness(path string, inputs map[string]interface{}) ([]*big.Int, error) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return CalculateWitnessBinWASM(b, inputs)
}
