// Package genreg is where the generated packages of a run register what they declare, so
// that checks written before them can use it by reflection.
package genreg

import "thrift"

// Handle answers a call of a method by its Go name: one result for each of the method's.
type Handle func(method string, args []interface{}) []interface{}

type Service struct {
	NewClient         func(t thrift.TTransport, f thrift.TProtocolFactory) interface{}
	NewClientProtocol func(t thrift.TTransport, in, out thrift.TProtocol) interface{}
	NewProcessor      func(h Handle) thrift.TProcessor
}

type Enum struct {
	Values []interface{} // of the constants, in the order of the declaration
	From   func(s string) interface{}
}

// All are keyed by the import path, a dot and the Thrift name.
var (
	Structs  = map[string]func() interface{}{}
	Enums    = map[string]*Enum{}
	Consts   = map[string]func() interface{}{}
	Services = map[string]*Service{}
	Broken   = map[int]string{} // schemas whose code does not compile
)
