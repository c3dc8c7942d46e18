// Package codes is a stand-in with the part of the API gowrap's template uses.
package codes

// Code is a span status.
type Code uint32

// Status codes.
const (
	Unset Code = 0
	Error Code = 1
	Ok    Code = 2
)
