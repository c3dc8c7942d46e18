// Package attribute is a stand-in with the part of the API gowrap's template uses.
package attribute

// KeyValue is an attribute.
type KeyValue struct {
	Key   string
	Value any
}

// String returns a string attribute.
func String(k, v string) KeyValue { return KeyValue{k, v} }

// Bool returns a boolean attribute.
func Bool(k string, v bool) KeyValue { return KeyValue{k, v} }

// Int returns an integer attribute.
func Int(k string, v int) KeyValue { return KeyValue{k, v} }
