// Package h holds the harnesses: H_<property>_<name>.
package h

// Registry is filled by a file generated for the native replay binary.
var Registry = map[string]func(){}
