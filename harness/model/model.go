// Package model holds replacements, interpreted by the engine, for library code
// that cannot be executed symbolically.
package model
