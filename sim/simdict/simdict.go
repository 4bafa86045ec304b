// Package simdict supplies the dictionaries that stand in for the embedded ones.
package simdict

import "github.com/ikawaha/kagome-dict/dict"

// Source returns the dictionary for a name ("ipa", "ipa-shrink", "uni", "uni-shrink"); set by the harness.
var Source func(name string) *dict.Dict

// Get returns the dictionary for a name.
func Get(name string) *dict.Dict {
	if Source == nil {
		panic("simdict: no dictionary installed")
	}
	return Source(name)
}
