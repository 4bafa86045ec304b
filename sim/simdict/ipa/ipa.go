// Package ipa stands in for the embedded IPA dictionary.
package ipa

import (
	"verifsim/simdict"

	"github.com/ikawaha/kagome-dict/dict"
)

// Dict mirrors ipa.Dict.
func Dict() *dict.Dict { return simdict.Get("ipa") }

// DictShrink mirrors ipa.DictShrink.
func DictShrink() *dict.Dict { return simdict.Get("ipa-shrink") }

// New mirrors ipa.New.
func New() *dict.Dict { return Dict() }
