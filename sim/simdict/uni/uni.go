// Package uni stands in for the embedded UniDic dictionary.
package uni

import (
	"verifsim/simdict"

	"github.com/ikawaha/kagome-dict/dict"
)

// Dict mirrors uni.Dict.
func Dict() *dict.Dict { return simdict.Get("uni") }

// DictShrink mirrors uni.DictShrink.
func DictShrink() *dict.Dict { return simdict.Get("uni-shrink") }

// New mirrors uni.New.
func New() *dict.Dict { return Dict() }
