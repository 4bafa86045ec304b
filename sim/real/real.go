// Package real connects the reference models to the code under test.
package real

import (
	"fmt"

	"verifsim/model"
	"verifsim/simrt"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// New builds the real tokenizer for a model tokenizer.
func New(t model.Tk) *tokenizer.Tokenizer {
	var opts []tokenizer.Option
	if t.U != nil {
		opts = append(opts, tokenizer.UserDict(t.U.D))
	}
	if t.Omit {
		opts = append(opts, tokenizer.OmitBosEos())
	}
	ret, err := tokenizer.New(t.D.D, opts...)
	if err != nil || ret == nil {
		panic(simrt.Misbehaved(fmt.Sprintf("tokenizer.New with a good dictionary: %v", err)))
	}
	return ret
}

// Toks converts tokens to their model form.
func Toks(ts []tokenizer.Token) []model.Tok {
	var ret []model.Tok
	for _, t := range ts {
		ret = append(ret, model.Tok{Index: t.Index, ID: t.ID, Class: int(t.Class), Position: t.Position, Start: t.Start, End: t.End, Surface: t.Surface})
	}
	return ret
}

// DiffToks describes the first difference of two token sequences.
func DiffToks(got, want []model.Tok) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("%d tokens, expected %d; first extra %+v", len(got), len(want), got[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("token %d is %+v, expected %+v", i, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d tokens, expected %d", len(got), len(want))
	}
	return ""
}

// Core removes what a graph export does not return: BOS, EOS, index and byte position.
func Core(ts []model.Tok) []model.Tok {
	var ret []model.Tok
	for _, t := range ts {
		if t.ID == -1 {
			continue
		}
		t.Index, t.Position = 0, 0
		ret = append(ret, t)
	}
	return ret
}

// Same compares string slices; nil and empty are the same.
func Same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// DiffStrings describes the first difference of two string sequences.
func DiffStrings(got, want []string) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("%d items, expected %d; first extra %q", len(got), len(want), got[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("item %d is %q, expected %q", i, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d items, expected %d; first missing %q", len(got), len(want), want[len(got)])
	}
	return ""
}

// Splitter builds the real splitter for a model splitter.
func Splitter(s model.Splitter) filter.SentenceSplitter {
	return filter.SentenceSplitter{Delim: []rune(s.Delim), Follower: []rune(s.Follower), SkipWhiteSpace: s.Skip, DoubleLineFeedSplit: s.Blank, MaxRuneLen: s.Max}
}

// Short makes a text readable in a report.
func Short(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q... (%d bytes)", s[:100], len(s))
	}
	return fmt.Sprintf("%q", s)
}
