package model

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"verifsim/simrt"
)

// Splitter is a sentence splitter as the model sees it.
type Splitter struct {
	Delim, Follower string
	Skip            bool // eliminate white space
	Blank           bool // an empty line ends a sentence
	Max             int
}

// DefaultSplitter is the documented default.
var DefaultSplitter = Splitter{"。．！!？?", ".｣」』)）｝}〉》", true, true, 128}

type char struct {
	r    rune
	text string
}

func decode(s string) []char {
	var ret []char
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		ret = append(ret, char{r, s[:n]})
		s = s[n:]
	}
	return ret
}

func (s Splitter) delim(r rune) bool {
	for _, d := range s.Delim {
		if d == r {
			return true
		}
	}
	return false
}

func (s Splitter) follower(r rune) bool {
	for _, d := range s.Follower {
		if d == r {
			return true
		}
	}
	return false
}

// Split is the reference: the sentences of a complete text.
func (s Splitter) Split(text string) []string {
	cs := decode(text)
	var ret []string
	for i := 0; i < len(cs); {
		if s.Skip && unicode.IsSpace(cs[i].r) {
			i++ // white space before a sentence
			continue
		}
		j := s.end(cs, i)
		var b strings.Builder
		for _, c := range cs[i:j] {
			if !s.Skip || !unicode.IsSpace(c.r) {
				b.WriteString(c.text)
			}
		}
		ret = append(ret, b.String())
		i = j
	}
	return ret
}

// end finds the end of the sentence that starts at i.
func (s Splitter) end(cs []char, i int) int {
	count := 0
	feed := false // a line feed was seen
	for ; i < len(cs); i++ {
		r := cs[i].r
		if s.Skip && unicode.IsSpace(r) {
			if s.delim(r) {
				return i + 1
			}
			if s.Blank && r == '\n' {
				if feed {
					return i + 1
				}
				feed = true
			} else {
				feed = false
			}
			continue
		}
		count++
		if s.Blank && r == '\n' {
			if feed {
				return i + 1
			}
			feed = true
		}
		if s.delim(r) || count >= s.Max {
			return s.tail(cs, i+1)
		}
	}
	return i
}

// tail takes in what still belongs to a finished sentence.
func (s Splitter) tail(cs []char, i int) int {
	feed := false
	for ; i < len(cs); i++ {
		r := cs[i].r
		switch {
		case s.Skip && unicode.IsSpace(r):
			if s.Blank && r == '\n' {
				if feed {
					return i + 1
				}
				feed = true
			}
		case s.delim(r) || s.follower(r):
		default:
			return i
		}
	}
	return i
}

// Certain returns the sentences of a prefix that no continuation can change.
func (s Splitter) Certain(prefix string) []string {
	// a character that has not arrived completely
	for n := 1; n < 4 && n <= len(prefix); n++ {
		t := prefix[len(prefix)-n:]
		if utf8.RuneStart(t[0]) {
			if !utf8.FullRuneInString(t) {
				prefix = prefix[:len(prefix)-n]
			}
			break
		}
	}
	var ret []string
	first := true
	for _, c := range []string{"", "あ", "。", "」", "\n", "\n\n", " ", "x", " あ", "。\n\n", "」\n\nあ", "\nあ", "ああ。"} {
		l := s.Split(prefix + c)
		if first {
			ret, first = l, false
			continue
		}
		k := 0
		for k < len(ret) && k < len(l) && ret[k] == l[k] {
			k++
		}
		ret = ret[:k]
	}
	return ret
}

var splitPieces = []string{"。", "！", "?", "!", "．", "」", "』", ")", "）", ".", "\n", "\n", "\n\n", "\r\n", " ", "　", "\t", "\u2028", "\u0085", "\u00a0", "\v",
	"あ", "い", "東京", "a", "b1", "𠮷", "é", "\xff", "\xe3\x81", "\xe3", "\x81", "\ufffd", "「", "は", "のもも"}

// SentenceText makes a text with sentence ends, brackets and blank lines.
func SentenceText(st *simrt.Stream, size int) string {
	var b strings.Builder
	for n := st.Between(0, size); n > 0; n-- {
		switch st.Pick(20, 4, 1, 1, 1) {
		case 0:
			b.WriteString(splitPieces[st.N(len(splitPieces))])
		case 1:
			b.WriteString([]string{"すもももももももものうち", "関西国際空港に行く", "彼は「はい。", "そう！？」", "end of line"}[st.N(5)])
		case 2: // around the maximum length
			b.WriteString(strings.Repeat([]string{"あ", "a", "𠮷"}[st.N(3)], 120+st.N(16)))
		case 3: // a long tail or a long gap
			b.WriteString(strings.Repeat([]string{" ", "。", "　", "」", "！\n"}[st.N(5)], 1+st.N(60)))
		case 4:
			b.WriteString(strings.Repeat("文。\n", st.N(12)))
		}
	}
	return b.String()
}

// SplitterFor makes splitter settings; most often the default.
func SplitterFor(st *simrt.Stream) (Splitter, bool) {
	if st.Chance(1, 2) {
		s := Splitter{Delim: []string{"。", "。.", "!", "", "。 "}[st.N(5)], Follower: []string{"」", "", ")」", "。"}[st.N(4)],
			Skip: st.Chance(1, 2), Blank: st.Chance(1, 2), Max: []int{128, 5, 1, 20, 0, 64}[st.N(6)]}
		return s, false
	}
	return DefaultSplitter, true
}
