package model

import (
	"encoding/json"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
)

// Modes of analysis.
const (
	Normal   = 1
	Search   = 2
	Extended = 3
)

// Classes of tokens.
const (
	Dummy = iota
	Known
	Unknown
	User
)

// Tok is an expected token.
type Tok struct {
	Index, ID, Class, Position, Start, End int
	Surface                                string
}

// Tk is a tokenizer as the model sees it.
type Tk struct {
	D    *Dic
	U    *UDic
	Omit bool
}

type node struct {
	id, class, pos, start int // byte and rune position
	len                   int // in runes
	surface               string
	left, right, weight   int
	cost                  int
	prev                  *node
}

const (
	ceiling     = 1<<31 - 1
	unknownSpan = 1024 // longest unknown word
)

// Analyze is the reference analysis: all words the dictionaries and the
// unknown word rules offer, the cheapest way through them, the first
// offered where several are equally cheap.
func (t Tk) Analyze(text string, mode int) []Tok {
	path := t.path(text, mode)
	var ret []Tok
	for i, n := range path {
		s := n.surface
		end := n.start + n.len
		if n.id == -1 {
			if t.Omit {
				continue
			}
			s = "BOS"
			if i > 0 {
				s = "EOS"
			}
		}
		ret = append(ret, Tok{Index: len(ret), ID: n.id, Class: n.class, Position: n.pos, Start: n.start, End: end, Surface: s})
	}
	return ret
}

// path returns the chosen nodes from BOS to EOS.
func (t Tk) path(text string, mode int) []*node {
	ret, _ := t.solve(text, mode)
	return ret
}

// solve returns the chosen nodes from BOS to EOS and all nodes by their end.
func (t Tk) solve(text string, mode int) ([]*node, [][]*node) {
	total := runes(text)
	ends := make([][]*node, total+1) // by end position in runes
	d := t.D.D
	add := func(id, class, pos, start int, surface string) {
		n := &node{id: id, class: class, pos: pos, start: start, surface: surface, len: runes(surface)}
		var m dict.Morph
		switch class {
		case Known:
			m = d.Morphs[id]
		case Unknown:
			m = d.UnkDict.Morphs[id]
		}
		n.left, n.right, n.weight = int(m.LeftID), int(m.RightID), int(m.Weight)
		ends[start+n.len] = append(ends[start+n.len], n)
	}
	ends[0] = append(ends[0], &node{id: -1})
	start := 0
	for pos, ch := range text {
		t.offer(text, pos, ch, func(id, class int, surface string) { add(id, class, pos, start, surface) })
		start++
	}
	eos := &node{id: -1, pos: len(text), start: total}
	extra := func(n *node) int {
		if mode == Normal || n.id == -1 {
			return 0
		}
		if n.len > 2 && allKanji(n.surface) {
			return (n.len - 2) * 3000
		}
		if n.len > 7 {
			return (n.len - 7) * 1700
		}
		return 0
	}
	connect := func(n *node) {
		prev := ends[n.start]
		if len(prev) == 0 {
			n.cost = ceiling
			return
		}
		for i, p := range prev {
			c := p.cost + n.weight + extra(p)
			if p.class != User && n.class != User {
				c += int(d.Connection.At(p.right, n.left))
			}
			if c > ceiling {
				c = ceiling
			}
			if i == 0 || c < n.cost {
				n.cost, n.prev = c, p
			}
		}
	}
	for i := 1; i <= total; i++ {
		for _, n := range ends[i] {
			connect(n)
		}
	}
	connect(eos)
	var ret []*node
	for n := eos; n != nil; n = n.prev {
		if mode == Extended && n.class == Unknown {
			rs := []rune(n.surface)
			off := make([]int, 0, len(rs))
			for k := range n.surface {
				off = append(off, k)
			}
			for k := len(rs) - 1; k >= 0; k-- {
				ret = append(ret, &node{id: n.id, class: Dummy, pos: n.pos + off[k], start: n.start + k, len: 1, surface: string(rs[k])})
			}
			continue
		}
		ret = append(ret, n)
	}
	for i, j := 0, len(ret)-1; i < j; i, j = i+1, j-1 {
		ret[i], ret[j] = ret[j], ret[i]
	}
	return ret, append(ends, []*node{eos})
}

// offer lists the words that may start at a position, in dictionary order.
func (t Tk) offer(text string, pos int, ch rune, add func(id, class int, surface string)) {
	rest := text[pos:]
	found := false
	if t.U != nil {
		for l := 1; l <= len(rest) && l <= t.U.maxLen; l++ {
			if id, ok := t.U.Words[rest[:l]]; ok {
				add(id, User, rest[:l])
				found = true
			}
		}
		if found {
			return
		}
	}
	for l := 1; l <= len(rest) && l <= t.D.maxLen; l++ {
		for _, id := range t.D.Words[rest[:l]] {
			add(id, Known, rest[:l])
			found = true
		}
	}
	d := t.D.D
	class := d.CharacterCategory(ch)
	if found && !d.InvokeList[class] {
		return
	}
	_, end := utf8.DecodeRuneInString(rest)
	if d.GroupList[class] {
		n := 1
		if ch == utf8.RuneError {
			n = end // a replacement character counts for its bytes
		}
		for end < len(rest) && n < unknownSpan {
			c, w := utf8.DecodeRuneInString(rest[end:])
			if d.CharacterCategory(c) != class {
				break
			}
			end += w
			n++
		}
	}
	short := 0
	if c, w := utf8.DecodeLastRuneInString(rest[:end]); c != utf8.RuneError {
		short = end - w
	}
	id := int(d.UnkDict.Index[int32(class)])
	for k := 0; k <= int(d.UnkDict.IndexDup[int32(class)]); k++ {
		if short > 0 {
			add(id+k, Unknown, rest[:short])
		}
		add(id+k, Unknown, rest[:end])
	}
}

func allKanji(s string) bool {
	for _, r := range s {
		if !unicode.Is(unicode.Ideographic, r) {
			return false
		}
	}
	return s != ""
}

// Features is what the dictionary says about a token.
func (t Tk) Features(k Tok) []string {
	d := t.D.D
	switch k.Class {
	case Known:
		var f []string
		for _, p := range d.POSTable.POSs[k.ID] {
			f = append(f, d.POSTable.NameList[p])
		}
		if d.Contents != nil {
			f = append(f, d.Contents[k.ID]...)
		}
		return f
	case Unknown:
		return append([]string(nil), d.UnkDict.Contents[k.ID]...)
	case User:
		c := t.U.D.Contents[k.ID]
		return []string{c.Pos, strings.Join(c.Tokens, "/"), strings.Join(c.Yomi, "/")}
	}
	return nil
}

// POS is the part of speech of a token.
func (t Tk) POS(k Tok) []string {
	f := t.Features(k)
	switch k.Class {
	case Known:
		return f[:len(t.D.D.POSTable.POSs[k.ID])]
	case Unknown:
		start, n := 0, 1
		if v, ok := t.D.D.UnkDict.ContentsMeta[dict.POSStartIndex]; ok {
			start = int(v)
		}
		if v, ok := t.D.D.UnkDict.ContentsMeta[dict.POSHierarchy]; ok {
			n = int(v)
		}
		if n <= 0 || start+n > len(f) {
			return nil
		}
		return f[start : start+n]
	case User:
		return f[:1]
	}
	return nil
}

// Named is a named feature of a token.
func (t Tk) Named(k Tok, name string) (string, bool) {
	var meta dict.ContentsMeta
	switch k.Class {
	case Known:
		meta = t.D.D.ContentsMeta
	case Unknown:
		meta = t.D.D.UnkDict.ContentsMeta
	}
	i, ok := meta[name]
	f := t.Features(k)
	if !ok || int(i) >= len(f) {
		return "", false
	}
	return f[i], true
}

// ClassName is the name of a token class.
func ClassName(c int) string { return []string{"DUMMY", "KNOWN", "UNKNOWN", "USER"}[c] }

// TokenData is the documented JSON form of a token.
type TokenData struct {
	ID            int      `json:"id"`
	Start         int      `json:"start"`
	End           int      `json:"end"`
	Surface       string   `json:"surface"`
	Class         string   `json:"class"`
	POS           []string `json:"pos"`
	BaseForm      string   `json:"base_form"`
	Reading       string   `json:"reading"`
	Pronunciation string   `json:"pronunciation"`
	Features      []string `json:"features"`
}

// Data is the expected token data.
func (t Tk) Data(k Tok) TokenData {
	ret := TokenData{ID: k.ID, Start: k.Start, End: k.End, Surface: k.Surface, Class: ClassName(k.Class), POS: t.POS(k), Features: t.Features(k)}
	if ret.POS == nil {
		ret.POS = []string{}
	}
	if ret.Features == nil {
		ret.Features = []string{}
	}
	ret.BaseForm, _ = t.Named(k, dict.BaseFormIndex)
	ret.Reading, _ = t.Named(k, dict.ReadingIndex)
	ret.Pronunciation, _ = t.Named(k, dict.PronunciationIndex)
	return ret
}

// JSON is the canonical JSON of a value.
func JSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Wakati is the expected list of words.
func (t Tk) Wakati(text string) []string {
	ret := []string{}
	for _, k := range t.Analyze(text, Normal) {
		if k.Class != Dummy && k.Surface != "" {
			ret = append(ret, k.Surface)
		}
	}
	return ret
}
