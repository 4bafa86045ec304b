package model

import (
	"strings"

	"verifsim/simrt"
)

var odd = []string{"\xff", "\xe3\x81", "\xe3", "\u0080", "\ufffd", "\"", "\\", "\\n", "\"];", "\n", "\t", " ", "　", "\u00a0", "𠮷", "é", "👨‍👩", "が", "ｱ", "<svg>", "&", "{}", "--", "。", "！", "'", "%s", "%!", "EOS", "BOS", ","}

// Text makes a text for a tokenizer. size bounds the number of pieces.
func Text(st *simrt.Stream, t Tk, size int) string {
	var b strings.Builder
	words := t.D.words()
	for n := st.Between(0, size); n > 0; n-- {
		switch st.Pick(6, 5, 3, 2, 2, 1) {
		case 0:
			b.WriteString(words[st.N(len(words))])
		case 1:
			b.WriteString(t.D.Alpha[st.N(len(t.D.Alpha))])
		case 2:
			if t.U != nil {
				u := t.U.words()
				b.WriteString(u[st.N(len(u))])
			} else {
				b.WriteString(chars[5][st.N(3)])
			}
		case 3:
			c := t.D.Alpha[st.N(len(t.D.Alpha))]
			b.WriteString(strings.Repeat(c, st.Between(1, 12)))
		case 4:
			b.WriteString(odd[st.N(len(odd))])
		case 5:
			w := words[st.N(len(words))]
			b.WriteString(w[:st.N(len(w)+1)]) // may cut a character
		}
	}
	return b.String()
}

// LongText makes one of the rare long texts.
func LongText(st *simrt.Stream, t Tk) string {
	switch st.Pick(3, 2, 2, 1) {
	case 0: // a run of one category, around the limit for unknown words
		c := t.D.Alpha[st.N(len(t.D.Alpha))]
		return strings.Repeat(c, 1015+st.N(30)) + Text(st, t, 3)
	case 1:
		return strings.Repeat(Text(st, t, 6)+"あa", 20+st.N(60))
	case 2: // characters of one category that is not one word
		var b strings.Builder
		c := chars[st.N(len(chars))]
		for n := 50 + st.N(400); n > 0; n-- {
			b.WriteString(c[st.N(len(c))])
		}
		return b.String()
	default:
		return strings.Repeat("a1", 1000+st.N(2000))
	}
}

func (d *Dic) words() []string {
	if d.list == nil {
		d.list = d.WordList()
	}
	return d.list
}

func (u *UDic) words() []string {
	if u.list == nil {
		u.list = u.UserNames()
	}
	return u.list
}
