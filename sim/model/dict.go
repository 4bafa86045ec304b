// Package model holds small dictionaries and the reference models: what an
// analysis, a token and a sentence split have to be.
package model

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"verifsim/simrt"

	"github.com/ikawaha/kagome-dict/dict"
)

// Dic is a synthetic system dictionary with the tables the model needs.
type Dic struct {
	Name   string
	D      *dict.Dict
	Words  map[string][]int // surface -> ids
	maxLen int
	Alpha  []string // characters texts are made of
	shrunk *Dic
	sum    uint64
	list   []string
}

// UDic is a synthetic user dictionary.
type UDic struct {
	Name   string
	D      *dict.UserDict
	Words  map[string]int
	maxLen int
	sum    uint64
	list   []string
	Source string // in the user dictionary file format
}

// Options of a dictionary.
type dictOpts struct {
	name    string
	seed    uint64
	words   int
	maxW    int // weights in [-maxW, maxW]
	maxC    int // connection costs
	step    int // of weights and costs
	ids     int // number of connection ids
	noInfo  bool
	noMeta  bool
	extreme bool
	shrink  bool
}

var posNames = []string{"名詞", "動詞", "助詞", "形容詞", "*", "一般", "固有", "係助詞", "自立", "副詞", "接尾", "形容動詞", "記号", "助動詞", "連体詞"}

// characters per category
var chars = [][]string{
	{"。", "、", "!", "?", "…", "\u2603", "\U0001F600", "é"}, // 0 DEFAULT
	{" ", "　", "\t"}, // 1 SPACE
	{"東", "京", "都", "日", "本", "国", "大", "学", "人", "関", "西", "空", "港"}, // 2 KANJI
	{"a", "b", "c", "Z", "\"", "\\", "<", "&"},                        // 3 ALPHA
	{"1", "2", "０"}, // 4 NUMERIC
	{"あ", "い", "う", "の", "は", "す", "も"}, // 5 HIRAGANA
	{"ア", "イ", "ウ", "ー"},                // 6 KATAKANA
}

var categoryNames = []string{"DEFAULT", "SPACE", "KANJI", "ALPHA", "NUMERIC", "HIRAGANA", "KATAKANA"}

func category(r rune) byte {
	switch {
	case r == ' ' || r == '　' || r == '\t' || r == '\n' || r == '\r':
		return 1
	case unicode.Is(unicode.Han, r):
		return 2
	case r < 128 && unicode.IsLetter(r), r == '"', r == '\\', r == '<', r == '&':
		return 3
	case unicode.IsDigit(r):
		return 4
	case unicode.Is(unicode.Hiragana, r):
		return 5
	case unicode.Is(unicode.Katakana, r) || r == 'ー':
		return 6
	}
	return 0
}

var categories [3][]byte

// charCategory is a table of categories. Dictionaries do not agree on every
// character.
func charCategory(kind int) []byte {
	if categories[kind] == nil {
		t := make([]byte, 0x10000)
		for i := range t {
			t[i] = category(rune(i))
			switch {
			case kind == 1 && i%3 == 0 && i > ' ':
				t[i] = byte((int(t[i]) + i) % len(categoryNames))
			case kind == 2 && t[i] >= 2:
				t[i] = 8 - t[i]
			}
		}
		categories[kind] = t
	}
	return categories[kind]
}

func pick[T any](g *gen, list []T) T { return list[g.n(len(list))] }

type gen struct{ s uint64 }

func (g *gen) n(n int) int {
	g.s = simrt.Mix(g.s, "x")
	return int(g.s % uint64(n))
}

func (g *gen) between(lo, hi int) int { return lo + g.n(hi-lo+1) }

// Build makes a dictionary.
func build(o dictOpts) *Dic {
	g := &gen{o.seed}
	var alpha []string
	for _, c := range chars {
		alpha = append(alpha, c...)
	}
	words := map[string]bool{}
	small := chars[5][:4]
	for len(words) < o.words {
		src := alpha
		switch g.n(4) {
		case 0:
			src = small
		case 1:
			src = chars[2]
		case 2:
			src = chars[3+g.n(4)]
		}
		n := 1 + g.n(3)
		if g.n(8) == 0 {
			n = 1 + g.n(12)
		}
		w := ""
		for i := 0; i < n; i++ {
			w += pick(g, src)
		}
		words[w] = true
	}
	for _, w := range []string{"BOS", "EOS", "a\nb", "\\\"", "東京都", "関西国際空港", "<b>&amp;", "名詞\a"} {
		if g.n(2) == 0 && !strings.Contains(w, "\a") && !strings.Contains(w, "\n") {
			words[w] = true
		}
	}
	var keys []string
	for w := range words {
		keys = append(keys, w)
	}
	sort.Strings(keys)
	var dup []string
	for _, w := range keys {
		dup = append(dup, w)
		for g.n(4) == 0 {
			dup = append(dup, w)
		}
	}
	keys = dup

	d := &dict.Dict{}
	ret := &Dic{Name: o.name, D: d, Words: map[string][]int{}}
	for i := 0; i < o.ids; i++ {
		for j := 0; j < o.ids; j++ {
			c := o.round(g.between(-o.maxC, o.maxC))
			if o.extreme {
				c = 32767
			}
			d.Connection.Vec = append(d.Connection.Vec, int16(c))
		}
	}
	d.Connection.Row, d.Connection.Col = int64(o.ids), int64(o.ids)
	morph := func() dict.Morph {
		w := o.round(g.between(-o.maxW, o.maxW))
		if o.extreme {
			w = 32767
		}
		return dict.Morph{LeftID: int16(g.n(o.ids)), RightID: int16(g.n(o.ids)), Weight: int16(w)}
	}
	d.POSTable.NameList = append([]string(nil), posNames...)
	for i, w := range keys {
		ret.Words[w] = append(ret.Words[w], i)
		if l := len(w); l > ret.maxLen {
			ret.maxLen = l
		}
		d.Morphs = append(d.Morphs, morph())
		pos := make(dict.POS, 4)
		for k := range pos {
			pos[k] = dict.POSID(4)
			if k < 2 || g.n(3) == 0 {
				pos[k] = dict.POSID(g.n(len(posNames)))
			}
		}
		d.POSTable.POSs = append(d.POSTable.POSs, pos)
		if !o.shrink {
			d.Contents = append(d.Contents, []string{
				fmt.Sprintf("%s型%d", o.name, g.n(3)), fmt.Sprintf("形%d", g.n(3)),
				fmt.Sprintf("%s基%d", o.name, i), fmt.Sprintf("ヨミ%d", i), fmt.Sprintf("ハツ%d", i)})
		}
	}
	if !o.noMeta {
		d.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 4, dict.InflectionalType: 4,
			dict.InflectionalForm: 5, dict.BaseFormIndex: 6, dict.ReadingIndex: 7, dict.PronunciationIndex: 8}
	}
	idx, err := dict.BuildIndexTable(keys)
	if err != nil {
		panic(err)
	}
	d.Index = idx
	d.CharClass = categoryNames
	d.CharCategory = charCategory(max(0, g.n(5)-2))
	for i := range categoryNames {
		d.InvokeList = append(d.InvokeList, g.n(2) == 0)
		d.GroupList = append(d.GroupList, i == 0 || g.n(3) > 0)
	}
	d.UnkDict.Index = map[int32]int32{}
	d.UnkDict.IndexDup = map[int32]int32{}
	d.UnkDict.ContentsMeta = dict.ContentsMeta{dict.POSStartIndex: 0, dict.POSHierarchy: 4, dict.InflectionalType: 4,
		dict.InflectionalForm: 5, dict.BaseFormIndex: 6}
	depth := 7
	switch g.n(5) {
	case 0:
		d.UnkDict.ContentsMeta = dict.ContentsMeta{}
	case 1:
		d.UnkDict.ContentsMeta[dict.POSStartIndex] = 1
		depth = 5 + g.n(3)
	case 2:
		depth = 3 + g.n(3)
	}
	for i := range categoryNames {
		d.UnkDict.Index[int32(i)] = int32(len(d.UnkDict.Morphs))
		n := 1 + g.n(3)
		if n > 1 {
			d.UnkDict.IndexDup[int32(i)] = int32(n - 1)
		}
		for k := 0; k < n; k++ {
			d.UnkDict.Morphs = append(d.UnkDict.Morphs, morph())
			d.UnkDict.Contents = append(d.UnkDict.Contents, []string{pick(g, posNames), pick(g, posNames), "*", "*", "*", "*", fmt.Sprintf("%s未%d", o.name, len(d.UnkDict.Contents))}[7-depth:])
		}
	}
	d.SetInfo(&dict.Info{Name: o.name})
	ret.Alpha = alpha
	ret.sum = ret.fingerprint()
	return ret
}

type sum uint64

func (h *sum) num(n int) {
	*h = (*h ^ sum(n)) * 0x100000001b3
	*h ^= *h >> 29
}

func (h *sum) str(s string) {
	h.num(len(s))
	for i := 0; i < len(s); i++ {
		*h = (*h ^ sum(s[i])) * 0x100000001b3
	}
}

func (h *sum) strs(l []string) {
	h.num(len(l))
	for _, s := range l {
		h.str(s)
	}
}

func (h *sum) meta(m dict.ContentsMeta) {
	var t int
	for k, v := range m {
		x := sum(1)
		x.str(k)
		x.num(int(v))
		t += int(x)
	}
	h.num(t)
}

func (h *sum) ints(m map[int32]int32) {
	var t int
	for k, v := range m {
		x := sum(1)
		x.num(int(k))
		x.num(int(v))
		t += int(x)
	}
	h.num(t)
}

func (h *sum) morphs(l dict.Morphs) {
	for _, m := range l {
		h.num(int(m.LeftID)<<32 ^ int(m.RightID)<<16 ^ int(m.Weight))
	}
}

func (d *Dic) fingerprint() uint64 {
	h := new(sum)
	x := d.D
	h.morphs(x.Morphs)
	h.strs(x.POSTable.NameList)
	for _, p := range x.POSTable.POSs {
		for _, id := range p {
			h.num(int(id))
		}
	}
	h.meta(x.ContentsMeta)
	for _, c := range x.Contents {
		h.strs(c)
	}
	for _, v := range x.Connection.Vec {
		h.num(int(v))
	}
	for i := range x.InvokeList {
		if x.InvokeList[i] {
			h.num(i)
		}
	}
	for i := range x.GroupList {
		if x.GroupList[i] {
			h.num(i)
		}
	}
	h.morphs(x.UnkDict.Morphs)
	h.ints(x.UnkDict.Index)
	h.ints(x.UnkDict.IndexDup)
	h.meta(x.UnkDict.ContentsMeta)
	for _, c := range x.UnkDict.Contents {
		h.strs(c)
	}
	h.ints(x.Index.Dup)
	h.strs(x.CharClass)
	h.str(string(x.CharCategory[:0x100]))
	h.str(string(x.CharCategory[0x3000:0x3100]))
	return uint64(*h)
}

func (u *UDic) fingerprint() uint64 {
	h := new(sum)
	for _, c := range u.D.Contents {
		h.strs(c.Tokens)
		h.strs(c.Yomi)
		h.str(c.Pos)
	}
	h.ints(u.D.Index.Dup)
	return uint64(*h)
}

// Intact tells whether the dictionary still has the contents it was built with.
func (d *Dic) Intact() bool { return d == nil || d.fingerprint() == d.sum }

// Twin is a dictionary of its own with the same contents.
func (d *Dic) Twin() *Dic {
	t, x := *d, *d.D
	t.D, t.shrunk = &x, nil
	return &t
}

// Twin is a user dictionary of its own with the same contents.
func (u *UDic) Twin() *UDic {
	t, x := *u, *u.D
	t.D = &x
	return &t
}

// Intact tells whether the user dictionary still has the contents it was built with.
func (u *UDic) Intact() bool { return u == nil || u.fingerprint() == u.sum }

var variants = []dictOpts{
	{seed: 11, words: 40, maxW: 3, maxC: 2, ids: 3},                     // many ties
	{seed: 12, words: 60, maxW: 6000, maxC: 3000, ids: 6},               // ordinary
	{seed: 13, words: 25, maxW: 32767, maxC: 32767, ids: 4},             // wide costs
	{seed: 14, words: 120, maxW: 9000, maxC: 6000, ids: 8},              // dense
	{seed: 15, words: 12, maxW: 50, maxC: 50, ids: 2},                   // mostly unknown words
	{seed: 16, words: 30, maxW: 0, maxC: 0, ids: 1},                     // everything ties
	{seed: 17, words: 30, ids: 2, extreme: true},                        // costs reach the ceiling
	{seed: 18, words: 45, maxW: 4000, maxC: 3000, ids: 5, shrink: true}, // no contents
	{seed: 19, words: 50, maxW: 4000, maxC: 1500, step: 100, ids: 4},    // ties with the penalties
}

func (o *dictOpts) round(v int) int {
	if o.step > 1 {
		return v / o.step * o.step
	}
	return v
}

// Variants is how many dictionaries there are.
const Variants = 9

var cache = map[string]*Dic{}

// Get returns a dictionary: variant selects its shape, copy its identity (two
// copies of one variant share nothing and differ in words, costs and contents).
func Get(variant, cp int) *Dic {
	key := fmt.Sprintf("v%dc%d", variant, cp)
	if d := cache[key]; d != nil {
		return d
	}
	o := variants[variant]
	o.name = key
	o.seed = simrt.Mix(o.seed, fmt.Sprint(cp))
	d := build(o)
	cache[key] = d
	return d
}

// Forget drops damaged dictionaries, so that the next run starts from sound ones.
func Forget() {
	for k, d := range cache {
		if !d.Intact() {
			delete(cache, k)
		}
	}
	for k, d := range ucache {
		if !d.Intact() {
			delete(ucache, k)
		}
	}
}

var ucache = map[int]*UDic{}

// GetUser returns a user dictionary.
func GetUser(n int) *UDic {
	if u := ucache[n]; u != nil {
		return u
	}
	g := &gen{simrt.Mix(77, fmt.Sprint(n))}
	var lines []string
	seen := map[string]bool{}
	add := func(w string) {
		if w == "" || seen[w] || strings.ContainsAny(w, ",# \t　\n\"") {
			return
		}
		seen[w] = true
		var toks, yomi []string
		k := 1 + g.n(3)
		for i := 0; i < k; i++ {
			toks = append(toks, fmt.Sprintf("u%d分%d", n, g.n(9)))
			yomi = append(yomi, fmt.Sprintf("u%d読%d", n, g.n(9)))
		}
		lines = append(lines, fmt.Sprintf("%s,%s,%s,u%d品詞%d", w, strings.Join(toks, " "), strings.Join(yomi, " "), n, g.n(4)))
	}
	for len(seen) < 4+g.n(8) {
		src := chars[2+g.n(5)]
		if g.n(2) == 0 {
			src = chars[5][:3]
		}
		w := ""
		for i := 1 + g.n(4); i > 0; i-- {
			w += pick(g, src)
		}
		add(w)
	}
	src := "# user dictionary\n" + strings.Join(lines, "\n") + "\n"
	u := loadUser(fmt.Sprintf("u%d", n), src)
	ucache[n] = u
	return u
}

func loadUser(name, src string) *UDic {
	r, err := dict.NewUserDicRecords(strings.NewReader(src))
	if err != nil {
		panic(err)
	}
	ud, err := r.NewUserDict()
	if err != nil {
		panic(err)
	}
	u := &UDic{Name: name, D: ud, Words: map[string]int{}, Source: src}
	for i, rec := range r { // sorted by NewUserDict
		u.Words[rec.Text] = i
		if len(rec.Text) > u.maxLen {
			u.maxLen = len(rec.Text)
		}
	}
	u.sum = u.fingerprint()
	return u
}

// UserNames lists the user dictionary's words in order.
func (u *UDic) UserNames() []string {
	var ret []string
	for w := range u.Words {
		ret = append(ret, w)
	}
	sort.Strings(ret)
	return ret
}

// WordList lists the dictionary's words in order.
func (d *Dic) WordList() []string {
	var ret []string
	for w := range d.Words {
		ret = append(ret, w)
	}
	sort.Strings(ret)
	return ret
}

func runes(s string) int { return utf8.RuneCountInString(s) }

// Shrink is the dictionary without contents.
func (d *Dic) Shrink() *Dic {
	if d.shrunk == nil {
		c := *d
		dd := *d.D
		dd.Contents = nil
		c.D = &dd
		c.Name += "-shrink"
		c.sum = c.fingerprint()
		d.shrunk = &c
	}
	return d.shrunk
}
