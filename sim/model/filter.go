package model

import (
	"os"
	"path/filepath"
	"strings"

	"verifsim/simrt"
)

// Any is the wildcard of feature patterns.
const Any = "\x00"

// Patterns is a set of feature patterns.
type Patterns [][]string

// Clear tells whether the documentation leaves no doubt what the patterns
// match: the effect of a wildcard among several patterns depends on their order.
func (p Patterns) Clear() bool {
	if len(p) <= 1 {
		return true
	}
	for _, q := range p {
		for _, f := range q {
			if f == Any {
				return false
			}
		}
	}
	return true
}

// Match tells whether one of the patterns is a prefix of the features.
func (p Patterns) Match(fs []string) bool {
	for _, q := range p {
		if len(q) == 0 || len(q) > len(fs) {
			continue
		}
		ok := true
		for i := range q {
			if q[i] != Any && q[i] != fs[i] {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// PatternsFor makes patterns that hit the synthetic dictionaries now and then.
func PatternsFor(st *simrt.Stream) Patterns {
	var ret Patterns
	any := st.Chance(1, 4)
	n, junk := st.N(5), 0
	if st.Chance(1, 4) { // many, most of which match nothing
		n, junk = st.Between(8, 40), st.Between(1, 3)
		if st.Chance(1, 30) {
			n = st.Between(50, 400)
		}
	}
	for ; n > 0; n-- {
		var q []string
		for k := st.Between(1, 4); k > 0; k-- {
			if any && st.Chance(1, 3) {
				q = append(q, Any)
			} else if junk > 0 && st.Chance(junk, 4) {
				q = append(q, simrt.Sprintf("品詞%d", st.N(30)))
			} else {
				q = append(q, posNames[st.N(len(posNames))])
			}
		}
		ret = append(ret, q)
	}
	return ret
}

// WordsFor chooses words for a word filter.
func WordsFor(st *simrt.Stream, t Tk) []string {
	words := t.D.words()
	var ret []string
	n := st.N(12)
	if st.Chance(1, 100) {
		n = st.Between(50, 400)
	}
	for ; n > 0; n-- {
		switch st.N(3) {
		case 0:
			ret = append(ret, words[st.N(len(words))])
		case 1:
			ret = append(ret, t.D.Alpha[st.N(len(t.D.Alpha))])
		case 2:
			ret = append(ret, odd[st.N(len(odd))])
		}
	}
	return ret
}

// Has tells whether a list contains a word.
func Has(list []string, w string) bool {
	for _, v := range list {
		if v == w {
			return true
		}
	}
	return false
}

// Ja is a Japanese token filter as the model sees it.
type Ja struct {
	Base, Stop Patterns
	Words      []string
}

// Clear: see Patterns.
func (j Ja) Clear() bool { return j.Base.Clear() && j.Stop.Clear() }

// Stops tells whether a token is dropped.
func (j Ja) Stops(t Tk, k Tok) bool { return j.Stop.Match(t.POS(k)) || Has(j.Words, k.Surface) }

// Yield is the expected word list.
func (j Ja) Yield(t Tk, ks []Tok) []string {
	var ret []string
	for _, k := range ks {
		if j.Stops(t, k) {
			continue
		}
		if j.Base.Match(t.POS(k)) {
			if b, ok := t.Named(k, "_base"); ok {
				ret = append(ret, b)
			}
			continue
		}
		ret = append(ret, k.Surface)
	}
	return ret
}

// DefaultJa reads the lists that come with the repository; false if they are
// not where they used to be.
func DefaultJa(repo string) (Ja, bool) {
	ret := Ja{Base: Patterns{{"動詞"}, {"形容詞"}, {"形容動詞"}}}
	tags, ok1 := listFile(filepath.Join(repo, "filter/ja/asset/stop_tags.txt"))
	words, ok2 := listFile(filepath.Join(repo, "filter/ja/asset/stop_words.txt"))
	if !ok1 || !ok2 {
		return ret, false
	}
	for _, t := range tags {
		p := strings.Split(t, "-")
		for len(p) < 4 {
			p = append(p, "*")
		}
		ret.Stop = append(ret.Stop, p)
	}
	ret.Words = words
	return ret, true
}

func listFile(name string) ([]string, bool) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, false
	}
	var ret []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSuffix(l, "\r")
		l, _, _ = strings.Cut(l, "#")
		if l != "" {
			ret = append(ret, l)
		}
	}
	return ret, true
}
