package harness

import (
	"regexp"
	"strings"

	"verifsim/rt"
)

// lexicon is what the code under test mentions and the generators do not know
// (instr.Lexicon).  On the tree the checks were written for it is empty.
type lexicon struct {
	Words []string `json:"words"`
	Ints  []int    `json:"ints"`
	Durs  []int64  `json:"durs"`
}

var lex lexicon

var plainWord = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

// word gives a word of the code under test, ok with the given percentage.
func (x *lexicon) word(r *rt.Rng, pct int) (string, bool) {
	if len(x.Words) == 0 || !r.Chance(pct) {
		return "", false
	}
	return x.Words[r.Intn(len(x.Words))], true
}

// name gives a bare name made of such a word.
func (x *lexicon) name(r *rt.Rng, pct int) (string, bool) {
	w, ok := x.word(r, pct)
	if !ok {
		return "", false
	}
	w = strings.Trim(w, " \t\n'\"`()")
	n := namePool[r.Intn(len(namePool))]
	switch r.Intn(8) {
	case 0:
		w = strings.ToUpper(w)
	case 1:
		w = strings.ToLower(w)
	case 2:
		w = w + "_" + n
	case 3:
		w = n + "_" + w
	case 4:
		w = n + w
	case 5:
		w = w + n
	}
	return w, plainWord.MatchString(w)
}

// near gives a number next to one that the code mentions, at most max.
func (x *lexicon) near(r *rt.Rng, pct, max int) (int, bool) {
	if len(x.Ints) == 0 || !r.Chance(pct) {
		return 0, false
	}
	n := x.Ints[r.Intn(len(x.Ints))] + []int{0, 1, -1, 0, 1, 2}[r.Intn(6)]
	return n, n > 0 && n <= max
}

// jump gives a time span next to one that the code mentions.
func (x *lexicon) jump(r *rt.Rng, pct int) (int64, bool) {
	if len(x.Durs) == 0 || !r.Chance(pct) {
		return 0, false
	}
	d := x.Durs[r.Intn(len(x.Durs))]
	switch r.Intn(5) {
	case 0:
		d /= 2
	case 1:
		d--
	case 2:
		d++
	case 3:
		d += d / 10
	}
	return d, d > 0
}
