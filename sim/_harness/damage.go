package harness

import (
	"strings"

	"verifsim/rt"
)

// Fault kinds applied to a script between its store and the parser.
var damageKinds = []string{"cut", "cut-token", "flip-bit", "flip-byte", "lost-block", "dup-block", "swap-blocks", "zero-block", "foreign-block", "drop-token", "dup-token", "odd-token"}

// damage applies one fault.
func damage(r *rt.Rng, doc []byte, other []byte, count map[string]int) []byte {
	if len(doc) == 0 {
		return doc
	}
	kind := damageKinds[r.Intn(len(damageKinds))]
	if r.Chance(30) {
		kind = "cut-token"
	}
	if len(lex.Words) > 0 && r.Chance(20) {
		kind = "odd-token"
	}
	count[kind]++
	d := append([]byte(nil), doc...)
	blk := []int{1, 2, 4, 8, 16, 64, 512}[r.Intn(7)]
	at := r.Intn(len(d))
	end := at + blk
	if end > len(d) {
		end = len(d)
	}
	switch kind {
	case "cut":
		return d[:at]
	case "cut-token":
		toks := tokenEnds(d)
		return d[:toks[r.Intn(len(toks))]]
	case "flip-bit":
		d[at] ^= 1 << r.Intn(8)
	case "flip-byte":
		d[at] = []byte("\x00'\"`()-*/#,;.\n \t\xff\xe3A1=$\r\v\f\xa0\\[]{}")[r.Intn(30)]
	case "lost-block":
		return append(d[:at], d[end:]...)
	case "dup-block":
		return append(append(append([]byte(nil), d[:end]...), d[at:end]...), d[end:]...)
	case "swap-blocks":
		b2 := r.Intn(len(d))
		for i := 0; i < end-at && b2+i < len(d); i++ {
			d[at+i], d[b2+i] = d[b2+i], d[at+i]
		}
	case "zero-block":
		for i := at; i < end; i++ {
			d[i] = 0
		}
	case "foreign-block":
		if len(other) > 0 {
			o := r.Intn(len(other))
			copy(d[at:end], other[o:])
		}
	case "odd-token":
		odd := []string{"<EOF>", "\ufeff", "\r\n", "''", "\"\"", "``", "()", ";;", "*/", "/**/", "--", "/*", "99999999999999999999", "-", "\x00", "(((", ")))", "$$", "BEGIN", "END;", "NULL", "CREATE TABLE", "1e999", "ﬀ", "İ", "ſ", "K", "\u3000"}
		if w, ok := lex.word(r, 60); ok {
			odd = []string{w, w, " " + w + " "}
		}
		toks := tokenEnds(d)
		at := toks[r.Intn(len(toks))]
		o := odd[r.Intn(len(odd))]
		if r.Chance(50) {
			o = " " + o + " "
		}
		return append(append(append([]byte(nil), d[:at]...), o...), d[at:]...)
	case "drop-token", "dup-token":
		toks := tokenEnds(d)
		i := r.Intn(len(toks))
		from := 0
		if i > 0 {
			from = toks[i-1]
		}
		if kind == "drop-token" {
			return append(d[:from], d[toks[i]:]...)
		}
		tok := append([]byte(" "), d[from:toks[i]]...)
		return append(append(append([]byte(nil), d[:toks[i]]...), tok...), d[toks[i]:]...)
	}
	return d
}

// tokenEnds gives offsets after each token-like run.
func tokenEnds(d []byte) []int {
	var e []int
	word := false
	for i, c := range d {
		w := c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
		if word && !w {
			e = append(e, i)
		}
		if !w {
			e = append(e, i+1)
		}
		word = w
	}
	return append(e, len(d))
}

// variant gives a near duplicate: the kind of script a wrongly keyed cache or
// an interning table confuses with the original.
func variant(r *rt.Rng, doc string) string {
	if doc == "" {
		return doc
	}
	b := []byte(doc)
	switch r.Intn(20) {
	case 0, 1: // same length, one letter differs
		for try := 0; try < 40; try++ {
			i := r.Intn(len(b))
			if b[i] >= 'a' && b[i] <= 'y' {
				b[i]++
				break
			}
		}
	case 2: // last letter differs
		for i := len(b) - 1; i >= 0; i-- {
			if b[i] >= 'a' && b[i] <= 'y' {
				b[i]++
				break
			}
		}
	case 3: // one letter's case differs
		for try := 0; try < 40; try++ {
			i := r.Intn(len(b))
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
				break
			}
		}
	case 4: // a digit differs
		for try := 0; try < 80; try++ {
			i := r.Intn(len(b))
			if b[i] >= '1' && b[i] <= '8' {
				b[i]++
				break
			}
		}
	case 5: // line structure differs
		i := strings.IndexByte(doc[r.Intn(len(doc)):], ' ')
		if i >= 0 {
			return strings.Replace(doc, " ", "\n", 1+r.Intn(3))
		}
	case 6:
		return doc + "\n"
	case 7:
		return "\n" + doc
	case 8: // quoting differs
		return strings.ReplaceAll(doc, "`", "\"")
	case 10: // blanks inside, also inside quotes and comments
		i := r.Intn(len(doc))
		if j := strings.IndexByte(doc[i:], ' '); j >= 0 {
			return doc[:i+j] + []string{"  ", "\t", "\n"}[r.Intn(3)] + doc[i+j+1:]
		}
	case 11: // the text of a comment, or a comment more
		if r.Chance(50) {
			return doc + "-- note"
		}
		return strings.Replace(doc, ";", " /* x */;", 1)
	case 12: // all in the other case
		if r.Chance(50) {
			return strings.ToUpper(doc)
		}
		return strings.ToLower(doc)
	case 13: // the last statement missing
		if i := strings.LastIndexByte(strings.TrimRight(doc, "; \n\t"), ';'); i >= 0 {
			return doc[:i+1]
		}
	case 14: // twice
		if len(doc) < 1000 {
			return doc + "\n" + doc
		}
	case 15, 16: // same letters in another order, or another pair with the same polynomial hash
		for try := 0; try < 60; try++ {
			i := r.Intn(len(b))
			if i+1 >= len(b) || b[i] < 'a' || b[i] > 'y' || b[i+1] < 'a' || b[i+1] > 'z' {
				continue
			}
			if r.Chance(50) {
				b[i]++
				b[i+1] -= 31
			} else {
				b[i], b[i+1] = b[i+1], b[i]
			}
			break
		}
	case 17: // a dialect's own spelling
		return strings.NewReplacer("INTEGER", "INT", "integer", "int").Replace(doc)
	case 18, 19: // one word or number goes on, or stops, one character later
		for try := 0; try < 40; try++ {
			i := r.Intn(len(b))
			for i < len(b) && wordByte(b[i]) {
				i++
			}
			if i == 0 || !wordByte(b[i-1]) {
				continue
			}
			if r.Chance(50) {
				return doc[:i] + []string{"x", "0", "_", "9", "1"}[r.Intn(5)] + doc[i:]
			}
			return doc[:i-1] + doc[i:]
		}
	case 9: // broken at its very end
		return strings.TrimRight(doc, "; \n\t")
	}
	return string(b)
}

func wordByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}
