// Command lexicon writes down the words of a tree (instr/known.txt): those that
// are nothing new to the checks.
package main

import (
	"fmt"
	"os"
	"sort"

	"verifsim/instr"
)

func main() {
	dir, err := os.MkdirTemp("", "lexicon")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	res, err := instr.Run(os.Args[1], dir, instr.Full, os.Environ())
	if err != nil {
		panic(err)
	}
	sort.Strings(res.Lex.Words)
	last := ""
	for _, w := range res.Lex.Words {
		if w != last {
			fmt.Printf("%q\n", w)
		}
		last = w
	}
	fmt.Fprintln(os.Stderr, res.Lex.Ints, res.Lex.Durs)
}
