package main

import (
	_ "embed"
	"encoding/hex"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math/big"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// A dictionary for the generators, as fuzzers mine it: the constants of the
// sources under test that the sources this check was written for do not have.
// A condition on an unusual value needs that value somewhere in the code, so
// lengths, counts, bytes, numbers and texts around it are drawn more often.
// It changes what is generated only, never what is expected, and is empty for
// the sources known here.

//go:embed literals.txt
var knownLiterals string

// literals counts the constants of all non-test Go files below dir.
func literals(dir string) map[string]int {
	count := map[string]int{}
	fset := token.NewFileSet()
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); path != dir && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		if f, err := parser.ParseFile(fset, path, nil, 0); err == nil {
			countLiterals(f, count)
		}
		return nil
	})
	return count
}

// fold evaluates an expression of literals.
func fold(e ast.Expr) constant.Value {
	switch e := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(e.Value, e.Kind, 0)
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.UnaryExpr:
		if x := fold(e.X); x != nil && x.Kind() == constant.Int && (e.Op == token.SUB || e.Op == token.ADD) {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.BinaryExpr:
		x, y := fold(e.X), fold(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 600 && x.Kind() == constant.Int {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL:
			if x.Kind() == y.Kind() && (x.Kind() == constant.Int || e.Op == token.ADD && x.Kind() == constant.String) {
				return constant.BinaryOp(x, e.Op, y)
			}
		}
	}
	return nil
}

func countLiterals(f *ast.File, count map[string]int) {
	ast.Inspect(f, func(n ast.Node) bool {
		if _, ok := n.(*ast.ImportSpec); ok {
			return false
		}
		if c, ok := n.(*ast.CompositeLit); ok {
			var l []string
			for _, x := range c.Elts {
				if v := fold(x); v != nil && v.Kind() == constant.Int {
					l = append(l, v.ExactString())
				}
			}
			if len(l) == len(c.Elts) && len(l) > 1 && len(l) <= 64 {
				count["l:"+strings.Join(l, ".")]++
			}
			return true
		}
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		v := fold(e)
		if v == nil {
			return true
		}
		switch v.Kind() {
		case constant.Int:
			count["i:"+v.ExactString()]++
		case constant.String:
			count["s:"+strconv.Quote(constant.StringVal(v))]++
		}
		return true
	})
}

func literalLines(count map[string]int) string {
	var b strings.Builder
	for _, k := range sortedKeys(count) {
		fmt.Fprintf(&b, "%d %s\n", count[k], k)
	}
	return b.String()
}

type dictionary struct {
	ints  []int64    // constants, and those next to them
	lens  []int      // constants usable as a length
	bytes []byte     // constants usable as a byte
	bigs  []*big.Int // constants of any size
	strs  []string   // texts and byte lists
	oids  [][]int
}

var dict dictionary

// loadDict fills the dictionary with the constants of dir that are not known.
func loadDict(dir string) {
	if dir == "" {
		return
	}
	known := map[string]int{}
	for _, l := range strings.Split(knownLiterals, "\n") {
		if n, k, ok := strings.Cut(l, " "); ok {
			known[k] = atoi(n)
		}
	}
	now := literals(dir)
	for _, k := range sortedKeys(now) {
		if now[k] <= known[k] {
			continue
		}
		switch v := k[2:]; k[0] {
		case 'i':
			if n, ok := new(big.Int).SetString(v, 10); ok {
				dict.number(n)
			}
		case 's':
			if s, err := strconv.Unquote(v); err == nil {
				dict.text(s)
			}
		case 'l':
			var l []int
			var b []byte
			for _, x := range strings.Split(v, ".") {
				l = append(l, atoi(x))
				b = append(b, byte(atoi(x)))
			}
			dict.strs = append(dict.strs, string(b))
			if l[0] >= 0 && l[0] <= 2 && slices.Min(l) >= 0 && (l[1] < 40 || l[0] == 2) {
				dict.oids = append(dict.oids, l)
			}
		}
	}
	sort.Ints(dict.lens)
	dict.lens = slices.Compact(dict.lens)
}

func (d *dictionary) number(n *big.Int) {
	if n.CmpAbs(i64(4)) < 0 { // everything is full of these
		return
	}
	if n.BitLen() > 2 {
		d.bigs = append(d.bigs, n)
	}
	if !n.IsInt64() {
		return
	}
	v := n.Int64()
	d.ints = append(d.ints, v)
	if v > 0 && v <= 1<<24 {
		d.lens = append(d.lens, int(v))
	}
	if v >= -128 && v <= 255 {
		d.bytes = append(d.bytes, byte(v))
	}
}

func (d *dictionary) text(s string) {
	if s == "" || len(s) > 300 {
		return
	}
	d.strs = append(d.strs, s)
	if b, err := hex.DecodeString(s); err == nil && len(b) > 3 {
		d.strs = append(d.strs, string(b))
		d.bigs = append(d.bigs, new(big.Int).SetBytes(b))
	}
	if n, ok := new(big.Int).SetString(s, 10); ok {
		d.number(n)
	}
	var oid []int
	for _, x := range strings.Split(s, ".") {
		if n, err := strconv.Atoi(x); err == nil && n >= 0 {
			oid = append(oid, n)
		} else {
			return
		}
	}
	if len(oid) > 2 && oid[0] <= 2 && (oid[1] < 40 || oid[0] == 2) {
		d.oids = append(d.oids, oid)
	}
}

// dictInt draws a number from a to b next to a constant.
func dictInt(t *rapid.T, l string, a, b int) (int, bool) {
	if len(dict.ints) == 0 || b-a < 8 {
		return 0, false
	}
	var c []int
	for _, v := range dict.ints {
		for _, n := range []int64{v, v - 1, v + 1, -v} {
			if int64(a) <= n && n <= int64(b) {
				c = append(c, int(n))
			}
		}
	}
	if len(c) == 0 || !coin(t, l+".dict", 1, 6) {
		return 0, false
	}
	return pick(t, l+".dictv", c...), true
}

// dictLen draws a length up to max, or rarely up to beyond, next to a constant
// or a multiple of one.
func dictLen(t *rapid.T, l string, max, beyond int) (int, bool) {
	if len(dict.lens) == 0 || !coin(t, l+".dict", 1, 5) {
		return 0, false
	}
	n := pick(t, l+".dictn", dict.lens...)
	if coin(t, l+".dictmul", 1, 3) && n <= max {
		n *= intR0(t, l+".dictk", 1, max/n)
		n += pick(t, l+".dictr", dict.lens...) % (n + 1)
	}
	n += pick(t, l+".dicto", 0, 0, 1, -1, 2)
	if n > max && (n > beyond || n > 3000 && !coin(t, l+".dictbig", 1, 4)) {
		return 0, false
	}
	return n, n >= 0
}

// dictFill writes constants into some places of b.
func dictFill(t *rapid.T, l string, b []byte) {
	if len(b) == 0 || len(dict.bigs)+len(dict.strs) == 0 || !coin(t, l+".dict", 1, 4) {
		return
	}
	var c [][]byte
	for _, v := range dict.bytes {
		c = append(c, []byte{v})
	}
	for _, v := range dict.bigs {
		x := v.Bytes()
		y := slices.Clone(x)
		slices.Reverse(y)
		c = append(c, x, y)
	}
	for _, v := range dict.strs {
		c = append(c, []byte(v))
	}
	for i := intR0(t, l+".dictc", 1, 3); i > 0; i-- {
		v := c[intR0(t, l+".dicti", 0, len(c)-1)]
		if len(v) > len(b) {
			v = v[:len(b)]
		}
		last := len(b) - len(v)
		pos := pick(t, l+".dictp", 0, last, intR0(t, l+".dictq", 0, last))
		if len(dict.lens) > 0 && coin(t, l+".dictat", 1, 4) {
			pos = min(last, pick(t, l+".dicta", dict.lens...))
		}
		if len(v) == 1 && coin(t, l+".dictall", 1, 6) {
			for k := range b {
				b[k] = v[0]
			}
		}
		copy(b[pos:], v)
	}
}

// dictBig draws a number next to a constant, or of that many bits, or a
// multiple of it.
func dictBig(t *rapid.T, l string) *big.Int {
	if len(dict.bigs) == 0 || !coin(t, l+".dict", 1, 5) {
		return nil
	}
	v := new(big.Int).Set(dict.bigs[intR0(t, l+".dicti", 0, len(dict.bigs)-1)])
	v.Abs(v)
	switch intR0(t, l+".dictk", 0, 4) {
	case 0:
		if v.IsInt64() && v.Int64() <= 600 {
			b := uint(v.Int64())
			return v.SetBit(bmod(new(big.Int).SetBytes(randBytes(u64(t, l+".dicts"), int(b)/8+1)), new(big.Int).Lsh(bigOne, b)), int(b)-1, 1)
		}
	case 1:
		return v.Mul(v, i64(int64(intR0(t, l+".dictm", 1, 1<<30))))
	case 2: // as the low or high end
		r := new(big.Int).SetBytes(randBytes(u64(t, l+".dicts"), 32))
		n := (uint(v.BitLen()) + 7) &^ 7
		if n < 256 {
			if coin(t, l+".dicth", 1, 2) {
				return r.Add(r.Rsh(r, n), v.Lsh(v, 256-n))
			}
			return r.Add(r.Lsh(r.Rsh(r, n), n), v)
		}
	}
	return v.Add(v, i64(int64(intR0(t, l+".dicto", -1, 1))))
}

// dictText draws a text made of a constant whose characters are all allowed.
func dictText(t *rapid.T, l string, allowed func(r rune) bool) (string, bool) {
	var c []string
	for _, s := range dict.strs {
		if len(s) > 0 && utf8.ValidString(s) && strings.IndexFunc(s, func(r rune) bool { return !allowed(r) }) < 0 {
			c = append(c, s)
		}
	}
	for _, b := range dict.bytes {
		if r := rune(b); b < 0x80 && allowed(r) {
			c = append(c, string(r))
		}
	}
	if len(c) == 0 || !coin(t, l+".dict", 1, 6) {
		return "", false
	}
	s := pick(t, l+".dictv", c...)
	switch intR0(t, l+".dictk", 0, 3) {
	case 0:
		s += "a"
	case 1:
		s = "a" + s
	case 2:
		s = strings.Map(func(r rune) rune {
			if u := unicode.ToUpper(r); allowed(u) && u != r {
				return u
			} else if u := unicode.ToLower(r); allowed(u) {
				return u
			}
			return r
		}, s)
	}
	return s, true
}

func allowedIn(set string) func(r rune) bool {
	return func(r rune) bool {
		return r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || strings.ContainsRune(set, r)
	}
}

func dictOID(t *rapid.T, l string) ([]int, bool) {
	if len(dict.oids) == 0 || !coin(t, l+".dict", 1, 5) {
		return nil, false
	}
	o := slices.Clone(pick(t, l+".dictv", dict.oids...))
	if coin(t, l+".dictnear", 1, 4) {
		o[len(o)-1] += intR0(t, l+".dicto", -min(1, o[len(o)-1]), 1)
	}
	return o, true
}

// maxLen is the largest constant usable as a length up to limit, or 0.
func (d *dictionary) maxLen(limit int) (n int) {
	for _, v := range d.lens {
		if v <= limit {
			n = max(n, v)
		}
	}
	return
}

func init() { loadDict(os.Getenv("GMVERIF_SOURCES")) }

// dictSecs draws a time next to a constant: a number of seconds or a year.
func dictSecs(t *rapid.T, l string) (int64, bool) {
	if len(dict.ints) == 0 || !coin(t, l+".dict", 1, 5) {
		return 0, false
	}
	v := pick(t, l+".dictv", dict.ints...)
	if v > 0 && v < 9999 && coin(t, l+".dicty", 3, 4) {
		v = time.Date(int(v), time.Month(intR0(t, l+".month", 1, 12)), intR0(t, l+".day", 1, 31), intR0(t, l+".hour", 0, 23), intR0(t, l+".min", 0, 59), intR0(t, l+".sec", 0, 59), 0, time.UTC).Unix()
		if coin(t, l+".dictb", 1, 3) {
			v = time.Date(time.Unix(v, 0).UTC().Year(), 1, 1, 0, 0, 0, 0, time.UTC).Unix()
		}
	}
	v += int64(intR0(t, l+".dicto", -1, 1))
	return v, v > -62135596800 && v < 253402300799
}

// dictBlocks replaces a number of 16-byte blocks by one next to a constant.
func dictBlocks(t *rapid.T, l string, n int) int {
	if k, ok := dictLen(t, l, 130, 70000); ok {
		if k > 4200 || coin(t, l+".dictbytes", 1, 2) {
			k = (k + 8) / 16
		}
		return k
	}
	return n
}
