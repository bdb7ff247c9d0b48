// Package minisql is a small in-memory SQL engine exposed as a database/sql
// driver. It is the environment generated code is run against: it parses the
// statement text in the strict grammar of one dialect, binds the arguments,
// executes against typed tables, and logs what it saw. Everything it accepts
// is accepted by the real database of that dialect; many things the real
// database would coerce silently are errors here.
package minisql

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Dialect int

const (
	MySQL Dialect = iota
	Postgres
	SQLite
)

func (d Dialect) String() string { return [...]string{"mysql", "postgres", "sqlite"}[d] }

func ParseDialect(s string) Dialect {
	switch s {
	case "mysql":
		return MySQL
	case "postgres":
		return Postgres
	case "sqlite":
		return SQLite
	}
	panic("dialect " + s)
}

type TokKind int

const (
	TEOF TokKind = iota
	TIdent
	TQuoted // quoted identifier
	TNumber
	TString
	TParam
	TOp
)

type Token struct {
	Kind TokKind
	Text string // identifier as it denotes (folded for unquoted), operator, number text
	Str  string // decoded string literal
	N    int    // parameter number, from 1 (0 for ?)
	Pos  int
	End  int
	Raw  string
}

type SyntaxError struct{ Msg string }

func (e *SyntaxError) Error() string { return "minisql: syntax error: " + e.Msg }

func synerr(f string, a ...any) error { return &SyntaxError{fmt.Sprintf(f, a...)} }

func isIdentStart(c rune) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func isIdentPart(c rune) bool { return isIdentStart(c) || c >= '0' && c <= '9' || c == '$' }

// Lex splits src into the tokens of dialect d.
func Lex(d Dialect, src string) ([]Token, error) {
	if !utf8.ValidString(src) {
		return nil, synerr("statement text is not UTF-8")
	}
	if strings.IndexByte(src, 0) >= 0 {
		return nil, synerr("NUL in statement text")
	}
	var toks []Token
	i := 0
	add := func(t Token) { t.Raw = src[t.Pos:t.End]; toks = append(toks, t) }
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '\'' || (c == '"' && d == MySQL) || ((c == 'E' || c == 'e') && d == Postgres && i+1 < len(src) && src[i+1] == '\''):
			start := i
			esc := d == MySQL
			q := c
			if c == 'E' || c == 'e' {
				esc, q = true, '\''
				i++
			}
			i++
			var b strings.Builder
			closed := false
			for i < len(src) {
				ch := src[i]
				if ch == q {
					if i+1 < len(src) && src[i+1] == q {
						b.WriteByte(q)
						i += 2
						continue
					}
					closed = true
					i++
					break
				}
				if ch == '\\' && esc {
					n, err := unescape(d, src[i:], &b)
					if err != nil {
						return nil, err
					}
					i += n
					continue
				}
				b.WriteByte(ch)
				i++
			}
			if !closed {
				return nil, synerr("unterminated string")
			}
			add(Token{Kind: TString, Str: b.String(), Pos: start, End: i})
		case (c == 'x' || c == 'X') && i+1 < len(src) && src[i+1] == '\'':
			j := strings.IndexByte(src[i+2:], '\'')
			if j < 0 {
				return nil, synerr("unterminated hex string")
			}
			hex := src[i+2 : i+2+j]
			var b []byte
			if len(hex)%2 != 0 {
				return nil, synerr("odd hex string")
			}
			for k := 0; k < len(hex); k += 2 {
				v, err := strconv.ParseUint(hex[k:k+2], 16, 8)
				if err != nil {
					return nil, synerr("bad hex string")
				}
				b = append(b, byte(v))
			}
			add(Token{Kind: TString, Str: string(b), Pos: i, End: i + 3 + j})
			i += 3 + j
		case c == '`' && (d == MySQL || d == SQLite) || c == '"' && d != MySQL:
			start := i
			i++
			var b strings.Builder
			closed := false
			for i < len(src) {
				if src[i] == c {
					if i+1 < len(src) && src[i+1] == c {
						b.WriteByte(c)
						i += 2
						continue
					}
					closed = true
					i++
					break
				}
				b.WriteByte(src[i])
				i++
			}
			if !closed || b.Len() == 0 {
				return nil, synerr("bad quoted identifier")
			}
			add(Token{Kind: TQuoted, Text: b.String(), Pos: start, End: i})
		case c == '?' && d != Postgres:
			add(Token{Kind: TParam, Pos: i, End: i + 1})
			i++
		case c == '$' && d == Postgres:
			j := i + 1
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			n, err := strconv.Atoi(src[i+1 : j])
			if err != nil || n < 1 || src[i+1] == '0' {
				return nil, synerr("bad parameter %q", src[i:j])
			}
			if j < len(src) {
				if r, _ := utf8.DecodeRuneInString(src[j:]); isIdentPart(r) {
					return nil, synerr("junk after parameter")
				}
			}
			add(Token{Kind: TParam, N: n, Pos: i, End: j})
			i = j
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			if j < len(src) && (src[j] == 'e' || src[j] == 'E') {
				k := j + 1
				if k < len(src) && (src[k] == '+' || src[k] == '-') {
					k++
				}
				if k < len(src) && src[k] >= '0' && src[k] <= '9' {
					for k < len(src) && src[k] >= '0' && src[k] <= '9' {
						k++
					}
					j = k
				}
			}
			if j < len(src) {
				if r, _ := utf8.DecodeRuneInString(src[j:]); isIdentPart(r) {
					return nil, synerr("junk after number %q", src[i:])
				}
			}
			if _, err := strconv.ParseFloat(src[i:j], 64); err != nil {
				if ne, ok := err.(*strconv.NumError); !ok || ne.Err != strconv.ErrRange {
					return nil, synerr("bad number %q", src[i:j])
				}
			}
			add(Token{Kind: TNumber, Text: src[i:j], Pos: i, End: j})
			i = j
		default:
			r, n := utf8.DecodeRuneInString(src[i:])
			if isIdentStart(r) {
				j := i + n
				for j < len(src) {
					r, n = utf8.DecodeRuneInString(src[j:])
					if !isIdentPart(r) {
						break
					}
					j += n
				}
				text := src[i:j]
				if d == Postgres {
					text = lowerASCII(text)
				}
				add(Token{Kind: TIdent, Text: text, Pos: i, End: j})
				i = j
				continue
			}
			two := ""
			if i+1 < len(src) {
				two = src[i : i+2]
			}
			if d == MySQL && strings.HasPrefix(src[i:], "<=>") {
				add(Token{Kind: TOp, Text: "<=>", Pos: i, End: i + 3})
				i += 3
				continue
			}
			switch two {
			case "<=", ">=", "<>", "!=":
				add(Token{Kind: TOp, Text: two, Pos: i, End: i + 2})
				i += 2
				continue
			case "--", "/*":
				return nil, synerr("comment in statement")
			}
			if strings.IndexByte("(),.;=<>*-+", c) < 0 {
				return nil, synerr("unexpected character %q at %d", r, i)
			}
			add(Token{Kind: TOp, Text: string(c), Pos: i, End: i + 1})
			i++
		}
	}
	toks = append(toks, Token{Kind: TEOF, Pos: len(src), End: len(src)})
	return toks, nil
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func unescape(d Dialect, s string, b *strings.Builder) (int, error) {
	if len(s) < 2 {
		return 0, synerr("dangling escape")
	}
	switch s[1] {
	case 'n':
		b.WriteByte('\n')
	case 't':
		b.WriteByte('\t')
	case 'r':
		b.WriteByte('\r')
	case 'b':
		b.WriteByte('\b')
	case '0':
		if d == MySQL {
			b.WriteByte(0)
			break
		}
		return octal(s, b)
	case 'Z':
		if d == MySQL {
			b.WriteByte(26)
		} else {
			b.WriteByte('Z')
		}
	case 'f':
		if d == Postgres {
			b.WriteByte('\f')
		} else {
			b.WriteByte('f')
		}
	case '%', '_':
		if d == MySQL {
			b.WriteByte('\\')
		}
		b.WriteByte(s[1])
	case 'x':
		if d == Postgres {
			j := 2
			for j < len(s) && j < 4 && strings.IndexByte("0123456789abcdefABCDEF", s[j]) >= 0 {
				j++
			}
			if j > 2 {
				v, _ := strconv.ParseUint(s[2:j], 16, 8)
				b.WriteByte(byte(v))
				return j, nil
			}
		}
		b.WriteByte('x')
	case 'u', 'U':
		if d == Postgres {
			n := 4
			if s[1] == 'U' {
				n = 8
			}
			if len(s) < 2+n {
				return 0, synerr("bad unicode escape")
			}
			v, err := strconv.ParseUint(s[2:2+n], 16, 32)
			if err != nil {
				return 0, synerr("bad unicode escape")
			}
			b.WriteRune(rune(v))
			return 2 + n, nil
		}
		b.WriteByte(s[1])
	default:
		if d == Postgres && s[1] >= '1' && s[1] <= '7' {
			return octal(s, b)
		}
		b.WriteByte(s[1])
	}
	return 2, nil
}

func octal(s string, b *strings.Builder) (int, error) {
	j := 1
	for j < len(s) && j < 4 && s[j] >= '0' && s[j] <= '7' {
		j++
	}
	v, _ := strconv.ParseUint(s[1:j], 8, 16)
	b.WriteByte(byte(v))
	return j, nil
}

var reservedCommon = words(`add all alter and as asc between by case check column constraint create cross
 current_date current_time current_timestamp default delete desc distinct drop else exists
 foreign from grant group having in index inner insert intersect into is join left like limit
 not null on or order outer primary references right select set table then to unique update
 using values when where with union`)

var reserved = map[Dialect]map[string]bool{
	MySQL: merge(reservedCommon, words(`accessible analyze asensitive before bigint binary blob both call cascade change char
 character collate condition continue convert cube cume_dist cursor database databases dec decimal declare delayed
 dense_rank describe div double dual each elseif empty enclosed escaped except exit explain false fetch first_value float
 for force fulltext function generated get groups high_priority if ignore infile insensitive int integer
 interval iterate key keys kill lag last_value lead leading leave lines load lock long longblob longtext loop match
 mediumint mod natural nth_value ntile numeric of optimize option optionally out over partition percent_rank precision
 procedure purge range rank read reads real recursive regexp release rename repeat replace require resignal restrict
 return revoke rlike row rows row_number schema schemas separator show signal smallint spatial specific sql ssl starting
 stored straight_join system terminated tinyint trailing trigger true undo unlock unsigned usage use
 varbinary varchar varying virtual while window write xor year_month zerofill`)),
	Postgres: merge(reservedCommon, words(`analyse analyze any array asymmetric authorization binary both cast collate
 collation concurrently current_role current_user deferrable do end except false fetch for freeze full ilike initially isnull
 lateral leading localtime localtimestamp natural notnull offset only overlaps placing returning session_user similar some
 symmetric tablesample trailing true user variadic verbose window`)),
	SQLite: merge(reservedCommon, words(`autoincrement collate commit deferrable escape except if isnull notnull nothing returning transaction`)),
}

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

func merge(a, b map[string]bool) map[string]bool {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}

// Reserved reports whether w, unquoted, cannot be a column or table name.
func Reserved(d Dialect, w string) bool { return reserved[d][lowerASCII(w)] }
