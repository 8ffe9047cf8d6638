package harness

import (
	"fmt"
	"strings"

	"verifsim/rt"
)

// Dialects.
const (
	sqlite = iota
	postgres
	mysql
)

// Script is a generated DDL script with its statement boundaries.
type Script struct {
	Dialect int
	Lead    string
	Stmts   []string // each ends with its semicolon
	IsTable []bool
	Seps    []string // trivia after each statement
}

func (s *Script) Text() string {
	var b strings.Builder
	b.WriteString(s.Lead)
	for i := range s.Stmts {
		b.WriteString(s.Stmts[i])
		b.WriteString(s.Seps[i])
	}
	return b.String()
}

// Ends are the offsets just after each statement's semicolon.
func (s *Script) Ends() []int {
	n := len(s.Lead)
	var e []int
	for i := range s.Stmts {
		n += len(s.Stmts[i])
		e = append(e, n)
		n += len(s.Seps[i])
	}
	return e
}

// gen produces scripts.  Its knobs are drawn per run (swarm style), so runs
// differ in which syntax they concentrate on.
type gen struct {
	r        *rt.Rng
	d        int
	names    []string
	size     int // 0 tiny .. 3 large
	comments int // percent
	quotes   int
	lower    int
	richness int // percent for optional clauses
	exotic   int // percent for unusual content of names, literals, comments
	big      bigness
	toks     []string
}

// bigness stretches one dimension of a script far beyond the usual.
type bigness struct {
	columns, constraints, colList, depth, exprLen, strLen, comment, blanks int
}

var namePool = []string{
	"users", "orders", "items", "id", "user_id", "nm", "email", "b", "x1", "created_at", "tbl", "Users", "USERS",
	"primary_x", "check1", "uniqueid", "default_v", "tableau", "references_to", "begin_at", "end_at", "constraint_1", "create_date", "i18n", "T",
	"_p", "zzz", "order_id", "qty", "Email", "col_2", "memo", "ref_id", "parent", "status", "amount",
}

// hints are words that look like a sign of some dialect, wherever they stand.
var hints = []string{
	"AUTO_INCREMENT", "ENGINE=InnoDB", "SERIAL", "AUTOINCREMENT", "WITHOUT ROWID", "::text", "nextval(", "UNSIGNED", "JSONB", "TIMESTAMPTZ", "PRAGMA foreign_keys",
	"CHARSET=utf8", "DELIMITER", "MySQL dump", "PostgreSQL database dump", "SQLite", "BYTEA", "STRICT", "COMMENT", "TINYINT", "auto_increment", "serial", "engine",
}

func newGen(r *rt.Rng, d int) *gen {
	g := &gen{r: r, d: d}
	n := 2 + r.Intn(6)
	for i := 0; i < n; i++ {
		g.names = append(g.names, namePool[r.Intn(len(namePool))])
	}
	if r.Chance(10) {
		g.names = append(g.names, strings.Repeat("long_", 12+r.Intn(20))+"x")
	}
	if n, ok := lex.name(r, 50); ok {
		g.names[r.Intn(len(g.names))] = n
	}
	if n, ok := lex.near(r, 15, 3000); ok { // a name of that length
		i := r.Intn(len(g.names))
		g.names[i] = (g.names[i] + strings.Repeat("_x", n))[:n]
	}
	switch k := r.Intn(100); {
	case k < 40:
		g.size = 0
	case k < 75:
		g.size = 1
	case k < 94:
		g.size = 2
	default:
		g.size = 3
	}
	g.comments = []int{0, 0, 2, 8}[r.Intn(4)]
	g.quotes = []int{0, 10, 40, 90}[r.Intn(4)]
	g.lower = []int{0, 100, 50}[r.Intn(3)]
	g.richness = []int{10, 30, 50, 80}[r.Intn(4)]
	g.exotic = []int{0, 0, 5, 25}[r.Intn(4)]
	return g
}

func (g *gen) p(pct int) bool { return g.r.Chance(pct) }
func (g *gen) rich() bool     { return g.r.Chance(g.richness) }
func (g *gen) pick(ss ...string) string {
	return ss[g.r.Intn(len(ss))]
}

// kw emits keywords (space separated) in upper or lower case.
func (g *gen) kw(s string) {
	for _, w := range strings.Fields(s) {
		if g.p(g.lower) {
			w = strings.ToLower(w)
		}
		g.toks = append(g.toks, w)
	}
}

func (g *gen) t(s ...string) { g.toks = append(g.toks, s...) }

func (g *gen) rawName() string {
	n := g.names[g.r.Intn(len(g.names))]
	if g.p(15) {
		n += fmt.Sprint(g.r.Intn(4))
	}
	return n
}

func (g *gen) qname() string {
	n := g.rawName()
	if g.p(g.exotic) {
		n = g.pick(n+" x", "日本語", n+".y", n+",z", "a(b", "c)d", n+";", "--"+n, "/*"+n, "SELECT", "primary", "é"+n, "x#y", "1st", "a-b", "*")
	}
	return n
}

func (g *gen) nameTok() string {
	if !g.p(g.quotes) {
		return g.rawName()
	}
	q := "\""
	switch g.d {
	case sqlite:
		q = g.pick("\"", "`")
	case mysql:
		q = "`"
	}
	return q + g.qname() + q
}

func (g *gen) name() { g.t(g.nameTok()) }

func (g *gen) tableName() {
	if g.p(15) {
		g.t(g.nameTok(), ".")
	}
	g.name()
}

func (g *gen) str() string {
	q := "'"
	if g.d == mysql && g.p(30) {
		q = "\""
	}
	if g.big.strLen > 0 && g.p(30) {
		return q + strings.Repeat(g.pick("x", "ab ", "日", "a;", "(,)"), g.big.strLen/3) + q
	}
	if w, ok := lex.word(g.r, 25); ok {
		if w = g.pick(w, w+" x", "x "+w); !strings.ContainsAny(w, "'\"`") {
			return q + w + q
		}
	}
	s := g.pick("abc", "x y", "", "now", "0", "utf8", "A,B", "(", ")", ";", "2020-01-01", "Y", "N")
	if g.p(4) {
		s = hints[g.r.Intn(len(hints))]
	}
	if g.p(g.exotic) {
		s = g.pick("日本", "-- no", "/* no */", "a;b", "#", "x\ty", "é", "CREATE TABLE", "\\", "line1\nline2")
		if q == "'" && g.p(20) {
			s = "in \"q\" out"
		}
	}
	return q + s + q
}

func (g *gen) num() string {
	if n, ok := lex.near(g.r, 15, 1<<30); ok {
		return itoa(n)
	}
	if g.p(6) {
		return g.pick("1234567890", "12345678901", "-987654321098", "123456789012345678901234567890", "1e300", "1e-300", "123456789e9", "16777217", "4294967296", "9007199254740993")
	}
	return g.pick("0", "1", "10", "-1", "3", "007", "100", "1e3", "+5", "255", "0x1F", "NaN", "inf")
}

func (g *gen) posInt() string {
	if n, ok := lex.near(g.r, 20, 1<<30); ok {
		return itoa(n)
	}
	if g.p(2) {
		return g.pick("65535", "65536", "2147483647", "4294967296", "1099511627777", "9223372036854775807", "000012", "+7")
	}
	return g.pick("1", "2", "5", "10", "20", "255", "100")
}

func (g *gen) expr(depth int) {
	g.t("(")
	n := 1 + g.r.Intn(3)
	if g.size == 3 && g.p(5) {
		n += g.r.Intn(30)
	}
	if g.big.exprLen > 0 && depth == 0 {
		n += g.big.exprLen
	}
	deep := 0
	if depth == 0 {
		deep = g.big.depth
	}
	for i := 0; i < deep; i++ {
		if g.p(30) {
			g.t(g.rawName())
		}
		g.t("(")
	}
	for i := 0; i < n; i++ {
		switch k := g.r.Intn(10); {
		case k < 4:
			g.t(g.rawName(), g.pick(">", "<", "=", ">=", "<>", "+", "||", "*", "/", "-", "==", "%"), g.num())
		case k < 5:
			g.t(g.str())
		case k < 6 && depth < 7:
			g.t(g.rawName())
			g.expr(depth + 1)
		case k < 7 && depth < 6:
			g.expr(depth + 1)
		case k < 8:
			g.kw(g.pick("AND", "OR", "NOT", "IN", "LIKE", "BETWEEN", "IS NULL", "CASE WHEN", "DEFAULT", "PRIMARY KEY"))
		case k < 9:
			g.t(",")
		default:
			g.t(g.rawName(), ".", g.rawName())
		}
	}
	for i := 0; i < deep; i++ {
		g.t(")")
	}
	g.t(")")
}

func (g *gen) literal() {
	switch g.r.Intn(4) {
	case 0:
		if n := g.num(); n != "0x1F" {
			g.t(n)
		} else {
			g.t("1")
		}
	case 1:
		g.t(g.str())
	default:
		g.kw(g.pick("NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"))
	}
}

func (g *gen) cols(max int) {
	g.t("(")
	n := 1 + g.r.Intn(max)
	if g.size == 3 && g.p(10) {
		n += g.r.Intn(40)
	}
	if g.big.colList > 0 {
		n += g.big.colList
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		g.name()
	}
	g.t(")")
}

func (g *gen) digitsN() {
	if g.p(50) {
		g.t("(", g.posInt(), ")")
	}
}

func (g *gen) digitsPS() {
	if g.p(60) {
		g.t("(", g.posInt())
		if g.p(60) {
			g.t(",", g.posInt())
		}
		g.t(")")
	}
}

func (g *gen) colType() {
	switch g.d {
	case sqlite:
		g.kw(g.pick("TEXT", "NUMERIC", "INTEGER", "REAL", "NONE"))
	case postgres:
		switch g.r.Intn(7) {
		case 0:
			g.kw(g.pick("BIT", "CHARACTER", "BIT VARYING", "CHARACTER VARYING"))
			g.digitsN()
		case 1:
			g.kw(g.pick("VARBIT", "VARCHAR", "CHAR"))
			g.digitsN()
		case 2:
			g.kw(g.pick("NUMERIC", "DECIMAL"))
			g.digitsPS()
		case 3:
			g.kw("DOUBLE PRECISION")
		case 4:
			g.kw(g.pick("TIME", "TIMESTAMP"))
			g.digitsN()
			if g.p(40) {
				g.kw(g.pick("WITH TIME ZONE", "WITHOUT TIME ZONE"))
			}
		default:
			g.kw(g.pick("BIGINT", "INT8", "SERIAL", "BIGSERIAL", "BOOLEAN", "BYTEA", "DATE", "INTEGER", "INT", "INT4", "JSON", "JSONB", "TEXT", "UUID", "REAL", "SMALLINT", "TIMESTAMPTZ", "XML", "MONEY", "INET", "POINT", "TSVECTOR", "TEXT", "INTEGER"))
		}
	case mysql:
		switch g.r.Intn(6) {
		case 0:
			g.kw(g.pick("VARCHAR", "CHAR", "BINARY", "VARBINARY", "BLOB", "TEXT"))
			g.digitsN()
		case 1:
			g.kw(g.pick("NUMERIC", "DECIMAL", "FLOAT", "REAL", "DOUBLE"))
			g.digitsPS()
		case 2:
			g.kw(g.pick("BIT", "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT"))
			g.digitsN()
		case 3:
			g.kw(g.pick("TIME", "DATETIME", "TIMESTAMP", "YEAR"))
			g.digitsN()
			if g.p(15) {
				g.kw(g.pick("WITH TIME ZONE", "WITHOUT TIME ZONE"))
			}
		default:
			g.kw(g.pick("SERIAL", "BOOL", "BOOLEAN", "DATE", "JSON", "POINT", "TEXT", "INTEGER", "GEOMETRY"))
		}
	}
}

func (g *gen) conflict() {
	if g.d == sqlite && g.rich() {
		g.kw("ON CONFLICT " + g.pick("ROLLBACK", "ABORT", "FAIL", "IGNORE", "REPLACE"))
	}
}

func (g *gen) refTail() {
	for g.rich() && g.p(60) {
		switch g.r.Intn(3) {
		case 0:
			g.kw("ON " + g.pick("DELETE", "UPDATE") + " " + g.pick("SET NULL", "SET DEFAULT", "CASCADE", "RESTRICT", "NO ACTION"))
		case 1:
			g.kw("MATCH " + g.pick("SIMPLE", "PARTIAL", "FULL"))
		default:
			if g.d == sqlite {
				if g.p(40) {
					g.kw("NOT")
				}
				g.kw("DEFERRABLE")
				if g.p(50) {
					g.kw("INITIALLY " + g.pick("DEFERRED", "IMMEDIATE"))
				}
			}
		}
	}
}

func (g *gen) refs(multi bool) {
	g.kw("REFERENCES")
	g.tableName()
	if g.p(80) || (g.d == mysql && multi) {
		if multi {
			g.cols(3)
		} else {
			g.t("(")
			g.name()
			g.t(")")
		}
	}
	g.refTail()
}

func (g *gen) indexParams() {
	if g.p(20) {
		g.kw("INCLUDE")
		g.cols(2)
	}
	if g.p(15) {
		g.kw("WITH")
		g.t("(", "fillfactor", "=", "70", ")")
	}
	if g.p(15) {
		g.kw("USING INDEX TABLESPACE")
		g.name()
	}
}

func (g *gen) colConstraint(k int) {
	switch g.d {
	case sqlite:
		switch k {
		case 0:
			g.kw("PRIMARY KEY")
			if g.p(20) {
				g.kw(g.pick("ASC", "DESC"))
			}
			g.conflict()
			if g.p(40) {
				g.kw("AUTOINCREMENT")
			}
		case 1:
			g.kw("NOT NULL")
			g.conflict()
		case 2:
			g.kw("UNIQUE")
			g.conflict()
		case 3:
			g.kw("CHECK")
			g.expr(0)
		case 4:
			g.kw("DEFAULT")
			if g.p(40) {
				g.expr(0)
			} else {
				g.literal()
			}
		case 5:
			g.kw("COLLATE " + g.pick("BINARY", "NOCASE", "RTRIM"))
		case 6:
			g.refs(false)
		case 7:
			if g.p(50) {
				g.kw("GENERATED ALWAYS")
			}
			g.kw("AS")
			g.expr(0)
			if g.p(50) {
				g.kw(g.pick("STORED", "VIRTUAL"))
			}
		}
	case postgres:
		switch k {
		case 0:
			g.kw("PRIMARY KEY")
			g.indexParams()
		case 1:
			g.kw(g.pick("NOT NULL", "NULL"))
		case 2:
			g.kw("UNIQUE")
			g.indexParams()
		case 3:
			g.kw("CHECK")
			g.expr(0)
			if g.p(20) {
				g.kw("NO INHERIT")
			}
		case 4:
			g.kw("DEFAULT")
			if g.p(40) {
				g.expr(0)
			} else {
				g.literal()
			}
		case 7: // one GENERATED per column
		case 5:
			switch g.r.Intn(3) {
			case 0:
				g.kw("GENERATED ALWAYS AS")
				g.expr(0)
				g.kw("STORED")
			case 1:
				g.kw("GENERATED ALWAYS AS IDENTITY")
				if g.p(40) {
					g.t("(", "START", "WITH", "1", ")")
				}
			default:
				g.kw(g.pick("GENERATED BY DEFAULT AS IDENTITY", "GENERATED AS IDENTITY"))
				if g.p(40) {
					g.t("(", "INCREMENT", "BY", "2", ")")
				}
			}
		case 6:
			g.refs(false)
		}
	case mysql:
		switch k {
		case 0:
			g.kw(g.pick("PRIMARY KEY", "KEY"))
		case 1:
			g.kw(g.pick("NOT NULL", "NULL"))
		case 2:
			g.kw(g.pick("UNIQUE", "UNIQUE KEY"))
		case 3:
			g.kw("CHECK")
			g.expr(0)
			if g.p(25) {
				g.kw(g.pick("ENFORCED", "NOT ENFORCED"))
			}
		case 4:
			g.kw("DEFAULT")
			if g.p(30) {
				g.expr(0)
			} else {
				g.literal()
				if g.p(20) {
					g.kw("ON UPDATE CURRENT_TIMESTAMP")
				}
			}
		case 5:
			g.kw("COLLATE")
			g.name()
		case 6:
			g.refs(false)
		case 7:
			switch g.r.Intn(7) {
			case 0:
				g.kw("AUTO_INCREMENT")
			case 6:
				g.kw(g.pick("ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE"))
				if g.p(50) {
					g.t("=")
				}
				g.t(g.str())
			case 1:
				g.kw("COMMENT")
				g.t(g.str())
			case 2:
				g.kw("COLUMN_FORMAT " + g.pick("FIXED", "DYNAMIC", "DEFAULT"))
			case 3:
				g.kw("STORAGE " + g.pick("DISK", "MEMORY"))
			case 4:
				g.kw(g.pick("VISIBLE", "INVISIBLE"))
			default:
				if g.p(50) {
					g.kw("GENERATED ALWAYS")
				}
				g.kw("AS")
				g.expr(0)
				if g.p(50) {
					g.kw(g.pick("STORED", "VIRTUAL"))
				}
			}
		}
	}
}

func (g *gen) column() {
	g.name()
	g.colType()
	n := 0
	for n < 8 && g.rich() {
		n++
	}
	if n > 0 && g.p(12) {
		g.kw("CONSTRAINT")
		g.name()
	}
	start := g.r.Intn(8)
	step := 3
	if g.d == sqlite {
		step = 5 // SQLite takes a NOT after REFERENCES for NOT DEFERRABLE
	}
	for i := 0; i < n; i++ {
		g.colConstraint((start + i*step) % 8)
	}
}

func (g *gen) keyParts() {
	g.t("(")
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		if g.p(10) {
			g.expr(1)
		} else {
			g.name()
			if g.p(15) {
				g.t("(", g.posInt(), ")")
			}
		}
		if g.p(15) {
			g.kw(g.pick("ASC", "DESC"))
		}
	}
	g.t(")")
}

func (g *gen) indexOption() {
	for g.p(15) {
		switch g.r.Intn(6) {
		case 5:
			g.kw(g.pick("ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE"))
			if g.p(50) {
				g.t("=")
			}
			g.t(g.str())
		case 0:
			g.kw("KEY_BLOCK_SIZE")
			if g.p(50) {
				g.t("=")
			}
			g.t("8")
		case 1:
			g.kw("USING " + g.pick("BTREE", "HASH"))
		case 2:
			g.kw("COMMENT")
			g.t(g.str())
		case 3:
			g.kw(g.pick("VISIBLE", "INVISIBLE"))
		default:
			g.kw("WITH PARSER")
			g.name()
		}
	}
}

func (g *gen) tableConstraint() {
	named := g.p(35)
	if named {
		g.kw("CONSTRAINT")
		g.name()
	} else if g.d == mysql && g.p(5) {
		g.kw("CONSTRAINT")
		named = true
	}
	k := g.r.Intn(4)
	if g.d == postgres && g.p(10) {
		g.kw("EXCLUDE")
		if g.p(50) {
			g.kw("USING")
			g.name()
		}
		g.expr(0)
		g.indexParams()
		if g.p(30) {
			g.kw("WHERE")
			g.expr(0)
		}
		return
	}
	if g.d == mysql && !named && g.p(35) {
		switch g.r.Intn(3) {
		case 0, 1:
			g.kw(g.pick("INDEX", "KEY"))
			if g.p(60) {
				g.name()
			}
			if g.p(20) {
				g.kw("USING " + g.pick("BTREE", "HASH"))
			}
		default:
			g.kw(g.pick("FULLTEXT", "SPATIAL"))
			if g.p(50) {
				g.kw(g.pick("INDEX", "KEY"))
			}
			if g.p(60) {
				g.name()
			}
		}
		g.keyParts()
		g.indexOption()
		return
	}
	switch k {
	case 0:
		g.kw("PRIMARY KEY")
		if g.d == mysql {
			if g.p(15) {
				g.kw("USING BTREE")
			}
			g.keyParts()
			g.indexOption()
		} else {
			g.cols(3)
		}
		if g.d == sqlite {
			g.conflict()
		} else if g.d == postgres {
			g.indexParams()
		}
	case 1:
		g.kw("UNIQUE")
		if g.d == mysql {
			if g.p(40) {
				g.kw(g.pick("INDEX", "KEY"))
				if g.p(50) {
					g.name()
				}
			}
			if g.p(15) {
				g.kw("USING " + g.pick("BTREE", "HASH"))
			}
			g.keyParts()
			g.indexOption()
		} else {
			g.cols(3)
		}
		if g.d == sqlite {
			g.conflict()
		} else if g.d == postgres {
			g.indexParams()
		}
	case 2:
		g.kw("CHECK")
		g.expr(0)
		if g.d == postgres && g.p(20) {
			g.kw("NO INHERIT")
		}
	default:
		g.kw("FOREIGN KEY")
		if g.d == mysql && g.p(20) {
			g.name()
		}
		g.cols(3)
		g.refs(true)
	}
}

func (g *gen) options() {
	switch g.d {
	case sqlite:
		switch g.r.Intn(8) {
		case 0:
			g.kw("WITHOUT ROWID")
		case 1:
			g.kw("STRICT")
		case 2:
			g.kw("WITHOUT ROWID")
			g.t(",")
			g.kw("STRICT")
		case 3:
			g.kw("STRICT")
			g.t(",")
			g.kw("WITHOUT ROWID")
		}
	case postgres:
		for g.p(20) {
			switch g.r.Intn(6) {
			case 0:
				g.kw("WITH")
				g.t("(", "fillfactor", "=", "70", ")")
			case 1:
				g.kw("WITHOUT OIDS")
			case 2:
				g.kw("TABLESPACE")
				g.name()
			case 3:
				g.kw("INHERITS")
				g.cols(2)
			case 4:
				g.kw("PARTITION BY " + g.pick("RANGE", "LIST", "HASH"))
				g.cols(2)
			default:
				g.kw("USING")
				g.name()
			}
		}
	case mysql:
		for g.p(35) {
			eq := func() {
				if g.p(60) {
					g.t("=")
				}
			}
			switch g.r.Intn(14) {
			case 10:
				g.kw(g.pick("AUTOEXTEND_SIZE", "AVG_ROW_LENGTH", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES"))
				eq()
				g.t(g.posInt())
			case 11:
				g.kw(g.pick("ENGINE_ATTRIBUTE", "PASSWORD", "SECONDARY_ENGINE_ATTRIBUTE", "CONNECTION", "COMPRESSION", "ENCRYPTION"))
				eq()
				g.t(g.str())
			case 12:
				g.kw(g.pick("PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT"))
				eq()
				g.kw(g.pick("0", "1", "DEFAULT"))
			case 13:
				g.kw("INSERT_METHOD")
				eq()
				g.kw(g.pick("NO", "FIRST", "LAST"))
			case 0:
				g.kw("ENGINE")
				eq()
				g.t("InnoDB")
			case 1:
				g.kw("DEFAULT CHARACTER SET")
				eq()
				g.t("utf8mb4")
			case 2:
				g.kw("COMMENT")
				eq()
				g.t(g.str())
			case 3:
				g.kw("AUTO_INCREMENT")
				eq()
				g.t("100")
			case 4:
				g.kw("ROW_FORMAT")
				eq()
				g.kw(g.pick("DYNAMIC", "COMPACT"))
			case 5:
				g.kw(g.pick("CHECKSUM", "DELAY_KEY_WRITE"))
				eq()
				g.t(g.pick("0", "1"))
			case 6:
				g.kw("TABLESPACE")
				g.name()
				if g.p(50) {
					g.kw("STORAGE DISK")
				}
			case 7:
				g.kw("UNION")
				eq()
				g.t("(", "t1", ",", "t2", ")")
			case 8:
				g.kw("DATA DIRECTORY")
				eq()
				g.t("'/x'")
			default:
				g.kw("COLLATE")
				eq()
				g.t("utf8_bin")
			}
			if g.p(20) {
				g.t(",")
				g.kw("ENGINE")
				g.t("InnoDB")
			}
		}
	}
}

func (g *gen) createTable() {
	g.kw("CREATE")
	if g.d == sqlite && g.p(10) {
		g.kw(g.pick("TEMP", "TEMPORARY"))
	}
	g.kw("TABLE")
	if g.p(30) {
		g.kw("IF NOT EXISTS")
	}
	g.tableName()
	g.t("(")
	n := 1
	switch g.size {
	case 0:
		n = 1 + g.r.Intn(2)
	case 1:
		n = 1 + g.r.Intn(4)
	case 2:
		n = 2 + g.r.Intn(7)
	case 3:
		n = 5 + g.r.Intn(40)
	}
	n += g.big.columns
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		g.column()
	}
	m := 0
	if g.rich() {
		m = 1 + g.r.Intn(1+g.size*2)
	}
	m += g.big.constraints
	for i := 0; i < m; i++ {
		g.t(",")
		g.tableConstraint()
		if g.p(10) {
			g.t(",")
			g.column()
		}
	}
	g.t(")")
	if g.rich() {
		g.options()
	}
	g.t(";")
}

func (g *gen) createOther() {
	g.kw("CREATE")
	switch g.d {
	case sqlite:
		switch g.r.Intn(3) {
		case 0:
			g.kw("VIEW")
			g.t(g.rawName())
			g.kw("AS SELECT")
			g.t("*")
			g.kw("FROM")
			g.t(g.rawName())
		case 1:
			g.kw(g.pick("INDEX", "UNIQUE INDEX"))
			g.t(g.rawName())
			g.kw("ON")
			g.t(g.rawName())
			g.cols(2)
		default:
			g.kw("TRIGGER")
			g.t(g.rawName())
			g.kw("AFTER UPDATE ON")
			g.t(g.rawName())
			g.kw("BEGIN UPDATE")
			g.t(g.rawName())
			g.kw("SET")
			g.t(g.rawName(), "=", "1", ";")
			if g.p(30) {
				g.kw("CREATE TABLE")
				g.t("x", "(", "y", "TEXT", ")", ";")
			}
			g.kw("END")
		}
	case postgres:
		switch g.r.Intn(3) {
		case 0:
			g.kw("INDEX")
			g.t(g.rawName())
			g.kw("ON")
			g.t(g.rawName())
			g.cols(2)
		case 1:
			g.kw("TYPE")
			g.t(g.rawName())
			g.kw("AS ENUM")
			g.t("(", "'a'", ",", "'b'", ")")
		default:
			g.kw("FUNCTION")
			g.t(g.rawName(), "(", ")")
			g.kw("RETURNS TRIGGER AS")
			g.t("$$")
			g.kw("BEGIN")
			g.t("x", ":=", "1", ";")
			g.kw("RETURN NEW")
			g.t(";")
			g.kw("END")
			if g.p(5) {
				g.t(";")
			}
			g.t("$$")
			g.kw("LANGUAGE plpgsql")
			if g.p(50) { // the simple form
				g.toks = g.toks[:0]
				g.kw("CREATE SEQUENCE")
				g.t(g.rawName())
			}
		}
	case mysql:
		switch g.r.Intn(3) {
		case 0:
			g.kw("VIEW")
			g.t(g.rawName())
			g.kw("AS SELECT")
			g.t("1")
		case 1:
			g.kw("UNIQUE INDEX")
			g.t(g.rawName())
			g.kw("ON")
			g.t(g.rawName())
			g.cols(2)
		default:
			g.kw("TRIGGER")
			g.t(g.rawName())
			g.kw("BEFORE INSERT ON")
			g.t(g.rawName())
			g.kw("FOR EACH ROW BEGIN SET")
			g.t("NEW", ".", g.rawName(), "=", "1", ";")
			g.kw("END")
		}
	}
	g.t(";")
}

// comment gives a comment that ends in a state where any token may follow.
func (g *gen) comment() string {
	body := g.pick(" note ", "x", " CREATE TABLE t ", " a, b; ", "", " 'q' ", " it is ", " ( ", " = ")
	if g.p(g.exotic) {
		body = g.pick(" don't ", " \" ", " ` ", " 日本語 ", " ; ) ; ", " - ", " -- ", " # ")
	}
	if g.p(10) {
		body = " " + hints[g.r.Intn(len(hints))]
	}
	if w, ok := lex.word(g.r, 25); ok && !strings.Contains(w, "*") && !strings.Contains(w, "/") {
		body = g.pick(" ", "") + w + g.pick(" ", "", " x")
	}
	if n := g.big.comment; n > 0 && g.p(20) {
		body = strings.Repeat(g.pick("x", " it is; ", "=", "(", "日本 "), n/5)
	}
	switch k := g.r.Intn(4); {
	case k < 2:
		return "--" + strings.ReplaceAll(body, "\n", " ") + "\n"
	case k == 2 && g.d == mysql:
		return "#" + body + "\n"
	default:
		if g.p(30) {
			body += "\n more\n"
		}
		if n := g.big.comment; n > 0 && g.p(20) {
			body += strings.Repeat("\n line", n/20)
		}
		return "/*" + body + "*/"
	}
}

func (g *gen) trivia(must bool) string {
	var b strings.Builder
	if must {
		b.WriteString(g.pick(" ", " ", " ", " ", "\n", "\n\t", "  ", "\t", " \n"))
	} else if g.p(20) {
		b.WriteString(g.pick(" ", "\n", "  ", "\t"))
	}
	if g.big.blanks > 0 && g.p(3) {
		b.WriteString(strings.Repeat(g.pick("\n", " ", "\t", "\n\n ", " \n"), g.big.blanks))
	}
	for g.p(g.comments) {
		b.WriteString(g.comment())
		if g.p(40) {
			b.WriteString(g.pick(" ", "\n", "\t"))
		}
	}
	return b.String()
}

func isPunct(t string) bool {
	return t == "(" || t == ")" || t == "," || t == "." || t == ";"
}

// render joins tokens with trivia.
func (g *gen) render() string {
	var b strings.Builder
	for i, t := range g.toks {
		if i > 0 {
			prev := g.toks[i-1]
			glue := isPunct(prev) || isPunct(t)
			sep := g.trivia(!glue)
			// A token that could merge with its neighbour keeps a blank.
			if sep == "" && !glue {
				sep = " "
			}
			b.WriteString(sep)
		}
		b.WriteString(t)
	}
	return b.String()
}

func (g *gen) stmt() (string, bool) {
	g.toks = g.toks[:0]
	table := true
	if g.p(12) {
		g.createOther()
		table = false
	} else {
		g.createTable()
	}
	return g.render(), table
}

func (g *gen) script() *Script {
	s := &Script{Dialect: g.d}
	n := 1
	switch k := g.r.Intn(100); {
	case k < 45:
	case k < 85:
		n = 2 + g.r.Intn(3)
	case k < 97:
		n = 4 + g.r.Intn(5)
	default:
		if g.size <= 1 {
			n = 10 + g.r.Intn(20)
		}
	}
	if g.size == 3 && n > 2 {
		n = 2
	}
	s.Lead = g.trivia(false)
	if g.p(15) {
		s.Lead = "\n" + s.Lead
	}
	for i := 0; i < n; i++ {
		st, table := g.stmt()
		s.Stmts = append(s.Stmts, st)
		s.IsTable = append(s.IsTable, table)
		s.Seps = append(s.Seps, g.trivia(g.p(60)))
	}
	return s
}

// bigScript gives a script that is far out in one dimension (up to some 15 KB).
func bigScript(r *rt.Rng, d int) *Script {
	g := newGen(r, d)
	if g.size > 1 {
		g.size = 1
	}
	g.richness = 10 + r.Intn(30)
	n := 1 + r.Intn(2)
	rep := false
	switch r.Intn(12) {
	case 0:
		g.big.columns = 30 + r.Intn(270)
		g.richness = 10
	case 1:
		g.size, g.richness = 0, 10
		n = 20 + r.Intn(120)
	case 2:
		for i := range g.names {
			g.names[i] = strings.Repeat(g.pick("n", "long_", "ab1"), 20+r.Intn(100)) + g.names[i]
		}
	case 3:
		g.big.strLen = 300 + r.Intn(4000)
		g.richness = 80
	case 4:
		g.comments = 8
		g.big.comment = 500 + r.Intn(4000)
	case 5:
		g.big.depth = 8 + r.Intn(60)
		g.richness = 60
	case 6:
		g.big.exprLen = 30 + r.Intn(300)
		g.richness = 60
	case 7:
		g.big.colList = 20 + r.Intn(200)
		g.big.constraints = 1 + r.Intn(4)
	case 8:
		g.big.constraints = 10 + r.Intn(60)
	case 9:
		g.big.blanks = 20 + r.Intn(300)
	case 10:
		n, rep = 3+r.Intn(40), true
	default:
		g.big.columns = r.Intn(60)
		g.big.depth = r.Intn(12)
		g.big.strLen = r.Intn(300)
		g.big.blanks = r.Intn(20)
		n = 1 + r.Intn(8)
	}
	if v, ok := lex.near(r, 60, 4000); ok {
		g.big, g.size, g.richness, n, rep = bigness{}, 0, 15, 1, false
		switch r.Intn(9) {
		case 0:
			g.big.columns = v
		case 1, 2:
			n, rep = v, v > 300
		case 3:
			g.big.constraints = min(v, 1000)
		case 4:
			g.big.colList = v
			g.big.constraints = 1
		case 5:
			g.big.depth, g.richness = v, 60
		case 6:
			g.big.exprLen, g.richness = v, 60
		case 7:
			g.big.strLen, g.richness = 3*v, 80
		case 8:
			g.big.blanks = v
		}
	}
	s := &Script{Dialect: g.d, Lead: g.trivia(false)}
	for i := 0; i < n; i++ {
		st, table := g.stmt()
		if rep && i > 0 {
			st, table = s.Stmts[0], s.IsTable[0]
		}
		s.Stmts = append(s.Stmts, st)
		s.IsTable = append(s.IsTable, table)
		s.Seps = append(s.Seps, g.trivia(g.p(60)))
	}
	return s
}

// ambiguous gives scripts that several dialects accept, some with different
// tables.
func ambiguous(r *rt.Rng) string {
	g := newGen(r, r.Intn(3))
	g.d = sqlite
	g.quotes = 0
	g.toks = nil
	g.kw("CREATE TABLE")
	g.t(g.rawName(), "(")
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		g.t(g.rawName())
		g.kw(g.pick("TEXT", "INTEGER", "REAL", "NUMERIC", "INT", "BIGINT", "VARCHAR", "TEXT", "INTEGER"))
		if g.p(40) {
			g.kw("CHECK")
			g.t("(", g.rawName(), "#", g.rawName(), "\n", ">", g.num(), ")")
		}
		if g.p(15) { // MySQL drops what follows the condition
			g.kw("CHECK")
			g.t("(", g.rawName(), ">", g.num(), ")")
		}
		if g.p(30) {
			g.kw("NOT NULL")
		}
		if g.p(40) {
			g.kw("DEFAULT")
			g.t(g.pick("'a'", "1", "NULL", "'b'", "TRUE", "'"+hints[g.r.Intn(len(hints))]+"'"))
		}
		if g.p(15) {
			g.kw("UNIQUE")
		}
	}
	g.t(")", ";")
	s := strings.Join(g.toks, " ")
	if g.p(20) {
		h := hints[g.r.Intn(len(hints))]
		s = g.pick("-- "+h+"\n"+s, "/* "+h+" */"+s, s+" -- "+h)
	}
	if g.p(25) {
		s += "\n" + "# tail"
	}
	if g.p(20) { // statements that a MySQL comment hides, or uncovers
		v := "CREATE " + g.pick("VIEW", "INDEX", "TRIGGER") + " " + g.rawName() + " "
		switch g.r.Intn(4) {
		case 0: // only MySQL sees the tables between
			s = v + "# BEGIN\n;\n" + s + "\n" + v + g.pick("END;", "# END\n;")
		case 1: // only MySQL does not see this one
			s = v + "#; CREATE TABLE h1 (c INTEGER); " + v + "\n;\n" + s
		case 2:
			s = s + "\n" + v + "#; CREATE TABLE h2 (c INTEGER); " + v + "\n;"
		case 3: // hidden from none
			s = v + "BEGIN # END;\n x; END;\n" + s
		}
	}
	return s
}
