// Package scanner is a stand-in for github.com/boynton/scanner v1.0.0, which is
// not available offline.  It offers the part of the interface that sadl's parser
// uses, with the lexical conventions of the SADL examples: symbols, numbers,
// double quoted strings (whose escapes are kept as written: the parser removes
// them itself), // and /* */ comments, newlines and single character punctuation.
package scanner

import (
	"bufio"
	"fmt"
	"io"
	"strings"
)

type TokenType int

const (
	UNDEFINED TokenType = iota
	EOF
	LINE_COMMENT
	BLOCK_COMMENT
	SEMICOLON
	COLON
	COMMA
	DOT
	EQUALS
	NEWLINE
	OPEN_BRACE
	CLOSE_BRACE
	OPEN_BRACKET
	CLOSE_BRACKET
	OPEN_PAREN
	CLOSE_PAREN
	OPEN_ANGLE
	CLOSE_ANGLE
	SYMBOL
	STRING
	NUMBER
	AT
	HASH
	DOLLAR
	SLASH
	STAR
	PLUS
	MINUS
	QUESTION
	BANG
	AMPERSAND
	PIPE
	TILDE
	CARET
	PERCENT
	BACKQUOTE
	QUOTE
)

var names = map[TokenType]string{
	UNDEFINED: "UNDEFINED", EOF: "EOF", LINE_COMMENT: "LINE_COMMENT", BLOCK_COMMENT: "BLOCK_COMMENT",
	SEMICOLON: "SEMICOLON", COLON: "COLON", COMMA: "COMMA", DOT: "DOT", EQUALS: "EQUALS", NEWLINE: "NEWLINE",
	OPEN_BRACE: "OPEN_BRACE", CLOSE_BRACE: "CLOSE_BRACE", OPEN_BRACKET: "OPEN_BRACKET", CLOSE_BRACKET: "CLOSE_BRACKET",
	OPEN_PAREN: "OPEN_PAREN", CLOSE_PAREN: "CLOSE_PAREN", OPEN_ANGLE: "OPEN_ANGLE", CLOSE_ANGLE: "CLOSE_ANGLE",
	SYMBOL: "SYMBOL", STRING: "STRING", NUMBER: "NUMBER",
}

func (t TokenType) String() string {
	if s, ok := names[t]; ok {
		return s
	}
	return fmt.Sprintf("PUNCT(%d)", int(t))
}

type Token struct {
	Type  TokenType
	Text  string
	Line  int
	Start int
}

func (tok Token) String() string {
	return fmt.Sprintf("<%v %q %d:%d>", tok.Type, tok.Text, tok.Line, tok.Start)
}

func (tok Token) Is(t TokenType) bool { return tok.Type == t }
func (tok Token) IsText() bool        { return tok.Type == SYMBOL || tok.Type == STRING }
func (tok Token) IsNumeric() bool     { return tok.Type == NUMBER }

type Scanner struct {
	r      *bufio.Reader
	line   int
	column int
	prev   int
	atEOF  bool
}

func NewScanner(r io.Reader) *Scanner {
	return &Scanner{r: bufio.NewReader(r), line: 1}
}

const eof = rune(0)

func (s *Scanner) read() rune {
	ch, _, err := s.r.ReadRune()
	if err != nil {
		s.atEOF = true
		return eof
	}
	s.prev = s.column
	if ch == '\n' {
		s.line++
		s.column = 0
	} else {
		s.column++
	}
	return ch
}

func (s *Scanner) unread(ch rune) {
	if s.atEOF {
		return
	}
	_ = s.r.UnreadRune()
	if ch == '\n' {
		s.line--
	}
	s.column = s.prev
}

func letter(ch rune) bool {
	return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')
}
func digit(ch rune) bool { return ch >= '0' && ch <= '9' }

var punct = map[rune]TokenType{
	';': SEMICOLON, ':': COLON, ',': COMMA, '.': DOT, '=': EQUALS,
	'{': OPEN_BRACE, '}': CLOSE_BRACE, '[': OPEN_BRACKET, ']': CLOSE_BRACKET,
	'(': OPEN_PAREN, ')': CLOSE_PAREN, '<': OPEN_ANGLE, '>': CLOSE_ANGLE,
	'@': AT, '#': HASH, '$': DOLLAR, '*': STAR, '+': PLUS, '?': QUESTION, '!': BANG,
	'&': AMPERSAND, '|': PIPE, '~': TILDE, '^': CARET, '%': PERCENT, '`': BACKQUOTE, '\'': QUOTE,
}

func (s *Scanner) Scan() Token {
	ch := s.read()
	for ch == ' ' || ch == '\t' || ch == '\r' {
		ch = s.read()
	}
	tok := Token{Line: s.line, Start: s.column}
	set := func(t TokenType, text string) Token {
		tok.Type, tok.Text = t, text
		return tok
	}
	if ch == eof && s.atEOF {
		return set(EOF, "")
	}
	switch {
	case ch == '\n':
		tok.Line--
		return set(NEWLINE, "\n")
	case letter(ch) || ch == '_':
		var b strings.Builder
		for (letter(ch) || digit(ch) || ch == '_') && !s.atEOF {
			b.WriteRune(ch)
			ch = s.read()
		}
		s.unread(ch)
		return set(SYMBOL, b.String())
	case digit(ch) || ch == '-':
		return s.number(ch, set)
	case ch == '"':
		var b strings.Builder
		for {
			ch = s.read()
			if s.atEOF || ch == '\n' {
				return set(UNDEFINED, b.String())
			}
			if ch == '"' {
				return set(STRING, b.String())
			}
			b.WriteRune(ch)
			if ch == '\\' {
				ch = s.read()
				if s.atEOF {
					return set(UNDEFINED, b.String())
				}
				b.WriteRune(ch)
			}
		}
	case ch == '/':
		ch = s.read()
		if ch == '/' && !s.atEOF {
			var b strings.Builder
			for {
				ch = s.read()
				if s.atEOF {
					break
				}
				if ch == '\n' {
					s.unread(ch)
					break
				}
				b.WriteRune(ch)
			}
			return set(LINE_COMMENT, b.String())
		}
		if ch == '*' && !s.atEOF {
			var b strings.Builder
			star := false
			for {
				ch = s.read()
				if s.atEOF {
					return set(UNDEFINED, b.String())
				}
				if star && ch == '/' {
					t := b.String()
					return set(BLOCK_COMMENT, t[:len(t)-1])
				}
				star = ch == '*'
				b.WriteRune(ch)
			}
		}
		s.unread(ch)
		return set(SLASH, "/")
	}
	if t, ok := punct[ch]; ok {
		return set(t, string(ch))
	}
	return set(UNDEFINED, string(ch))
}

func (s *Scanner) number(ch rune, set func(TokenType, string) Token) Token {
	var b strings.Builder
	if ch == '-' {
		next := s.read()
		if s.atEOF || !digit(next) {
			s.unread(next)
			return set(MINUS, "-")
		}
		b.WriteByte('-')
		ch = next
	}
	run := func() {
		for digit(ch) && !s.atEOF {
			b.WriteRune(ch)
			ch = s.read()
		}
	}
	run()
	if ch == '.' && !s.atEOF {
		b.WriteRune(ch)
		ch = s.read()
		run()
	}
	if (ch == 'e' || ch == 'E') && !s.atEOF {
		b.WriteRune(ch)
		ch = s.read()
		if (ch == '+' || ch == '-') && !s.atEOF {
			b.WriteRune(ch)
			ch = s.read()
		}
		run()
	}
	s.unread(ch)
	return set(NUMBER, b.String())
}

const (
	BLACK = "\033[0;0m"
	RED   = "\033[0;31m"
)

// FormattedAnnotation gives the message with the place in the source it is about.
func FormattedAnnotation(filename string, source string, prefix string, msg string, tok *Token, color string, contextSize int) string {
	where := filename
	if tok != nil {
		where = fmt.Sprintf("%s:%d:%d", filename, tok.Line, tok.Start)
	}
	return fmt.Sprintf("%s%s: %s", prefix, where, msg)
}
