// Package gen makes inputs: texts around the three grammars, and names whose
// parts are known by construction.
package gen

import (
	"encoding/json"
	"strings"

	"verifsim/rnd"
)

const (
	M2141 = 1
	M7643 = 2
	M8141 = 3
)

const (
	alpha  = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digit  = "0123456789"
	alnum  = alpha + digit
	other  = "()+,-.:=@;$_!*'"
	hexdig = "0123456789abcdefABCDEF"
)

func pick(r *rnd.R, s string) byte { return s[r.N(len(s))] }

// edge picks a letter or digit, often the first or last of its range, which
// is where comparisons with the bounds of a range go wrong.
func edge(r *rnd.R) byte {
	if r.P(4) {
		return pick(r, "AZaz09")
	}
	return pick(r, alnum)
}

func recase(r *rnd.R, s string) string {
	b := []byte(s)
	for i, c := range b {
		if r.P(2) {
			if 'a' <= c && c <= 'z' {
				b[i] = c - 32
			} else if 'A' <= c && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

// pchars makes n characters or percent-encoded triples.
func pchars(r *rnd.R, n int, extra string, hexEvery int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch {
		case hexEvery > 0 && r.P(hexEvery):
			sb.WriteByte('%')
			if r.P(4) {
				sb.WriteByte(pick(r, "09AFaf"))
				sb.WriteByte(pick(r, "09AFaf"))
				continue
			}
			sb.WriteByte(pick(r, hexdig))
			sb.WriteByte(pick(r, hexdig))
		case extra != "" && r.P(8):
			sb.WriteByte(pick(r, extra))
		case r.P(5):
			sb.WriteByte(pick(r, other))
		default:
			sb.WriteByte(edge(r))
		}
	}
	return sb.String()
}

func nid(r *rnd.R, mode int) string {
	lo, hi := 2, 10
	if mode == M2141 {
		lo = 1
	}
	if r.P(6) {
		hi = 32
	}
	for {
		n := r.In(lo, hi)
		b := make([]byte, n)
		for i := range b {
			if i > 0 && i < n-1 && r.P(6) {
				b[i] = '-'
			} else {
				b[i] = edge(r)
			}
		}
		s := string(b)
		if l := strings.ToLower(s); l == "urn" || strings.HasPrefix(l, "urn-") {
			continue
		}
		return s
	}
}

func components(r *rnd.R) (rc, qc, fc string) {
	marks := rnd.Pick(r, 14, 14, 3)
	comp := func(q bool) string {
		s := pchars(r, 1, "~&", 5)
		for i := r.N(8); i > 0; i-- {
			c := pchars(r, 1, "~&", 5)
			switch {
			case r.P(8):
				c = "/"
			case r.P(marks):
				c = "?"
			case q && r.P(10): // no start here: the r-component comes first
				c = "?+"
			}
			if s[len(s)-1] == '?' && (c == "=" || c == "+" && !q) { // that would be a start
				c = "-"
			}
			s += c
		}
		return s
	}
	if r.P(2) {
		rc = comp(false)
	}
	if r.P(2) {
		qc = comp(true)
	}
	if r.P(2) {
		fc = pchars(r, r.In(1, 6), "~&/?", 5)
		if r.P(10) {
			fc += rnd.Pick(r, "?+", "?=") + pchars(r, r.N(3), "~&/?", 5)
		}
	}
	return
}

func nss(r *rnd.R, mode int) string {
	n := r.In(1, 14)
	if r.P(10) {
		n = r.In(20, 80)
	}
	he := rnd.Pick(r, 2, 3, 5, 0)
	if mode == M8141 {
		return pchars(r, 1, "~&", he) + pchars(r, n-1, "~&/", he)
	}
	return pchars(r, n, "", he)
}

// Valid makes a text that the mode's grammar accepts (as far as we know; the
// oracle decides).
func Valid(r *rnd.R, mode int) string {
	pre := "urn"
	if r.P(3) {
		pre = recase(r, pre)
	}
	switch mode {
	case M7643:
		s := pre + ":ietf:params:scim:" + rnd.Pick(r, "schemas", "api", "param") + ":" + pchars(r, 0, "", 0)
		for i := r.In(1, 8); i > 0; i-- {
			s += string(pick(r, alnum))
		}
		if !r.P(4) {
			s += ":" + pchars(r, r.In(1, 20), "", rnd.Pick(r, 2, 4, 0))
		}
		return s
	case M8141:
		s := pre + ":" + nid(r, mode) + ":" + nss(r, mode)
		rc, qc, fc := components(r)
		if rc != "" {
			s += "?+" + rc
		}
		if qc != "" {
			s += "?=" + qc
		}
		if fc != "" || r.P(10) {
			s += "#" + fc
		}
		return s
	}
	return pre + ":" + nid(r, mode) + ":" + nss(r, mode)
}

var awkward = []string{
	"", "u", "urn", "urn:", "urn:a", "urn:a:", "urn::b", "urn:urn:x", "URN:uRn:x", "urn:urn", "urn:urnx:y", "urn:-a:b",
	"urn:a:%", "urn:a:%A", "urn:a:%zz", "urn:a:%G0", "urn:ab:c?", "urn:ab:c?+", "urn:ab:c?=", "urn:ab:c#", "urn:ab:c?+r?+s",
	"urn:ab:c?=q?=p", "urn:ab:c?+%", "urn:ab:c?=%A", "urn:ab:c?+r?=", "urn:ab:/c", "urn:ab-:c", "urn:urn-7:x", "urn:urn-x:y",
	"urn:ietf:params:scim:", "urn:ietf:params:scim:api", "urn:ietf:params:scim:api:", "urn:ietf:params:scim:api:x:",
	"urn:ietf:params:scim:api:x:%", "urn:ietf:params:scim:apx:x", "urn:ietf:params:scIm:api:x", "urn:ietf:params:scim:schemas:core:2.0:User%AA",
	"\nurn:a:b", "urn:a:b\n", "urn:a:b\r\n", "x\nurn:a:b", "urn:a:\nurn:a:b", "urn:a:b\x00", "urn:\xff\xfe:b", "urn:é:ü", "urn:a:b c",
	"urn:abcdefghijklmnopqrstuvwxyzabcdef:x", "urn:abcdefghijklmnopqrstuvwxyzabcdefg:x", "urn:ufo:x", "urn:u:x", "urn:U-F:%AF",
}

// Text makes a text that is often, but not always, valid in the given mode.
func Text(r *rnd.R, mode int) string {
	if r.P(5) {
		return awkward[r.N(len(awkward))]
	}
	s := Valid(r, mode)
	if !r.P(3) {
		return s
	}
	b := []byte(s)
	for k := r.In(1, 3); k > 0 && len(b) > 0; k-- {
		i := r.N(len(b))
		switch r.N(7) {
		case 0:
			b = b[:i]
		case 1:
			b[i] ^= byte(1 << r.N(8))
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = append(b[:i:i], append([]byte(pchars(r, 1, "?#/%&~", 3)), b[i:]...)...)
		case 4:
			b[i] = byte(r.N(256))
		case 5:
			b = append(b[:i:i], append([]byte(rnd.Pick(r, "?+", "?=", "#", "%", "\n", ":", "urn:")), b[i:]...)...)
		case 6:
			b = append(b, b[i:]...)
		}
	}
	return string(b)
}

// Respell writes a text with other cases where case does not matter: in the
// prefix, the identifier and percent-encoded digits.
func Respell(r *rnd.R, s string) string {
	up, low := strings.ToUpper, strings.ToLower
	mix := func(s string) string { return recase(r, s) }
	same := func(s string) string { return s }
	how := func() func(string) string { return rnd.Pick(r, up, low, mix, same) }
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return s
	}
	j := strings.IndexByte(s[i+1:], ':')
	if j < 0 {
		return s
	}
	j += i + 1
	f := how()
	return how()(s[:i]) + how()(s[i:j]) + hexCase(s[j:], func(b byte) byte { return f(string(b))[0] })
}

// Variant is a text close to s: another spelling, or one that only just differs.
func Variant(r *rnd.R, s string) string {
	if s == "" {
		return s
	}
	b := []byte(s)
	i := r.N(len(b))
	switch r.N(9) {
	case 0:
		return HexCase(r, s)
	case 1: // the prefix and a little more in another case
		n := min(len(b), r.In(3, 12))
		return recase(r, s[:n]) + s[n:]
	case 2:
		if c := b[i] | 32; 'a' <= c && c <= 'z' {
			b[i] ^= 32
		}
	case 3: // another character, the same length
		b[i] = pick(r, alnum)
	case 4: // the last one
		b[len(b)-1] = pick(r, alnum)
	case 5:
		return s[:len(s)-1]
	case 6:
		return s + string(pick(r, alnum))
	case 7: // two characters swapped
		j := r.N(len(b))
		b[i], b[j] = b[j], b[i]
	case 8: // one percent-encoding more or less
		if k := strings.IndexByte(s, '%'); k >= 0 && k+3 <= len(s) && r.P(2) {
			return s[:k] + s[k+3:]
		}
		return s + "%" + string(pick(r, hexdig)) + string(pick(r, hexdig))
	}
	return string(b)
}

// Long makes a long text that the mode's grammar accepts.
func Long(r *rnd.R, mode, n int) string {
	he := rnd.Pick(r, 2, 4, 0, 30)
	switch mode {
	case M7643:
		return Prefix(r) + ":ietf:params:scim:" + rnd.Pick(r, "schemas", "api", "param") + ":" + Alnum(r, r.In(1, n)) + ":" + pchars(r, r.In(1, n), "", he)
	case M8141:
		s := Prefix(r) + ":" + nid(r, mode) + ":" + pchars(r, 1, "~&", he)
		k := r.N(4)
		long := func(i int) int {
			if i == k {
				return n
			}
			return r.N(8)
		}
		s += pchars(r, long(0), "~&/", he)
		if k := long(1); k > 0 {
			s += "?+" + pchars(r, k, "~&", he)
		}
		if k := long(2); k > 0 {
			s += "?=" + pchars(r, k, "~&", he)
		}
		if k := long(3); k > 0 {
			s += "#" + pchars(r, k, "~&/?", he)
		}
		return s
	}
	return Prefix(r) + ":" + nid(r, mode) + ":" + pchars(r, n, "", he)
}

// Size of a long text: around the sizes buffers tend to have.
func Size(r *rnd.R) int {
	return rnd.Pick(r, 64, 128, 256, 256, 512, 1024, 4096) + r.In(-8, 40)
}

// Mode picks one of the explicit modes.
func Mode(r *rnd.R) int { return rnd.Pick(r, M2141, M2141, M7643, M8141, M8141) }

// Doc makes a JSON document for a destination type: good, of the wrong kind,
// malformed, truncated or damaged.
func Doc(r *rnd.R, t string) string {
	mode := map[string]int{"urn": M2141, "urn8141": M8141, "scim": M7643}[t]
	s := Valid(r, mode)
	if r.P(12) {
		s = Long(r, mode, Size(r))
	}
	switch r.N(10) {
	case 0:
		s = Text(r, Mode(r))
	case 1:
		return rnd.Pick(r, "null", "true", "12", "{}", "[]", `{"a":"urn:a:b"}`, `["urn:ab:cd"]`, `""`, "", " ", `"`, `"urn:ab:c`, `"\u`, `"urn:a:\u0062"`, `"\ud800"`, "\"urn:a:b\" x", "\x00")
	}
	j, _ := json.Marshal(s)
	if r.P(5) { // as another encoder spells it
		j = OtherJSON(r, j)
	}
	switch r.N(8) {
	case 0: // escape a character
		if len(s) > 0 {
			i := r.N(len(s))
			c := s[i]
			if c < 0x80 && c >= 0x20 {
				e := "\\u00" + string("0123456789abcdef"[c>>4]) + string("0123456789ABCDEF"[c&15])
				a, _ := json.Marshal(s[:i])
				z, _ := json.Marshal(s[i+1:])
				j = []byte(string(a[:len(a)-1]) + e + string(z[1:]))
			}
		}
	case 1: // truncate
		j = j[:r.N(len(j))]
	case 2: // flip a bit
		j[r.N(len(j))] ^= byte(1 << r.N(8))
	case 3:
		j = []byte(" \n" + string(j) + "\t")
	}
	return string(j)
}

// OtherJSON spells a JSON document as another encoder might: some or all characters
// of its strings as escapes, other letter case in escapes, other white space.
func OtherJSON(r *rnd.R, doc []byte) []byte {
	const lower, upper = "0123456789abcdef", "0123456789ABCDEF"
	var b []byte
	hex := rnd.Pick(r, lower, upper)
	slashes, space := r.P(2), r.P(4)
	one := 0 // one character in this many is escaped
	if !slashes || r.P(2) {
		one = rnd.Pick(r, 1, 2, 8, 30)
	}
	in := false
	for i := 0; i < len(doc); i++ {
		c := doc[i]
		switch {
		case !in:
			if c == '"' {
				in = true
			}
			b = append(b, c)
			if space && (c == ',' || c == ':' || c == '[' || c == '{') {
				b = append(b, rnd.Pick(r, " ", "\n", "\t", "\r\n", "  ")...)
			}
		case c == '"':
			in = false
			b = append(b, c)
		case c == '\\':
			n := min(2, len(doc)-i)
			if n == 2 && doc[i+1] == 'u' {
				n = min(6, len(doc)-i)
			}
			for k, c := range doc[i : i+n] {
				if k > 1 && 'a' <= c && c <= 'f' && hex == upper {
					c -= 32
				}
				b = append(b, c)
			}
			i += n - 1
		case c == '/' && slashes:
			b = append(b, `\/`...)
		case one > 0 && c < 0x80 && r.P(one):
			b = append(b, `\u00`...)
			b = append(b, hex[c>>4], hex[c&15])
		default:
			b = append(b, c)
		}
	}
	return b
}

// Name is a name whose identity and parts are known by construction.
type Name struct {
	NID string // as to be spelled canonically (lower case)
	NSS string // percent-encoded digits in lower case
}

// NewName makes a name valid in RFC 2141 and RFC 8141 mode.
func NewName(r *rnd.R) Name {
	var id string
	for {
		id = strings.ToLower(nid(r, M8141))
		if len(id) >= 2 {
			break
		}
	}
	return Name{NID: id, NSS: lowerHex(pchars(r, r.In(1, 10), "", rnd.Pick(r, 2, 4, 0)))}
}

// Near makes a different name that is easily taken for n.
func (n Name) Near(r *rnd.R) (m Name) {
	m = n
	defer func() {
		// no NSS is empty, and none starts with a slash
		if m.NSS == "" || m.NSS[0] == '/' {
			m.NSS = "x" + m.NSS
		}
	}()
	switch r.N(7) {
	case 5: // the same characters in another order
		b := []byte(m.NSS)
		for try := 0; try < 20; try++ {
			i, j := r.N(len(b)), r.N(len(b))
			if strings.IndexByte(m.NSS, '%') < 0 || max(i, j) < strings.IndexByte(m.NSS, '%') {
				b[i], b[j] = b[j], b[i]
				break
			}
		}
		m.NSS = string(b)
	case 6: // the start or the end of the other
		if k := strings.IndexByte(m.NSS, '%'); len(m.NSS) > 1 && k < 0 {
			if r.P(2) {
				m.NSS = m.NSS[1:]
			} else {
				m.NSS = m.NSS[:len(m.NSS)-1]
			}
		} else if k >= 0 && len(m.NSS) > 3 {
			m.NSS = m.NSS[:k] + m.NSS[k+3:]
		} else {
			m.NSS += m.NSS
		}
	case 0: // case of one NSS letter outside percent-encoding: a different name
		b := []byte(m.NSS)
		for try := 0; try < 20; try++ {
			i := r.N(len(b))
			if (i > 0 && b[i-1] == '%') || (i > 1 && b[i-2] == '%') {
				continue
			}
			if c := b[i] | 32; 'a' <= c && c <= 'z' {
				b[i] ^= 32
				break
			}
		}
		m.NSS = string(b)
	case 1:
		m.NSS += string(pick(r, alnum))
	case 2:
		m.NSS += "%" + rnd.Pick(r, "2c", "2f", "41", "af")
	case 3:
		if len(m.NID) < 30 {
			m.NID += rnd.Pick(r, "x", "0", "-1")
		}
	case 4: // another digit in a percent-encoding, or an encoded character instead of the plain one
		if i := strings.IndexByte(m.NSS, '%'); i >= 0 {
			m.NSS = m.NSS[:i+1] + rnd.Pick(r, "2c", "2d", "3a", "fa") + m.NSS[i+3:]
		} else {
			m.NSS = m.NSS[:len(m.NSS)-1] + "%61"
		}
	}
	return m
}

func lowerHex(s string) string { return hexCase(s, func(b byte) byte { return lower(b) }) }

func lower(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func hexCase(s string, f func(byte) byte) string {
	b := []byte(s)
	for i := 0; i+2 < len(b); i++ {
		if b[i] == '%' {
			b[i+1], b[i+2] = f(b[i+1]), f(b[i+2])
			i += 2
		}
	}
	return string(b)
}

// Spelling writes the name in one of its lexically equivalent forms.
func (n Name) Spelling(r *rnd.R) (prefix, id, ss string) {
	prefix, id, ss = "urn", n.NID, n.NSS
	if r.P(2) {
		prefix = recase(r, prefix)
	}
	if r.P(2) {
		id = recase(r, id)
	}
	if r.P(2) {
		ss = hexCase(ss, func(b byte) byte {
			if 'a' <= b && b <= 'f' && r.P(2) {
				return b - 32
			}
			return b
		})
	}
	return
}

// Canonical is the normal form.
func (n Name) Canonical() string { return "urn:" + n.NID + ":" + n.NSS }

// Components makes r-, q- and f-components (each possibly empty).
func Components(r *rnd.R) (rc, qc, fc string) { return components(r) }

// ID2141 and the following make parts for values known by construction.
func ID(r *rnd.R, mode int) string  { return nid(r, mode) }
func NSS(r *rnd.R, mode int) string { return nss(r, mode) }
func Alnum(r *rnd.R, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = pick(r, alnum)
	}
	return string(b)
}
func Tail(r *rnd.R) string { return pchars(r, r.In(1, 20), "", rnd.Pick(r, 2, 4, 0)) }
func Prefix(r *rnd.R) string {
	if r.P(2) {
		return "urn"
	}
	return recase(r, "urn")
}

// HexCase changes the case of percent-encoded digits at random.
func HexCase(r *rnd.R, s string) string {
	return hexCase(s, func(b byte) byte {
		if 'a' <= b && b <= 'f' && r.P(2) {
			return b - 32
		}
		return b
	})
}

// Name8141 adds characters that only RFC 8141 has to a specific string.
func Name8141(r *rnd.R, nss string) string {
	return pchars(r, 1, "~&", 0) + lowerHex(pchars(r, r.In(0, 6), "~&/", 5)) + rnd.Pick(r, "/", "~", "&", "") + nss
}

// NSSPart is part of a specific string with percent-encoded digits in lower case.
func NSSPart(r *rnd.R, n int) string { return lowerHex(pchars(r, n, "", rnd.Pick(r, 2, 4, 0))) }
