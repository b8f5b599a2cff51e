package main

// Regular expressions over strings with symbolic bytes. The program is the
// one the regexp package itself compiles; matching is leftmost-first.

import (
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

type Rx struct {
	pat    string
	once   sync.Once
	re     *regexp.Regexp
	err    error
	ponce  sync.Once
	prog   *syntax.Prog
	sets   []*syntax.Inst // one per distinct rune set
	ranges map[*syntax.Inst][]int64
	mu     sync.Mutex
	sig    map[rune]int32
	sigs   map[string]int32
	wordB  bool
}

var rxCache sync.Map

func getRx(pat string) *Rx {
	if v, ok := rxCache.Load(pat); ok {
		return v.(*Rx)
	}
	v, _ := rxCache.LoadOrStore(pat, &Rx{pat: pat})
	return v.(*Rx)
}

func (r *Rx) host() *regexp.Regexp {
	r.once.Do(func() { r.re, r.err = regexp.Compile(r.pat) })
	if r.err != nil {
		panic(unsupported("regexp does not compile: " + r.pat))
	}
	return r.re
}

func (r *Rx) program() *syntax.Prog {
	r.ponce.Do(func() {
		re, err := syntax.Parse(r.pat, syntax.Perl)
		if err != nil {
			return
		}
		r.prog, _ = syntax.Compile(re.Simplify())
		r.sig, r.sigs = map[rune]int32{}, map[string]int32{}
		r.ranges = map[*syntax.Inst][]int64{}
		seen := map[string]*syntax.Inst{}
		for i := range r.prog.Inst {
			in := &r.prog.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				k := string(rune(in.Op)) + "|" + strconv.Itoa(int(in.Arg)) + "|" + string(in.Rune)
				if seen[k] == nil {
					seen[k] = in
					r.sets = append(r.sets, in)
					r.ranges[in] = instRanges(in)
				} else {
					r.ranges[in] = r.ranges[seen[k]]
				}
			case syntax.InstEmptyWidth:
				if syntax.EmptyOp(in.Arg)&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					r.wordB = true
				}
			}
		}
	})
	return r.prog
}

func instRanges(in *syntax.Inst) []int64 {
	switch in.Op {
	case syntax.InstRuneAny:
		return []int64{0, unicode.MaxRune}
	case syntax.InstRuneAnyNotNL:
		return []int64{0, '\n' - 1, '\n' + 1, unicode.MaxRune}
	}
	var rs []int64
	if len(in.Rune) == 1 {
		r0 := in.Rune[0]
		set := []rune{r0}
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for r := unicode.SimpleFold(r0); r != r0; r = unicode.SimpleFold(r) {
				set = append(set, r)
			}
		}
		sort.Slice(set, func(i, j int) bool { return set[i] < set[j] })
		for _, r := range set {
			rs = append(rs, int64(r), int64(r))
		}
		return rs
	}
	for _, r := range in.Rune {
		rs = append(rs, int64(r))
	}
	return rs
}

// sigOf numbers the equivalence class of c under this expression.
func (r *Rx) sigOf(c rune) int32 {
	r.mu.Lock()
	defer r.mu.Unlock()
	if s, ok := r.sig[c]; ok {
		return s
	}
	b := make([]byte, 0, len(r.sets)+2)
	for _, in := range r.sets {
		b = append(b, byte('0'+b2i(in.MatchRune(c))))
	}
	b = append(b, byte('0'+b2i(r.wordB && syntax.IsWordChar(c))), byte('0'+b2i(c == '\n')))
	id, ok := r.sigs[string(b)]
	if !ok {
		id = int32(len(r.sigs))
		r.sigs[string(b)] = id
	}
	r.sig[c] = id
	return id
}

// runeAt is one decoded position of a text.
type runeAt struct {
	r    Val
	size int
}

// represent tries to find a concrete text of the same shape that the
// expression cannot tell from s.
func (w *Worker) represent(r *Rx, s Val, dec func(i int) runeAt) (string, bool) {
	if str, ok := s.o.(string); ok {
		return str, true
	}
	r.program()
	n := strLen(s)
	buf := make([]byte, 0, n)
	for i := 0; i < n; {
		c := dec(i)
		i += c.size
		if c.r.o == nil {
			if c.r.n == utf8.RuneError && c.size == 1 {
				buf = append(buf, 0xff)
			} else {
				buf = utf8.AppendRune(buf, rune(c.r.n))
			}
			continue
		}
		t := c.r.o.(*Term)
		tv := w.p.table(t)
		if tv == nil {
			return "", false
		}
		d := w.domOf(t.vars[0])
		first := true
		var rep rune
		var sg int32
		last := int64(-1)
		for k, x := range tv {
			if d != nil && !d[k] || !first && x == last {
				continue
			}
			last = x
			g := r.sigOf(rune(x))
			if first {
				rep, sg, first = rune(x), g, false
			} else if g != sg {
				return "", false
			}
		}
		if first || utf8.RuneLen(rep) != c.size {
			return "", false
		}
		buf = utf8.AppendRune(buf, rep)
	}
	return string(buf), true
}

func (w *Worker) decoder(s Val) func(i int) runeAt {
	memo := map[int]runeAt{}
	return func(i int) runeAt {
		if c, ok := memo[i]; ok {
			return c
		}
		r, n := w.decodeRune(s, i)
		c := runeAt{r, n}
		memo[i] = c
		return c
	}
}

// rxAll gives all successive matches (at most n, n<0: all).
func (w *Worker) rxAll(r *Rx, s Val, n int) [][]int {
	if str, ok := s.o.(string); ok {
		return r.host().FindAllStringSubmatchIndex(str, n)
	}
	dec := w.decoder(s)
	if rep, ok := w.represent(r, s, dec); ok {
		return r.host().FindAllStringSubmatchIndex(rep, n)
	}
	end := strLen(s)
	if n < 0 {
		n = end + 1
	}
	var out [][]int
	m := &backtrack{w: w, r: r, s: s, dec: dec, end: end}
	for pos, i, prev := 0, 0, -1; i < n && pos <= end; {
		ms := m.find(pos)
		if ms == nil {
			break
		}
		accept := true
		if ms[1] == pos {
			if ms[0] == prev {
				accept = false
			}
			if pos < end {
				pos += dec(pos).size
			} else {
				pos = end + 1
			}
		} else {
			pos = ms[1]
		}
		prev = ms[1]
		if accept {
			out = append(out, ms)
			i++
		}
	}
	return out
}

func (w *Worker) rxFirst(r *Rx, s Val) []int {
	if str, ok := s.o.(string); ok {
		return r.host().FindStringSubmatchIndex(str)
	}
	dec := w.decoder(s)
	if rep, ok := w.represent(r, s, dec); ok {
		return r.host().FindStringSubmatchIndex(rep)
	}
	m := &backtrack{w: w, r: r, s: s, dec: dec, end: strLen(s)}
	return m.find(0)
}

type backtrack struct {
	w    *Worker
	r    *Rx
	s    Val
	dec  func(i int) runeAt
	end  int
	seen map[uint64]bool
	caps []int
	prev map[int]int
}

// before gives the rune that ends at pos.
func (m *backtrack) before(pos int) (Val, bool) {
	if pos == 0 {
		return Val{}, false
	}
	if m.prev == nil {
		m.prev = map[int]int{}
		for i := 0; i < m.end; {
			c := m.dec(i)
			m.prev[i+c.size] = i
			i += c.size
		}
	}
	p, ok := m.prev[pos]
	if !ok {
		panic(unsupported("regexp position inside a rune"))
	}
	return m.dec(p).r, true
}

var wordRanges = []int64{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'}

func (m *backtrack) isWord(v Val, ok bool) bool {
	if !ok {
		return false
	}
	return m.in(v, wordRanges)
}

func (m *backtrack) in(v Val, rs []int64) bool {
	if v.o == nil {
		return inRanges(v.n, rs)
	}
	return m.w.decide(m.w.p.In(v.o.(*Term), rs))
}

func (m *backtrack) after(pos int) (Val, bool) {
	if pos >= m.end {
		return Val{}, false
	}
	return m.dec(pos).r, true
}

func (m *backtrack) empty(op syntax.EmptyOp, pos int) bool {
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != m.end {
		return false
	}
	nl := []int64{'\n', '\n'}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 {
		if v, ok := m.before(pos); ok && !m.in(v, nl) {
			return false
		}
	}
	if op&syntax.EmptyEndLine != 0 && pos != m.end {
		if v, ok := m.after(pos); ok && !m.in(v, nl) {
			return false
		}
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := m.isWord(m.before(pos)) != m.isWord(m.after(pos))
		if op&syntax.EmptyWordBoundary != 0 && !b {
			return false
		}
		if op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

func (m *backtrack) find(pos int) []int {
	prog := m.r.program()
	m.caps = make([]int, prog.NumCap)
	for i := range m.caps {
		m.caps[i] = -1
	}
	// states that failed fail from every start
	m.seen = map[uint64]bool{}
	anch := prog.StartCond()&syntax.EmptyBeginText != 0
	for p := pos; p <= m.end; {
		if m.run(prog.Start, p, p) {
			m.caps[0] = p
			return append([]int(nil), m.caps...)
		}
		if anch || p == m.end {
			break
		}
		p += m.dec(p).size
	}
	return nil
}

func (m *backtrack) run(pc, pos, start int) bool {
	prog := m.r.prog
	for {
		if in := &prog.Inst[pc]; in.Op != syntax.InstNop {
			k := uint64(pc)<<32 | uint64(pos)
			if m.seen[k] {
				return false
			}
			m.seen[k] = true
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstNop:
			pc = int(in.Out)
		case syntax.InstAlt, syntax.InstAltMatch:
			if m.run(int(in.Out), pos, start) {
				return true
			}
			pc = int(in.Arg)
		case syntax.InstCapture:
			if int(in.Arg) < len(m.caps) {
				old := m.caps[in.Arg]
				m.caps[in.Arg] = pos
				if m.run(int(in.Out), pos, start) {
					return true
				}
				m.caps[in.Arg] = old
				return false
			}
			pc = int(in.Out)
		case syntax.InstEmptyWidth:
			if !m.empty(syntax.EmptyOp(in.Arg), pos) {
				return false
			}
			pc = int(in.Out)
		case syntax.InstMatch:
			if len(m.caps) > 1 {
				m.caps[1] = pos
			}
			return true
		default:
			if pos >= m.end {
				return false
			}
			c := m.dec(pos)
			if !m.in(c.r, m.r.ranges[in]) {
				return false
			}
			pos += c.size
			pc = int(in.Out)
		}
	}
}

// ---- results

func (w *Worker) pad(r *Rx, a []int) []int {
	if a == nil {
		return nil
	}
	n := (1 + r.host().NumSubexp()) * 2
	for len(a) < n {
		a = append(a, -1)
	}
	return a
}

func intSlice(a []int) Val {
	if a == nil {
		return Val{}
	}
	out := make([]Val, len(a))
	for i := range a {
		out[i].n = int64(a[i])
	}
	return Val{o: &SliceV{out}}
}

func valSlice(a []Val) Val { return Val{o: &SliceV{a}} }

func submatches(s Val, a []int) Val {
	if a == nil {
		return Val{}
	}
	var out []Val
	for i := 0; i+1 < len(a); i += 2 {
		if a[i] >= 0 {
			out = append(out, strSlice(s, a[i], a[i+1]))
		} else {
			out = append(out, mkStr(""))
		}
	}
	return valSlice(out)
}

func (w *Worker) rxReplace(r *Rx, s Val, repl func(a []int) Val) Val {
	ms := w.rxAll(r, s, -1)
	if len(ms) == 0 {
		return s
	}
	out := mkStr("")
	last := 0
	for _, a := range ms {
		a = w.pad(r, a)
		out = strConcat(out, strSlice(s, last, a[0]))
		out = strConcat(out, repl(a))
		last = a[1]
	}
	return strConcat(out, strSlice(s, last, strLen(s)))
}

// expand fills a replacement template.
func (w *Worker) rxExpand(r *Rx, tmpl string, s Val, a []int) Val {
	out := mkStr("")
	for len(tmpl) > 0 {
		before, after, ok := strings.Cut(tmpl, "$")
		if !ok {
			break
		}
		out = strConcat(out, mkStr(before))
		tmpl = after
		if tmpl != "" && tmpl[0] == '$' {
			out = strConcat(out, mkStr("$"))
			tmpl = tmpl[1:]
			continue
		}
		name, num, rest, ok := extractRx("$" + tmpl)
		if !ok {
			out = strConcat(out, mkStr("$"))
			continue
		}
		tmpl = rest
		if num >= 0 {
			if 2*num+1 < len(a) && a[2*num] >= 0 {
				out = strConcat(out, strSlice(s, a[2*num], a[2*num+1]))
			}
		} else {
			for i, nm := range r.host().SubexpNames() {
				if name == nm && 2*i+1 < len(a) && a[2*i] >= 0 {
					out = strConcat(out, strSlice(s, a[2*i], a[2*i+1]))
					break
				}
			}
		}
	}
	return strConcat(out, mkStr(tmpl))
}

func extractRx(str string) (name string, num int, rest string, ok bool) {
	if len(str) < 2 || str[0] != '$' {
		return
	}
	brace := false
	if str[1] == '{' {
		brace = true
		str = str[2:]
	} else {
		str = str[1:]
	}
	i := 0
	for i < len(str) {
		r, size := utf8.DecodeRuneInString(str[i:])
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' {
			break
		}
		i += size
	}
	if i == 0 {
		return
	}
	name = str[:i]
	if brace {
		if i >= len(str) || str[i] != '}' {
			return
		}
		i++
	}
	num = 0
	for j := 0; j < len(name); j++ {
		if name[j] < '0' || '9' < name[j] || num >= 1e8 {
			num = -1
			break
		}
		num = num*10 + int(name[j]) - '0'
	}
	if name[0] == '0' && len(name) > 1 {
		num = -1
	}
	rest = str[i:]
	ok = true
	return
}

// rxMethod implements (*regexp.Regexp).name.
func (w *Worker) rxMethod(name string, args []Val) (Val, bool) {
	ho, ok := args[0].o.(*HostObj)
	if !ok {
		if args[0].o == nil {
			w.nilDeref(args[0])
		}
		panic(unsupported("regexp value"))
	}
	r := ho.v.(*Rx)
	switch name {
	case "MatchString":
		return mkBool(w.rxFirst(r, args[1]) != nil), true
	case "FindString":
		a := w.rxFirst(r, args[1])
		if a == nil {
			return mkStr(""), true
		}
		return strSlice(args[1], a[0], a[1]), true
	case "FindStringIndex":
		a := w.rxFirst(r, args[1])
		if a == nil {
			return Val{}, true
		}
		return intSlice(a[:2]), true
	case "FindStringSubmatch":
		return submatches(args[1], w.pad(r, w.rxFirst(r, args[1]))), true
	case "FindStringSubmatchIndex":
		return intSlice(w.pad(r, w.rxFirst(r, args[1]))), true
	case "FindAllString", "FindAllStringIndex", "FindAllStringSubmatch", "FindAllStringSubmatchIndex":
		ms := w.rxAll(r, args[1], int(w.concrete(args[2])))
		if len(ms) == 0 {
			return Val{}, true
		}
		var out []Val
		for _, a := range ms {
			a = w.pad(r, a)
			switch name {
			case "FindAllString":
				out = append(out, strSlice(args[1], a[0], a[1]))
			case "FindAllStringIndex":
				out = append(out, intSlice(a[:2]))
			case "FindAllStringSubmatch":
				out = append(out, submatches(args[1], a))
			default:
				out = append(out, intSlice(a))
			}
		}
		return valSlice(out), true
	case "ReplaceAllString":
		tmpl, ok := args[2].o.(string)
		if !ok {
			if sb, isSym := args[2].o.(*SymStr); isSym {
				// a template without $ is literal
				for _, b := range sb.b {
					if w.truth(mkTerm(w.vEq(b, mkInt('$')))) {
						panic(unsupported("symbolic replacement template"))
					}
				}
				lit := args[2]
				return w.rxReplace(r, args[1], func(a []int) Val { return lit }), true
			}
		}
		return w.rxReplace(r, args[1], func(a []int) Val { return w.rxExpand(r, tmpl, args[1], a) }), true
	case "ReplaceAllLiteralString":
		return w.rxReplace(r, args[1], func(a []int) Val { return args[2] }), true
	case "ReplaceAllStringFunc":
		return w.rxReplace(r, args[1], func(a []int) Val {
			return w.callVal(args[2], []Val{strSlice(args[1], a[0], a[1])})
		}), true
	case "Split":
		n := int(w.concrete(args[2]))
		s := args[1]
		if n == 0 {
			return Val{}, true
		}
		if len(r.pat) > 0 && strLen(s) == 0 {
			return valSlice([]Val{mkStr("")}), true
		}
		ms := w.rxAll(r, s, n)
		out := []Val{}
		beg, end := 0, 0
		for _, a := range ms {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = a[0]
			if a[1] != 0 {
				out = append(out, strSlice(s, beg, end))
			}
			beg = a[1]
		}
		if end != strLen(s) {
			out = append(out, strSlice(s, beg, strLen(s)))
		}
		return valSlice(out), true
	case "NumSubexp":
		return mkInt(int64(r.host().NumSubexp())), true
	case "SubexpNames":
		var out []Val
		for _, n := range r.host().SubexpNames() {
			out = append(out, mkStr(n))
		}
		return valSlice(out), true
	case "SubexpIndex":
		return mkInt(int64(r.host().SubexpIndex(args[1].o.(string)))), true
	case "String":
		return mkStr(r.pat), true
	}
	return Val{}, false
}
