package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome

var models map[string]model

// pure packages: their functions depend on argument values only and change nothing.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "path": true, "path/filepath": true,
	"bytes": true, "errors": true, "go/types": true, "regexp": true, "math/bits": true, "cmp": true, "slices": true, "maps": true, "reflect": true,
	"github.com/go-stack/stack": true, "time": true, "encoding/hex": true, "encoding/binary": true, "go/format": true, "encoding/base64": true, "unicode/utf16": true,
}

func extVar(in *Interp, pkg, name string) *T {
	p := in.p.SSA.ImportedPackage(pkg)
	if p == nil {
		return mkSym("extvar:"+pkg+"."+name, nil)
	}
	g := p.Var(name)
	if g == nil {
		return mkSym("extvar:"+pkg+"."+name, nil)
	}
	return mkApp("init", g.Type().(*types.Pointer).Elem(), mkGlobal(g))
}

func extType(in *Interp, pkg, name string) types.Type {
	p := in.p.SSA.ImportedPackage(pkg)
	if p == nil {
		return types.Universe.Lookup("error").Type()
	}
	t := p.Type(name)
	if t == nil {
		return types.Universe.Lookup("error").Type()
	}
	return t.Type()
}

// errOf makes an opaque error of a known dynamic type.
func (in *Interp) errOf(t types.Type, name string, args ...*T) *T {
	return mkIface(t, in.expand(mkApp(name, t, args...), t))
}

// newErr allocates a distinct error value remembering its text.
func (in *Interp) newErr(c *callCtx, text *T, wrapped *T) *T {
	t := types.NewPointer(extTypeOr(in, "errors", "errorString"))
	a := in.freshAlloc("error", t)
	c.st.set(mkApp("ghost", nil, a, mkLit("text")), text)
	if wrapped != nil {
		c.st.set(mkApp("ghost", nil, a, mkLit("wraps")), wrapped)
	}
	return mkIface(t, a)
}

func extTypeOr(in *Interp, pkg, name string) types.Type {
	key := pkg + "." + name
	if t := extTypes[key]; t != nil {
		return t
	}
	extTypes[key] = types.NewNamed(types.NewTypeName(0, types.NewPackage(pkg, pkg), name, nil), types.NewStruct(nil, nil), nil)
	return extTypes[key]
}

var extTypes = map[string]types.Type{}

func ghost(a *T, what string) *T { return mkApp("ghost", nil, a, mkLit(what)) }

func (in *Interp) ghostGet(st *State, a *T, what string) *T {
	k := ghost(a, what)
	if v, ok := st.heap[k]; ok {
		return v
	}
	return in.p.initHeap[k]
}

func (in *Interp) external(c *callCtx, fn *ssa.Function, a []*T) []Outcome {
	name := fnName(fn)
	if m := models[name]; m != nil {
		return m(in, c, fn, a)
	}
	pkg := ""
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil {
		return c.ret(tUnit)
	}
	if purePkgs[pkg] && !returnsFunc(fn.Signature) && !hasFuncArg(fn.Signature) {
		return c.ret(in.pureCall(c, "call:"+name, a, fn.Signature))
	}
	e := c.ev("call", name, a, nil)
	// the callee may write through the pointers it is given
	for _, x := range a {
		in.clobber(c.st, x)
	}
	outs := in.unknownCall(c, a, resultType(fn.Signature))
	e.res = outs[0].val
	return outs
}

func returnsFunc(s *types.Signature) bool {
	for i := 0; i < s.Results().Len(); i++ {
		if _, ok := s.Results().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func hasFuncArg(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if _, ok := s.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// pureCall is an uninterpreted function of the argument values.
func (in *Interp) pureCall(c *callCtx, name string, a []*T, sig *types.Signature) *T {
	args := make([]*T, len(a))
	for i, x := range a {
		args[i] = in.deepVal(c.st, x)
	}
	rt := resultType(sig)
	t := mkApp(name, rt, args...)
	if tt, ok := rt.(*types.Tuple); ok && tt.Len() == 0 {
		return tUnit
	}
	return in.expand(t, rt)
}

func (in *Interp) deepVal(st *State, x *T) *T {
	if x.op == "slice" {
		q := in.sliceSeq(st, x)
		if len(q.a) < 64 && (q.op == "seq") {
			es := make([]*T, len(q.a))
			for i, e := range q.a {
				es[i] = in.deepVal(st, e)
			}
			return intern(&T{op: "seq", a: es})
		}
		return q
	}
	return x
}

// clobber forgets what a pointer argument refers to.
func (in *Interp) clobber(st *State, x *T) {
	switch x.op {
	case "slice":
		r := x.a[0]
		if r != tNil {
			c := in.content(st, r)
			in.nfresh++
			n := seqLen(c)
			in.setContent(st, r, mkApp(fmt.Sprintf("hav:clob#%d", in.nfresh), x.a[0].typ, n))
		}
	case "iface":
		in.clobber(st, x.a[0])
	case "alloc":
		var ds []*T
		for a := range st.heap {
			if rootOf(a) == x && !(a.op == "app" && a.s == "ghost") {
				ds = append(ds, a)
			}
		}
		for _, d := range ds {
			old := st.heap[d]
			t := cellValType(d, old)
			if t == nil {
				st.set(d, in.fresh("clob", nil0(t)))
				continue
			}
			st.set(d, in.fresh("clob", t))
		}
		if x.typ != nil && len(ds) == 0 {
			if splittable(x.typ) == nil && !isBigInt(x.typ) {
				st.set(x, in.fresh("clob", x.typ))
			} else if s := splittable(x.typ); s != nil {
				in.store(st, x, in.fresh("clob", x.typ), x.typ)
			}
		}
	}
}

func nil0(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

// ---- interface calls with a known meaning although the value is unknown ----

var pureInvoke = map[string]bool{
	"(error).Error": true, "(reflect.Type).Elem": true, "(reflect.Type).Kind": true, "(reflect.Type).NumIn": true, "(reflect.Type).NumOut": true,
	"(reflect.Type).String": true, "(reflect.Type).ChanDir": true, "(go/types.Object).Type": true, "(go/types.Type).Underlying": true, "(interface).Elem": true,
	"(flychain/event.Subscription).Err": true, "(flychain/common/mclock.ChanTimer).C": true, "(fmt.State).Flag": true,
}

func (in *Interp) invokeModel(c *callCtx, name string) []Outcome {
	r := c.recv
	if name == "(fmt.State).Write" { // a writer leaves the bytes alone
		c.ev("invoke", name, append([]*T{r}, c.args...), nil)
		return c.ret(mkTuple(seqLen(in.sliceSeq(c.st, c.args[0])), tNil))
	}
	if pureInvoke[name] || strings.HasPrefix(name, "(go/types.") || strings.HasPrefix(name, "(reflect.Type)") {
		return c.ret(in.pureCall(c, "inv:"+name, append([]*T{r}, c.args...), c.common.Signature()))
	}
	if r.isApp("keccakobj") {
		obj := r.a[0]
		switch c.common.Method.Name() {
		case "Write":
			cur := in.ghostGet(c.st, obj, "hashed")
			q := in.sliceSeq(c.st, c.args[0])
			c.st.set(ghost(obj, "hashed"), mkCat(cur, q))
			return c.ret(mkTuple(seqLen(q), tNil))
		case "Sum":
			h := mkApp("keccak256", types.NewArray(types.Typ[types.Uint8], 32), in.ghostGet(c.st, obj, "hashed"))
			q := mkCat(in.sliceSeq(c.st, c.args[0]), h)
			reg := in.freshAlloc("sum", c.resType())
			c.st.set(reg, q)
			return c.ret(mkSlice(reg, tZero, seqLen(q), seqLen(q)))
		case "Reset":
			c.st.set(ghost(obj, "hashed"), tEmpty)
			return c.ret(tUnit)
		case "Size":
			return c.ret(mkInt(32))
		}
	}
	return nil
}

// ---- helpers for models ----

var hexDigits = func() *byteSet {
	b := &byteSet{}
	b.add('0', '9')
	b.add('a', 'f')
	b.add('A', 'F')
	return b
}()
var decDigits = func() *byteSet { b := &byteSet{}; b.add('0', '9'); return b }()

func (in *Interp) ptrErr(c *callCtx, t types.Type, fields map[string]*T) *T {
	a := in.freshAlloc("err", t)
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if v, ok := fields[s.Field(i).Name()]; ok {
			c.st.set(mkField(a, s.Field(i).Origin(), s.Field(i).Type()), v)
		}
	}
	return mkIface(types.NewPointer(t), a)
}

func (in *Interp) bytesOf(st *State, seq *T, typ types.Type) *T {
	r := in.freshAlloc("bytes", typ)
	st.set(r, seq)
	n := seqLen(seq)
	return mkSlice(r, tZero, n, n)
}

var byteSlice = types.NewSlice(types.Typ[types.Uint8])

func even(n *T) *T { // n - 2*(n/2) == 0
	return mkEq0(tSub(n, tMul(mkInt(2), mkDiv(nil, n, mkInt(2)))))
}

func hexDecSeq(s *T) *T {
	if s.op == "lit" {
		if b, err := hex.DecodeString(s.s); err == nil {
			return mkLit(string(b))
		}
	}
	if s.isApp("hexenc") {
		return s.a[0]
	}
	return mkApp("hav:hexdec", byteSlice, mkDiv(nil, seqLen(s), mkInt(2)), s)
}

func hexEncSeq(s *T) *T {
	if s.op == "lit" {
		return mkLit(hex.EncodeToString([]byte(s.s)))
	}
	return mkApp("hexenc", byteSlice, s)
}

// hexForks: the three results of decoding s as hexadecimal.
func (in *Interp) hexForks(c *callCtx, s *T, ok func(c *callCtx) []Outcome, bad func(c *callCtx, err *T) []Outcome) []Outcome {
	var alts []func(c *callCtx) []Outcome
	okHex := c.st.allIn(s, hexDigits)
	n := seqLen(s)
	alts = append(alts, when(even(n), func(c *callCtx) []Outcome {
		c.st.all = append(c.st.all, forall{seq: s, lo: tZero, hi: n, class: hexDigits})
		c.st.assume(mkApp("ishex", types.Typ[types.Bool], s), true)
		return ok(c)
	}))
	if !okHex {
		alts = append(alts, func(c *callCtx) []Outcome {
			if !c.st.assume(mkApp("ishex", types.Typ[types.Bool], s), false) {
				return nil
			}
			if !c.st.assume(mkLe(tOne, n), true) {
				return nil
			}
			t := extType(in, "encoding/hex", "InvalidByteError")
			return bad(c, mkIface(t, mkApp("badbyte", t, s)))
		})
	}
	alts = append(alts, when(mkNot(even(n)), func(c *callCtx) []Outcome { return bad(c, extVar(in, "encoding/hex", "ErrLength")) }))
	return c.fork(alts...)
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

// numForks: the results of a strconv integer parser.
func (in *Interp) numForks(c *callCtx, fnName string, s *T, val *T, max, min *T, zero *T) []Outcome {
	if s.op == "lit" {
		// a constant argument has a constant result
	}
	ne := extType(in, "strconv", "NumError")
	return c.fork(
		when(mkLe(tOne, seqLen(s)), func(c *callCtx) []Outcome {
			c.st.assume(mkApp("isnum", types.Typ[types.Bool], s), true)
			if max != nil {
				c.st.assume(mkLe(val, max), true)
			}
			if min != nil {
				c.st.assume(mkLe(min, val), true)
			}
			return c.ret(mkTuple(val, tNil))
		}),
		when(mkLe(tOne, seqLen(s)), func(c *callCtx) []Outcome {
			c.st.assume(mkApp("isnum", types.Typ[types.Bool], s), true)
			if max != nil {
				if min == nil || min == tZero {
					if !c.st.assume(mkLt(max, val), true) {
						return nil
					}
				}
			}
			e := in.ptrErr(c, ne, map[string]*T{"Func": mkLit(fnName), "Num": s, "Err": extVar(in, "strconv", "ErrRange")})
			return c.ret(mkTuple(mkApp("clamped", types.Typ[types.Int], s), e))
		}),
		func(c *callCtx) []Outcome {
			if !c.st.assume(mkApp("isnum", types.Typ[types.Bool], s), false) {
				return nil
			}
			if fnName == "ParseUint16" && c.st.allIn(s, hexDigits) && c.st.proves(mkLe(tOne, seqLen(s))) {
				return nil
			}
			e := in.ptrErr(c, ne, map[string]*T{"Func": mkLit(fnName), "Num": s, "Err": extVar(in, "strconv", "ErrSyntax")})
			return c.ret(mkTuple(tZero, e))
		})
}

func litInt(t *T) (int64, bool) { return t.int64() }

// fmtSeq expands a format string into a sequence of known pieces.
func (in *Interp) fmtSeq(st *State, format *T, args []*T, ok bool) *T {
	if format.op != "lit" || !ok {
		return mkApp("sprintf", types.Typ[types.String], append([]*T{format}, args...)...)
	}
	var out []*T
	f := format.s
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, mkLit(f[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			if f[j] == '*' {
				if ai < len(args) {
					out = append(out, mkApp("fmtwidth", types.Typ[types.String], args[ai]))
				}
				ai++
			}
			j++
		}
		if j >= len(f) {
			out = append(out, mkLit(f[i:]))
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if f[j] == '%' {
			out = append(out, mkLit("%"))
			continue
		}
		var a *T
		if ai < len(args) {
			a = args[ai]
			ai++
		} else {
			out = append(out, mkLit("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		out = append(out, in.fmtVerb(st, verb, a))
	}
	for ; ai < len(args); ai++ {
		out = append(out, mkApp("fmtextra", types.Typ[types.String], args[ai]))
	}
	return mkCat(out...)
}

func (in *Interp) fmtVerb(st *State, verb string, a *T) *T {
	if a.op == "iface" {
		p := a.a[0]
		u := a.typ.Underlying()
		hasMeth := types.NewMethodSet(a.typ).Len() > 0
		if b, ok := u.(*types.Basic); ok && !hasMeth {
			switch {
			case b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v"):
				return p
			case b.Info()&types.IsString != 0 && verb == "%x":
				return hexEncSeq(p)
			case b.Info()&types.IsString != 0 && verb == "%q" && p.op == "lit":
				return mkLit(strconv.Quote(p.s))
			case b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v") && p.isInt():
				return mkLit(p.n.String())
			}
		}
		if s, ok := u.(*types.Slice); ok && isByteT(s.Elem()) && verb == "%x" && !hasMeth {
			return hexEncSeq(in.sliceSeq(st, p))
		}
		if s, ok := u.(*types.Slice); ok && isByteT(s.Elem()) && verb == "%s" && !hasMeth {
			return in.sliceSeq(st, p)
		}
		return mkApp("fmtv:"+verb, types.Typ[types.String], in.deepVal(st, p), mkSym("type:"+typeKey(a.typ), nil))
	}
	return mkApp("fmtv:"+verb, types.Typ[types.String], a)
}

// writeTo appends text to a writer the analysis follows (a bytes.Buffer).
func (in *Interp) writeTo(c *callCtx, w, text *T) bool {
	if w.op == "iface" {
		w = w.a[0]
		if w.op == "alloc" || w.op == "field" {
			in.bufAppend(c.st, w, text)
			return true
		}
	}
	return false
}

func (in *Interp) bufContent(st *State, b *T) *T {
	if v := in.ghostGet(st, b, "buf"); v != nil {
		return v
	}
	if r := rootOf(b); r.op == "alloc" && !st.escaped[r] {
		return tEmpty
	}
	return mkApp("bufinit", types.Typ[types.String], b)
}

func (in *Interp) bufAppend(st *State, b, text *T) {
	st.set(ghost(b, "buf"), mkCat(in.bufContent(st, b), text))
}

func parseBase(s string, base int) *T {
	n, ok := new(big.Int).SetString(s, base)
	if !ok {
		return nil
	}
	return mkBig(n)
}
