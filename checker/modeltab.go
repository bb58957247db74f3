package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	models = map[string]model{}
	reg := func(m model, names ...string) {
		for _, n := range names {
			models[n] = m
		}
	}

	// ---- locks ----
	lock := func(mode string) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			e := c.ev("lock", mode, []*T{a[0]}, nil)
			_ = e
			if len(c.st.held) == 0 {
				in.havocShared(c.st)
			}
			c.st.held = append(c.st.held[:len(c.st.held):len(c.st.held)], Held{a[0], mode, c.pos})
			return c.ret(tUnit)
		}
	}
	unlock := func(mode string) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			ok := in.release(c.st, a[0], mode)
			e := c.ev("unlock", mode, []*T{a[0]}, nil)
			if !ok {
				e.name = mode + "!"
			}
			return c.ret(tUnit)
		}
	}
	reg(lock("w"), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(lock("r"), "(*sync.RWMutex).RLock")
	reg(unlock("w"), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(unlock("r"), "(*sync.RWMutex).RUnlock")
	trylock := func(mode string) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			return c.fork(func(c *callCtx) []Outcome {
				lock(mode)(in, c, fn, a)
				return c.ret(tTrue)
			}, func(c *callCtx) []Outcome { return c.ret(tFalse) })
		}
	}
	reg(trylock("w"), "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(trylock("r"), "(*sync.RWMutex).TryRLock")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		key := ghost(a[0], "once")
		first := func(c *callCtx) []Outcome {
			c.st.set(key, tTrue)
			c.ev("once", "first", []*T{a[0]}, nil)
			c.st.held = append(c.st.held[:len(c.st.held):len(c.st.held)], Held{a[0], "once", c.pos})
			var outs []Outcome
			if f := c.st.facts.rep(a[1]); f.op == "fn" {
				outs = in.callFn(c, f.v.(*ssa.Function), f.a, nil)
			} else {
				c.ev("callback", "", []*T{a[1]}, nil)
				outs = in.unknownCall(c, nil, nil)
			}
			for i := range outs {
				in.release(outs[i].st, a[0], "once")
				sawOnce(outs[i].st, a[0])
				if outs[i].kind == outReturn {
					outs[i].val = tUnit
				}
			}
			return outs
		}
		done := func(c *callCtx) []Outcome {
			c.ev("once", "done", []*T{a[0]}, nil)
			sawOnce(c.st, a[0])
			return c.ret(tUnit)
		}
		if c.st.heap[key] == tTrue || in.p.initHeap[key] == tTrue {
			return done(c)
		}
		if r := rootOf(a[0]); r.op == "alloc" && !c.st.escaped[r] || in.inInit {
			return first(c)
		}
		return c.fork(first, func(c *callCtx) []Outcome {
			c.st.set(key, tTrue)
			if len(c.st.held) == 0 {
				in.havocShared(c.st)
			}
			return done(c)
		})
	}, "(*sync.Once).Do")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		r := in.freshAlloc("cond", fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		c.st.set(ghost(r, "L"), a[0])
		return c.ret(r)
	}, "sync.NewCond")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		c.ev("condwait", "", a, nil)
		in.havocShared(c.st)
		return c.ret(tUnit)
	}, "(*sync.Cond).Wait")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		c.ev("broadcast", fn.Name(), a, nil)
		return c.ret(tUnit)
	}, "(*sync.Cond).Broadcast", "(*sync.Cond).Signal")

	// ---- atomics ----
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		in.noteAtomic(c, a[0], false)
		rt := resultType(fn.Signature)
		in.nfresh++
		v := mkApp("aload", rt, a[0], mkInt(int64(in.nfresh)))
		if in.inInit {
			v = in.load(c.st, a[0], rt)
		}
		c.ev("aload", "", a, v)
		return c.ret(v)
	}, "sync/atomic.LoadUint32", "sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint64", "(*sync/atomic.Value).Load",
		"(*sync/atomic.Uint32).Load", "(*sync/atomic.Int32).Load", "(*sync/atomic.Int64).Load", "(*sync/atomic.Uint64).Load", "(*sync/atomic.Bool).Load")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		in.noteAtomic(c, a[0], true)
		in.escape(c.st, a[1])
		c.ev("astore", "", a, nil)
		return c.ret(tUnit)
	}, "sync/atomic.StoreUint32", "sync/atomic.StoreInt32", "sync/atomic.StoreInt64", "sync/atomic.StoreUint64", "(*sync/atomic.Value).Store",
		"(*sync/atomic.Uint32).Store", "(*sync/atomic.Int32).Store", "(*sync/atomic.Int64).Store", "(*sync/atomic.Uint64).Store", "(*sync/atomic.Bool).Store")

	// ---- process, time ----
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		c.ev("exit", "os.Exit", a, nil)
		return []Outcome{{st: c.st, kind: outExit, pos: c.pos}}
	}, "os.Exit")
	freshCall := func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		v := in.fresh(fn.Name(), resultType(fn.Signature))
		c.ev("call", fnName(fn), a, v)
		return c.ret(v)
	}
	reg(freshCall, "time.Now", "time.Since", "time.NewTimer", "(*time.Timer).Stop", "(*time.Timer).Reset", "runtime.Stack", "runtime.Caller", "runtime.Version",
		"context.Background", "os.Stat", "github.com/go-stack/stack.Caller", "github.com/go-stack/stack.Trace", "log/syslog.New", "log/syslog.Dial", "net.Dial", "os.OpenFile", "os.ReadFile",
		"runtime/debug.PrintStack", "time.Tick", "time.After")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		c.ev("call", fnName(fn), a, nil)
		if len(c.st.held) == 0 {
			in.havocShared(c.st)
		}
		return c.ret(tUnit)
	}, "time.Sleep", "runtime.Gosched")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		v := in.fresh("timer", resultType(fn.Signature))
		in.escape(c.st, a[1])
		e := c.ev("call", fnName(fn), a, v)
		g := *e
		g.kind, g.args = "go", []*T{a[1]}
		in.spawns = append(in.spawns, &g)
		return c.ret(v)
	}, "time.AfterFunc")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		in.nfresh++
		ctx := mkSym(fmt.Sprintf("ctx#%d", in.nfresh), nil)
		cancel := mkSym(fmt.Sprintf("cancel#%d", in.nfresh), nil)
		v := mkTuple(ctx, cancel)
		c.ev("call", fnName(fn), a, v)
		return c.ret(v)
	}, "context.WithCancel")

	// ---- hex ----
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		dst, s := a[0], in.sliceSeq(c.st, a[1])
		half := mkDiv(c.st, seqLen(s), mkInt(2))
		if !c.oblige("hexdecode", mkLe(half, dst.a[2])) {
			return c.fault()
		}
		c.ev("hexdecode", "", []*T{dst, s}, nil)
		return in.hexForks(c, s, func(c *callCtx) []Outcome {
			in.writeSlice(c.st, c.fr, dst, tZero, hexDecSeq(s), c.pos)
			return c.ret(mkTuple(half, tNil))
		}, func(c *callCtx, err *T) []Outcome {
			in.nfresh++
			n := mkSym(fmt.Sprintf("partial#%d", in.nfresh), types.Typ[types.Int])
			c.st.WF().le = append(c.st.WF().le, tNeg(n), tSub(n, half))
			in.writeSlice(c.st, c.fr, dst, tZero, mkApp(fmt.Sprintf("hav:hexpart#%d", in.nfresh), byteSlice, n), c.pos)
			return c.ret(mkTuple(n, err))
		})
	}, "encoding/hex.Decode")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		s := a[0]
		c.ev("hexdecode", "", []*T{tNil, s}, nil)
		return in.hexForks(c, s, func(c *callCtx) []Outcome {
			return c.ret(mkTuple(in.bytesOf(c.st, hexDecSeq(s), byteSlice), tNil))
		}, func(c *callCtx, err *T) []Outcome {
			in.nfresh++
			n := mkSym(fmt.Sprintf("partial#%d", in.nfresh), types.Typ[types.Int])
			c.st.WF().le = append(c.st.WF().le, tNeg(n), tSub(n, mkDiv(c.st, seqLen(s), mkInt(2))))
			return c.ret(mkTuple(in.bytesOf(c.st, mkApp(fmt.Sprintf("hav:hexpart#%d", in.nfresh), byteSlice, n), byteSlice), err))
		})
	}, "encoding/hex.DecodeString")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		s := in.sliceSeq(c.st, a[1])
		e := hexEncSeq(s)
		if !c.oblige("hexencode", mkLe(seqLen(e), a[0].a[2])) {
			return c.fault()
		}
		in.writeSlice(c.st, c.fr, a[0], tZero, e, c.pos)
		return c.ret(seqLen(e))
	}, "encoding/hex.Encode")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(hexEncSeq(in.sliceSeq(c.st, a[0])))
	}, "encoding/hex.EncodeToString")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(tMul(a[0], mkInt(2)))
	}, "encoding/hex.EncodedLen")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(mkDiv(c.st, a[0], mkInt(2)))
	}, "encoding/hex.DecodedLen")

	// ---- strconv ----
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		b, ok1 := a[1].int64()
		w, ok2 := a[2].int64()
		if !ok1 || !ok2 {
			return c.ret(in.pureCall(c, "call:strconv.ParseUint", a, fn.Signature))
		}
		if w == 0 {
			w = 64
		}
		val := mkApp("nat", nil, mkLit(fmt.Sprintf("parse%d", b)), a[0])
		max := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne)
		name := "ParseUint"
		if b == 16 {
			name = "ParseUint16"
		}
		c.ev("parsenum", "ParseUint", a, val)
		return in.numForks(c, name, a[0], val, mkBig(max), tZero, tZero)
	}, "strconv.ParseUint")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		b, _ := a[1].int64()
		w, ok2 := a[2].int64()
		if !ok2 || w == 0 {
			w = 64
		}
		val := mkApp("parseint", nil, mkInt(b), a[0])
		max := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w-1)), bigOne)
		c.ev("parsenum", "ParseInt", a, val)
		return in.numForks(c, "ParseInt", a[0], val, mkBig(max), mkBig(new(big.Int).Neg(new(big.Int).Add(max, bigOne))), tZero)
	}, "strconv.ParseInt")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		val := mkApp("parseint", types.Typ[types.Int], mkInt(10), a[0])
		c.ev("parsenum", "Atoi", a, val)
		return in.numForks(c, "Atoi", a[0], val, nil, nil, tZero)
	}, "strconv.Atoi")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		b := tTen
		if len(a) > 1 {
			b = a[1]
		}
		if a[0].isInt() && b.isInt() {
			return c.ret(mkLit(a[0].n.Text(int(b.n.Int64()))))
		}
		return c.ret(mkApp("itoa", types.Typ[types.String], a[0], b))
	}, "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return in.appendSeq(c, a[0], mkApp("itoa", types.Typ[types.String], a[1], a[2]))
	}, "strconv.AppendUint", "strconv.AppendInt")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0].op == "lit" {
			return c.ret(mkLit(strconv.Quote(a[0].s)))
		}
		return c.ret(mkApp("quote", types.Typ[types.String], a[0]))
	}, "strconv.Quote")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.fork(when(a[0], func(c *callCtx) []Outcome { return c.ret(mkLit("true")) }),
			when(mkNot(a[0]), func(c *callCtx) []Outcome { return c.ret(mkLit("false")) }))
	}, "strconv.FormatBool")

	// ---- strings / bytes ----
	// looking for a rune a function accepts: what it accepts is for the rules to
	// judge, who find the function in the event
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		boolean := isBoolT(resultType(fn.Signature))
		return c.fork(func(c *callCtx) []Outcome {
			c.ev("iterfound", "func", []*T{a[0], a[1]}, nil)
			if boolean {
				return c.ret(tTrue)
			}
			i := in.fresh("index", types.Typ[types.Int])
			c.st.assume(mkLe(tZero, i), true)
			c.st.assume(mkLt(i, seqLen(a[0])), true)
			return c.ret(i)
		}, func(c *callCtx) []Outcome {
			c.ev("iterdone", "func", []*T{a[0], a[1]}, nil)
			if boolean {
				return c.ret(tFalse)
			}
			return c.ret(mkInt(-1))
		})
	}, "strings.IndexFunc", "strings.ContainsFunc")
	pre := func(in *Interp, c *callCtx, s, p *T, suffix bool) []Outcome {
		n, m := seqLen(s), seqLen(p)
		if k, ok := m.int64(); ok && p.op == "lit" && k <= 16 {
			var alts []func(c *callCtx) []Outcome
			alts = append(alts, when(mkLt(n, m), func(c *callCtx) []Outcome { return c.ret(tFalse) }))
			for i := int64(0); i <= k; i++ {
				i := i
				alts = append(alts, func(c *callCtx) []Outcome {
					if !c.st.assume(mkLe(m, n), true) {
						return nil
					}
					for j := int64(0); j < k && j <= i; j++ {
						pos := mkInt(j)
						if suffix {
							pos = tAdd(tSub(n, m), mkInt(j))
						}
						if !c.st.assume(mkIntEq(atTerm(c.st.facts, s, pos), mkInt(int64(p.s[j]))), j < i) {
							return nil
						}
					}
					return c.ret(mkBool(i == k))
				})
			}
			return c.fork(alts...)
		}
		name := "hasprefix"
		if suffix {
			name = "hassuffix"
		}
		return c.ret(mkApp(name, types.Typ[types.Bool], s, p))
	}
	asSeq := func(in *Interp, st *State, x *T) *T {
		if x.op == "slice" || x == tNil {
			return in.sliceSeq(st, x)
		}
		return x
	}
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return pre(in, c, asSeq(in, c.st, a[0]), asSeq(in, c.st, a[1]), false)
	}, "strings.HasPrefix", "bytes.HasPrefix")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return pre(in, c, asSeq(in, c.st, a[0]), asSeq(in, c.st, a[1]), true)
	}, "strings.HasSuffix", "bytes.HasSuffix")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return in.thenBool(c, pre(in, c, a[0], a[1], false),
			func(c *callCtx) *T { return subSeq(c.st.facts, a[0], seqLen(a[1]), seqLen(a[0])) },
			func(c *callCtx) *T { return a[0] })
	}, "strings.TrimPrefix")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0].op == "lit" {
			return c.ret(mkLit(strings.TrimSpace(a[0].s)))
		}
		return c.ret(mkApp("trimspace", types.Typ[types.String], a[0]))
	}, "strings.TrimSpace")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if parts := in.sliceSeq(c.st, a[0]); parts != nil && parts.op == "seq" || a[0] == tNilSlice {
			var out []*T
			if a[0] != tNilSlice {
				for i, p := range seqElems(parts) {
					if i > 0 {
						out = append(out, a[1])
					}
					out = append(out, p)
				}
			}
			return c.ret(mkCat(out...))
		}
		return c.ret(in.pureCall(c, "call:strings.Join", a, fn.Signature))
	}, "strings.Join")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		s := asSeq(in, c.st, a[0])
		if n, ok := a[1].int64(); ok && s.op == "lit" && n >= 0 && n < 4096 {
			return c.ret(mkLit(strings.Repeat(s.s, int(n))))
		}
		if !c.oblige("repeat", mkLe(tZero, a[1])) {
			return c.fault()
		}
		return c.ret(mkApp("hav:repeat", types.Typ[types.String], tMul(seqLen(s), a[1]), s))
	}, "strings.Repeat")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		s := asSeq(in, c.st, a[0])
		if !c.oblige("repeat", mkLe(tZero, a[1])) {
			return c.fault()
		}
		return c.ret(in.bytesOf(c.st, mkApp("hav:repeat", byteSlice, tMul(seqLen(s), a[1]), s), byteSlice))
	}, "bytes.Repeat")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(in.bytesOf(c.st, mkApp("upper", byteSlice, in.sliceSeq(c.st, a[0])), byteSlice))
	}, "bytes.ToUpper")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0].op == "lit" {
			if fn.Name() == "ToLower" {
				return c.ret(mkLit(strings.ToLower(a[0].s)))
			}
			return c.ret(mkLit(strings.ToUpper(a[0].s)))
		}
		return c.ret(mkApp("call:strings."+fn.Name(), types.Typ[types.String], a[0]))
	}, "strings.ToLower", "strings.ToUpper")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(simplEq(in.sliceSeq(c.st, a[0]), in.sliceSeq(c.st, a[1])))
	}, "bytes.Equal")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0].op == "lit" && a[1].op == "lit" {
			return c.ret(in.litStrings(c, strings.Split(a[0].s, a[1].s)))
		}
		t := mkApp("split", resultType(fn.Signature), a[0], a[1])
		r := in.freshAlloc("split", resultType(fn.Signature))
		c.st.set(r, t)
		n := seqLen(t)
		// at least one part (the separator is not empty)
		if a[1].op == "lit" && a[1].s != "" {
			c.st.assume(mkLe(tOne, n), true)
		}
		return c.ret(mkSlice(r, tZero, n, n))
	}, "strings.Split")

	// ---- bytes.Buffer ----
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0] == tNil {
			return c.fault()
		}
		q := asSeq(in, c.st, a[1])
		c.ev("bufwrite", "", []*T{a[0], q}, nil)
		in.bufAppend(c.st, a[0], q)
		return c.ret(mkTuple(seqLen(q), tNil))
	}, "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).Write")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		q := mkSeq([]*T{a[1]})
		c.ev("bufwrite", "", []*T{a[0], q}, nil)
		in.bufAppend(c.st, a[0], q)
		return c.ret(tNil)
	}, "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(in.bytesOf(c.st, in.bufContent(c.st, a[0]), byteSlice))
	}, "(*bytes.Buffer).Bytes")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(in.bufContent(c.st, a[0]))
	}, "(*bytes.Buffer).String", "(*strings.Builder).String")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(seqLen(in.bufContent(c.st, a[0])))
	}, "(*bytes.Buffer).Len", "(*strings.Builder).Len")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		c.st.set(ghost(a[0], "buf"), tEmpty)
		return c.ret(tUnit)
	}, "(*bytes.Buffer).Reset", "(*strings.Builder).Reset")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		q := in.bufContent(c.st, a[0])
		c.st.set(ghost(a[0], "buf"), tEmpty)
		in.writeTo(c, a[1], q)
		return c.ret(mkTuple(seqLen(q), tNil))
	}, "(*bytes.Buffer).WriteTo")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome { return c.ret(tUnit) }, "(*bytes.Buffer).Grow", "(*strings.Builder).Grow")

	// ---- fmt, errors ----
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		args, ok := in.varargs(c.st, a[1])
		return c.ret(in.fmtSeq(c.st, a[0], args, ok))
	}, "fmt.Sprintf")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		args, _ := in.varargs(c.st, a[0])
		var parts []*T
		for _, x := range args {
			parts = append(parts, in.fmtVerb(c.st, "%v", x))
		}
		if fn.Name() == "Sprint" && len(parts) == 1 {
			return c.ret(parts[0])
		}
		return c.ret(mkApp(strings.ToLower(fn.Name()), types.Typ[types.String], parts...))
	}, "fmt.Sprint", "fmt.Sprintln")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		args, ok := in.varargs(c.st, a[2])
		text := in.fmtSeq(c.st, a[1], args, ok)
		if !in.writeTo(c, a[0], text) {
			c.ev("write", "fmt", []*T{a[0], text}, nil)
		}
		return c.ret(mkTuple(seqLen(text), in.fresh("werr", errType())))
	}, "fmt.Fprintf")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		args, _ := in.varargs(c.st, a[1])
		var parts []*T
		for i, x := range args {
			if i > 0 && fn.Name() == "Fprintln" {
				parts = append(parts, mkLit(" "))
			}
			parts = append(parts, in.fmtVerb(c.st, "%v", x))
		}
		if fn.Name() == "Fprintln" {
			parts = append(parts, mkLit("\n"))
		}
		text := mkCat(parts...)
		if !in.writeTo(c, a[0], text) {
			c.ev("write", "fmt", []*T{a[0], text}, nil)
		}
		return c.ret(mkTuple(seqLen(text), in.fresh("werr", errType())))
	}, "fmt.Fprint", "fmt.Fprintln")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		c.ev("call", fnName(fn), a, nil)
		return c.ret(in.fresh("printed", resultType(fn.Signature)))
	}, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		args, ok := in.varargs(c.st, a[1])
		text := in.fmtSeq(c.st, a[0], args, ok)
		var w *T
		if a[0].op == "lit" && strings.Contains(a[0].s, "%w") {
			for _, x := range args {
				if x.op == "iface" && types.Implements(x.typ, errType().Underlying().(*types.Interface)) || intType(x) == nil && x.op != "iface" {
					w = x
				}
			}
		}
		return c.ret(in.newErr(c, text, w))
	}, "fmt.Errorf")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(in.newErr(c, a[0], nil))
	}, "errors.New")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		b := mkApp("errorsis", types.Typ[types.Bool], a[0], a[1])
		if a[0] == a[1] {
			b = tTrue
		} else if a[0] == tNil {
			b = tFalse
		} else if e := a[0]; e.op == "iface" && !wraps(e.typ) {
			b = simplEq(e, a[1])
		}
		return c.ret(b)
	}, "errors.Is")

	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		err, tgt := c.st.facts.rep(a[0]), a[1]
		if err == tNil {
			return c.ret(tFalse)
		}
		var to types.Type
		if tgt.op == "iface" {
			if pt, ok := tgt.typ.Underlying().(*types.Pointer); ok {
				to = pt.Elem()
			}
		}
		if to == nil || types.IsInterface(to) || tgt.a[0] == tNil {
			e := c.ev("call", "errors.As", a, nil)
			in.clobber(c.st, tgt)
			e.res = in.fresh("res", types.Typ[types.Bool])
			return c.ret(e.res)
		}
		p := tgt.a[0]
		if err.op == "iface" && types.Identical(err.typ, to) {
			in.store(c.st, p, err.a[0], to)
			return c.ret(tTrue)
		}
		// it is one, it wraps one, or neither
		var alts []func(c *callCtx) []Outcome
		if err.op != "iface" {
			alts = append(alts, func(c *callCtx) []Outcome {
				if !c.st.assume(mkTypeIs(err, to), true) || !c.st.assume(mkEqRaw(err, tNil), false) {
					return nil
				}
				in.store(c.st, p, in.expand(mkApp("val:"+typeKey(to), to, err), to), to)
				return c.ret(tTrue)
			})
		}
		not := func(st *State) bool { return err.op == "iface" || st.assume(mkTypeIs(err, to), false) }
		alts = append(alts, func(c *callCtx) []Outcome {
			if !not(c.st) || !c.st.assume(mkEqRaw(err, tNil), false) {
				return nil
			}
			w := in.fresh("wrapped", to)
			if _, isP := to.Underlying().(*types.Pointer); isP {
				c.st.assume(mkEqRaw(w, tNil), false)
			}
			in.store(c.st, p, in.expand(w, to), to)
			return c.ret(tTrue)
		}, func(c *callCtx) []Outcome {
			if !not(c.st) {
				return nil
			}
			return c.ret(tFalse)
		})
		return c.fork(alts...)
	}, "errors.As")

	// ---- io, json ----
	readFull := func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		buf := a[1]
		in.nfresh++
		id := in.nfresh
		err := mkSym(fmt.Sprintf("readerr#%d", id), errType())
		c.ev("readfull", "", []*T{a[0], buf, err}, nil)
		return c.fork(func(c *callCtx) []Outcome {
			in.writeSlice(c.st, c.fr, buf, tZero, mkApp(fmt.Sprintf("hav:read#%d", id), byteSlice, buf.a[2], a[0]), c.pos)
			return c.ret(mkTuple(buf.a[2], tNil))
		}, func(c *callCtx) []Outcome {
			c.st.assume(mkEqRaw(err, tNil), false)
			in.clobber(c.st, buf)
			return c.ret(mkTuple(in.fresh("n", types.Typ[types.Int]), err))
		})
	}
	reg(readFull, "io.ReadFull")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		g := fn.Pkg.Var("Reader")
		return readFull(in, c, fn, []*T{in.load(c.st, mkGlobal(g), deref(g.Type())), a[0]})
	}, "crypto/rand.Read")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		in.nfresh++
		id := in.nfresh
		data := in.sliceSeq(c.st, a[0])
		err := mkSym(fmt.Sprintf("jsonerr#%d", id), errType())
		e := c.ev("json.Unmarshal", "", []*T{data, a[1]}, err)
		_ = e
		fill := func(c *callCtx, ok bool) {
			p := a[1]
			if p.op == "iface" {
				pt, isP := p.typ.Underlying().(*types.Pointer)
				p = p.a[0]
				if isP && p != tNil {
					name := "json"
					if !ok {
						name = "jsonpartial"
					}
					if isBigInt(pt.Elem()) || splittable(pt.Elem()) == nil && !isSplitArr(pt.Elem()) && false {
						return
					}
					in.store(c.st, p, in.expand(mkApp(name, pt.Elem(), data, mkInt(int64(id)), mkLit(typeKey(pt.Elem()))), pt.Elem()), pt.Elem())
				}
			}
		}
		if p := a[1]; p.op == "iface" && plainJSONString(c.st, data) {
			if pt, ok := p.typ.Underlying().(*types.Pointer); ok && isStringT(pt.Elem()) && p.a[0] != tNil {
				in.store(c.st, p.a[0], subSeq(c.st.facts, data, tOne, tAddI(seqLen(data), -1)), pt.Elem())
				c.st.assume(mkEqRaw(err, tNil), true)
				return c.ret(tNil)
			}
		}
		return c.fork(func(c *callCtx) []Outcome {
			fill(c, true)
			c.st.assume(mkEqRaw(err, tNil), true)
			return c.ret(tNil)
		}, func(c *callCtx) []Outcome {
			fill(c, false)
			c.st.assume(mkEqRaw(err, tNil), false)
			return c.ret(err)
		})
	}, "encoding/json.Unmarshal")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		n := a[len(a)-1]
		r := in.fresh("rand", resultType(fn.Signature))
		c.ev("mathrand", fn.Name(), a, r)
		return c.fork(when(mkLt(tZero, n), func(c *callCtx) []Outcome {
			c.st.assume(mkLe(tZero, r), true)
			c.st.assume(mkLt(r, n), true)
			return c.ret(r)
		}), when(mkLe(n, tZero), func(c *callCtx) []Outcome { return c.fault() }))
	}, "(*math/rand.Rand).Intn", "(*math/rand.Rand).Int63n", "(*math/rand.Rand).Int31n", "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		in.nfresh++
		id := in.nfresh
		err := mkSym(fmt.Sprintf("jsonerr#%d", id), errType())
		v := in.deepIface(c.st, a[0])
		c.ev("json.Marshal", "", a, err)
		return c.fork(func(c *callCtx) []Outcome {
			return c.ret(mkTuple(in.bytesOf(c.st, mkApp("jsonenc", byteSlice, v), byteSlice), tNil))
		}, func(c *callCtx) []Outcome {
			c.st.assume(mkEqRaw(err, tNil), false)
			return c.ret(mkTuple(tNilSlice, err))
		})
	}, "encoding/json.Marshal", "encoding/json.MarshalIndent")

	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		obj := in.freshAlloc("keccak", nil)
		c.st.set(ghost(obj, "hashed"), tEmpty)
		return c.ret(mkApp("keccakobj", resultType(fn.Signature), obj))
	}, "golang.org/x/crypto/sha3.NewLegacyKeccak256")

	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		q := in.sliceSeq(c.st, a[0])
		in.writeSlice(c.st, c.fr, a[0], tZero, mkApp("hav:sorted", nil, seqLen(q), q), c.pos)
		c.ev("sorted", "", []*T{a[0], q}, nil)
		return c.ret(tUnit)
	}, "sort.Strings", "slices.Sort")

	search := func(found, missing func(at *T) *T) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			q := in.sliceSeq(c.st, a[0])
			at := mkApp("indexin", types.Typ[types.Int], q, a[1])
			return c.fork(
				when(mkLe(tZero, at), func(c *callCtx) []Outcome {
					if !c.st.assume(mkLt(at, seqLen(q)), true) || !c.st.assume(simplEq(atTerm(c.st.facts, q, at), a[1]), true) {
						return nil
					}
					return c.ret(found(at))
				}),
				func(c *callCtx) []Outcome {
					if !c.st.assume(mkLt(at, tZero), true) {
						return nil
					}
					c.ev("missing", "", []*T{q, a[1]}, nil)
					return c.ret(missing(at))
				})
		}
	}
	reg(search(func(at *T) *T { return at }, func(*T) *T { return mkInt(-1) }), "slices.Index")
	reg(search(func(*T) *T { return tTrue }, func(*T) *T { return tFalse }), "slices.Contains")

	// ---- encoding/binary ----
	put := func(n int64, name string) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			b, v := a[1], a[2]
			if !c.oblige("binary", mkLe(mkInt(n), b.a[2])) {
				return c.fault()
			}
			in.writeSlice(c.st, c.fr, b, tZero, mkApp("hav:"+name, byteSlice, mkInt(n), v), c.pos)
			return c.ret(tUnit)
		}
	}
	get := func(n int64, name string) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			b := a[1]
			if !c.oblige("binary", mkLe(mkInt(n), b.a[2])) {
				return c.fault()
			}
			q := subSeq(c.st.facts, in.sliceSeq(c.st, b), tZero, mkInt(n))
			return c.ret(mkApp("un"+name, types.Typ[types.Uint64], q))
		}
	}
	reg(put(8, "le64"), "(encoding/binary.littleEndian).PutUint64")
	reg(get(8, "le64"), "(encoding/binary.littleEndian).Uint64")
	reg(put(8, "be64"), "(encoding/binary.bigEndian).PutUint64")
	reg(get(8, "be64"), "(encoding/binary.bigEndian).Uint64")
	reg(put(4, "be32"), "(encoding/binary.bigEndian).PutUint32")
	reg(get(4, "be32"), "(encoding/binary.bigEndian).Uint32")
	reg(put(4, "le32"), "(encoding/binary.littleEndian).PutUint32")
	reg(get(4, "le32"), "(encoding/binary.littleEndian).Uint32")

	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		k, ok := a[1].int64()
		if !ok {
			return c.ret(in.pureCall(c, "call:bits.RotateLeft64", a, fn.Signature))
		}
		return c.ret(mkRot(a[0], k, types.Typ[types.Uint64]))
	}, "math/bits.RotateLeft64")

	// ---- reflect ----
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0].op == "iface" {
			return c.ret(mkApp("rtype:"+typeKey(a[0].typ), resultType(fn.Signature)))
		}
		return c.ret(mkApp("rtypeof", resultType(fn.Signature), a[0]))
	}, "reflect.TypeOf")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return c.ret(mkApp("rvalue", resultType(fn.Signature), a[0]))
	}, "reflect.ValueOf")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0].isApp("rvalue") {
			return c.ret(a[0].a[0])
		}
		return c.ret(mkApp("rvinterface", resultType(fn.Signature), a[0]))
	}, "(reflect.Value).Interface")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0].isApp("rvalue") && a[0].a[0].op == "iface" {
			return c.ret(mkApp("rtype:"+typeKey(a[0].a[0].typ), resultType(fn.Signature)))
		}
		if a[0].isApp("rvalue") {
			return c.ret(mkApp("rtypeof", resultType(fn.Signature), a[0].a[0]))
		}
		return c.ret(mkApp("rvtype", resultType(fn.Signature), a[0]))
	}, "(reflect.Value).Type")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if !a[0].isApp("rvalue") || a[0].a[0].op == "iface" {
			return c.ret(in.pureCall(c, "call:(reflect.Value).Kind", a, fn.Signature))
		}
		x := a[0].a[0]
		return c.fork(when(simplEq(x, tNil), func(c *callCtx) []Outcome { return c.ret(tZero) }),
			when(mkNot(simplEq(x, tNil)), func(c *callCtx) []Outcome {
				return c.ret(mkApp("inv:(reflect.Type).Kind", resultType(fn.Signature), mkApp("rtypeof", nil, x)))
			}))
	}, "(reflect.Value).Kind")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if a[0].isApp("rvalue") {
			return c.ret(mkNot(simplEq(a[0].a[0], tNil)))
		}
		return c.ret(in.pureCall(c, "call:(reflect.Value).IsValid", a, fn.Signature))
	}, "(reflect.Value).IsValid")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		in.nfresh++
		ok := mkSym(fmt.Sprintf("trysend#%d", in.nfresh), types.Typ[types.Bool])
		c.ev("trysend", "", a, ok)
		return c.ret(ok)
	}, "(reflect.Value).TrySend")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		q := in.sliceSeq(c.st, a[0])
		in.nfresh++
		i := mkSym(fmt.Sprintf("chosen#%d", in.nfresh), types.Typ[types.Int])
		c.st.WF().le = append(c.st.WF().le, tNeg(i), tSub(tAddI(i, 1), a[0].a[2]))
		v := mkTuple(i, mkApp("rvrecv", nil, i), mkSym(fmt.Sprintf("rok#%d", in.nfresh), types.Typ[types.Bool]))
		// a channel may hand over anything another goroutine produced
		if len(c.st.held) == 0 {
			in.havocShared(c.st)
		}
		c.ev("rselect", "", []*T{a[0], q}, v)
		return c.ret(v)
	}, "reflect.Select")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		e := c.ev("callback", "reflect.Call", a, nil)
		outs := in.unknownCall(c, a[1:], resultType(fn.Signature))
		e.res = outs[0].val
		if a[0].isApp("rvalue") && e.res.op == "slice" {
			n := tSub(e.res.a[2], mkApp("inv:(reflect.Type).NumOut", types.Typ[types.Int], mkApp("rtypeof", nil, a[0].a[0])))
			c.st.WF().le = append(c.st.WF().le, n, tNeg(n))
		}
		return outs
	}, "(reflect.Value).Call")
	registerBig(reg)
	registerHeap(reg)
}

var tTen = mkInt(10)

var jsonPlain = func() *byteSet {
	b := &byteSet{}
	b.add(0x20, '!')
	b.add('#', '[')
	b.add(']', 0x7e)
	return b
}()

// wraps: errors of the type may match others than themselves.
func wraps(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "Is" || n == "Unwrap" {
			return true
		}
	}
	return typeKey(t) == "*errors.errorString" // stands for every error made here
}

// subRoot: the sequence q is cut from, and where it starts there.
func subRoot(q *T) (*T, *T) {
	off := tZero
	for q.op == "sub" {
		off = tAdd(off, q.a[1])
		q = q.a[0]
	}
	return q, off
}

// plainJSONString: the bytes are known to be a JSON string that needs no escapes.
func plainJSONString(st *State, q *T) bool {
	f := st.facts
	n := seqLen(q)
	at := func(i *T, lo, hi int64) bool {
		x := atTerm(f, q, i)
		if st.proves(mkLe(mkInt(lo), x)) && st.proves(mkLe(x, mkInt(hi))) {
			return true
		}
		root, off := subRoot(q)
		for y := range elemTerms(f) { // the same place, named when less was known
			if y.a[0] == root && y != x && st.proves(mkIntEq(y.a[1], tAdd(off, i))) && st.proves(mkLe(mkInt(lo), y)) && st.proves(mkLe(y, mkInt(hi))) {
				return true
			}
		}
		return false
	}
	if !st.proves(mkLe(mkInt(2), n)) || !at(tZero, '"', '"') || !at(tAddI(n, -1), '"', '"') {
		return false
	}
	lo := tOne
	for k := 0; k < 8; k++ {
		if st.proves(mkLe(tAddI(n, -1), lo)) {
			return true
		}
		if knownHex(st, subSeq(f, q, lo, tAddI(n, -1))) {
			return true
		}
		for _, fa := range st.all {
			if !fa.class.subset(jsonPlain) {
				continue
			}
			if (fa.seq == q || seqEq(f, fa.seq, q)) && st.proves(mkLe(fa.lo, lo)) && st.proves(mkLe(tAddI(n, -1), fa.hi)) {
				return true
			}
			s1, o1 := subRoot(fa.seq)
			s2, o2 := subRoot(q)
			if (s1 == s2 || seqEq(f, s1, s2)) && st.proves(mkLe(tAdd(o1, fa.lo), tAdd(o2, lo))) && st.proves(mkLe(tAdd(o2, tAddI(n, -1)), tAdd(o1, fa.hi))) {
				return true
			}
		}
		x := atTerm(f, q, lo)
		if !st.proves(mkLe(mkInt('#'), x)) || !st.proves(mkLe(x, mkInt(0x7e))) || !(st.proves(mkLe(x, mkInt('['))) || st.proves(mkLe(mkInt(']'), x))) {
			return false
		}
		lo = tAddI(lo, 1)
	}
	return false
}

// knownHex: the text is not empty and has only hexadecimal digits.
func knownHex(st *State, q *T) bool {
	root, off := subRoot(q)
	return st.proves(mkLe(tOne, seqLen(q))) && textView{root, off, seqLen(q)}.allHex(st, tZero)
}

func isSplitArr(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }

// deepIface: what an encoder sees through an interface argument.
func (in *Interp) deepIface(st *State, x *T) *T {
	if x.op == "iface" {
		p := x.a[0]
		if pt, ok := x.typ.Underlying().(*types.Pointer); ok && p != tNil && p.op != "app" {
			return mkIface(x.typ, in.deepVal(st, in.load(st, p, pt.Elem())))
		}
		return mkIface(x.typ, in.deepVal(st, p))
	}
	return x
}

func (in *Interp) appendSeq(c *callCtx, s, q *T) []Outcome {
	tmp := in.bytesOf(c.st, q, byteSlice)
	d := *c
	d.args = []*T{s, tmp}
	cm := *c.common
	cm.Args = []ssa.Value{c.common.Args[0], c.common.Args[0]}
	d.common = &cm
	return in.doAppend(&d)
}

func (in *Interp) litStrings(c *callCtx, ss []string) *T {
	var es []*T
	for _, s := range ss {
		es = append(es, mkLit(s))
	}
	typ := types.NewSlice(types.Typ[types.String])
	r := in.freshAlloc("strs", typ)
	var q *T
	if len(es) == 0 {
		q = tEmpty
	} else {
		q = intern(&T{op: "seq", a: es})
	}
	c.st.set(r, q)
	n := mkInt(int64(len(es)))
	return mkSlice(r, tZero, n, n)
}

// thenBool maps boolean outcomes to values.
func (in *Interp) thenBool(c *callCtx, outs []Outcome, yesV, noV func(c *callCtx) *T) []Outcome {
	for i := range outs {
		d := *c
		d.st = outs[i].st
		switch outs[i].val {
		case tTrue:
			outs[i].val = yesV(&d)
		case tFalse:
			outs[i].val = noV(&d)
		default:
			outs[i].val = in.fresh("trim", types.Typ[types.String])
		}
	}
	return outs
}

func (in *Interp) noteAtomic(c *callCtx, addr *T, write bool) {
	if !in.trackAccess {
		return
	}
	n := len(in.access)
	in.noteAccess(c.st, c.fr, addr, write, c.pos)
	for i := n; i < len(in.access); i++ {
		in.access[i].atomic = true
	}
}

// ---- big integers ----

func registerBig(reg func(m model, names ...string)) {
	name := func(m string) string { return "(*math/big.Int)." + m }
	val := func(in *Interp, c *callCtx, p *T) *T { return in.bigVal(c.st, p) }
	nilAny := func(c *callCtx, ps ...*T) bool {
		for _, p := range ps {
			if p == tNil || c.st.facts.decideEq(p, tNil) == yes {
				return true
			}
		}
		return false
	}
	set := func(in *Interp, c *callCtx, z, v *T) []Outcome {
		c.ev("bigwrite", "", []*T{z, v}, nil)
		if in.onStore != nil {
			in.onStore(c.st, mkApp("bv", nil, z), v, c.pos, c.fr.fn)
		}
		c.st.set(mkApp("bv", nil, z), v)
		return c.ret(z)
	}
	bin := func(f func(in *Interp, c *callCtx, x, y *T) *T) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			if nilAny(c, a...) {
				return c.fault()
			}
			return set(in, c, a[0], f(in, c, val(in, c, a[1]), val(in, c, a[2])))
		}
	}
	app := func(f string) func(in *Interp, c *callCtx, x, y *T) *T {
		return func(in *Interp, c *callCtx, x, y *T) *T {
			if x.isInt() && y.isInt() {
				switch f {
				case "bmod":
					if y.n.Sign() != 0 {
						return mkBig(new(big.Int).Mod(x.n, y.n))
					}
				case "band":
					return mkBig(new(big.Int).And(x.n, y.n))
				}
			}
			return mkApp(f, nil, x, y)
		}
	}
	reg(bin(func(in *Interp, c *callCtx, x, y *T) *T { return tAdd(x, y) }), name("Add"))
	reg(bin(func(in *Interp, c *callCtx, x, y *T) *T { return tSub(x, y) }), name("Sub"))
	reg(bin(func(in *Interp, c *callCtx, x, y *T) *T { return tMul(x, y) }), name("Mul"))
	reg(bin(app("bor")), name("Or"))
	reg(bin(app("band")), name("And"))
	reg(bin(app("bxor")), name("Xor"))
	reg(bin(app("bandnot")), name("AndNot"))
	reg(bin(app("bquo")), name("Quo"))
	reg(bin(app("bdiv")), name("Div"))
	reg(bin(app("brem")), name("Rem"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a...) {
			return c.fault()
		}
		x, y := val(in, c, a[1]), val(in, c, a[2])
		if in.bigRing { // congruence: values are compared modulo the field prime
			c.ev("bigmod", "", []*T{x, y}, nil)
			return set(in, c, a[0], x)
		}
		return set(in, c, a[0], app("bmod")(in, c, x, y))
	}, name("Mod"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a...) {
			return c.fault()
		}
		return set(in, c, a[0], mkApp("binv", nil, val(in, c, a[1]), val(in, c, a[2])))
	}, name("ModInverse"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a[0], a[1], a[2]) {
			return c.fault()
		}
		m := tZero
		if a[3] != tNil {
			m = val(in, c, a[3])
		}
		return set(in, c, a[0], mkApp("bexp", nil, val(in, c, a[1]), val(in, c, a[2]), m))
	}, name("Exp"))
	un := func(f func(x *T) *T) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			if nilAny(c, a...) {
				return c.fault()
			}
			return set(in, c, a[0], f(val(in, c, a[1])))
		}
	}
	reg(un(func(x *T) *T { return x }), name("Set"))
	reg(un(func(x *T) *T { return tNeg(x) }), name("Neg"))
	reg(un(func(x *T) *T { return mkApp("abs", nil, x) }), name("Abs"))
	reg(un(func(x *T) *T { return tSub(mkInt(-1), x) }), name("Not"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return set(in, c, a[0], a[1])
	}, name("SetInt64"), name("SetUint64"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return set(in, c, a[0], mkApp("nat", nil, mkLit("bytes"), in.sliceSeq(c.st, a[1])))
	}, name("SetBytes"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return set(in, c, a[0], mkApp("nat", nil, mkLit("words"), in.sliceSeq(c.st, a[1])))
	}, name("SetBits"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		x := val(in, c, a[1])
		if k, ok := a[2].int64(); ok && k >= 0 && k < 4096 {
			return set(in, c, a[0], tMul(x, mkBig(new(big.Int).Lsh(bigOne, uint(k)))))
		}
		return set(in, c, a[0], tMul(x, mkApp("pow2", nil, a[2])))
	}, name("Lsh"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		return set(in, c, a[0], mkApp("brsh", nil, val(in, c, a[1]), a[2]))
	}, name("Rsh"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		b, ok := a[2].int64()
		if ok && a[1].op == "lit" {
			if v := parseBase(a[1].s, int(b)); v != nil {
				set(in, c, a[0], v)
				return c.ret(mkTuple(a[0], tTrue))
			}
			return c.ret(mkTuple(tNil, tFalse))
		}
		v := mkApp("parseint", nil, a[2], a[1])
		c.ev("parsenum", "SetString", a, v)
		valid := mkApp("isbignum", types.Typ[types.Bool], a[2], a[1])
		if ok && b == 16 && knownHex(c.st, a[1]) {
			c.st.assume(valid, true)
		}
		return c.fork(when(valid, func(c *callCtx) []Outcome {
			if !c.st.assume(mkLe(tOne, seqLen(a[1])), true) {
				return nil
			}
			set(in, c, a[0], v)
			return c.ret(mkTuple(a[0], tTrue))
		}), when(mkNot(valid), func(c *callCtx) []Outcome {
			in.nfresh++
			set(in, c, a[0], mkSym(fmt.Sprintf("undefined#%d", in.nfresh), nil))
			return c.ret(mkTuple(tNil, tFalse))
		}))
	}, name("SetString"))
	three := func(in *Interp, c *callCtx, d *T) []Outcome {
		return c.fork(
			when(mkLt(d, tZero), func(c *callCtx) []Outcome { return c.ret(mkInt(-1)) }),
			when(mkEq0(d), func(c *callCtx) []Outcome { return c.ret(tZero) }),
			when(mkLt(tZero, d), func(c *callCtx) []Outcome { return c.ret(tOne) }))
	}
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a...) {
			return c.fault()
		}
		return three(in, c, tSub(val(in, c, a[0]), val(in, c, a[1])))
	}, name("Cmp"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a...) {
			return c.fault()
		}
		return three(in, c, val(in, c, a[0]))
	}, name("Sign"))
	q := func(f string, rt types.Type) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			if nilAny(c, a[0]) {
				return c.fault()
			}
			x := val(in, c, a[0])
			if x.isInt() {
				switch f {
				case "bitlen":
					return c.ret(mkInt(int64(x.n.BitLen())))
				case "biguint64":
					return c.ret(mkBig(new(big.Int).SetUint64(x.n.Uint64())))
				case "bigint64":
					return c.ret(mkInt(x.n.Int64()))
				case "isuint64":
					return c.ret(mkBool(x.n.IsUint64()))
				case "isint64":
					return c.ret(mkBool(x.n.IsInt64()))
				}
			}
			return c.ret(mkApp(f, rt, append([]*T{x}, a[1:]...)...))
		}
	}
	reg(q("bitlen", types.Typ[types.Int]), name("BitLen"))
	reg(q("bigbit", types.Typ[types.Uint]), name("Bit"))
	reg(q("bigtz", types.Typ[types.Uint]), name("TrailingZeroBits"))
	reg(q("biguint64", types.Typ[types.Uint64]), name("Uint64"))
	reg(q("bigint64", types.Typ[types.Int64]), name("Int64"))
	reg(q("isuint64", types.Typ[types.Bool]), name("IsUint64"))
	reg(q("isint64", types.Typ[types.Bool]), name("IsInt64"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a[0]) {
			return c.ret(mkLit("<nil>"))
		}
		b := tTen
		if len(a) > 1 {
			b = a[1]
		}
		x := val(in, c, a[0])
		t := mkApp("bigtext", types.Typ[types.String], x, b)
		c.st.assume(mkLe(tOne, seqLen(t)), true)
		if c.st.proves(mkLe(x, mkInt(-1))) {
			c.st.assume(mkLe(mkInt(2), seqLen(t)), true)
			c.st.assume(mkIntEq(atTerm(c.st.facts, t, tZero), mkInt('-')), true)
		}
		return c.ret(t)
	}, name("Text"), name("String"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a[0]) {
			return c.fault()
		}
		x := val(in, c, a[0])
		n := mkDiv(c.st, tAddI(mkApp("bitlen", types.Typ[types.Int], x), 7), mkInt(8))
		return c.ret(in.bytesOf(c.st, mkApp("hav:bigbytes", byteSlice, n, x), byteSlice))
	}, name("Bytes"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a[0]) {
			return c.fault()
		}
		x := val(in, c, a[0])
		in.writeSlice(c.st, c.fr, a[1], tZero, mkApp("hav:bigfill", byteSlice, a[1].a[2], x), c.pos)
		return c.ret(a[1])
	}, name("FillBytes"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		if nilAny(c, a[0]) {
			return c.fault()
		}
		x := val(in, c, a[0])
		rt := resultType(fn.Signature)
		t := mkApp("bigwords", rt, x)
		// the words alias the integer
		c.ev("bigbits", "", []*T{a[0]}, nil)
		n := mkApp("len", types.Typ[types.Int], t)
		return c.ret(mkSlice(mkApp("rgn", rt, t), tZero, n, mkApp("cap", types.Typ[types.Int], t)))
	}, name("Bits"))
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		p := in.freshAlloc("bigint", resultType(fn.Signature).(*types.Pointer).Elem())
		c.st.set(mkApp("bv", nil, p), a[0])
		return c.ret(p)
	}, "math/big.NewInt")
}

// ---- container/heap over a known heap type ----

func registerHeap(reg func(m model, names ...string)) {
	call := func(in *Interp, c *callCtx, h *T, method string, args []*T) []Outcome {
		if h.op == "iface" {
			ms := in.p.SSA.MethodSets.MethodSet(h.typ)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == method {
					if fn := in.p.SSA.MethodValue(ms.At(i)); fn != nil {
						d := *c
						return in.callFn(&d, fn, nil, append([]*T{h.a[0]}, args...))
					}
				}
			}
		}
		return nil
	}
	// reorder: the heap keeps its elements but their order is unknown
	reorder := func(in *Interp, st *State, h *T) {
		if h.op != "iface" {
			return
		}
		p := h.a[0]
		pt, ok := h.typ.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		s := in.load(st, p, pt.Elem())
		if s.op != "slice" {
			return
		}
		q := in.sliceSeq(st, s)
		in.nfresh++
		in.writeSliceQuiet(st, s, mkApp(fmt.Sprintf("hav:heaped#%d", in.nfresh), pt.Elem(), seqLen(q), q))
	}
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		c.ev("heap", "Push", a, nil)
		outs := call(in, c, a[0], "Push", a[1:])
		for i := range outs {
			reorder(in, outs[i].st, a[0])
			outs[i].val = tUnit
		}
		return outs
	}, "container/heap.Push")
	pop := func(kind string) model {
		return func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
			e := c.ev("heap", kind, a, nil)
			if kind == "Remove" && a[0].op == "iface" {
				pt := a[0].typ.Underlying().(*types.Pointer)
				s := in.load(c.st, a[0].a[0], pt.Elem())
				in.oblige(c.st, "heapindex", c.fr.fn, c.pos, mkLe(tZero, a[1]))
				in.oblige(c.st, "heapindex", c.fr.fn, c.pos, mkLt(a[1], s.a[2]))
			}
			reorder(in, c.st, a[0])
			outs := call(in, c, a[0], "Pop", nil)
			if len(outs) > 0 {
				e.res = outs[0].val
			}
			return outs
		}
	}
	reg(pop("Pop"), "container/heap.Pop")
	reg(pop("Remove"), "container/heap.Remove")
	reg(func(in *Interp, c *callCtx, fn *ssa.Function, a []*T) []Outcome {
		c.ev("heap", fn.Name(), a, nil)
		reorder(in, c.st, a[0])
		return c.ret(tUnit)
	}, "container/heap.Fix", "container/heap.Init")
}

func (in *Interp) writeSliceQuiet(st *State, s, q *T) {
	if s.op != "slice" || s.a[0] == tNil || q == tEmpty {
		return
	}
	in.setContent(st, s.a[0], writeRange(st.facts, in.content(st, s.a[0]), s.a[1], q))
}

// sawOnce records that a sync.Once is known to have run.
func sawOnce(st *State, o *T) {
	for _, x := range st.onces {
		if x == o {
			return
		}
	}
	st.onces = append(st.onces[:len(st.onces):len(st.onces)], o)
}
