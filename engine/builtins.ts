// Models of the JavaScript built-ins used by the verified code (trusted base, documented in DESIGN.md).
import ts from "./tsapi.ts";
import * as T from "./term.ts";
import type { Term } from "./term.ts";
import type { Engine, Seq } from "./exec.ts";
import {
	Unsupported, UNDEF, NUL, svBool, svInt, svStr, svStrLit, svRef, svVal, mkFn, box, isNumT, finT, nlt, nle, nadd, nsub, nminmax, nfloor, nceil, ntrunc, nneg,
	isNaNT, truthy, nullish, strictEq, mergeSV, view, Cell, Scope, State, Exits, pcT, mkNumR, ndiv, nmul, npow,
} from "./sym.ts";
import type { SV, FnVal, Out } from "./sym.ts";
const TAG = { ARR: 1, MAP: 2, SET: 3, PLAIN: 4, ERR: 5, REGEX: 6, CLASS: 100 };
const MAXSAFE = T.int(2n ** 53n - 1n), MINSAFE = T.int(-(2n ** 53n - 1n));
const ms = () => T.int(2n ** 53n - 1n), mns = () => T.int(-(2n ** 53n - 1n));

export function globalValue(name: string): SV | undefined {
	switch (name) {
		case "undefined": return UNDEF;
		case "NaN": case "Number.NaN": return { k: "val", t: T.NAN };
		case "Infinity": case "Number.POSITIVE_INFINITY": return { k: "val", t: T.PINF };
		case "Number.NEGATIVE_INFINITY": return { k: "val", t: T.NINF };
		case "Number.MAX_SAFE_INTEGER": return svInt(ms());
		case "Number.MIN_SAFE_INTEGER": return svInt(mns());
		case "Object.prototype": return svRef(T.konst("ObjectPrototype", "Int"));
		case "Number.EPSILON": return { k: "real", t: T.real(Number.EPSILON) };
		case "Boolean": case "String": case "Number": case "Array": case "Object": case "structuredClone": case "parseInt": case "parseFloat":
		case "isNaN": case "isFinite": case "Symbol": case "Promise": case "queueMicrotask": case "setTimeout": case "clearTimeout": case "encodeURIComponent":
			return mkFn({ name });
	}
	if (/^(Math|Number|Object|Array|JSON|Reflect|String|Date|Promise|Buffer|process|performance)\./.test(name)) return mkFn({ name });
	return undefined;
}
function typeNameOf(e: Engine, ty: ts.Type): string {
	const nn = e.checker.getNonNullableType(ty);
	return nn.symbol?.name ?? "";
}
function num(v: SV): SV { return v; }
export function isSafeInt(v: SV): Term {
	if (v.k === "int") return T.and(T.le(mns(), v.t), T.le(v.t, ms()));
	if (v.k === "real") return T.and(T.isIntR(v.t), T.le(T.toReal(mns()), v.t), T.le(v.t, T.toReal(ms())));
	const b = box(v);
	return T.and(T.is("NI", b), T.le(mns(), T.sel("ni", b)), T.le(T.sel("ni", b), ms()));
}

export function callGlobal(e: Engine, name: string, args: SV[], st: State, ex: Exits, n: ts.CallExpression): SV | undefined {
	const a = args[0] ?? UNDEF, b = args[1] ?? UNDEF;
	const spread = (args as any).spread as { at: number; seq: Seq } | undefined;
	switch (name) {
		case "implies": case "imp": return svBool(T.implies(truthy(a), truthy(b)));
		case "iff": return svBool(T.eq(truthy(a), truthy(b)));
		case "same": return svBool(T.eq(box(a), box(b)));
		case "isInt": return svBool(T.is("NI", box(a)));
		case "forallInt": return intQuant(e, args, st, ex, n, true);
		case "existsInt": return intQuant(e, args, st, ex, n, false);
		case "countTo": case "sumTo": {
			const seq = e.seqOf(a, e.typeOf(n.arguments[0]), st, ex, n);
			const h = elemFn(e, seq, args[2], st, n);
			const m = (i: Term) => substS(h.v, new Map([[h.iName, i]]));
			const upto = e.asInt(b, n);
			if (name === "countTo") return svInt(partialSum(e, (i) => T.ite(truthy(m(i)), T.int(1), T.int(0)), upto, true));
			return svInt(partialSum(e, (i) => e.asInt(m(i), n), upto, false));
		}
		case "ghostCount": {
			const t = e.hread(st.heap, `ghost:${(a as any).t.name}`, T.int(1));
			return svVal(T.ite(T.is("NI", t), t, T.ctor("NI", T.int(0))));
		}
		case "Number.isFinite": return svBool(a.k === "int" || a.k === "real" ? T.TRUE : finT(box(a)));
		case "Number.isInteger": return svBool(a.k === "int" ? T.TRUE : a.k === "real" ? T.isIntR(a.t) : T.is("NI", box(a)));
		case "Number.isSafeInteger": return svBool(isSafeInt(a));
		case "Number.isNaN": case "isNaN": return svBool(T.is("VNaN", box(a)));
		case "isFinite": if (a.k === "int" || a.k === "real") return svBool(T.TRUE); return svBool(finT(box(a)));
		case "Boolean": return svBool(truthy(a));
		case "String": return e.toStr(a, st);
		case "Number": if (a.k === "int" || a.k === "real") return a; return svVal(T.app("to_number", [box(a)], "Val"));
		case "Array.isArray": return svBool(a.k === "ref" ? T.eq(e.tag(a.t), T.int(TAG.ARR)) : a.k === "val" ? T.and(T.is("R", a.t), T.eq(e.tag(T.sel("rv", a.t)), T.int(TAG.ARR))) : T.FALSE);
		case "Math.max": case "Math.min": {
			const max = name === "Math.max";
			let acc: SV | undefined;
			for (const x of args) acc = acc ? nminmax(acc, x, max) : x;
			if (spread) { const s = seqMinMax(e, spread.seq, st, max); acc = acc ? nminmax(acc, s, max) : s; }
			return acc ?? { k: "val", t: max ? T.NINF : T.PINF };
		}
		case "Math.floor": return nfloor(a);
		case "Math.ceil": return nceil(a);
		case "Math.trunc": return ntrunc(a);
		case "Math.round": return nfloor(nadd(a, { k: "real", t: T.real(0.5) }));
		case "Math.abs": return mergeSV(nlt(a, svInt(T.int(0))), nneg(a), a);
		case "Math.pow": {
			if (a.k === "int" && a.t.op === "int" && BigInt(a.t.name!) >= 2n) return npow(BigInt(a.t.name!), b, (f) => e.addFact(f));
			return undefined;
		}
		case "Math.random": { const r = e.fresh("rnd", "Real"); e.addFact(T.and(T.le(T.realLit("0.0"), r), T.lt(r, T.realLit("1.0")))); return { k: "real", t: r }; }
		case "Date.now": case "performance.now": { const t = e.fresh("now", "Int"); e.addFact(T.le(T.int(0), t)); return svInt(t); }
		case "Object.freeze": case "Object.seal": case "Promise.resolve": return a;
		case "Object.keys": case "Reflect.ownKeys": return objKeys(e, a, st, ex, n, name);
		case "Object.getPrototypeOf": {
			const r = e.needRef(a, st, ex, n);
			const t = T.app("protoOf", [r], "Val");
			e.addFact(T.or(T.is("Null", t), T.is("R", t)));
			e.addFact(T.implies(T.eq(e.tag(r), T.int(TAG.PLAIN)), T.eq(t, T.ctor("R", T.konst("ObjectPrototype", "Int")))));
			return svVal(t, true);
		}
		case "Object.hasOwn": {
			const r = e.needRef(a, st, ex, n);
			if (b.k === "str" && e.isRecord(e.typeOf(n.arguments[0]))) return svBool(T.not(T.is("Undef", e.sel(e.hread(st.heap, "#rec", r), b.t))));
			if (b.k === "str" && b.t.op === "strlit") return svBool(e.hasField(st, r, b.t.name!));
			return undefined;
		}
		case "Object.getOwnPropertyDescriptor": {
			// data property: { value } present iff the field is; getters are reported without "value"
			const r = e.needRef(a, st, ex, n);
			if (b.k !== "str" || b.t.op !== "strlit") return undefined;
			const d = e.alloc(TAG.PLAIN);
			const f = b.t.name!;
			const isData = T.app("is_data_prop", [r, b.t], "Bool");
			e.hwrite(st, "value", d, T.ite(isData, e.hread(st.heap, f, r), T.UNDEF), n);
			e.addFact(T.eq(T.app("has_undef_prop", [d, T.strLit("value")], "Bool"), isData));
			e.addFact(T.implies(T.not(isData), T.not(T.app("has_undef_prop", [d, T.strLit("value")], "Bool"))));
			const has = e.hasField(st, r, f);
			return mergeSV(has, { k: "ref", t: d, raw: true }, UNDEF);
		}
		case "structuredClone": return cloneByType(e, a, e.typeOf(n.arguments[0]), st, n, 0);
		case "Object.values": case "Object.entries": {
			const ty = e.typeOf(n.arguments[0]);
			if (!e.isRecord(ty)) return undefined;
			const r = e.needRef(a, st, ex, n);
			if (st.dead) return UNDEF;
			const ks = e.recKeys(r, st, n);
			const h = st.heap.clone();
			const val = (i: Term, s: State) => { const s2 = s.fork(); s2.heap = h; return e.recVal(r, (ks.get(i, s) as any).t, ty, s2); };
			if (name === "Object.values") return iter(e, { len: ks.len, get: val });
			return iter(e, { len: ks.len, get: (i, s) => {
				const pr = e.alloc(TAG.ARR);
				const arr = T.store(T.store(T.constArr("(Array Int Val)", T.UNDEF), T.int(0), box(ks.get(i, s))), T.int(1), box(val(i, s)));
				e.hwrite(s, "#el", pr, arr, n); e.hwrite(s, "#len", pr, T.int(2), n);
				return svRef(pr);
			}, pairs: { key: ks, val } });
		}
		case "JSON.stringify": { const t = T.app("json_stringify", [box(a)], "Val"); e.addFact(T.or(T.is("S", t), T.is("Undef", t))); return svVal(t); }
		case "String.fromCharCode": { return svStr(T.app("from_char_code", args.map(box), "Str")); }
		case "Buffer.byteLength": {
			const s = e.asStr(a, n);
			return svInt(byteLen(e, s));
		}
	}
	return undefined;
}
export function byteLen(e: Engine, s: Term): Term {
	if (s.op === "strlit") return T.int(Buffer.byteLength(s.name!, "utf-8"));
	const t = T.app("utf8_len", [s], "Int");
	const l = e.strLen(s);
	e.addFact(T.and(T.le(T.int(0), t), T.le(l, t), T.le(t, T.mul(T.int(3), l))));
	return t;
}
function intQuant(e: Engine, args: SV[], st: State, ex: Exits, n: ts.CallExpression, all: boolean): SV {
	const lo = e.asInt(args[0], n), hi = e.asInt(args[1], n);
	const cb = args[2];
	if (cb.k !== "fn") throw new Unsupported("forallInt callback", n);
	const cnt = T.sub(hi, lo);
	const seq: Seq = { len: T.ite(T.le(T.int(0), cnt), cnt, T.int(0)), get: (i) => svInt(T.add(i, lo)) };
	return anyAll(e, seq, cb, st, ex, n, all);
}
/** exists / forall over a sequence with a callback */
export function anyAll(e: Engine, seq: Seq, cb: SV, st: State, ex: Exits, n: ts.CallExpression, all: boolean): SV {
	const cell = new Cell("$flag");
	st.cells.set(cell, svBool(T.FALSE));
	let cur!: Term;
	const s2: Seq = { ...seq, get: (i, s) => { cur = i; return seq.get(i, s); } };
	e.loopOver(n, s2, st, new Scope(), ex, (elem, s, bsc, inner) => {
		const sub = new Exits();
		const v = callCb(e, cb, [elem, svInt(cur)], s, sub, n);
		inner.throws.push(...sub.throws);
		if (s.dead) return;
		const c = all ? T.not(truthy(v)) : truthy(v);
		const b = s.fork(c);
		if (!b.dead) { b.cells.set(cell, svBool(T.TRUE)); inner.breaks.push({ st: b, v: UNDEF }); }
		s.assume(T.not(c));
	});
	if (st.dead) return UNDEF;
	const f = st.cells.get(cell)! as any;
	st.cells.delete(cell);
	return svBool(all ? T.not(f.t) : f.t);
}
export function callCb(e: Engine, cb: SV, args: SV[], st: State, ex: Exits, n: ts.Node): SV {
	if (cb.k !== "fn") throw new Unsupported("callback is not a known function", n);
	const f = cb.f;
	if (f.decl) { const np = f.decl.parameters.length; const hasRest = f.decl.parameters.some((p) => p.dotDotDotToken); return e.callFn(f, hasRest ? args : args.slice(0, Math.max(np, 0)), st, ex, n); }
	return e.callFn(f, args.slice(0, 1), st, ex, n);
}
function seqMinMax(e: Engine, seq: Seq, st: State, max: boolean): SV {
	const m = e.fresh(max ? "max" : "min", "Val");
	const mv: SV = { k: "val", t: m };
	const empty = T.eq(seq.len, T.int(0));
	e.addFact(T.implies(empty, T.eq(m, max ? T.NINF : T.PINF)));
	const k = e.fresh("mk", "Int");
	const at = (i: Term) => seq.get(i, st);
	e.addFact(T.implies(T.not(empty), T.and(T.le(T.int(0), k), T.lt(k, seq.len), T.eq(box(at(k)), m))));
	e.addFact(isNumT(m));
	e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, seq.len)), ([i]) => {
		const x = at(i);
		e.addFact(T.implies(isNaNT(x), T.is("VNaN", m)));
		e.addFact(T.not(max ? nlt(mv, x) : nlt(x, mv)));
	});
	return mv;
}
function objKeys(e: Engine, a: SV, st: State, ex: Exits, n: ts.CallExpression, name: string): SV {
	const r = e.needRef(a, st, ex, n);
	if (name === "Object.keys" && r.op !== "int" && e.isRecord(e.typeOf(n.arguments[0]))) return iter(e, e.recKeys(r, st, n));
	if (r.op === "int") {
		const c: any = e.constObjs.get(r.name!);
		if (c && !c.el && !c.set && !c.map) return e.buildArray([...c.fields.keys()].map((k: string) => ({ one: svStrLit(k) })), st, n);
	}
	const t = T.app(name === "Object.keys" ? "obj_keys" : "own_keys", [r], "Int");
	e.addFact(T.and(T.lt(t, T.konst("A!0", "Int")), T.eq(e.tag(t), T.int(TAG.ARR))));
	e.oldRefs.set(t.id, { base: T.konst("A!0", "Int"), n: 0 });
	if (name === "Object.keys") {
		const len = e.lenOf(st, t);
		e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, len)), ([i]) => { e.addFact(T.is("S", e.sel(e.hread(st.heap, "#el", t), i))); });
	}
	return svRef(t);
}
export function cloneByType(e: Engine, v: SV, ty: ts.Type, st: State, n: ts.Node, d: number): SV {
	if (v.k !== "ref" && v.k !== "val") return v;
	if (v.k === "val") {
		const prim = T.not(T.is("R", v.t));
		if (e.isKind(e.checker.getNonNullableType(ty), "num") || e.isKind(e.checker.getNonNullableType(ty), "str") || e.isKind(e.checker.getNonNullableType(ty), "bool")) return v;
		return e.branch(st, prim, () => v, (s) => cloneByType(e, svRef(T.sel("rv", (v as any).t)), e.checker.getNonNullableType(ty), s, n, d));
	}
	if (d > 4) throw new Unsupported("clone depth", n);
	if (e.isArrayish(ty)) {
		const seq = e.seqOf(v, ty, st, new Exits(), n);
		const et = e.elemType(ty);
		if (et && (e.isKind(et, "str") || e.isKind(et, "num") || e.isKind(et, "bool"))) return e.buildArray([{ seq }], st, n);
		throw new Unsupported("clone of array of objects", n);
	}
	if (e.isUntrustedType(ty) || ty.isUnion()) throw new Unsupported("clone of untyped value", n);
	const r = e.alloc(TAG.PLAIN);
	for (const f of e.propNames(ty)) {
		const pt = e.propType(ty, f, n);
		const x = e.typed(e.hread(st.heap, f, v.t), pt, st, T.TRUE, f);
		e.hwrite(st, f, r, box(pt ? cloneByType(e, x, pt, st, n, d + 1) : x), n);
	}
	return svRef(r);
}

const iter = (e: Engine, seq: Seq): SV => { const r = e.alloc(7); e.iterSeqs.set(r.id, seq); return svRef(r); };

export function callBuiltinMethod(e: Engine, o: SV, oty: ts.Type, name: string, callee: ts.PropertyAccessExpression, n: ts.CallExpression, st: State, sc: Scope, ex: Exits): SV | undefined {
	if (o.k === "ref" && e.iterSeqs.has(o.t.id)) {
		return arrayMethod(e, o, undefined, e.iterSeqs.get(o.t.id)!, name, n, st, sc, ex);
	}
	if (o.k === "str" || (o.k === "val" && !o.raw && e.isKind(oty, "str"))) return stringMethod(e, o.k === "str" ? o.t : T.sel("sv", o.t), name, n, st, sc, ex);
	if (o.k === "val" && o.raw && e.isKind(oty, "str") ) {
		// dynamic receiver narrowed to string by the checker
		e.throwIf(st, ex, T.not(T.is("S", o.t)), "TypeError", n);
		if (st.dead) return UNDEF;
		return stringMethod(e, T.sel("sv", o.t), name, n, st, sc, ex);
	}
	if (o.k === "int" || o.k === "real" || (o.k === "val" && e.isKind(oty, "num"))) {
		const args = e.evalArgs(n, st, sc, ex);
		if (name === "toFixed" || name === "toString" || name === "toLocaleString") { const t = T.app(`num_${name}`, [box(o), ...args.map(box)], "Str"); e.addFact(T.not(T.eq(t, T.strLit("")))); return svStr(t); }
		return undefined;
	}
	const tn = typeNameOf(e, oty);
	if (/^(Readonly)?(Map|Set)$/.test(tn)) return collectionMethod(e, o, oty, tn.replace("Readonly", ""), name, n, st, sc, ex);
	if (e.isArrayish(e.checker.getNonNullableType(oty))) {
		const r = e.needRef(o, st, ex, n);
		if (st.dead) return UNDEF;
		const seq = e.seqOf(o, oty, st, ex, n);
		return arrayMethod(e, o, r, seq, name, n, st, sc, ex, oty);
	}
	if (tn === "RegExp") {
		const args = e.evalArgs(n, st, sc, ex);
		if (name === "test" && o.k === "ref") {
			const src = e.regexOf?.get(o.t.id) ?? o.t.id;
			return svBool(T.app(`re_test`, [svStrLitT(String(src)), e.asStr(args[0], n)], "Bool"));
		}
	}
	return undefined;
}
const svStrLitT = (s: string) => T.strLit(s);

function elemFn(e: Engine, seq: Seq, cb: SV | undefined, st: State, n: ts.Node): { at: (i: Term) => SV; i: Term; iName: string; v: SV; s: State; mark: number } {
	let out: any;
	const mark = T.raw("mark", [], "Int", T.freshName("m")).id;
	const f0 = e.facts.length;
	e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, seq.len)), ([i]) => {
		const s = st.fork();
		s.writes = [];
		const inner = new Exits();
		const x = seq.get(i, s);
		const v = cb ? callCb(e, cb, [x, svInt(i)], s, inner, n) : x;
		if (s.dead || inner.throws.length) throw new Unsupported("throwing callback", n);
		for (const [c, w] of st.cells) { const y = s.cells.get(c); if (y !== w && box(y!) !== box(w)) throw new Unsupported("callback with side effects", n); }
		out = { i, iName: i.name!, v, s, mark };
	});
	return out;
}
export function substS(v: SV, m: Map<string, Term>): SV {
	if (v.k === "undef" || v.k === "null" || v.k === "fn") return v;
	const t = T.subst(v.t, m);
	return v.k === "val" ? svVal(t, v.raw) : ({ ...v, t } as SV);
}

function arrayMethod(e: Engine, o: SV, r: Term | undefined, seq: Seq, name: string, n: ts.CallExpression, st: State, sc: Scope, ex: Exits, oty?: ts.Type): SV | undefined {
	const lenLit = seq.len.op === "int" ? Number(seq.len.name) : undefined;
	const small = lenLit !== undefined && lenLit <= e.unrollLimit;
	const args = e.evalArgs(n, st, sc, ex);
	if (st.dead) return UNDEF;
	const cb = args[0];
	let cur!: Term;
	const s2: Seq = { ...seq, get: (i, s) => { cur = i; return seq.get(i, s); } };
	const search = (init: SV, f: (elem: SV, s: State, inner: Exits) => { c: Term; v: SV }): SV => {
		const cell = new Cell("$res");
		st.cells.set(cell, init);
		e.loopOver(n, s2, st, new Scope(), ex, (elem, s, bsc, inner) => {
			const i = cur;
			const { c, v } = f(elem, s, inner);
			if (s.dead) return;
			const b = s.fork(c);
			if (!b.dead) { b.cells.set(cell, v); inner.breaks.push({ st: b, v: UNDEF }); }
			s.assume(T.not(c));
		});
		if (st.dead) return UNDEF;
		const v = st.cells.get(cell)!;
		st.cells.delete(cell);
		return v;
	};
	switch (name) {
		case "some": return anyAll(e, seq, cb, st, ex, n, false);
		case "every": return anyAll(e, seq, cb, st, ex, n, true);
		case "includes": return search(svBool(T.FALSE), (x) => ({ c: T.or(strictEq(x, cb), T.and(isNaNT(x), isNaNT(cb))), v: svBool(T.TRUE) }));
		case "indexOf": return search(svInt(T.int(-1)), (x) => ({ c: strictEq(x, cb), v: svInt(cur) }));
		case "find": return search(UNDEF, (x, s, inner) => { const v = callCb(e, cb, [x, svInt(cur)], s, inner, n); return { c: truthy(v), v: x }; });
		case "findIndex": return search(svInt(T.int(-1)), (x, s, inner) => { const i = cur; const v = callCb(e, cb, [x, svInt(i)], s, inner, n); return { c: truthy(v), v: svInt(i) }; });
		case "findLast": case "findLastIndex": case "lastIndexOf": {
			const rs: Seq = { ...seq, get: (i, s) => { const j = T.sub(T.sub(seq.len, T.int(1)), i); cur = j; return seq.get(j, s); } };
			const cell = new Cell("$res");
			st.cells.set(cell, name === "findLast" ? UNDEF : svInt(T.int(-1)));
			e.loopOver(n, rs, st, new Scope(), ex, (elem, s, bsc, inner) => {
				const j = cur;
				const c = name === "lastIndexOf" ? strictEq(elem, cb) : truthy(callCb(e, cb, [elem, svInt(j)], s, inner, n));
				if (s.dead) return;
				const b = s.fork(c);
				if (!b.dead) { b.cells.set(cell, name === "findLast" ? elem : svInt(j)); inner.breaks.push({ st: b, v: UNDEF }); }
				s.assume(T.not(c));
			});
			if (st.dead) return UNDEF;
			const v = st.cells.get(cell)!; st.cells.delete(cell);
			return v;
		}
		case "forEach":
			e.loopOver(n, s2, st, new Scope(), ex, (elem, s, bsc, inner) => { callCb(e, cb, [elem, svInt(cur)], s, inner, n); });
			return UNDEF;
		case "reduce": {
			if (args.length < 2) throw new Unsupported("reduce without initial value", n);
			const pname = cb.k === "fn" && cb.f.decl && ts.isIdentifier(cb.f.decl.parameters[0]?.name) ? (cb.f.decl.parameters[0].name as ts.Identifier).text : "acc";
			const cell = new Cell(pname, e.safeType(n));
			const rsc = new Scope(sc);
			rsc.vars.set({ name: pname } as any, cell);
			st.cells.set(cell, args[1]);
			e.loopOver(n, s2, st, rsc, ex, (elem, s, bsc, inner) => {
				const i = cur;
				const v = callCb(e, cb, [s.cells.get(cell)!, elem, svInt(i)], s, inner, n);
				if (!s.dead) s.cells.set(cell, v);
			});
			if (st.dead) return UNDEF;
			const v = st.cells.get(cell)!; st.cells.delete(cell);
			return v;
		}
		case "map": {
			if (small) {
				const parts: any[] = [];
				for (let i = 0; i < lenLit!; i++) { parts.push({ one: callCb(e, cb, [seq.get(T.int(i), st), svInt(T.int(i))], st, ex, n) }); if (st.dead) return UNDEF; }
				return e.buildArray(parts, st, n);
			}
			const A0 = e.Anow;
			const h = elemFn(e, seq, cb, st, n);
			const arr = e.alloc(TAG.ARR);
			const E = e.fresh("map", "(Array Int Val)");
			publishHeap(e, st, h, seq, A0, n);
			e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, seq.len)), ([i]) => {
				e.addFact(T.eq(T.select(E, i), box(substS(h.v, new Map([[h.iName, i]])))));
			});
			e.hwrite(st, "#len", arr, seq.len, n);
			e.hwrite(st, "#el", arr, E, n);
			return svRef(arr);
		}
		case "filter": {
			const isBoolean = cb.k === "fn" && cb.f.name === "Boolean";
			if (small) {
				const arr = e.alloc(TAG.ARR);
				let len: Term = T.int(0);
				let el = T.constArr("(Array Int Val)", T.UNDEF);
				for (let i = 0; i < lenLit!; i++) {
					const x = seq.get(T.int(i), st);
					const c = truthy(isBoolean ? x : callCb(e, cb, [x, svInt(T.int(i))], st, ex, n));
					if (st.dead) return UNDEF;
					el = T.ite(c, T.store(el, len, box(x)), el);
					len = T.ite(c, T.add(len, T.int(1)), len);
				}
				e.hwrite(st, "#len", arr, len, n);
				e.hwrite(st, "#el", arr, el, n);
				return svRef(arr);
			}
			const h = elemFn(e, seq, isBoolean ? undefined : cb, st, n);
			const P = (i: Term) => truthy(substS(h.v, new Map([[h.iName, i]])));
			return filterSeq(e, seq, P, st, n);
		}
		case "flatMap": {
			if (small) {
				const parts: any[] = [];
				for (let i = 0; i < lenLit!; i++) {
					const v = callCb(e, cb, [seq.get(T.int(i), st), svInt(T.int(i))], st, ex, n);
					if (st.dead) return UNDEF;
					parts.push({ seq: e.seqOf(v, cbRet(e, cb, n), st, ex, n) });
				}
				return e.buildArray(parts, st, n);
			}
			const A0 = e.Anow;
			const h = elemFn(e, seq, cb, st, n);
			publishHeap(e, st, h, seq, A0, n);
			return flatSeq(e, seq, (i) => T.sel("rv", box(substS(h.v, new Map([[h.iName, i]])))), cbRet(e, cb, n), st, n);
		}
		case "push": {
			if (!r) return undefined;
			let len = e.hread(st.heap, "#len", r);
			let el = e.hread(st.heap, "#el", r);
			if ((args as any).spread) {
				const s = (args as any).spread.seq as Seq;
				const parts: any[] = [{ seq: { len, get: (i: Term) => svVal(T.select(el, i)) } }, ...args.map((x) => ({ one: x })), { seq: s }];
				const nr = e.buildArray(parts, st, n) as any;
				e.hwrite(st, "#el", r, e.hread(st.heap, "#el", nr.t), n);
				const nl = e.hread(st.heap, "#len", nr.t);
				e.hwrite(st, "#len", r, nl, n);
				return svInt(nl);
			}
			for (const x of args) { el = T.store(el, len, box(x)); len = T.add(len, T.int(1)); }
			e.hwrite(st, "#el", r, el, n);
			e.hwrite(st, "#len", r, len, n);
			return svInt(len);
		}
		case "pop": {
			if (!r) return undefined;
			const len = e.lenOf(st, r);
			const empty = T.eq(len, T.int(0));
			const last = T.sub(len, T.int(1));
			const s1 = st.fork(T.not(empty));
			const v = seq.get(last, s1);
			e.hwrite(st, "#len", r, T.ite(empty, T.int(0), last), n);
			return mergeSV(empty, UNDEF, v);
		}
		case "shift": {
			if (!r) return undefined;
			const len = e.lenOf(st, r);
			const empty = T.eq(len, T.int(0));
			const s1 = st.fork(T.not(empty));
			const v = seq.get(T.int(0), s1);
			const el0 = e.hread(st.heap, "#el", r);
			const E = shifted(e, el0, T.int(1));
			e.hwrite(st, "#el", r, E, n);
			e.hwrite(st, "#len", r, T.ite(empty, T.int(0), T.sub(len, T.int(1))), n);
			return mergeSV(empty, UNDEF, v);
		}
		case "unshift": {
			if (!r || (args as any).spread) return undefined;
			const parts: any[] = [...args.map((x) => ({ one: x })), { seq: { ...seq, get: snapshotGet(e, st, r) } }];
			const nr = e.buildArray(parts, st, n) as any;
			e.hwrite(st, "#el", r, e.hread(st.heap, "#el", nr.t), n);
			const nl = e.hread(st.heap, "#len", nr.t);
			e.hwrite(st, "#len", r, nl, n);
			return svInt(nl);
		}
		case "slice": case "toSpliced": {
			if (name !== "slice") return undefined;
			const { lo, hi } = sliceBounds(e, args, seq.len, n);
			const cnt = T.sub(hi, lo);
			const len = T.ite(T.le(T.int(0), cnt), cnt, T.int(0));
			return e.buildArray([{ seq: { len, get: (i, s) => seq.get(T.add(i, lo), s) } }], st, n);
		}
		case "splice": {
			if (!r || args.length < 1) return undefined;
			const { lo } = sliceBounds(e, [args[0]], seq.len, n);
			let del: Term;
			if (args.length < 2) del = T.sub(seq.len, lo);
			else { const d = e.asInt(args[1], n); const mx = T.sub(seq.len, lo); del = T.ite(T.lt(d, T.int(0)), T.int(0), T.ite(T.lt(mx, d), mx, d)); }
			const g = snapshotGet(e, st, r);
			const removed = e.buildArray([{ seq: { len: del, get: (i, s) => g(T.add(i, lo), s) } }], st, n);
			const tailFrom = T.add(lo, del);
			const parts: any[] = [{ seq: { len: lo, get: g } }, ...args.slice(2).map((x) => ({ one: x }))];
			if ((args as any).spread) parts.push({ seq: (args as any).spread.seq });
			parts.push({ seq: { len: T.sub(seq.len, tailFrom), get: (i: Term, s: State) => g(T.add(i, tailFrom), s) } });
			const nr = e.buildArray(parts, st, n) as any;
			e.hwrite(st, "#el", r, e.hread(st.heap, "#el", nr.t), n);
			e.hwrite(st, "#len", r, e.hread(st.heap, "#len", nr.t), n);
			return removed;
		}
		case "concat": {
			const parts: any[] = [{ seq }];
			(n.arguments ?? []).forEach((a, i) => {
				const t = e.typeOf(a);
				if (e.isArrayish(e.checker.getNonNullableType(t))) parts.push({ seq: e.seqOf(args[i], t, st, ex, a) });
				else parts.push({ one: args[i] });
			});
			return e.buildArray(parts, st, n);
		}
		case "at": {
			const i = e.asInt(args[0], n);
			const idx = T.ite(T.le(T.int(0), i), i, T.add(seq.len, i));
			const inr = T.and(T.le(T.int(0), idx), T.lt(idx, seq.len));
			const s1 = st.fork(inr);
			return mergeSV(inr, seq.get(idx, s1), UNDEF);
		}
		case "join": {
			if (small) {
				const sep = args[0] ? (args[0] as any).t as Term : T.strLit(",");
				const parts: SV[] = [];
				for (let i = 0; i < lenLit!; i++) { if (i) parts.push(svStr(sep)); parts.push(e.toStr(seq.get(T.int(i), st), st)); }
				return parts.length ? e.concat(parts) : svStrLit("");
			}
			const el = r ? e.hread(st.heap, "#el", r) : e.fresh("joined", "(Array Int Val)");
			return svStr(T.app("arr_join", [el, seq.len, args[0] ? e.asStr(args[0], n) : T.strLit(",")], "Str"));
		}
		case "reverse": case "toReversed": {
			const g = r ? snapshotGet(e, st, r) : seq.get;
			const res = e.buildArray([{ seq: { len: seq.len, get: (i, s) => g(T.sub(T.sub(seq.len, T.int(1)), i), s) } }], st, n) as any;
			if (name === "reverse" && r) { e.hwrite(st, "#el", r, e.hread(st.heap, "#el", res.t), n); return svRef(r); }
			return res;
		}
		case "sort": case "toSorted": {
			// a permutation of the input, ordered by the comparator (assumed to be a consistent comparator)
			const E = e.fresh("sorted", "(Array Int Val)");
			const pn = T.freshName("perm"), qn = T.freshName("pinv");
			const bt = e.boundTerms();
			const P = (i: Term) => T.app(pn, [...bt, i], "Int"), Q = (i: Term) => T.app(qn, [...bt, i], "Int");
			const el0 = (i: Term) => box(seq.get(i, st));
			e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, seq.len)), ([i]) => {
				e.addFact(T.and(T.le(T.int(0), P(i)), T.lt(P(i), seq.len), T.eq(Q(P(i)), i), T.eq(T.select(E, i), el0(P(i)))));
				e.addFact(T.and(T.le(T.int(0), Q(i)), T.lt(Q(i), seq.len), T.eq(P(Q(i)), i)));
			});
			if (cb && cb.k === "fn") {
				const ety = seq.ety;
				e.withBound(["Int", "Int"], ([i, j]) => T.and(T.le(T.int(0), i), T.lt(i, j), T.lt(j, seq.len)), ([i, j]) => {
					const s = st.fork(); const inner = new Exits();
					const a = ety ? e.typed(T.select(E, i), ety, s) : svVal(T.select(E, i), true), b = ety ? e.typed(T.select(E, j), ety, s) : svVal(T.select(E, j), true);
					const c = callCb(e, cb, [a, b], s, inner, n);
					if (!s.dead) e.addFact(nle(c, svInt(T.int(0))));
				});
			}
			if (name === "sort" && r) { e.hwrite(st, "#el", r, E, n); return svRef(r); }
			const arr = e.alloc(TAG.ARR);
			e.hwrite(st, "#len", arr, seq.len, n); e.hwrite(st, "#el", arr, E, n);
			return svRef(arr);
		}
		case "keys": return iter(e, { len: seq.len, get: (i) => svInt(i) });
		case "values": return iter(e, seq);
		case "entries": return iter(e, { len: seq.len, get: (i, s) => { const v = seq.get(i, s); return e.buildArray([{ one: svInt(i) }, { one: v }], s, n); } });
		case "toArray": return e.buildArray([{ seq }], st, n);
	}
	return undefined;
}
function snapshotGet(e: Engine, st: State, r: Term) { const el = e.hread(st.heap, "#el", r); return (i: Term, s: State): SV => svVal(e.sel(el, i)); }
function shifted(e: Engine, el0: Term, by: Term): Term {
	const E = e.fresh("shift", "(Array Int Val)");
	e.withBound(["Int"], () => T.TRUE, ([i]) => e.addFact(T.implies(T.le(T.int(0), i), T.eq(T.select(E, i), T.select(el0, T.add(i, by))))));
	return E;
}
function sliceBounds(e: Engine, args: SV[], len: Term, n: ts.Node) {
	const norm = (v: SV | undefined, dflt: Term): Term => {
		if (!v || v.k === "undef") return dflt;
		let i: Term;
		if (v.k === "int") i = v.t;
		else { const tr = ntrunc(v); i = tr.k === "int" ? tr.t : T.ite(T.is("NI", box(tr)), T.sel("ni", box(tr)), T.ite(T.is("VPInf", box(tr)), len, T.ite(T.is("VNInf", box(tr)), T.int(0), T.ite(T.is("Undef", box(v)), dflt, T.int(0))))); }
		if (i.op === "int" && T.intVal(i) >= 0n) return len.op === "int" ? (T.intVal(i) < T.intVal(len) ? i : len) : i.name === "0" ? i : T.ite(T.lt(len, i), len, i);
		const neg = T.add(len, i);
		return T.ite(T.lt(i, T.int(0)), T.ite(T.lt(neg, T.int(0)), T.int(0), neg), T.ite(T.lt(len, i), len, i));
	};
	return { lo: norm(args[0], T.int(0)), hi: norm(args[1], len) };
}
function cbRet(e: Engine, cb: SV, n: ts.Node): ts.Type {
	if (cb.k === "fn" && cb.f.decl) { const sig = e.checker.getSignatureFromDeclaration(cb.f.decl as any); if (sig) return e.checker.getReturnTypeOfSignature(sig); }
	throw new Unsupported("callback type", n);
}
/** make objects allocated by a mapped callback visible in the outer heap */
function publishHeap(e: Engine, st: State, h: { s: State; iName: string; i: Term }, seq: Seq, A0: Term, n: ts.Node) {
	const ws = h.s.writes ?? [];
	if (ws.length === 0) return;
	const fields = new Map<string, Set<Term>>();
	for (const w of ws) {
		if (!(w.ref.op === "app" && w.ref.name!.startsWith("new!"))) throw new Unsupported("callback writes to the heap", n);
		if (!fields.has(w.f)) fields.set(w.f, new Set());
		fields.get(w.f)!.add(w.ref);
	}
	for (const [f, refs] of fields) {
		const h0 = e.heapGet(st.heap, f);
		const hi = e.heapGet(h.s.heap, f);
		const H = T.konst(T.freshName(`HM_${f}`), h0.sort);
		const es = T.elemSort(h0.sort);
		e.baseAxioms(H, f, e.Anow);
		e.withBound(["Int"], ([r]) => T.lt(r, A0), ([r]) => e.addFact(T.eq(T.raw("select", [H, r], es), T.select(h0, r))));
		e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, seq.len)), ([i]) => {
			const m = new Map([[h.iName, i]]);
			for (const r of refs) e.addFact(T.eq(T.raw("select", [H, T.subst(r, m)], es), T.subst(e.sel(hi, r), m)));
		});
		st.heap.m.set(f, H);
		st.writes?.push({ f, ref: e.Anow });
	}
}
/** the sum of term(0..n-1): a definitional extension, with the instances needed around n */
export function partialSum(e: Engine, term: (i: Term) => Term, n: Term, count: boolean): Term {
	const ci = T.bound("sum_i", "Int");
	const key = term(ci);
	const extra = [...key.fv].filter((v) => v !== "sum_i");
	if (extra.length) throw new Unsupported("sum over a term with other bound variables");
	const name = `sum_${key.id}`;
	e.sums.set(name, { term, count });
	const f = (x: Term, g = name) => T.app(g, [x], "Int");
	const step = (x: Term) => e.addFact(T.implies(T.le(T.int(0), x), T.eq(f(T.add(x, T.int(1))), T.add(f(x), term(x)))));
	e.addFact(T.eq(f(T.int(0)), T.int(0)));
	step(n); step(T.sub(n, T.int(1)));
	if (count) e.addFact(T.implies(T.le(T.int(0), n), T.and(T.le(T.int(0), f(n)), T.le(f(n), n))));
	// pointwise comparison with the other sums of this function
	for (const [g, o] of e.sums) if (g !== name) {
		for (const [x, y, tx, ty] of [[name, g, term, o.term], [g, name, o.term, term]] as const) {
			const d = T.app(`dif_${x}_${y}`, [n], "Int");
			e.addFact(T.or(T.le(f(n, x), f(n, y)), T.and(T.le(T.int(0), d), T.lt(d, n), T.lt(ty(d), tx(d)))));
		}
	}
	return f(n);
}
function filterSeq(e: Engine, seq: Seq, P: (i: Term) => Term, st: State, n: ts.Node): SV {
	const arr = e.alloc(TAG.ARR);
	const E = e.fresh("flt", "(Array Int Val)");
	const len = e.fresh("fltlen", "Int");
	const bt = e.boundTerms();
	const sn = T.freshName("src"), dn = T.freshName("dst");
	const src = (j: Term) => T.app(sn, [...bt, j], "Int"), dst = (i: Term) => T.app(dn, [...bt, i], "Int");
	e.addFact(T.and(T.le(T.int(0), len), T.le(len, seq.len)));
	if (e.sums.size && bt.length === 0) e.addFact(T.eq(len, partialSum(e, (i) => T.ite(P(i), T.int(1), T.int(0)), seq.len, true)));
	e.withBound(["Int"], ([j]) => T.and(T.le(T.int(0), j), T.lt(j, len)), ([j]) => {
		e.addFact(T.and(T.le(T.int(0), src(j)), T.lt(src(j), seq.len), P(src(j)), T.eq(dst(src(j)), j)));
		e.addFact(T.eq(T.select(E, j), box(seq.get(src(j), st))));
	});
	e.withBound(["Int", "Int"], ([i, j]) => T.and(T.le(T.int(0), i), T.lt(i, j), T.lt(j, len)), ([i, j]) => e.addFact(T.lt(src(i), src(j))));
	e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, seq.len), P(i)), ([i]) => {
		e.addFact(T.and(T.le(T.int(0), dst(i)), T.lt(dst(i), len), T.eq(src(dst(i)), i)));
		e.addFact(T.eq(T.select(E, dst(i)), box(seq.get(i, st))));
	});
	e.hwrite(st, "#len", arr, len, n);
	e.hwrite(st, "#el", arr, E, n);
	return svRef(arr);
}
function flatSeq(e: Engine, seq: Seq, innerRef: (i: Term) => Term, ity: ts.Type, st: State, n: ts.Node): SV {
	const arr = e.alloc(TAG.ARR);
	const E = e.fresh("flat", "(Array Int Val)");
	const len = e.fresh("flatlen", "Int");
	const bt = e.boundTerms();
	const an = T.freshName("fa"), bn = T.freshName("fb"), dn = T.freshName("fd");
	const fa = (j: Term) => T.app(an, [...bt, j], "Int"), fb = (j: Term) => T.app(bn, [...bt, j], "Int"), fd = (i: Term, k: Term) => T.app(dn, [...bt, i, k], "Int");
	const ilen = (i: Term) => e.hread(st.heap, "#len", innerRef(i));
	const iel = (i: Term, k: Term) => T.select(e.hread(st.heap, "#el", innerRef(i)), k);
	e.addFact(T.le(T.int(0), len));
	e.withBound(["Int"], ([j]) => T.and(T.le(T.int(0), j), T.lt(j, len)), ([j]) => {
		e.addFact(T.and(T.le(T.int(0), fa(j)), T.lt(fa(j), seq.len), T.le(T.int(0), fb(j)), T.lt(fb(j), ilen(fa(j))), T.eq(T.select(E, j), iel(fa(j), fb(j))), T.eq(fd(fa(j), fb(j)), j)));
	});
	e.withBound(["Int", "Int"], ([i, k]) => T.and(T.le(T.int(0), i), T.lt(i, seq.len), T.le(T.int(0), k), T.lt(k, ilen(i))), ([i, k]) => {
		e.addFact(T.and(T.le(T.int(0), fd(i, k)), T.lt(fd(i, k), len), T.eq(fa(fd(i, k)), i), T.eq(fb(fd(i, k)), k), T.eq(T.select(E, fd(i, k)), iel(i, k))));
	});
	e.hwrite(st, "#len", arr, len, n);
	e.hwrite(st, "#el", arr, E, n);
	return svRef(arr);
}

function collectionMethod(e: Engine, o: SV, oty: ts.Type, tn: string, name: string, n: ts.CallExpression, st: State, sc: Scope, ex: Exits): SV | undefined {
	const r = e.needRef(o, st, ex, n);
	if (st.dead) return UNDEF;
	const args = e.evalArgs(n, st, sc, ex);
	if (st.dead) return UNDEF;
	const nn = e.checker.getNonNullableType(oty);
	const ta = e.checker.getTypeArguments(nn as ts.TypeReference);
	const has = () => e.hread(st.heap, "#mhas", r);
	const get = () => e.hread(st.heap, "#mget", r);
	const size = () => e.hread(st.heap, "#msize", r);
	const k = args[0] ? box(args[0]) : T.UNDEF;
	const nonneg = (t: Term) => { if (t.op !== "int") e.addFact(T.le(T.int(0), t)); return t; };
	switch (name) {
		case "has": return svBool(T.select(has(), k));
		case "get": {
			const present = T.select(has(), k);
			const t = T.select(get(), k);
			const s1 = st.fork(present);
			const v = e.typed(t, ta[1], s1);
			return mergeSV(present, v, UNDEF);
		}
		case "set": case "add": {
			const p = T.select(has(), k);
			const sz = nonneg(size());
			e.hwrite(st, "#msize", r, T.ite(p, sz, T.add(sz, T.int(1))), n);
			e.hwrite(st, "#mhas", r, T.store(has(), k, T.TRUE), n);
			if (name === "set") e.hwrite(st, "#mget", r, T.store(get(), k, box(args[1] ?? UNDEF)), n);
			return o;
		}
		case "delete": {
			const p = T.select(has(), k);
			const sz = nonneg(size());
			e.addFact(T.implies(p, T.lt(T.int(0), sz)));
			e.hwrite(st, "#msize", r, T.ite(p, T.sub(sz, T.int(1)), sz), n);
			e.hwrite(st, "#mhas", r, T.store(has(), k, T.FALSE), n);
			return svBool(p);
		}
		case "clear":
			e.hwrite(st, "#msize", r, T.int(0), n);
			e.hwrite(st, "#mhas", r, T.constArr("(Array Val Bool)", T.FALSE), n);
			return UNDEF;
		case "keys": return iter(e, e.keySeq(r, st, ta[0]));
		case "values": {
			if (tn === "Set") return iter(e, e.keySeq(r, st, ta[0]));
			const ks = e.keySeq(r, st, ta[0]);
			const g = get();
			return iter(e, { len: ks.len, get: (i, s) => e.typed(T.select(g, box(ks.get(i, s))), ta[1], s), ety: ta[1] });
		}
		case "entries": { const s = e.seqOf(o, oty, st, ex, n); return iter(e, s); }
		case "forEach": {
			const ks = e.keySeq(r, st, ta[0]);
			const g = get();
			let cur!: SV;
			e.loopOver(n, { len: ks.len, get: (i, s) => { cur = ks.get(i, s); return tn === "Set" ? cur : e.typed(T.select(g, box(cur)), ta[1], s); } }, st, new Scope(), ex, (elem, s, b, inner) => { callCb(e, args[0], [elem, cur], s, inner, n); });
			return UNDEF;
		}
	}
	return undefined;
}

function stringMethod(e: Engine, s: Term, name: string, n: ts.CallExpression, st: State, sc: Scope, ex: Exits): SV | undefined {
	const args = e.evalArgs(n, st, sc, ex);
	if (st.dead) return UNDEF;
	const S = e.strMode === "S";
	const a = args[0];
	const at = a && (a.k === "str" || a.k === "val") ? (a.k === "str" ? a.t : T.sel("sv", a.t)) : undefined;
	const lit = (t: Term | undefined): string | undefined => (t && t.op === "strlit" ? t.name! : undefined);
	const sl = lit(s), al = lit(at);
	// constant folding
	if (sl !== undefined && args.every((x) => (x.k === "str" || x.k === "int") && (x.t.op === "strlit" || x.t.op === "int"))) {
		const js = args.map((x: any) => (x.k === "int" ? Number(x.t.name) : x.t.name));
		const f = (sl as any)[name];
		if (typeof f === "function") {
			const v = f.apply(sl, js);
			if (typeof v === "string") return svStrLit(v);
			if (typeof v === "number" && Number.isInteger(v)) return svInt(T.int(v));
			if (typeof v === "boolean") return svBool(T.bool(v));
		}
	}
	const u = (ret: "Str" | "Bool" | "Int") => T.app(`str_${name}${args.length}`, [s, ...args.map(box)], ret);
	switch (name) {
		case "toString": case "valueOf": return svStr(s);
		case "startsWith": if (S && at && args.length === 1) return svBool(T.raw("str.prefixof", [at, s], "Bool")); return svBool(strPred(e, "prefix", s, at!, args, u("Bool")));
		case "endsWith": if (S && at) return svBool(T.raw("str.suffixof", [at, s], "Bool")); return svBool(strPred(e, "suffix", s, at!, args, u("Bool")));
		case "includes": if (S && at && args.length === 1) return svBool(T.raw("str.contains", [s, at], "Bool")); return svBool(u("Bool"));
		case "trim": case "trimEnd": case "trimStart": case "toLowerCase": case "toUpperCase": case "normalize": {
			const r = u("Str");
			if (name.startsWith("trim")) {
				e.addFact(T.implies(T.eq(s, T.strLit("")), T.eq(r, T.strLit(""))));
				e.addFact(T.le(e.strLen(r), e.strLen(s)));
				if (!S) e.addFact(T.eq(T.app(`str_${name}0`, [r], "Str"), r));
			}
			else if (name !== "normalize") e.addFact(T.eq(T.app(`str_${name}0`, [r], "Str"), r));
			return svStr(r);
		}
		case "slice": case "substring": {
			const len = e.strLen(s);
			const { lo, hi } = sliceBounds(e, args, len, n);
			if (name === "substring" && !(args.every((x) => x.k === "int" && x.t.op === "int"))) {
				// substring clamps negatives to 0 and swaps; only the in-order case is modelled exactly
			}
			const cnt = T.sub(hi, lo);
			const l2 = T.ite(T.le(T.int(0), cnt), cnt, T.int(0));
			if (S) return svStr(T.raw("str.substr", [s, lo, l2], "Str"));
			const r = T.app("str_sub", [s, lo, l2], "Str");
			e.addFact(T.eq(e.strLen(r), l2));
			return svStr(r);
		}
		case "indexOf": {
			if (S && at) { const from = args[1] ? e.asInt(args[1], n) : T.int(0); return svInt(T.raw("str.indexof", [s, at, from], "Int")); }
			const r = u("Int");
			e.addFact(T.and(T.le(T.int(-1), r), T.or(T.lt(r, e.strLen(s)), T.eq(r, T.int(0)), at ? T.eq(at, T.strLit("")) : T.FALSE)));
			if (at) e.addFact(T.implies(T.le(T.int(0), r), T.le(T.add(r, e.strLen(at)), e.strLen(s))));
			return svInt(r);
		}
		case "lastIndexOf": { const r = u("Int"); e.addFact(T.and(T.le(T.int(-1), r), T.or(T.lt(r, e.strLen(s)), T.eq(r, T.int(0))))); return svInt(r); }
		case "charCodeAt": { const r = u("Int"); e.addFact(T.and(T.le(T.int(0), r), T.le(r, T.int(65535)))); return svInt(r); }
		case "concat": return e.concat([svStr(s), ...args.map((x) => e.toStr(x, st))]);
		case "repeat": case "padStart": case "padEnd": case "replace": case "replaceAll": case "charAt": {
			if (args.some((x) => x.k === "fn")) return undefined;
			const re = args[0]?.k === "ref" ? e.regexOf?.get(args[0].t.id) : undefined;
			if (args[0]?.k === "ref") { if (re === undefined) return undefined; return svStr(T.app(`str_${name}_re`, [s, T.strLit(re), ...args.slice(1).map((x) => (x as any).t)], "Str")); }
			return svStr(u("Str"));
		}
		case "localeCompare": { const r = u("Int"); return svInt(r); }
		case "split": {
			if (args.length === 1 && at) {
				const t = T.app("str_split", [s, at], "Int");
				e.addFact(T.and(T.lt(t, T.konst("A!0", "Int")), T.eq(e.tag(t), T.int(TAG.ARR))));
				e.oldRefs.set(t.id, { base: T.konst("A!0", "Int"), n: 0 });
				const len = e.lenOf(st, t);
				e.addFact(T.le(T.int(1), len));
				e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, len)), ([i]) => { e.addFact(T.is("S", e.sel(e.hread(st.heap, "#el", t), i))); });
				return svRef(t);
			}
			return undefined;
		}
		case "at": { const i = e.asInt(a, n); const len = e.strLen(s); const j = T.ite(T.le(T.int(0), i), i, T.add(len, i)); const ok = T.and(T.le(T.int(0), j), T.lt(j, len)); return svVal(T.ite(ok, T.ctor("S", e.strAt(s, j)), T.UNDEF)); }
	}
	return undefined;
}
function strPred(e: Engine, kind: string, s: Term, p: Term, args: SV[], t: Term): Term {
	e.addFact(T.implies(T.eq(s, p), t));
	e.addFact(T.implies(t, T.le(e.strLen(p), e.strLen(s))));
	e.addFact(T.implies(T.eq(p, T.strLit("")), t));
	return t;
}
