// Hash-consed SMT terms with light simplification.
export type Sort = string; // "Bool" "Int" "Real" "Str" "Val" "(Array Int Val)" ...
export interface Term {
	readonly op: string;
	readonly args: readonly Term[];
	readonly sort: Sort;
	readonly id: number;
	readonly name?: string; // const/var/func name or literal
	readonly fv: ReadonlySet<string>; // free bound variables
	readonly qvars?: readonly { name: string; sort: Sort }[];
}
const EMPTY: ReadonlySet<string> = new Set();
let table = new Map<string, Term>();
let nextId = 1;
export const decls = new Map<string, { args: Sort[]; ret: Sort }>();
export function resetTerms() {
	table = new Map();
	decls.clear();
	nextId = 1;
	initConsts();
}
export function raw(op: string, args: readonly Term[], sort: Sort, name?: string, qvars?: { name: string; sort: Sort }[]): Term {
	const key = `${op}|${name ?? ""}|${sort}|${qvars ? qvars.map((q) => q.name).join(",") : ""}|${args.map((a) => a.id).join(",")}`;
	const hit = table.get(key);
	if (hit) return hit;
	let fv: Set<string> | undefined;
	for (const a of args) if (a.fv.size) { fv ??= new Set(); for (const v of a.fv) fv.add(v); }
	if (op === "bound") { fv = new Set([name!]); }
	if (qvars && fv) { for (const q of qvars) fv.delete(q.name); }
	const t: Term = { op, args, sort, id: nextId++, name, fv: fv && fv.size ? fv : EMPTY, qvars };
	table.set(key, t);
	return t;
}
/** facts that are theorems, offered to the solver but not needed for soundness or completeness */
export const hints = new Set<number>();
export let TRUE: Term, FALSE: Term, UNDEF: Term, NULL: Term, NAN: Term, PINF: Term, NINF: Term;
function initConsts() {
	TRUE = raw("true", [], "Bool");
	FALSE = raw("false", [], "Bool");
	UNDEF = raw("Undef", [], "Val");
	NULL = raw("Null", [], "Val");
	NAN = raw("VNaN", [], "Val");
	PINF = raw("VPInf", [], "Val");
	NINF = raw("VNInf", [], "Val");
}
initConsts();
export const bool = (b: boolean) => (b ? TRUE : FALSE);
export const int = (n: number | bigint) => raw("int", [], "Int", String(n));
export const realLit = (s: string) => raw("reallit", [], "Real", s);
/** exact decimal of a JS double as an SMT real term */
export function real(n: number): Term {
	if (Number.isInteger(n)) return realLit(`${BigInt(n)}.0`);
	// exact binary fraction
	let d = n, den = 1n;
	while (!Number.isInteger(d)) { d *= 2; den *= 2n; }
	return realLit(`${BigInt(d)}/${den}`);
}
export const strLit = (s: string) => raw("strlit", [], "Str", s);
export function isIntLit(t: Term) { return t.op === "int"; }
export function intVal(t: Term): bigint { return BigInt(t.name!); }
export function konst(name: string, sort: Sort): Term {
	decls.set(name, { args: [], ret: sort });
	return raw("const", [], sort, name);
}
export function app(name: string, args: Term[], sort: Sort): Term {
	if (args.length === 0) return konst(name, sort);
	decls.set(name, { args: args.map((a) => a.sort), ret: sort });
	return raw("app", args, sort, name);
}
export const bound = (name: string, sort: Sort) => raw("bound", [], sort, name);
let fresh = 0;
export function freshName(p: string) { return `${p.replace(/[^A-Za-z0-9_]/g, "_")}!${fresh++}`; }

export function not(a: Term): Term {
	if (a === TRUE) return FALSE;
	if (a === FALSE) return TRUE;
	if (a.op === "not") return a.args[0];
	return raw("not", [a], "Bool");
}
export function and(...xs: Term[]): Term {
	const out: Term[] = [];
	const seen = new Set<number>();
	const push = (x: Term): boolean => {
		if (x === TRUE) return true;
		if (x === FALSE) return false;
		if (x.op === "and") { for (const y of x.args) if (!push(y)) return false; return true; }
		if (seen.has(x.id)) return true;
		if (seen.has(not(x).id)) return false;
		seen.add(x.id);
		out.push(x);
		return true;
	};
	for (const x of xs) if (!push(x)) return FALSE;
	if (out.length === 0) return TRUE;
	if (out.length === 1) return out[0];
	return raw("and", out, "Bool");
}
export function or(...xs: Term[]): Term {
	const out: Term[] = [];
	const seen = new Set<number>();
	const push = (x: Term): boolean => {
		if (x === FALSE) return true;
		if (x === TRUE) return false;
		if (x.op === "or") { for (const y of x.args) if (!push(y)) return false; return true; }
		if (seen.has(x.id)) return true;
		if (seen.has(not(x).id)) return false;
		seen.add(x.id);
		out.push(x);
		return true;
	};
	for (const x of xs) if (!push(x)) return TRUE;
	if (out.length === 0) return FALSE;
	if (out.length === 1) return out[0];
	return raw("or", out, "Bool");
}
export function implies(a: Term, b: Term): Term {
	if (a === TRUE) return b;
	if (a === FALSE || b === TRUE) return TRUE;
	if (b === FALSE) return not(a);
	if (a === b) return TRUE;
	return raw("=>", [a, b], "Bool");
}
export function ite(c: Term, a: Term, b: Term): Term {
	if (c === TRUE) return a;
	if (c === FALSE) return b;
	if (a === b) return a;
	if (c.op === "not") return ite(c.args[0], b, a);
	if (a.sort !== b.sort) throw new Error(`ite sort mismatch ${a.sort} ${b.sort}`);
	if (a.sort === "Bool") {
		if (a === TRUE) return or(c, b);
		if (a === FALSE) return and(not(c), b);
		if (b === TRUE) return or(not(c), a);
		if (b === FALSE) return and(c, a);
		if (a === c) return or(c, b);
		if (b === c) return and(c, a);
	}
	if (a.op === "ite" && a.args[0] === c) return ite(c, a.args[1], b);
	if (b.op === "ite" && b.args[0] === c) return ite(c, a, b.args[2]);
	if (b.op === "ite" && b.args[1] === a) return ite(or(c, b.args[0]), a, b.args[2]);
	// same unary constructor on both sides
	if (CTORS[a.op] && a.op === b.op && a.args.length === 1) return ctor(a.op, ite(c, a.args[0], b.args[0]));
	return raw("ite", [c, a, b], a.sort);
}
const CTORS: Record<string, string> = { B: "bv", NI: "ni", NR: "nr", S: "sv", R: "rv", F: "fv" };
const CTORSORT: Record<string, Sort> = { B: "Bool", NI: "Int", NR: "Real", S: "Str", R: "Int", F: "Int" };
const SELS: Record<string, string> = { bv: "B", ni: "NI", nr: "NR", sv: "S", rv: "R", fv: "F" };
const NULLARY = new Set(["Undef", "Null", "VNaN", "VPInf", "VNInf"]);
export function ctor(c: string, a: Term): Term {
	if (a.op === CTORS[c] && false) return a.args[0];
	return raw(c, [a], "Val");
}
export function isCtor(t: Term) { return NULLARY.has(t.op) || (CTORS[t.op] !== undefined && t.sort === "Val"); }
/** every ite leaf of a Val term is a constructor application (bounded search) */
function hasCtorLeaf(t: Term, d = 0): boolean {
	if (isCtor(t)) return true;
	if (t.op === "ite" && d < 40) return hasCtorLeaf(t.args[1], d + 1) || hasCtorLeaf(t.args[2], d + 1);
	return false;
}
let testMemo = new Map<string, Term>();
export function is(c: string, v: Term): Term {
	if (isCtor(v)) return bool(v.op === c);
	if (v.op === "ite" && hasCtorLeaf(v)) {
		const key = `${c}:${v.id}`;
		const hit = testMemo.get(key);
		if (hit && table.get("x") !== hit) return hit;
		const r = ite(v.args[0], is(c, v.args[1]), is(c, v.args[2]));
		testMemo.set(key, r);
		return r;
	}
	return raw("is", [v], "Bool", c);
}
export function resetMemo() { testMemo = new Map(); selMemo = new Map(); }
let selMemo = new Map<string, Term>();
export function sel(s: string, v: Term): Term {
	const c = SELS[s];
	if (v.op === c) return v.args[0];
	if (v.op === "ite" && hasCtorLeaf(v)) {
		const key = `${s}:${v.id}`;
		const hit = selMemo.get(key);
		if (hit) return hit;
		const a = v.args[1], b = v.args[2];
		// a branch that is another constructor is irrelevant for the selector
		const an = isCtor(a) && a.op !== c, bn = isCtor(b) && b.op !== c;
		let r: Term;
		if (an && bn) r = raw(s, [v], CTORSORT[c]);
		else if (an) r = sel(s, b);
		else if (bn) r = sel(s, a);
		else r = ite(v.args[0], sel(s, a), sel(s, b));
		selMemo.set(key, r);
		return r;
	}
	return raw(s, [v], CTORSORT[c]);
}
/** split `base + n` */
export function baseOff(t: Term): [Term | null, bigint] {
	if (t.op === "int") return [null, intVal(t)];
	if (t.op === "+" && t.args.length === 2 && t.args[1].op === "int") return [t.args[0], intVal(t.args[1])];
	return [t, 0n];
}
/** refs that are known to be allocated after `base` was taken: term -> lower bound base */
export function distinctSyntactic(a: Term, b: Term): boolean {
	if (a === b) return false;
	const lit = (x: Term) => x.op === "int" || x.op === "strlit" || x.op === "reallit";
	if (lit(a) && lit(b)) return a.op === b.op;
	if (isCtor(a) && isCtor(b)) {
		if (a.op !== b.op) return true;
		if (a.args.length && b.args.length) return distinctSyntactic(a.args[0], b.args[0]);
		return false;
	}
	if (a.sort === "Int" && b.sort === "Int") {
		const [ba, oa] = baseOff(a), [bb, ob] = baseOff(b);
		if (ba === bb && oa !== ob) return true;
		// allocation bases: A!k >= 1 ; literal refs of module constants are negative
		if (ba && ba.op === "const" && ba.name!.startsWith("A!") && bb === null && ob < 1n) return true;
		if (bb && bb.op === "const" && bb.name!.startsWith("A!") && ba === null && oa < 1n) return true;
	}
	return false;
}
export function eq(a: Term, b: Term): Term {
	if (a === b) return TRUE;
	if (a.sort !== b.sort) throw new Error(`eq sort mismatch ${a.sort} ${b.sort}: ${show(a)} = ${show(b)}`);
	if (distinctSyntactic(a, b)) return FALSE;
	if (a.sort === "Bool") {
		if (a === TRUE) return b;
		if (b === TRUE) return a;
		if (a === FALSE) return not(b);
		if (b === FALSE) return not(a);
	}
	if (a.sort === "Val") {
		if (isCtor(a) && isCtor(b) && a.args.length === 1) return eq(a.args[0], b.args[0]);
		if (NULLARY.has(a.op)) return is(a.op, b);
		if (NULLARY.has(b.op)) return is(b.op, a);
	}
	if (a.op === "ite" && isLitish(b)) {
		const x = eq(a.args[1], b), y = eq(a.args[2], b);
		if (isBoolLit(x) || isBoolLit(y)) return ite(a.args[0], x, y);
	}
	if (b.op === "ite" && isLitish(a)) {
		const x = eq(b.args[1], a), y = eq(b.args[2], a);
		if (isBoolLit(x) || isBoolLit(y)) return ite(b.args[0], x, y);
	}
	// x + c = y
	if (a.id > b.id) return raw("=", [b, a], "Bool");
	return raw("=", [a, b], "Bool");
}
function isBoolLit(t: Term) { return t === TRUE || t === FALSE; }
function isLitish(t: Term) { return t.op === "int" || t.op === "strlit" || t.op === "reallit" || isCtor(t); }
export function select(arr: Term, i: Term, d = 0): Term {
	if (arr.op === "store") {
		const [a, k, v] = arr.args;
		if (k === i) return v;
		if (distinctSyntactic(k, i)) return select(a, i, d + 1);
	}
	if (arr.op === "constarr") return arr.args[0];
	if (arr.op === "ite" && d < 200) return ite(arr.args[0], select(arr.args[1], i, d + 1), select(arr.args[2], i, d + 1));
	const m = /^\(Array (\S+|\(.*?\)) (.*)\)$/.exec(arr.sort);
	if (!m) throw new Error(`select on ${arr.sort}`);
	return raw("select", [arr, i], elemSort(arr.sort));
}
export function elemSort(s: Sort): Sort {
	// "(Array K V)" where K is atomic
	const inner = s.slice(7, -1);
	const sp = inner.indexOf(" ");
	return inner.slice(sp + 1);
}
export function store(arr: Term, i: Term, v: Term): Term {
	if (arr.op === "store" && arr.args[1] === i) return store(arr.args[0], i, v);
	if (v.op === "select" && v.args[0] === arr && v.args[1] === i) return arr;
	return raw("store", [arr, i, v], arr.sort);
}
export const constArr = (sort: Sort, v: Term) => raw("constarr", [v], sort);

function numLit(t: Term): number | bigint | undefined {
	if (t.op === "int") return BigInt(t.name!);
	return undefined;
}
export function add(a: Term, b: Term): Term {
	if (a.sort === "Int" && b.sort === "Int") {
		if (a.op === "int" && b.op === "int") return int(intVal(a) + intVal(b));
		if (a.op === "int") return add(b, a);
		if (b.op === "int") {
			const n = intVal(b);
			if (n === 0n) return a;
			const [ba, o] = baseOff(a);
			if (ba && o !== 0n) { const s = o + n; return s === 0n ? ba : raw("+", [ba, int(s)], "Int"); }
		}
		return raw("+", [a, b], "Int");
	}
	const x = toReal(a), y = toReal(b);
	if (isZero(x)) return y;
	if (isZero(y)) return x;
	return raw("+", [x, y], "Real");
}
function isZero(t: Term) { return (t.op === "int" && t.name === "0") || (t.op === "reallit" && t.name === "0.0"); }
function isOne(t: Term) { return (t.op === "int" && t.name === "1") || (t.op === "reallit" && t.name === "1.0"); }
export function sub(a: Term, b: Term): Term {
	if (a.sort === "Int" && b.sort === "Int") {
		if (b.op === "int") return add(a, int(-intVal(b)));
		if (a === b) return int(0);
		const [ba, oa] = baseOff(a), [bb, ob] = baseOff(b);
		if (ba && ba === bb) return int(oa - ob);
		if (a.op === "+" && a.args[0] === b) return a.args[1];
		if (a.op === "+" && a.args[1] === b) return a.args[0];
		return raw("-", [a, b], "Int");
	}
	return raw("-", [toReal(a), toReal(b)], "Real");
}
export function mul(a: Term, b: Term): Term {
	if (a.sort === "Int" && b.sort === "Int") {
		if (a.op === "int" && b.op === "int") return int(intVal(a) * intVal(b));
		if (isZero(a) || isZero(b)) return int(0);
		if (isOne(a)) return b;
		if (isOne(b)) return a;
		return raw("*", [a, b], "Int");
	}
	const x = toReal(a), y = toReal(b);
	if (isZero(x) || isZero(y)) return realLit("0.0");
	if (isOne(x)) return y;
	if (isOne(y)) return x;
	return raw("*", [x, y], "Real");
}
export function rdiv(a: Term, b: Term): Term { return raw("/", [toReal(a), toReal(b)], "Real"); }
export function idiv(a: Term, b: Term): Term { return raw("div", [a, b], "Int"); }
export function imod(a: Term, b: Term): Term {
	if (a.op === "int" && b.op === "int" && intVal(b) > 0n) { const m = intVal(b); return int(((intVal(a) % m) + m) % m); }
	return raw("mod", [a, b], "Int");
}
export function toReal(a: Term): Term {
	if (a.sort === "Real") return a;
	if (a.op === "int") return realLit(`${a.name}.0`);
	return raw("to_real", [a], "Real");
}
export function toInt(a: Term): Term {
	if (a.sort === "Int") return a;
	if (a.op === "to_real") return a.args[0];
	return raw("to_int", [a], "Int");
}
export function isIntR(a: Term): Term {
	if (a.sort === "Int" || a.op === "to_real") return TRUE;
	if (a.op === "reallit" && /^-?\d+\.0$/.test(a.name!)) return TRUE;
	return raw("is_int", [a], "Bool");
}
export function lt(a: Term, b: Term): Term {
	if (a.sort !== b.sort) { a = toReal(a); b = toReal(b); }
	if (a === b) return FALSE;
	if (a.op === "int" && b.op === "int") return bool(intVal(a) < intVal(b));
	return raw("<", [a, b], "Bool");
}
export function le(a: Term, b: Term): Term {
	if (a.sort !== b.sort) { a = toReal(a); b = toReal(b); }
	if (a === b) return TRUE;
	if (a.op === "int" && b.op === "int") return bool(intVal(a) <= intVal(b));
	return raw("<=", [a, b], "Bool");
}
export function forall(vars: { name: string; sort: Sort }[], body: Term, patterns?: Term[][]): Term {
	const vs = vars.filter((v) => body.fv.has(v.name));
	if (vs.length === 0) return body;
	// prenex: one quantifier instead of two nested ones (better instantiation patterns)
	if (!patterns?.length && body.op === "=>" && body.args[1].op === "forall" && body.args[1].args.length === 1) return forall([...vs, ...body.args[1].qvars!], implies(body.args[0], body.args[1].args[0]));
	const p = patterns && patterns.length ? patterns.map((ps) => raw("pat", ps, "Pat")) : [];
	return raw("forall", [body, ...p], "Bool", undefined, vs);
}
export function exists(vars: { name: string; sort: Sort }[], body: Term): Term {
	const vs = vars.filter((v) => body.fv.has(v.name));
	if (vs.length === 0) return body;
	return not(forall(vs, not(body)));
}
export function subst(t: Term, m: Map<string, Term>, memo = new Map<number, Term>()): Term {
	let hit = false;
	for (const v of t.fv) if (m.has(v)) { hit = true; break; }
	if (!hit) return t;
	const c = memo.get(t.id);
	if (c) return c;
	let r: Term;
	if (t.op === "bound") r = m.get(t.name!)!;
	else r = rebuild(t, t.args.map((a) => subst(a, m, memo)));
	memo.set(t.id, r);
	return r;
}
/** replace every occurrence of the closed term a by b */
export function replace(t: Term, a: Term, b: Term, memo = new Map<number, Term>()): Term {
	if (t === a) return b;
	if (t.args.length === 0) return t;
	const c = memo.get(t.id);
	if (c) return c;
	const args = t.args.map((x) => replace(x, a, b, memo));
	const r = args.every((x, i) => x === t.args[i]) ? t : rebuild(t, args);
	memo.set(t.id, r);
	return r;
}
export function rebuild(t: Term, a: Term[]): Term {
	switch (t.op) {
		case "not": return not(a[0]);
		case "and": return and(...a);
		case "or": return or(...a);
		case "=>": return implies(a[0], a[1]);
		case "ite": return ite(a[0], a[1], a[2]);
		case "=": return eq(a[0], a[1]);
		case "is": return is(t.name!, a[0]);
		case "select": return select(a[0], a[1]);
		case "store": return store(a[0], a[1], a[2]);
		case "+": return add(a[0], a[1]);
		case "-": return sub(a[0], a[1]);
		case "*": return mul(a[0], a[1]);
		case "<": return lt(a[0], a[1]);
		case "<=": return le(a[0], a[1]);
		case "to_real": return toReal(a[0]);
		case "to_int": return toInt(a[0]);
		case "is_int": return isIntR(a[0]);
		default:
			if (SELS[t.op] && a.length === 1) return sel(t.op, a[0]);
			return raw(t.op, a, t.sort, t.name, t.qvars as any);
	}
}
export function show(t: Term, d = 0): string {
	if (d > 6) return "…";
	if (t.args.length === 0) return t.name ?? t.op;
	return `(${t.op === "app" || t.op === "is" ? t.op + ":" + t.name : t.op} ${t.args.map((a) => show(a, d + 1)).join(" ")})`;
}

// ---------- printing ----------
export type StrMode = "U" | "S";
function esc(s: string): string {
	let o = "";
	for (let i = 0; i < s.length; i++) {
		const c = s.charCodeAt(i);
		if (c === 34) o += '""';
		else if (c < 32 || c > 126 || c === 92) o += `\\u{${c.toString(16)}}`;
		else o += s[i];
	}
	return `"${o}"`;
}
const q = (n: string) => (/^[A-Za-z_][A-Za-z0-9_!.]*$/.test(n) ? n : `|${n}|`);
export class Printer {
	mode: StrMode;
	defs: string[] = [];
	names = new Map<number, string>();
	strIds = new Map<string, number>();
	usedDecls = new Set<string>();
	n = 0;
	constructor(mode: StrMode) { this.mode = mode; }
	strConst(s: string): string {
		if (this.mode === "S") return esc(s);
		let id = this.strIds.get(s);
		if (id === undefined) { id = 1000 + this.strIds.size; this.strIds.set(s, id); }
		return String(id);
	}
	count(ts: Term[]): Map<number, number> {
		const c = new Map<number, number>();
		const go = (t: Term) => {
			const k = c.get(t.id) ?? 0;
			c.set(t.id, k + 1);
			if (k > 0) return;
			for (const a of t.args) go(a);
		};
		for (const t of ts) go(t);
		return c;
	}
	/** print top-level formulas; shared closed subterms become define-funs, shared open ones lets */
	printAll(ts: Term[]): string[] {
		const counts = this.count(ts);
		return ts.map((t) => this.pr(t, counts));
	}
	sortStr(s: Sort): string { return s.replace(/\bStr\b/g, this.mode === "S" ? "String" : "Int"); }
	pr(t: Term, counts: Map<number, number>, lets?: Map<number, string>): string {
		if (t.args.length === 0) return this.leaf(t);
		const nm = this.names.get(t.id) ?? lets?.get(t.id);
		if (nm) return nm;
		if (t.fv.size === 0 && (counts.get(t.id) ?? 0) > 1 && t.sort !== "Pat") {
			const body = this.node(t, counts, undefined);
			const name = `$d${this.n++}`;
			this.defs.push(`(define-fun ${name} () ${this.sortStr(t.sort)} ${body})`);
			this.names.set(t.id, name);
			return name;
		}
		return this.node(t, counts, lets);
	}
	leaf(t: Term): string {
		switch (t.op) {
			case "int": { const s = t.name!; return s.startsWith("-") ? `(- ${s.slice(1)})` : s; }
			case "reallit": {
				let s = t.name!;
				const neg = s.startsWith("-");
				if (neg) s = s.slice(1);
				const m = /^(\d+)\/(\d+)$/.exec(s);
				const b = m ? `(/ ${m[1]}.0 ${m[2]}.0)` : s;
				return neg ? `(- ${b})` : b;
			}
			case "strlit": return this.strConst(t.name!);
			case "const": this.usedDecls.add(t.name!); return q(t.name!);
			case "bound": return q(t.name!);
			default: return t.op;
		}
	}
	node(t: Term, counts: Map<number, number>, lets?: Map<number, string>): string {
		if (t.op === "forall") {
			// lets for shared open subterms inside this quantifier body
			const body = this.quantBody(t, counts, lets);
			return body;
		}
		const as = t.args.map((a) => this.pr(a, counts, lets));
		switch (t.op) {
			case "app": this.usedDecls.add(t.name!); return `(${q(t.name!)} ${as.join(" ")})`;
			case "is": return `((_ is ${t.name}) ${as[0]})`;
			case "constarr": return `((as const ${this.sortStr(t.sort)}) ${as[0]})`;
			default: return `(${t.op} ${as.join(" ")})`;
		}
	}
	quantBody(t: Term, counts: Map<number, number>, outer?: Map<number, string>): string {
		const body = t.args[0];
		const pats = t.args.slice(1);
		const vars = `(${t.qvars!.map((v) => `(${q(v.name)} ${this.sortStr(v.sort)})`).join(" ")})`;
		// local sharing: count occurrences of open subterms (with our vars) inside body, not crossing nested quantifiers' own vars
		const lets = new Map(outer ?? []);
		const local = new Map<number, number>();
		const mine = new Set(t.qvars!.map((v) => v.name));
		const scope = new Set([...mine]);
		const order: Term[] = [];
		const allow = (x: Term) => { for (const v of x.fv) if (!scope.has(v) && !this.inScope.has(v)) return false; return true; };
		for (const v of mine) this.inScope.add(v);
		const go = (x: Term) => {
			if (x.args.length === 0 || x.fv.size === 0) return;
			const k = local.get(x.id) ?? 0;
			local.set(x.id, k + 1);
			if (k > 0) return;
			for (const a of x.args) if (a.sort !== "Pat") go(a);
			order.push(x);
		};
		go(body);
		let prefix = "", suffix = "";
		for (const x of order) {
			if ((local.get(x.id) ?? 0) < 2 || lets.has(x.id) || x.op === "forall" && false) continue;
			let mineUsed = false;
			for (const v of x.fv) if (mine.has(v)) mineUsed = true;
			if (!mineUsed || !allow(x) || x === body) continue;
			const s = this.node(x, counts, lets);
			const name = `$l${this.n++}`;
			prefix += `(let ((${name} ${s})) `;
			suffix += ")";
			lets.set(x.id, name);
		}
		const b = prefix + this.pr(body, counts, lets) + suffix;
		const ps = pats.map((p) => `:pattern (${p.args.map((a) => this.pr(a, counts, undefined)).join(" ")})`).join(" ");
		for (const v of mine) this.inScope.delete(v);
		return ps ? `(forall ${vars} (! ${b} ${ps}))` : `(forall ${vars} ${b})`;
	}
	inScope = new Set<string>();
}
export const PRELUDE = (mode: StrMode) => `
(declare-datatypes ((Val 0)) (((Undef) (Null) (B (bv Bool)) (NI (ni Int)) (NR (nr Real)) (VNaN) (VPInf) (VNInf) (S (sv ${mode === "S" ? "String" : "Int"})) (R (rv Int)) (F (fv Int)))))
`;
