// Runtime library of the contract language. Contract files import these; the verifier recognises them by name.
export type Gen<T> = (g: import("./gen.ts").G) => T;
export interface ContractOf<A extends any[], R, O> {
	name: string;
	/** the function under contract: an imported function, or Class.prototype.method */
	target: ((this: any, ...a: A) => R) | ((...a: A) => R);
	/** "function" (default): parameters are the function's; "method": the first contract parameter is the receiver */
	self?: boolean;
	requires?: (...a: any[]) => unknown;
	/** snapshot of the pre-state, passed to the postconditions as second argument */
	pre?: (...a: any[]) => O;
	/** postconditions: (result, old, ...params) */
	ensures?: Record<string, (result: any, old: O, ...a: any[]) => unknown>;
	/** exceptional exits: false (default) = never throws; true = may throw; function = throws only when it holds */
	mayThrow?: boolean | ((...a: any[]) => unknown);
	/** a normal return is only permitted when this does not hold */
	mustThrow?: (...a: any[]) => unknown;
	/** postconditions of exceptional exits: (old, ...params) */
	onThrow?: Record<string, (old: O, ...a: any[]) => unknown>;
	/** "pure": nothing that existed before the call is modified */
	frame?: "pure" | "none";
	/** with frame "pure": objects exempt from the frame condition */
	modifies?: (...a: any[]) => unknown[];
	/** loop invariant candidates (Houdini keeps those that are inductive) */
	invariants?: Record<string, (env: any) => unknown>;
	/** number refinements of fields: an assumed precondition listed in the evidence */
	refine?: Record<string, "int" | "nat" | "fin" | "nonneg">;
	/** models of external functions */
	ext?: Record<string, { kind: "pure" | "havoc" | "skip" | "ident" | "const"; throws?: boolean; effect?: string; args?: number; modifies?: boolean; heap?: boolean; static?: boolean; fields?: boolean | string[]; as?: string }>;
	/** "S": exact string theory for this contract, "U": strings as opaque values (default) */
	strings?: "U" | "S";
	/** input generator for replay and for the runtime cross-check; omitted for functions that are not exported */
	gen?: Gen<any[]>;
	/** runtime adapter when the target cannot be called directly */
	call?: (...a: any[]) => any;
	bounded?: string;
	/** not proved: a bounded stand-in, checked on generated inputs only (needs `bounded`) */
	runtimeOnly?: boolean;
	/** assumed contracts of external functions: (result, ...args), assumed at every call of the ext function of that name */
	axioms?: Record<string, (result: any, ...a: any[]) => unknown>;
	timeoutMs?: number;
	unroll?: number;
	skipRuntime?: boolean;
	assumes?: string[];
	timeLimitS?: number;
}
export function contract<A extends any[], R, O>(c: ContractOf<A, R, O>): ContractOf<A, R, O> { return c; }
export const implies = (a: unknown, b: unknown): boolean => !a || !!b;
export const iff = (a: unknown, b: unknown): boolean => !!a === !!b;
export const same = (a: unknown, b: unknown): boolean => Object.is(a, b) || a === b;
export const isInt = (a: unknown): boolean => typeof a === "number" && Number.isInteger(a);
export const forallInt = (lo: number, hi: number, f: (i: number) => unknown): boolean => { for (let i = lo; i < hi; i++) if (!f(i)) return false; return true; };
export const existsInt = (lo: number, hi: number, f: (i: number) => unknown): boolean => { for (let i = lo; i < hi; i++) if (f(i)) return true; return false; };
/** how many of the first n elements satisfy f */
export const countTo = <X>(a: readonly X[], n: number, f: (x: X, i: number) => unknown): number => { let c = 0; for (let i = 0; i < n && i < a.length; i++) if (f(a[i], i)) c++; return c; };
/** the sum of f over the first n elements */
export const sumTo = <X>(a: readonly X[], n: number, f: (x: X, i: number) => number): number => { let c = 0; for (let i = 0; i < n && i < a.length; i++) c += f(a[i], i); return c; };
/** the object was allocated by the call (identity freshness); always true at run time */
export const isFresh = (_a: unknown): boolean => true;
const ghosts = new Map<string, number>();
export const ghostReset = () => ghosts.clear();
export const ghostHit = (n: string) => ghosts.set(n, (ghosts.get(n) ?? 0) + 1);
export const ghostCount = (n: string): number => ghosts.get(n) ?? 0;
/** a function or method ("Class.method") that its module does not export; the runtime reaches it through a load hook */
export function internal(file: string, name: string): (...a: any[]) => any {
	const get = (): any => {
		const tbl = (globalThis as any).__verif_internals ?? {};
		const [c, m] = name.split(".");
		const v = tbl[`${file}#${c}`];
		if (v === undefined) throw new Error(`internal ${file}#${name} is not loaded`);
		return m ? v.prototype[m] : v;
	};
	return function (this: any, ...a: any[]) { return get().apply(this, a); };
}
