import { isPathWithinEnvelope } from "../../repo/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts";
import { checkPathScope, isPathWithinScope, safeRealpathSync } from "../../repo/packages/coding-agent/src/core/autonomy/path-scope.ts";
import type { CapabilityEnvelope, PathScope, PathScopeDecision } from "../../repo/packages/coding-agent/src/core/autonomy/contracts.ts";
import { resolve } from "node:path";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { contract } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

const resolvable = (p: string): boolean => { try { safeRealpathSync(p); return true; } catch { return false; } };
/** the real location of p lies within the real location of root; false when either cannot be resolved */
const inside = (p: string, root: string): boolean => { try { return isPathWithinScope(safeRealpathSync(p), safeRealpathSync(root)); } catch { return false; } };
const EXT = { safeRealpathSync: { kind: "pure", throws: true, args: 1 }, isPathWithinScope: { kind: "pure" }, resolve: { kind: "pure" }, "path.resolve": { kind: "pure", as: "resolve" } } as const;

let tree = "";
/** a scratch directory with real directories, a file, links in and out of it, and a link cycle */
function scratch(): string {
	if (tree) return tree;
	tree = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), "c03-")));
	process.on("exit", () => fs.rmSync(tree, { recursive: true, force: true }));
	for (const d of ["a", "a/b", "ab", "o"]) fs.mkdirSync(path.join(tree, d));
	fs.writeFileSync(path.join(tree, "a/f"), "");
	fs.symlinkSync(path.join(tree, "o"), path.join(tree, "a/out"));
	fs.symlinkSync(path.join(tree, "a/b"), path.join(tree, "ab/in"));
	fs.symlinkSync("c2", path.join(tree, "c1"));
	fs.symlinkSync("c1", path.join(tree, "c2"));
	fs.symlinkSync("../o/new", path.join(tree, "a/dangling"));
	return tree;
}
const P = ["a", "a/b", "ab", "o", "a/f", "a/out", "a/out/x", "ab/in", "ab/in/y", "c1", "c1/x", "a/dangling", ".", "..", "a/../o", "", "a/n/m", "/", "/nonexistent/x"];
const genPath = (g: G): string => { const p = g.pick(P); return g.chance(0.2) && p ? path.join(scratch(), p) : p; };
const absPath = (g: G): string => path.join(scratch(), g.pick(P.slice(0, -2)));

export const contracts = [
	contract({
		name: "isPathWithinEnvelope",
		target: isPathWithinEnvelope,
		frame: "pure",
		ext: EXT,
		ensures: {
			"an unresolvable target is never inside": (r: boolean, _o: unknown, _e: CapabilityEnvelope, p: string, cwd: string) => !r || resolvable(resolve(cwd, p)),
			"a denied root always wins": (r: boolean, _o: unknown, e: CapabilityEnvelope, p: string, cwd: string) => !r || (e.deniedPaths ?? []).every((d) => !inside(resolve(cwd, p), resolve(cwd, d))),
			"inside some allowed root when any is configured": (r: boolean, _o: unknown, e: CapabilityEnvelope, p: string, cwd: string) =>
				!r || e.allowedPaths === undefined || e.allowedPaths.length === 0 || e.allowedPaths.some((a) => inside(resolve(cwd, p), resolve(cwd, a))),
			"without allowed roots only denials reject": (r: boolean, _o: unknown, e: CapabilityEnvelope, p: string, cwd: string) =>
				r || !resolvable(resolve(cwd, p)) || (e.allowedPaths !== undefined && e.allowedPaths.length > 0) || (e.deniedPaths ?? []).some((d) => inside(resolve(cwd, p), resolve(cwd, d))),
		},
		gen: (g) => [g.partial({ id: () => "e", capabilities: () => [], allowedPaths: (h) => h.opt(() => h.array(genPath, 3)), deniedPaths: (h) => h.opt(() => h.array(genPath, 3)) }), genPath(g), scratch()],
	}),
	contract({
		name: "checkPathScope",
		target: checkPathScope,
		frame: "pure",
		ext: EXT,
		ensures: {
			"inside means within the root": (r: PathScopeDecision, _o: unknown, s: PathScope, p: string) => r.kind !== "inside" || (p !== "" && inside(p, s.root)),
			"inside means not within any denied path": (r: PathScopeDecision, _o: unknown, s: PathScope, p: string) => r.kind !== "inside" || (s.deniedPaths ?? []).every((d) => !inside(p, d)),
			"inside means within an allowed path when any is configured": (r: PathScopeDecision, _o: unknown, s: PathScope, p: string) =>
				r.kind !== "inside" || s.allowedPaths === undefined || s.allowedPaths.length === 0 || s.allowedPaths.some((a) => inside(p, a)),
			"denied means within a denied path": (r: PathScopeDecision, _o: unknown, s: PathScope, p: string) => r.kind !== "denied" || (s.deniedPaths ?? []).some((d) => inside(p, d)),
			"a path within a denied path inside the root is reported denied": (r: PathScopeDecision, _o: unknown, s: PathScope, p: string) => r.kind === "denied" || p === "" || !inside(p, s.root) || (s.deniedPaths ?? []).every((d) => !inside(p, d)),
			"a resolved location is the real one": (r: PathScopeDecision, _o: unknown, _s: PathScope, p: string) => r.resolvedPath === undefined || (resolvable(p) && r.resolvedPath === safeRealpathSync(p)),
			"only an empty path is missing": (r: PathScopeDecision, _o: unknown, _s: PathScope, p: string) => (r.kind === "missing") === (p === ""),
		},
		gen: (g) => [g.partial({ root: (h) => absPath(h), allowedPaths: (h) => h.opt(() => h.array(absPath, 3)), deniedPaths: (h) => h.opt(() => h.array(absPath, 3)) }), g.chance(0.05) ? "" : absPath(g)],
	}),
	contract({
		name: "isPathWithinScope",
		target: isPathWithinScope,
		runtimeOnly: true,
		bounded: "lexical containment compared with segment-wise prefix comparison of normalised POSIX paths, and case-insensitively for Windows drive and UNC paths, on generated paths of up to 6 segments (node:path and regular expressions are outside the verifier's reach)",
		requires: (t: string, s: string) => WIN.test(t) === WIN.test(s),
		ensures: {
			"agrees with segment-wise containment": (r: boolean, _o: unknown, t: string, s: string) => r === segmentsWithin(t, s),
		},
		gen: (g) => [genLexical(g), genLexical(g)],
	}),
	contract({
		name: "safeRealpathSync",
		target: safeRealpathSync,
		runtimeOnly: true,
		bounded: "compared with an independent component-wise resolver on generated paths over scratch trees with links, dangling links and cycles (the file system is outside the verifier's reach)",
		mayThrow: true,
		ensures: { "expands every link of the existing prefix": (r: string, _o: unknown, p: string) => r === componentRealpath(p) },
		onThrow: { "throws only for a path with no real location": (_o: unknown, p: string) => componentRealpath(p) === undefined },
		gen: (g) => [g.chance(0.5) ? absPath(g) : path.join(scratch(), ...g.array(() => g.pick(["a", "b", "ab", "o", "out", "in", "c1", "dangling", "new", "x", "f", "..", "."]), 5))],
	}),
];

const WIN = /^[a-zA-Z]:([\\/]|$)|^\\\\|^\/\//;
function segments(p: string, win: boolean): string[] {
	const q = win ? path.win32.resolve(p).toLowerCase() : path.posix.resolve(p);
	return q.split(win ? /[\\/]+/ : "/").filter((x) => x !== "");
}
/** independent of path.relative: segment lists, one a prefix of the other */
function segmentsWithin(t: string, s: string): boolean {
	const win = WIN.test(t) || WIN.test(s);
	const a = segments(t, win), b = segments(s, win);
	return b.every((x, i) => a[i] === x);
}
function genLexical(g: G): string {
	const seg = () => g.pick(["a", "b", "ab", "..", ".", "..a", "...", "A", "a b", "", "..."]);
	const body = g.array(seg, 5).join("/");
	const r = g.next();
	if (r < 0.7) return `/${body}`.replace(/^\/+/, "/");
	if (r < 0.8) return `C:\\${body.replaceAll("/", "\\")}`;
	if (r < 0.9) return `c:/${body}`;
	return `D:\\${body}`;
}
/** every component resolved in turn; missing components are kept; undefined for a link cycle */
function componentRealpath(p: string): string | undefined {
	let todo = path.resolve(p).split("/").filter(Boolean), cur = "/", hops = 0;
	while (todo.length) {
		const c = todo[0]; todo = todo.slice(1);
		if (c === "..") { cur = path.dirname(cur); continue; }
		if (c === ".") continue;
		const next = path.join(cur, c);
		let link: string | undefined;
		try { if (fs.lstatSync(next).isSymbolicLink()) link = fs.readlinkSync(next); } catch {}
		if (link === undefined) { cur = next; continue; }
		if (++hops > 40) return undefined;
		if (path.isAbsolute(link)) cur = "/";
		todo = [...link.split("/").filter(Boolean), ...todo];
	}
	return cur;
}
