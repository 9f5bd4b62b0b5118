import { extractPathArguments, extractToolPathArguments, isPathWithinEnvelope, wrapToolWithEnvelopeScope } from "../../repo/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts";
import { resolveToolCallPathAccess } from "../../repo/packages/coding-agent/src/core/tool-capability-policy.ts";
import type { CapabilityEnvelope } from "../../repo/packages/coding-agent/src/core/autonomy/contracts.ts";
import { contract, ghostCount, ghostHit } from "../engine/spec.ts";
import { genArgs, genCaps, genTool } from "./C06.ts";
import type { G } from "../engine/gen.ts";

interface Tool { name: string; execute: (id: string, params: unknown) => unknown }
interface Denied { isError?: boolean; details?: { outcome?: string } }
const EXT = { resolveToolCallPathAccess: { kind: "pure" }, extractToolPathArguments: { kind: "pure" }, isPathWithinEnvelope: { kind: "pure" }, ".execute": { kind: "havoc", throws: true, effect: "ran" } } as const;
/** a client of the wrapper: wrap the tool once, call it once */
export function callScoped(tool: Tool, envelope: CapabilityEnvelope, cwd: string, id: string, params: unknown): unknown {
	return wrapToolWithEnvelopeScope(tool, envelope, cwd).execute(id, params);
}
const allInside = (t: Tool, e: CapabilityEnvelope, cwd: string, params: unknown): boolean => extractToolPathArguments(t.name, params).every((p) => isPathWithinEnvelope(e, p, cwd));
const checked = (t: Tool, e: CapabilityEnvelope, params: unknown): boolean => resolveToolCallPathAccess(e.capabilities, t.name, params) !== "none";
const PATHS = ["a", "a/b", "../x", ".", "o", "/etc/none", "", " a "];
export const genParams = (g: G): unknown => {
	const base = genArgs(g);
	if (!base || typeof base !== "object" || Array.isArray(base)) return base;
	const o: Record<string, unknown> = { ...base };
	for (const k of ["path", "file_path", "filePath", "cwd", "directory", "dir", "target"]) if (g.chance(0.2)) o[k] = g.chance(0.9) ? g.pick(PATHS) : 3;
	for (const k of ["paths", "files"]) if (g.chance(0.3)) o[k] = g.array((h) => (h.chance(0.9) ? h.pick(PATHS) : 7), 4);
	if (g.chance(0.2)) o.sources = g.array((h) => h.pick([{ path: "a" }, { path: "../x" }, {}, null, 3, { path: 1 }]), 3);
	return o;
};
export const genEnvelope = (g: G): CapabilityEnvelope => g.partial({ id: () => "e", capabilities: genCaps, allowedPaths: (h: G) => h.opt(() => h.array((k) => k.pick(PATHS), 3)), deniedPaths: (h: G) => h.opt(() => h.array((k) => k.pick(PATHS), 2)) });
const genTl = (g: G): Tool => ({ name: genTool(g), execute: () => { ghostHit("ran"); return "done"; } });
const str = (v: unknown): v is string => typeof v === "string" && v.trim() !== "";
const rec = (p: unknown): Record<string, unknown> => p as Record<string, unknown>;
const isObj = (p: unknown): boolean => !!p && typeof p === "object";

export const contracts = [
	contract({
		name: "wrapToolWithEnvelopeScope",
		target: callScoped,
		ext: EXT,
		mayThrow: true,
		ensures: {
			"the tool runs at most once": () => ghostCount("ran") <= 1,
			"the tool runs only when every path it names is inside the envelope": (_r: unknown, _o: unknown, t: Tool, e: CapabilityEnvelope, cwd: string, _i: string, p: unknown) => ghostCount("ran") === 0 || !checked(t, e, p) || allInside(t, e, cwd, p),
			"a refused call is an error result": (r: unknown) => ghostCount("ran") === 1 || ((r as Denied).isError === true && (r as Denied).details?.outcome === "envelope_path_denied"),
			"a call inside the envelope runs": (_r: unknown, _o: unknown, t: Tool, e: CapabilityEnvelope, cwd: string, _i: string, p: unknown) => ghostCount("ran") === 1 || (checked(t, e, p) && !allInside(t, e, cwd, p)),
		},
		onThrow: { "only the tool itself fails": () => ghostCount("ran") === 1 },
		gen: (g) => [genTl(g), genEnvelope(g), "/nonexistent-c04", "id", genParams(g)],
	}),
	contract({
		name: "extractPathArguments",
		target: extractPathArguments,
		bounded: "checked on generated argument objects only (up to 4 listed paths); the second loop's invariant is beyond the solvers' reach in the time given",
		runtimeOnly: true,
		frame: "pure",
		ensures: {
			"every path argument is extracted": (r: string[], _o: unknown, p: unknown) => !isObj(p) || ["path", "file_path", "filePath", "cwd", "directory", "dir", "target"].every((k) => !str(rec(p)[k]) || r.includes((rec(p)[k] as string).trim())),
			"every listed path is extracted": (r: string[], _o: unknown, p: unknown) => !isObj(p) || ["paths", "files"].every((k) => !Array.isArray(rec(p)[k]) || (rec(p)[k] as unknown[]).every((x) => !str(x) || r.includes(x.trim()))),
			"nothing is extracted from a non-object": (r: string[], _o: unknown, p: unknown) => isObj(p) || r.length === 0,
		},
		gen: (g) => [genParams(g)],
	}),
	contract({
		name: "extractToolPathArguments",
		target: extractToolPathArguments,
		bounded: "checked on generated argument objects only (up to 4 listed paths)",
		runtimeOnly: true,
		frame: "pure",
		ensures: {
			"nothing the generic extraction finds is lost": (r: string[], _o: unknown, _t: string, p: unknown) => extractPathArguments(p).every((x) => r.includes(x)),
			"a migration's sources are extracted": (r: string[], _o: unknown, t: string, p: unknown) =>
				t.toLowerCase() !== "secret_store" || !isObj(p) || rec(p).action !== "migrate" || !Array.isArray(rec(p).sources) || (rec(p).sources as unknown[]).every((s) => !isObj(s) || !str((s as { path?: unknown }).path) || r.includes(((s as { path: string }).path).trim())),
			"a search without a path searches the working directory": (r: string[], _o: unknown, t: string, p: unknown) => !["find", "grep", "ls", "pipeline"].includes(t.toLowerCase()) || extractPathArguments(p).length > 0 || r.includes("."),
			"a discovery without a path scans the working directory": (r: string[], _o: unknown, t: string, p: unknown) => t.toLowerCase() !== "secret_store" || !isObj(p) || rec(p).action !== "discover" || extractPathArguments(p).length > 0 || r.includes("."),
		},
		gen: (g) => [genTool(g), genParams(g)],
	}),
];
