import { CapabilityGateway, budgetedTokens } from "../../repo/packages/coding-agent/src/core/orchestration/capability-gateway.ts";
import { extractToolPathArguments } from "../../repo/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts";
import { isPathWithinScope, safeRealpathSync } from "../../repo/packages/coding-agent/src/core/autonomy/path-scope.ts";
import { getToolCapabilityPolicy, resolveCapabilityPathAccess, resolveToolCallCapabilities, resolveToolCallPathAccess } from "../../repo/packages/coding-agent/src/core/tool-capability-policy.ts";
import type { ExecutionGrant, HarnessCapability, ToolCapabilityManifest } from "../../repo/packages/coding-agent/src/core/orchestration/contracts.ts";
import fs from "node:fs";
import os from "node:os";
import path, { resolve } from "node:path";
import { contract, internal, ghostCount, ghostHit } from "../engine/spec.ts";
import { genCaps, genTool } from "./C06.ts";
import { genParams } from "./C04.ts";
import type { G } from "../engine/gen.ts";

/** the private state of a gateway */
export interface GW { grant: ExecutionGrant; cwd: string; toolCalls: number; inputTokens: number; outputTokens: number; cacheReadTokens: number; cacheWriteTokens: number; totalTokens: number; costUsd: number; startedAt: number; initialWallClockMs: number; now: () => number; pathAllowed(p: string, roots: readonly string[]): boolean }
type Man = ToolCapabilityManifest;
export const EXT = {
	".now": { kind: "pure" }, ".onAudit": { kind: "skip" }, Date: { kind: "havoc" }, toISOString: { kind: "havoc" }, "Date.parse": { kind: "pure" }, CapabilityGatewayDeniedError: { kind: "havoc" },
	".assertBudgetAvailable": { kind: "havoc", throws: true }, ".recordAttemptUsage": { kind: "havoc", throws: true, effect: "shared" },
} as const;
const CALLEES = {
	getToolCapabilityPolicy: { kind: "pure" }, resolveToolCallCapabilities: { kind: "pure" }, resolveToolCallPathAccess: { kind: "pure" }, resolveCapabilityPathAccess: { kind: "pure" }, extractToolPathArguments: { kind: "pure" }, pathAllowed: { kind: "pure", static: true },
} as const;
const FS = { safeRealpathSync: { kind: "pure", throws: true, args: 1 }, isPathWithinScope: { kind: "pure" }, resolve: { kind: "pure" } } as const;
export const FIN = { toolCalls: "nat", inputTokens: "nat", outputTokens: "nat", cacheReadTokens: "nat", cacheWriteTokens: "nat", totalTokens: "nat", costUsd: "nonneg", startedAt: "fin", initialWallClockMs: "nonneg" } as const;
const callCaps = (m: Man, tool: string, p: unknown): readonly HarnessCapability[] | undefined => (getToolCapabilityPolicy(tool) ? resolveToolCallCapabilities(m.capabilities, tool, p) : m.capabilities);
const access = (m: Man, tool: string, p: unknown): string => (getToolCapabilityPolicy(tool) ? resolveToolCallPathAccess(m.capabilities, tool, p) : m.enforcements.includes("path-scope") ? (resolveCapabilityPathAccess(callCaps(m, tool, p) ?? []) ?? "none") : "none");
const writes = (m: Man, tool: string, p: unknown): boolean => access(m, tool, p) === "write" || (callCaps(m, tool, p) ?? []).some((c) => c === "filesystem.write" || c === "worktree.mutate");
const usesPaths = (m: Man, tool: string, p: unknown): boolean => (callCaps(m, tool, p) ?? []).some((c) => c === "filesystem.read" || c === "filesystem.write" || c === "worktree.read" || c === "worktree.mutate");
const real = (cwd: string, p: string): string | undefined => { try { return safeRealpathSync(resolve(cwd, p)); } catch { return undefined; } };

let tree = "";
/** a scratch directory with directories, links in and out of it, and a link cycle */
function scratch(): string {
	if (tree) return tree;
	tree = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), "c07-")));
	process.on("exit", () => fs.rmSync(tree, { recursive: true, force: true }));
	for (const d of ["a", "a/b", "o"]) fs.mkdirSync(path.join(tree, d));
	fs.symlinkSync(path.join(tree, "o"), path.join(tree, "a/out"));
	fs.symlinkSync(path.join(tree, "a"), path.join(tree, "link"));
	fs.symlinkSync("c1", path.join(tree, "c1"));
	return tree;
}
const PATHS = ["a", "a/b", "../x", ".", "o", "a/out", "a/out/y", "link/b", "link", "c1", "/etc/none", "a/b/c"];
const genPath = (g: G): string => { const p = g.pick(PATHS); return g.chance(0.2) && !path.isAbsolute(p) ? path.join(scratch(), p) : p; };
const usage = (g: G): number => g.pick([0, 0, 1, 2, 5, 10, 100]);
export const genGateway = (g: G): CapabilityGateway => {
	const grant: any = {
		grantId: "g", attemptId: "t", capabilities: genCaps(g), allowedTools: g.array(genTool, 4), readPaths: g.array(genPath, 3), writePaths: g.array(genPath, 3), deniedPaths: g.array(genPath, 2),
		budget: g.partial({ maxToolCalls: usage, maxTokens: usage, maxCostUsd: usage, maxWallClockMs: usage }),
	};
	if (g.chance(0.6)) grant.budget = {};
	if (g.chance(0.3)) grant.expiresAt = new Date(g.pick([0, 999, 1000, 1001, 5000])).toISOString();
	const first = 1000 - g.pick([0, 0, 1, 5, 100]);
	let calls = 0;
	const cached = usage(g);
	return new CapabilityGateway({ grant, cwd: scratch(), now: () => (calls++ === 0 ? first : 1000), onAudit: () => {}, initialUsage: { toolCalls: usage(g), inputTokens: usage(g), outputTokens: usage(g), cacheReadTokens: cached, cacheWriteTokens: usage(g), totalTokens: usage(g), costUsd: usage(g), activeWallClockMs: usage(g) } });
};
const genManifest = (g: G, tool: string): any => ({ toolName: g.chance(0.9) ? tool : genTool(g), capabilities: genCaps(g), enforcements: g.chance(0.6) ? ["path-scope"] : [] });
const genCall = (g: G): any[] => {
	const gw = genGateway(g);
	const grant = (gw as unknown as GW).grant as any;
	const tool = g.chance(0.85) && grant.allowedTools.length > 0 ? g.pick(grant.allowedTools as string[]) : genTool(g);
	const m = genManifest(g, tool);
	if (g.chance(0.7)) grant.capabilities = [...grant.capabilities, ...m.capabilities];
	let p = genParams(g) as any;
	if (g.chance(0.6)) p = { ...(p && typeof p === "object" ? p : {}), path: genPath(g) };
	return [gw, m, tool, p];
};

export const contracts = [
	contract({
		name: "CapabilityGateway.authorizeToolCall",
		target: CapabilityGateway.prototype.authorizeToolCall,
		ext: { ...EXT, ...CALLEES },
		refine: FIN,
		mayThrow: true,
		pre: (g: GW) => ({ calls: g.toolCalls, tokens: budgetedTokens(g), cost: g.costUsd, now: g.now() }),
		ensures: {
			"the grant has not expired": (_r: unknown, o: { now: number }, g: GW) => !g.grant.expiresAt || !(Date.parse(g.grant.expiresAt) <= o.now),
			"the tool was granted": (_r: unknown, _o: unknown, g: GW, _m: Man, tool: string) => g.grant.allowedTools.includes(tool),
			"the manifest is the tool's own": (_r: unknown, _o: unknown, _g: GW, m: Man, tool: string) => m.toolName === tool,
			"every capability of the manifest was granted": (_r: unknown, _o: unknown, g: GW, m: Man) => m.capabilities.every((c) => g.grant.capabilities.includes(c)),
			"the manifest covers the call": (_r: unknown, _o: unknown, _g: GW, m: Man, tool: string, p: unknown) => callCaps(m, tool, p) !== undefined,
			"the call budget permitted another call": (_r: unknown, o: { calls: number }, g: GW) => g.grant.budget.maxToolCalls === undefined || !(o.calls >= g.grant.budget.maxToolCalls),
			"the token budget was not exhausted": (_r: unknown, o: { tokens: number }, g: GW) => g.grant.budget.maxTokens === undefined || !(o.tokens >= g.grant.budget.maxTokens),
			"the cost budget was not exhausted": (_r: unknown, o: { cost: number }, g: GW) => g.grant.budget.maxCostUsd === undefined || !(o.cost >= g.grant.budget.maxCostUsd),
			"the wall-clock budget was not exhausted": (_r: unknown, o: { now: number }, g: GW) => g.grant.budget.maxWallClockMs === undefined || !(g.initialWallClockMs + Math.max(0, o.now - g.startedAt) >= g.grant.budget.maxWallClockMs),
			"every path is inside the granted scope of its kind": (_r: unknown, _o: unknown, g: GW, m: Man, tool: string, p: unknown) =>
				access(m, tool, p) === "none" || extractToolPathArguments(tool, p).every((x) => g.pathAllowed(x, writes(m, tool, p) ? g.grant.writePaths : g.grant.readPaths)),
			"a path capability needs an explicit path": (_r: unknown, _o: unknown, _g: GW, m: Man, tool: string, p: unknown) => access(m, tool, p) === "none" || !usesPaths(m, tool, p) || extractToolPathArguments(tool, p).length > 0,
			"exactly one more call is counted": (_r: unknown, o: { calls: number }, g: GW) => g.toolCalls === o.calls + 1,
		},
		onThrow: { "a refusal counts no call unless the shared budget was already told": (o: { calls: number }, g: GW) => g.toolCalls === o.calls || (ghostCount("shared") === 1 && g.toolCalls === o.calls + 1) },
		gen: genCall,
	}),
	contract({
		name: "CapabilityGateway.execute",
		target: CapabilityGateway.prototype.execute,
		ext: { ...EXT, authorizeToolCall: { kind: "havoc", throws: true, effect: "authorized" }, ".invoke": { kind: "pure", effect: "invoked" } },
		refine: FIN,
		mayThrow: true,
		ensures: {
			"an executed call was authorized first": () => ghostCount("authorized") === 1 && ghostCount("invoked") === 1,
		},
		onThrow: { "a refused call never runs": () => ghostCount("invoked") === 0 },
		gen: (g) => {
			const [gw, ...rest] = genCall(g);
			const authorize = gw.authorizeToolCall;
			gw.authorizeToolCall = function (this: unknown, ...a: any[]) { ghostHit("authorized"); return authorize.apply(this, a); };
			return [gw, ...rest, () => { ghostHit("invoked"); return 1; }];
		},
	}),
	contract({
		name: "CapabilityGateway.pathAllowed",
		target: internal("packages/coding-agent/src/core/orchestration/capability-gateway.ts", "CapabilityGateway.pathAllowed"),
		frame: "pure",
		ext: FS,
		ensures: {
			"nothing is allowed without roots": (r: boolean, _o: unknown, _g: GW, _p: string, roots: readonly string[]) => !r || roots.length > 0,
			"the path as named is inside an allowed root": (r: boolean, _o: unknown, g: GW, p: string, roots: readonly string[]) =>
				!r || roots.some((a) => isPathWithinScope(resolve(g.cwd, p), resolve(g.cwd, a)) || (!!real(g.cwd, a) && isPathWithinScope(resolve(g.cwd, p), real(g.cwd, a)!))),
			"an unresolvable path is refused": (r: boolean, _o: unknown, g: GW, p: string) => !r || !!real(g.cwd, p),
			"a denied path always wins": (r: boolean, _o: unknown, g: GW, p: string) => !r || g.grant.deniedPaths.every((d) => !real(g.cwd, d) || !isPathWithinScope(real(g.cwd, p)!, real(g.cwd, d)!)),
			"the real path is inside an allowed root": (r: boolean, _o: unknown, g: GW, p: string, roots: readonly string[]) =>
				!r || roots.some((a) => isPathWithinScope(real(g.cwd, p)!, resolve(g.cwd, a)) || (!!real(g.cwd, a) && isPathWithinScope(real(g.cwd, p)!, real(g.cwd, a)!))),
		},
		gen: (g) => { const gw = genGateway(g); return [gw, genPath(g), g.pick([(gw as unknown as GW).grant.readPaths, (gw as unknown as GW).grant.writePaths])]; },
	}),
];
