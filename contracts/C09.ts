import { ExecutionPolicyCompiler, type PolicyCompilationResult, type CompileExecutionGrantInput } from "../../repo/packages/coding-agent/src/core/orchestration/policy-compiler.ts";
import { exceededRiskBudgetFields, intersectRiskBudgets } from "../../repo/packages/coding-agent/src/core/orchestration/risk-budget.ts";
import { getToolCapabilityPolicy } from "../../repo/packages/coding-agent/src/core/tool-capability-policy.ts";
import { HARNESS_CAPABILITIES, type ExecutionGrant, type HarnessCapability, type RiskBudget, type ToolCapabilityManifest, type WorkerRole } from "../../repo/packages/coding-agent/src/core/orchestration/contracts.ts";
import { contract, forallInt } from "../engine/spec.ts";
import { genTool } from "./C06.ts";
import type { G } from "../engine/gen.ts";

type Comp = { roleCapabilityCeilings: Readonly<Record<WorkerRole, readonly HarnessCapability[]>> };
type In = CompileExecutionGrantInput;
type R = PolicyCompilationResult;
type Caps = readonly HarnessCapability[];
const EXT = {
	getToolCapabilityPolicy: { kind: "pure" }, validateRiskBudget: { kind: "pure", throws: true }, intersectRiskBudgets: { kind: "havoc" }, exceededRiskBudgetFields: { kind: "havoc" }, freezeGrant: { kind: "ident" }, structuredClone: { kind: "ident" },
	".now": { kind: "havoc", throws: true }, ".createId": { kind: "havoc", throws: true },
} as const;
const noLarger = (a: number | undefined, b: number | undefined): boolean => b === undefined || (a !== undefined && a <= b);
const within = (r: RiskBudget, b: RiskBudget): boolean => noLarger(r.maxTokens, b.maxTokens) && noLarger(r.maxWallClockMs, b.maxWallClockMs) && noLarger(r.maxAttempts, b.maxAttempts) && noLarger(r.maxToolCalls, b.maxToolCalls) && noLarger(r.maxCostUsd, b.maxCostUsd);
const over = (a: number | undefined, b: number | undefined): boolean => a !== undefined && b !== undefined && a > b;
const exceeds = (q: RiskBudget, a: RiskBudget): boolean => over(q.maxTokens, a.maxTokens) || over(q.maxWallClockMs, a.maxWallClockMs) || over(q.maxAttempts, a.maxAttempts) || over(q.maxToolCalls, a.maxToolCalls) || over(q.maxCostUsd, a.maxCostUsd);
/** what callers know about the budget functions: proved in C10 */
const AX = {
	intersectRiskBudgets: (r: RiskBudget, a: RiskBudget, b: RiskBudget) => within(r, a) && within(r, b),
	exceededRiskBudgetFields: (r: string[], q: RiskBudget, a: RiskBudget) => exceeds(q, a) === (r.length > 0),
};
const requestedCaps = (i: In): Caps => i.requestedCapabilities ?? [];
const ceiling = (c: Comp, i: In): Caps => c.roleCapabilityCeilings[i.role];
const allow = (r: R): ExecutionGrant | undefined => (r.outcome === "allow" ? r.grant : undefined);

export const contracts = [
	contract({
		name: "ExecutionPolicyCompiler.compile",
		target: ExecutionPolicyCompiler.prototype.compile,
		ext: EXT,
		axioms: AX,
		mayThrow: true,
		ensures: {
			"only requested or required capabilities are granted": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || r.grant.capabilities.every((x) => i.requiredCapabilities.includes(x) || requestedCaps(i).includes(x)),
			"only capabilities of the authority are granted": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || r.grant.capabilities.every((x) => i.authorityCapabilities.includes(x)),
			"only capabilities under the role ceiling are granted": (r: R, _o: unknown, c: Comp, i: In) => r.outcome !== "allow" || r.grant.capabilities.every((x) => ceiling(c, i).includes(x)),
			"every required capability is granted": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || i.requiredCapabilities.every((x) => r.grant.capabilities.includes(x)),
			"only requested tools are granted": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || r.grant.allowedTools.every((t) => i.requestedTools.includes(t)),
			"every requested tool is granted": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || i.requestedTools.every((t) => r.grant.allowedTools.includes(t)),
			"every granted tool needs only granted capabilities": (r: R) => r.outcome !== "allow" || r.toolManifests.every((m) => r.grant.allowedTools.includes(m.toolName) && m.capabilities.every((x) => r.grant.capabilities.includes(x))),
			"every granted tool is open to the role": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || r.toolManifests.every((m) => m.roles.includes(i.role)),
			"every granted tool has its policy's enforcements": (r: R) => r.outcome !== "allow" || r.toolManifests.every((m) => !getToolCapabilityPolicy(m.toolName) || getToolCapabilityPolicy(m.toolName)!.enforcements.every((e) => m.enforcements.includes(e))),
			"there is a manifest for every granted tool": (r: R) => r.outcome !== "allow" || r.grant.allowedTools.every((t) => r.toolManifests.some((m) => m.toolName === t)),
			"only requested paths are granted": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || (r.grant.readPaths.every((p) => i.readPaths?.includes(p) ?? false) && r.grant.writePaths.every((p) => i.writePaths?.includes(p) ?? false)),
			"every denied path is carried": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || (i.deniedPaths ?? []).every((p) => r.grant.deniedPaths.includes(p)),
			"a file capability has a positive path scope": (r: R) => r.outcome !== "allow" || ((!(r.grant.capabilities.includes("filesystem.read") || r.grant.capabilities.includes("worktree.read")) || r.grant.readPaths.length > 0) && (!(r.grant.capabilities.includes("filesystem.write") || r.grant.capabilities.includes("worktree.mutate")) || r.grant.writePaths.length > 0)),
			"the budget is within the request and the authority": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || ((!i.requestedBudget || within(r.grant.budget, i.requestedBudget)) && (!i.authorityBudget || within(r.grant.budget, i.authorityBudget))),
			"a request over the authority's budget is not granted": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || !i.requestedBudget || !i.authorityBudget || !exceeds(i.requestedBudget, i.authorityBudget),
			"a required capability over the role ceiling is a denial": (r: R, _o: unknown, c: Comp, i: In) => i.requiredCapabilities.every((x) => ceiling(c, i).includes(x)) || r.outcome === "deny",
			"the grant is bound to its attempt and expiry": (r: R, _o: unknown, _c: Comp, i: In) => r.outcome !== "allow" || (r.grant.attemptId === i.attemptId && r.grant.taskId === i.taskId && r.grant.objectiveId === i.objectiveId && r.grant.subjectId === i.subjectId && r.grant.role === i.role && r.grant.policyVersion === i.policyVersion && (!i.expiresAt || r.grant.expiresAt === i.expiresAt)),
		},
		invariants: {
			"granted: under the role ceiling": ({ granted, roleCeiling }: { granted: Caps; roleCeiling: Set<HarnessCapability> }) => granted.every((x) => roleCeiling.has(x)),
			"granted: held by the authority": ({ granted, authority }: { granted: Caps; authority: Set<HarnessCapability> }) => granted.every((x) => authority.has(x)),
			"granted: requested": ({ granted, requested }: { granted: Caps; requested: Caps }) => granted.every((x) => requested.includes(x)),
			"processed: granted or refused": ({ granted, requested, roleDenied, approvalCapabilities, $i }: { granted: Caps; requested: Caps; roleDenied: Caps; approvalCapabilities: Caps; $i: number }) => forallInt(0, $i, (j) => granted.includes(requested[j]!) || roleDenied.includes(requested[j]!) || approvalCapabilities.includes(requested[j]!)),
			"processed: refused over the ceiling": ({ requested, roleDenied, roleCeiling, $i }: { requested: Caps; roleDenied: Caps; roleCeiling: Set<HarnessCapability>; $i: number }) => forallInt(0, $i, (j) => roleCeiling.has(requested[j]!) || roleDenied.includes(requested[j]!)),
			"tools: requested": ({ allowedManifests, input }: { allowedManifests: ToolCapabilityManifest[]; input: In }) => allowedManifests.every((m) => input.requestedTools.includes(m.toolName)),
			"tools: open to the role": ({ allowedManifests, input }: { allowedManifests: ToolCapabilityManifest[]; input: In }) => allowedManifests.every((m) => m.roles.includes(input.role)),
			"tools: capabilities granted": ({ allowedManifests, granted }: { allowedManifests: ToolCapabilityManifest[]; granted: Caps }) => allowedManifests.every((m) => m.capabilities.every((x) => granted.includes(x))),
			"tools: enforcements": ({ allowedManifests }: { allowedManifests: ToolCapabilityManifest[] }) => allowedManifests.every((m) => !getToolCapabilityPolicy(m.toolName) || getToolCapabilityPolicy(m.toolName)!.enforcements.every((e) => m.enforcements.includes(e))),
			"tools: processed or refused": ({ allowedManifests, toolReasonCodes, $at, $i }: { allowedManifests: ToolCapabilityManifest[]; toolReasonCodes: string[]; $at: (j: number) => string; $i: number }) => toolReasonCodes.length > 0 || forallInt(0, $i, (j) => allowedManifests.some((m) => m.toolName === $at(j))),
		},
		gen: (g) => genCompile(g),
	}),
];
const ROLES = ["orchestrator", "planner", "implementer"] as const;
const some = (g: G): any => g.subset(["filesystem.read", "filesystem.write", "process.exec", "memory.query", "network.http", "workflow.plan"]);
const num = (g: G): any => g.pick([0, 1, 5, 10, undefined]);
const genBudget = (g: G): any => g.partial({ maxTokens: num, maxWallClockMs: num, maxCostUsd: num, maxAttempts: num, maxToolCalls: num });
const genCompile = (g: G): any[] => {
	const roleCapabilityCeilings: any = {};
	for (const r of ["orchestrator", "planner", "explorer", "implementer", "operator", "verifier", "database"]) roleCapabilityCeilings[r] = g.chance(0.6) ? HARNESS_CAPABILITIES : some(g);
	const c = new ExecutionPolicyCompiler({ now: () => "t", createId: () => "1", roleCapabilityCeilings });
	const authority = g.chance(0.6) ? HARNESS_CAPABILITIES : some(g);
	const tools = g.chance(0.6) ? [] : g.array((x) => x.pick(["custom", "read", "bash", "memory_read"]), 3);
	const ENF: any = { "filesystem.read": "path-scope", "filesystem.write": "path-scope", "process.exec": "process-launcher", "memory.query": "memory-broker", "network.http": "service-proxy", "workflow.plan": "control-plane" };
	const required = g.chance(0.5) ? [] : some(g);
	const requested = g.chance(0.4) ? undefined : some(g);
	const manifests = [...new Set([...tools, "custom"])].map((toolName) => {
		const capabilities = g.chance(0.6) ? g.subset([...required, ...(requested ?? [])]) : some(g);
		return { toolName, capabilities, roles: g.chance(0.85) ? [...ROLES] : ["planner"], enforcements: [...new Set([...capabilities.map((x: string) => ENF[x]), ...(getToolCapabilityPolicy(toolName)?.enforcements ?? [])])].filter(() => g.chance(0.95)) };
	});
	const budgets = g.chance(0.5) ? {} : { requestedBudget: genBudget(g), authorityBudget: genBudget(g) };
	return [c, { objectiveId: "o", taskId: "t", attemptId: "a", subjectId: "s", role: g.pick(ROLES), requiredCapabilities: required, requestedCapabilities: requested, authorityCapabilities: authority, requestedTools: tools, toolManifests: manifests, policyVersion: "1", ...g.partial({ readPaths: (x: G) => x.array((y) => y.pick(["a", "b"]), 3), writePaths: (x: G) => x.array((y) => y.pick(["a", "b"]), 3), deniedPaths: (x: G) => x.array((y) => y.pick(["c", "d"]), 3), expiresAt: () => "z" }), ...budgets }];
};
