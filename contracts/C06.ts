import { envelopeHasToolCapability, getToolCapabilityPolicy, resolveProfileToolCapabilities, resolveToolCallCapabilities, resolveToolCallPathAccess, toolCapabilityRequirementClauses } from "../../repo/packages/coding-agent/src/core/tool-capability-policy.ts";
import { ROOT_MEMORY_TOOL_NAME } from "../../repo/packages/coding-agent/src/core/memory/worker-memory-tools.ts";
import type { ToolPathAccess } from "../../repo/packages/coding-agent/src/core/tool-capability-policy.ts";
import type { HarnessCapability } from "../../repo/packages/coding-agent/src/core/capability-contract.ts";
import { contract, forallInt } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

type Caps = readonly HarnessCapability[];
type R = Caps | undefined;
type Clauses = readonly (readonly HarnessCapability[])[];
/** the policy catalogue is data: the proofs hold for every catalogue */
const EXT = { TOOL_CAPABILITY_POLICIES: { kind: "const" } } as const;
/** callers see the callee through its contract, proved below */
const CALL = { ...EXT, resolveToolCallCapabilities: { kind: "pure" } } as const;
const CLAUSES = { ...EXT, toolCapabilityRequirementClauses: { kind: "pure" } } as const;
const pipelineChange = (tool: string, args?: unknown): boolean => lower(tool) === "pipeline" && actionOf(args) !== "list" && actionOf(args) !== "status";
const CLAUSES_AX = {
	toolCapabilityRequirementClauses: (r: Clauses, tool: string, args?: unknown) => !pipelineChange(tool, args) || (r.length === 2 && r[0]!.length === 1 && r[0]![0] === "workflow.plan" && r[1]!.every((c) => c === "filesystem.write" || c === "worktree.mutate")),
};
const AX = { resolveToolCallCapabilities: (r: R, _c: Caps, tool: string, args?: unknown) => r === undefined || !pipelineChange(tool, args) || (r.length === 2 && WRITES(r[1])) };
const CAPS = ["filesystem.read", "filesystem.write", "worktree.read", "worktree.mutate", "process.exec", "tests.execute", "network.http", "service.mcp", "memory.query", "memory.mutate", "workflow.plan", "workflow.delegate", "skill.read", "skill.write", "source.read", "source.write", "research.execute", "credentials.use"];
const TOOLS = ["read", "ls", "grep", "find", "write", "edit", "edit-diff", "bash", "python", "skill", "skillify", "extensionify", "goal", "memory", "memory_read", "secret_store", "delegate", "task_steps", "pipeline", "tool_task", "worktree_sync", "ask_question", "artifact_retrieve", "context_scout", "Read", "PIPELINE", "Goal", "nope", "", "GOAL"];
export const genTool = (g: G): string => (g.chance(0.9) ? g.pick(TOOLS) : g.str());
export const genCaps = (g: G): any => g.subset(g.chance(0.5) ? CAPS : g.subset(CAPS));
export const genArgs = (g: G): unknown =>
	g.pick([undefined, null, "x", 3, [], {}, { action: "get" }, { action: "list" }, { action: "status" }, { action: "run" }, { action: "migrate" }, { action: "discover" }, { action: 1 }, { query: "q" }, { query: "q", content: "c" }, { query: 1 }, ["get"], { content: "z" }]);
const lower = (s: string): string => s.toLowerCase();
const actionOf = (a: unknown): unknown => (a && typeof a === "object" && "action" in a ? (a as { action: unknown }).action : undefined);
const isRec = (a: unknown): boolean => !!a && typeof a === "object" && !Array.isArray(a);
const one = (c: Clauses, cap: HarnessCapability): boolean => c.length === 1 && c[0]!.length === 1 && c[0]![0] === cap;
const WRITES = (c: unknown): boolean => c === "filesystem.write" || c === "worktree.mutate" || c === "skill.write" || c === "source.write";
const READS = (c: unknown): boolean => c === "filesystem.read" || c === "worktree.read" || c === "skill.read" || c === "source.read";
/** tools whose calls take identifiers, queries or actions rather than paths */
const special = (tool: string): boolean => lower(tool) === "artifact_retrieve" || lower(tool) === "context_scout" || lower(tool) === "pipeline" || lower(tool) === "secret_store";
const scoped = (tool: string): boolean => getToolCapabilityPolicy(tool)?.enforcements.includes("path-scope") ?? false;

export const contracts = [
	contract({
		name: "resolveToolCallCapabilities",
		target: resolveToolCallCapabilities,
		frame: "pure",
		ext: CLAUSES,
		axioms: CLAUSES_AX,
		ensures: {
			"a pipeline change selects a write capability": (r: R, _o: unknown, _c: Caps, tool: string, args?: unknown) => r === undefined || !pipelineChange(tool, args) || (r.length === 2 && WRITES(r[1])),
			"one selected capability per requirement": (r: R, _o: unknown, _c: Caps, tool: string, args?: unknown) => r === undefined || r.length === toolCapabilityRequirementClauses(tool, args).length,
			"every selected capability was granted": (r: R, _o: unknown, caps: Caps) => r === undefined || r.every((x) => caps.includes(x)),
			"every selected capability meets its requirement": (r: R, _o: unknown, _c: Caps, tool: string, args?: unknown) => r === undefined || toolCapabilityRequirementClauses(tool, args).every((clause, i) => clause.includes(r[i]!)),
			"a tool without requirements is refused": (r: R, _o: unknown, _c: Caps, tool: string, args?: unknown) => r === undefined || toolCapabilityRequirementClauses(tool, args).length > 0,
			"refused only when some requirement has no granted alternative": (r: R, _o: unknown, caps: Caps, tool: string, args?: unknown) =>
				r !== undefined || toolCapabilityRequirementClauses(tool, args).length === 0 || toolCapabilityRequirementClauses(tool, args).some((clause) => clause.every((x) => !caps.includes(x))),
		},
		invariants: {
			"selected so far were granted": ({ resolved, capabilities }: { resolved: Caps; capabilities: Caps }) => resolved.every((x) => capabilities.includes(x)),
			"selected so far meet their requirements": ({ resolved, clauses, $i }: { resolved: Caps; clauses: Clauses; $i: number }) => forallInt(0, $i, (j) => clauses[j]!.includes(resolved[j]!)),
		},
		gen: (g) => [genCaps(g), genTool(g), genArgs(g)],
	}),
	contract({
		name: "toolCapabilityRequirementClauses",
		target: toolCapabilityRequirementClauses,
		frame: "pure",
		ext: EXT,
		ensures: {
			"a tool without a policy has no requirements to satisfy": (r: Clauses, _o: unknown, tool: string) => lower(tool) === "pipeline" || lower(tool) === "goal" || lower(tool) === ROOT_MEMORY_TOOL_NAME || getToolCapabilityPolicy(tool) !== undefined || r.length === 0,
			"an ordinary tool needs every clause of its policy": (r: Clauses, _o: unknown, tool: string) =>
				lower(tool) === "pipeline" || lower(tool) === "goal" || lower(tool) === ROOT_MEMORY_TOOL_NAME || getToolCapabilityPolicy(tool) === undefined || r === getToolCapabilityPolicy(tool)!.capabilityClauses,
			"a pipeline change needs both planning and a write capability": (r: Clauses, _o: unknown, tool: string, args?: unknown) =>
				lower(tool) !== "pipeline" || actionOf(args) === "list" || actionOf(args) === "status" || (r.length === 2 && r[0]!.length === 1 && r[0]![0] === "workflow.plan" && r[1]!.every((c) => c === "filesystem.write" || c === "worktree.mutate")),
			"a pipeline query needs planning or reading": (r: Clauses, _o: unknown, tool: string, args?: unknown) =>
				lower(tool) !== "pipeline" || !(actionOf(args) === "list" || actionOf(args) === "status") || (r.length === 1 && r[0]!.every((c) => c === "workflow.plan" || c === "filesystem.read")),
			"only a goal read needs less than mutation": (r: Clauses, _o: unknown, tool: string, args?: unknown) =>
				lower(tool) !== "goal" || args === undefined || (isRec(args) && actionOf(args) === "get") || one(r, "memory.mutate"),
			"a goal read needs only querying": (r: Clauses, _o: unknown, tool: string, args?: unknown) => lower(tool) !== "goal" || !(isRec(args) && actionOf(args) === "get") || one(r, "memory.query"),
			"only a pure memory query needs less than mutation": (r: Clauses, _o: unknown, tool: string, args?: unknown) =>
				lower(tool) !== ROOT_MEMORY_TOOL_NAME || args === undefined || one(r, "memory.mutate") || (isRec(args) && typeof (args as { query?: unknown }).query === "string" && Object.keys(args as Record<string, unknown>).every((k) => k === "query") && one(r, "memory.query")),
		},
		gen: (g) => [genTool(g), genArgs(g)],
	}),
	contract({
		name: "envelopeHasToolCapability",
		target: envelopeHasToolCapability,
		frame: "pure",
		ext: CALL,
		ensures: { "agrees with resolution": (r: boolean, _o: unknown, caps: Caps, tool: string, args?: unknown) => r === (resolveToolCallCapabilities(caps, tool, args) !== undefined) },
		gen: (g) => [genCaps(g), genTool(g), genArgs(g)],
	}),
	contract({
		name: "resolveToolCallPathAccess",
		target: resolveToolCallPathAccess,
		frame: "pure",
		ext: CALL,
		axioms: AX,
		ensures: {
			"write access when any selected capability writes": (r: ToolPathAccess, _o: unknown, caps: Caps, tool: string, args?: unknown) =>
				special(tool) || !scoped(tool) || resolveToolCallCapabilities(caps, tool, args) === undefined || !resolveToolCallCapabilities(caps, tool, args)!.some(WRITES) || r === "write",
			"only a path-scoped tool has path access": (r: ToolPathAccess, _o: unknown, _c: Caps, tool: string) => r === "none" || scoped(tool),
			"read access when only reading is selected": (r: ToolPathAccess, _o: unknown, caps: Caps, tool: string, args?: unknown) =>
				special(tool) || !scoped(tool) || resolveToolCallCapabilities(caps, tool, args) === undefined || resolveToolCallCapabilities(caps, tool, args)!.some(WRITES) || !resolveToolCallCapabilities(caps, tool, args)!.some(READS) || r === "read",
			"a secret-store migration or discovery reads paths": (r: ToolPathAccess, _o: unknown, caps: Caps, tool: string, args?: unknown) =>
				lower(tool) !== "secret_store" || !scoped(tool) || resolveToolCallCapabilities(caps, tool, args) === undefined || !isRec(args) || (actionOf(args) !== "migrate" && actionOf(args) !== "discover") || r === "read",
			"a pipeline change is path checked": (r: ToolPathAccess, _o: unknown, caps: Caps, tool: string, args?: unknown) =>
				lower(tool) !== "pipeline" || !scoped(tool) || resolveToolCallCapabilities(caps, tool, args) === undefined || actionOf(args) === "list" || actionOf(args) === "status" || r === "write",
		},
		gen: (g) => [genCaps(g), genTool(g), genArgs(g)],
	}),
	contract({
		name: "resolveProfileToolCapabilities",
		target: resolveProfileToolCapabilities,
		frame: "pure",
		ext: CLAUSES,
		ensures: {
			"only capabilities inside the ceiling": (r: R, _o: unknown, p: { capabilityCeiling: Caps }) => r === undefined || r.every((x) => p.capabilityCeiling.includes(x)),
			"every requirement is met": (r: R, _o: unknown, _p: unknown, tool: string) => r === undefined || (r.length > 0 && r.length === toolCapabilityRequirementClauses(tool).length && toolCapabilityRequirementClauses(tool).every((clause, i) => clause.includes(r[i]!))),
		},
		invariants: {
			"selected so far are inside the ceiling": ({ resolved, profile }: { resolved: Caps; profile: { capabilityCeiling: Caps } }) => resolved.every((x) => profile.capabilityCeiling.includes(x)),
			"selected so far meet their requirements": ({ resolved, clauses, $i }: { resolved: Caps; clauses: Clauses; $i: number }) => forallInt(0, $i, (j) => clauses[j]!.includes(resolved[j]!)),
		},
		gen: (g) => [{ capabilityCeiling: genCaps(g) }, genTool(g)],
	}),
];
