import { evaluateToolGate, extractCandidatePaths } from "../../repo/packages/coding-agent/src/core/autonomy/gates.ts";
import { extractToolPathArguments, isPathWithinEnvelope } from "../../repo/packages/coding-agent/src/core/autonomy/envelope-enforcement.ts";
import { assessOperationRisk } from "../../repo/packages/coding-agent/src/core/risk-classifier.ts";
import { hasToolCapabilityPolicy, resolveToolCallCapabilities, resolveToolCallPathAccess, toolUsesPathScope } from "../../repo/packages/coding-agent/src/core/tool-capability-policy.ts";
import type { HarnessCapability } from "../../repo/packages/coding-agent/src/core/capability-contract.ts";
import type { CapabilityEnvelope, GateOutcome, RiskAssessment, RiskAssessmentInput } from "../../repo/packages/coding-agent/src/core/autonomy/contracts.ts";
import { contract } from "../engine/spec.ts";
import { genCaps, genTool } from "./C06.ts";
import { genParams } from "./C04.ts";
import type { G } from "../engine/gen.ts";

interface In { toolName: string; args?: unknown; cwd: string; envelope?: CapabilityEnvelope }
type Rec = Record<string, unknown>;
const EXT = {
	resolveToolCallCapabilities: { kind: "pure" }, resolveToolCallPathAccess: { kind: "pure" }, extractToolPathArguments: { kind: "pure" }, isPathWithinEnvelope: { kind: "pure" }, TOOL_CAPABILITY_POLICIES: { kind: "const" },
	describeCapabilityRequirementForTool: { kind: "havoc" }, safeRealpathSync: { kind: "havoc", throws: true }, isPathWithinScope: { kind: "havoc" }, resolve: { kind: "havoc" }, "path.resolve": { kind: "havoc" }, assessOperationRisk: { kind: "pure", fields: ["command", "operation", "toolName"] },
} as const;
const AX = { resolveToolCallPathAccess: (r: string, _c: unknown, tool: string) => r === "none" || toolUsesPathScope(tool) };
const named = (i: In): string[] => extractToolPathArguments(i.toolName, i.args);
const shell = (t: string): boolean => t === "bash" || t === "powershell" || t === "shell" || t === "python";
/** the command a call would run */
const command = (i: In): string => {
	const a = i.args as Rec;
	if (!a) return "";
	if (shell(i.toolName) && typeof a.command === "string") return a.command;
	if (i.toolName === "python" && typeof a.code === "string") return a.code;
	if (i.toolName === "python" && typeof a.scriptPath === "string") return `python ${a.scriptPath}`;
	if (i.toolName === "secret_store" && typeof a.action === "string") return a.action;
	return "";
};
const risk = (i: In): { requiresApproval: boolean; risk: string } => assessOperationRisk({ operation: `Tool ${i.toolName}`, toolName: i.toolName, command: command(i), paths: [], capabilities: [] });
/** operations of the tool gate: never phrased as a question, and not the model-blind secret store */
const gatedTool = (i: RiskAssessmentInput): boolean => {
	const o = i.operation.trim();
	const c = i.command?.trim() ?? "";
	return i.toolName !== "secret_store" && c !== "" && `${o} ${c}`.trim() !== "" && !/^(?:(?:can you|could you|please|pls|go ahead and|let'?s|i need you to|we need to|you should)\s+)?(?:how|what|why|when|where|which|who|explain|summarize|compare|describe|list|show|search|find|view|read|locate)\b/i.test(o);
};
/** the command without what single quotes protect */
const bare = (i: RiskAssessmentInput): string => (i.command?.trim() ?? "").replace(/'[^']*'/g, "''");
const mutates = (c: string): boolean =>
	/\b(rm(\s+-r|\s+-f|\s+-rf|\s+-fr)?|mv|cp|chmod|chown|install)\b|>\s*\/dev\/(sda|hda|vda)|\b(dd\s+if=)/i.test(c) || /\bgit\s+(push|reset|clean|stash|rebase)\b/i.test(c) || /\b(npm|pnpm|yarn|bun)\s+(install|i|update|up|publish|run|remove|rm|uninstall)\b/i.test(c) || /\b(release|deploy)\b/i.test(c) || /\b(?:shutil\.(?:rmtree|move|copy|copy2|copytree)|os\.(?:remove|unlink|rmdir|removedirs|system)|subprocess\.(?:run|call|check_call|check_output|Popen)|Path\([^)]*\)\.(?:unlink|rmdir))\b/i.test(c) || /[<>]/.test(c);
/** one plain local commit: no amendment, no shell composition */
const plainCommit = (c: string): boolean => /^\s*git(?:\s+-C\s+\S+)?\s+commit(?:\s|$)/i.test(c) && !/(?:^|\s)--amend(?:\s|$)/i.test(c) && !/(?:&&|\|\||[;&|<>`\r\n]|\$\()/.test(c);
const COMMANDS = ["ls", "rm -rf x", "git push", "echo hi > f", "git commit -m 'release'", "git commit -m x; git push", "npm install", "redesign the architecture", "cat f", "shutil.rmtree('x')", "migrate"];
const genEnv = (g: G): any => (g.chance(0.05) ? undefined : { capabilities: genCaps(g), ...g.partial({ allowedTools: (x: G) => x.array(genTool, 5), deniedTools: (x: G) => x.array(genTool, 2), allowedPaths: (x: G) => x.array((y) => y.pick(["a", "b", "/nonexistent-c01"]), 3), deniedPaths: (x: G) => x.array((y) => y.pick(["a", "b", "c"]), 2) }) });
const genIn = (g: G): In => {
	const envelope = genEnv(g);
	if (envelope && g.chance(0.5)) envelope.capabilities = g.pick([["filesystem.read", "filesystem.write", "process.exec", "workflow.plan", "memory.query", "memory.mutate", "skill.read", "skill.write"], envelope.capabilities]);
	if (envelope && g.chance(0.5)) { delete envelope.allowedTools; delete envelope.deniedTools; }
	let args = genParams(g) as any;
	if (g.chance(0.5)) args = { ...(args && typeof args === "object" ? args : {}), [g.pick(["command", "code", "scriptPath", "action"])]: g.pick(COMMANDS) };
	return { toolName: g.chance(0.4) ? g.pick(["bash", "python", "read", "write", "edit", "secret_store", "powershell"]) : genTool(g), args, cwd: "/nonexistent-c01", envelope };
};

export const contracts = [
	contract({
		name: "evaluateToolGate",
		target: evaluateToolGate,
		frame: "pure",
		ext: EXT,
		axioms: AX,
		ensures: {
			"the verdict is allow, block or ask-user": (r: GateOutcome) => r.outcome === "allow" || r.outcome === "block" || r.outcome === "ask-user",
			"a denied tool is not allowed": (r: GateOutcome, _o: unknown, i: In) => !i.envelope || r.outcome !== "allow" || !(i.envelope.deniedTools?.includes(i.toolName) ?? false),
			"a tool off the allow list is not allowed": (r: GateOutcome, _o: unknown, i: In) => !i.envelope || r.outcome !== "allow" || !i.envelope.allowedTools || i.envelope.allowedTools.includes(i.toolName),
			"a tool without a policy is not allowed": (r: GateOutcome, _o: unknown, i: In) => !i.envelope || r.outcome !== "allow" || hasToolCapabilityPolicy(i.toolName),
			"a call with an ungranted requirement is not allowed": (r: GateOutcome, _o: unknown, i: In) => !i.envelope || r.outcome !== "allow" || resolveToolCallCapabilities(i.envelope.capabilities, i.toolName, i.args) !== undefined,
			"every path the call names is inside the envelope": (r: GateOutcome, _o: unknown, i: In) =>
				!i.envelope || r.outcome !== "allow" || resolveToolCallPathAccess(i.envelope.capabilities, i.toolName, i.args) === "none" || named(i).every((p) => isPathWithinEnvelope(i.envelope!, p, i.cwd)),
			"a call that needs approval is not allowed": (r: GateOutcome, _o: unknown, i: In) => !i.envelope || r.outcome !== "allow" || !risk(i).requiresApproval,
			"a high-impact call is not allowed": (r: GateOutcome, _o: unknown, i: In) => !i.envelope || r.outcome !== "allow" || risk(i).risk !== "high-impact",
			"without an envelope nothing is gated": (r: GateOutcome, _o: unknown, i: In) => !!i.envelope || r.outcome === "allow",
		},
		gen: (g) => [genIn(g)],
	}),
	contract({
		name: "extractCandidatePaths",
		target: extractCandidatePaths,
		frame: "pure",
		ext: EXT,
		ensures: {
			"a path-scoped tool yields every path it names": (r: string[], _o: unknown, tool: string, args: unknown) => !toolUsesPathScope(tool) || (r.length === extractToolPathArguments(tool, args).length && extractToolPathArguments(tool, args).every((p) => r.includes(p))),
		},
		gen: (g) => [genTool(g), genParams(g)],
	}),
	contract({
		name: "resolveToolCallPathAccess",
		target: resolveToolCallPathAccess,
		frame: "pure",
		ext: { TOOL_CAPABILITY_POLICIES: { kind: "const" }, resolveToolCallCapabilities: { kind: "pure" } },
		ensures: { "only a path-scoped tool has path access": (r: string, _o: unknown, _c: readonly HarnessCapability[], tool: string) => r === "none" || toolUsesPathScope(tool) },
		gen: (g) => [genCaps(g), genTool(g), genParams(g)],
	}),
	contract({
		name: "assessOperationRisk",
		target: assessOperationRisk,
		frame: "pure",
		ensures: {
			"approval is required exactly at the approval level": (r: RiskAssessment) => r.requiresApproval === (r.risk === "approval-required"),
			"a mutating command needs approval or review": (r: RiskAssessment, _o: unknown, i: RiskAssessmentInput) => !gatedTool(i) || !mutates(bare(i)) || plainCommit(bare(i)) || r.requiresApproval || r.risk === "high-impact",
			"a composed or history-rewriting commit is never treated as a local commit": (r: RiskAssessment, _o: unknown, i: RiskAssessmentInput) => plainCommit(bare(i)) || r.reasonCode !== "local_git_commit",
		},
		gen: (g) => [{ operation: g.pick(["Tool bash", "Tool read", "Tool python", "list files", "delete all", "rewrite the architecture", ""]), toolName: g.pick(["bash", "python", "read", "secret_store", undefined]), command: g.pick([...COMMANDS, undefined, "git commit --amend", "git commit -m x && rm y", "git -C d commit -m 'a;b'", "echo 'rm -rf'", "x > y"]) }],
	}),
];
