import { deriveCompositeChildEnvelope, wrapToolWithCapabilityEnvelopeGate } from "../../repo/packages/coding-agent/src/core/autonomy/composite-tool-gate.ts";
import { evaluateToolGate } from "../../repo/packages/coding-agent/src/core/autonomy/gates.ts";
import type { AgentTool } from "../../repo/packages/agent/src/types.ts";
import type { CapabilityEnvelope } from "../../repo/packages/coding-agent/src/core/autonomy/contracts.ts";
import { contract, ghostCount, ghostHit } from "../engine/spec.ts";
import { genCaps, genTool } from "./C06.ts";
import type { G } from "../engine/gen.ts";

type Env = CapabilityEnvelope | undefined;
const admitted = (e: CapabilityEnvelope, parent: string): boolean => !(e.deniedTools?.includes(parent) ?? false) && (e.allowedTools === undefined || e.allowedTools.includes(parent));
const genEnv = (g: G): any => (g.chance(0.05) ? undefined : { capabilities: genCaps(g), ...g.partial({ allowedTools: (x: G) => x.array(genTool, 4), deniedTools: (x: G) => x.array(genTool, 3), allowedPaths: (x: G) => x.array((y) => y.pick(["a", "b", "c"]), 3), deniedPaths: (x: G) => x.array((y) => y.pick(["a", "b", "c"]), 3) }) });
/** one call of the tool that the gate wraps */
const gated = (tool: AgentTool<any, any>, cwd: string, envelope: Env, id: string, params: any): unknown => wrapToolWithCapabilityEnvelopeGate(tool, cwd, envelope).execute(id, params);

export const contracts = [
	contract({
		name: "deriveCompositeChildEnvelope",
		target: deriveCompositeChildEnvelope,
		frame: "pure",
		ensures: {
			"no envelope only without a parent envelope": (r: Env, _o: unknown, _p: string, _c: readonly string[], e: Env) => (r === undefined) === (e === undefined),
			"no capability the parent lacks": (r: Env, _o: unknown, _p: string, _c: readonly string[], e: Env) => !r || !e || r.capabilities.every((c) => e.capabilities.includes(c)),
			"every denied tool stays denied": (r: Env, _o: unknown, _p: string, _c: readonly string[], e: Env) => !r || !e || !e.deniedTools || (r.deniedTools !== undefined && e.deniedTools.every((t) => r.deniedTools!.includes(t))),
			"every denied path stays denied": (r: Env, _o: unknown, _p: string, _c: readonly string[], e: Env) => !r || !e || !e.deniedPaths || (r.deniedPaths !== undefined && e.deniedPaths.every((t) => r.deniedPaths!.includes(t))),
			"no allowed path the parent lacks": (r: Env, _o: unknown, _p: string, _c: readonly string[], e: Env) => !r || !e || !e.allowedPaths || (r.allowedPaths !== undefined && r.allowedPaths.every((t) => e.allowedPaths!.includes(t))),
			"a parent restriction of paths stays one": (r: Env, _o: unknown, _p: string, _c: readonly string[], e: Env) => !r || !e || !e.allowedPaths || (r.allowedPaths !== undefined && r.allowedPaths.length === e.allowedPaths.length),
			"an unadmitted parent grants no tool": (r: Env, _o: unknown, p: string, _c: readonly string[], e: Env) => !r || !e || admitted(e, p) || (r.allowedTools !== undefined && r.allowedTools.length === 0),
			"only the parent's tools and its children are allowed": (r: Env, _o: unknown, _p: string, c: readonly string[], e: Env) => !r || !e || !e.allowedTools || (r.allowedTools !== undefined && r.allowedTools.every((t) => e.allowedTools!.includes(t) || c.includes(t))),
		},
		gen: (g) => [genTool(g), g.array(genTool, 3), genEnv(g)],
	}),
	contract({
		name: "wrapToolWithCapabilityEnvelopeGate",
		target: gated,
		ext: { evaluateToolGate: { kind: "pure", fields: true }, ".execute": { kind: "havoc", throws: true, effect: "executed" } },
		mayThrow: true,
		mustThrow: (tool: { name: string }, cwd: string, envelope: Env, _id: string, params: unknown) => {
			if (!envelope) return false;
			const v = evaluateToolGate({ toolName: tool.name, args: params as any, cwd, envelope }).outcome;
			return v === "block" || v === "ask-user";
		},
		ensures: { "the call ran once": () => ghostCount("executed") === 1 },
		onThrow: {
			"a blocked call never runs": (_o: unknown, tool: { name: string }, cwd: string, envelope: Env, _id: string, params: unknown) => {
				if (!envelope) return true;
				const v = evaluateToolGate({ toolName: tool.name, args: params as any, cwd, envelope }).outcome;
				return !(v === "block" || v === "ask-user") || ghostCount("executed") === 0;
			},
		},
		gen: (g) => [{ name: genTool(g), execute: () => { ghostHit("executed"); return 1; } }, "/tmp", genEnv(g), "1", {}],
	}),
];
