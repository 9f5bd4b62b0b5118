import { computeRetryDelayMs } from "../../repo/packages/agent/src/reliability/retry.ts";
import type { ComputeRetryDelayOptions, RetryPolicy } from "../../repo/packages/agent/src/reliability/retry.ts";
import { classifyFailure } from "../../repo/packages/agent/src/reliability/classifier.ts";
import type { ClassifiedError, ClassifyFailureInput } from "../../repo/packages/agent/src/reliability/classifier.ts";
import { RetryController } from "../../repo/packages/agent/src/reliability/retry-controller.ts";
import { contract, ghostCount, ghostHit } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

const FIN = { retryAfterMs: "fin", maxDelayMs: "fin", baseDelayMs: "fin", jitterRatio: "fin", maxAttempts: "int", _attempt: "int", attempt: "int" } as const;
const transient = (r: unknown): boolean => r === "rate_limit" || r === "overloaded" || r === "server_error" || r === "network" || r === "stream_stall";
const genPolicy = (g: G): RetryPolicy => ({ maxAttempts: g.int(0, 5), baseDelayMs: g.pick([0, 1, 5, 100, 2000]), maxDelayMs: g.pick([0, 1, 10, 500, 60000]), jitterRatio: g.pick([0, 0, 0.2, 1, -1]) });
const MSG = ["", "429 too many requests", "rate limit", "overloaded", "401 unauthorized", "quota exceeded billing", "network error", "timeout", "500", "stream stalled", "terminated", "credit balance is too low", "insufficient credits", "boom", "retry after 30 s", "retry after 99999 s rate limit"];
const genMsg = (g: G): string => (g.chance(0.7) ? g.pick(MSG) : `${g.pick(MSG)} ${g.pick(MSG)}`);

interface RC { _attempt: number; _abortController: unknown; getPolicy(): { enabled: boolean; maxAttempts: number } }
const genRC = (g: G): any => {
	const policy = { ...genPolicy(g), baseDelayMs: 0, maxDelayMs: 0, enabled: g.chance(0.8) };
	const agent = { state: { messages: g.array(() => ({ role: g.pick(["user", "assistant"]) })) } };
	const abort = g.chance(0.3);
	const c: any = new RetryController(agent as any, () => policy as any, { onRetryStart: () => { ghostHit("started"); ghostHit("slept"); if (abort) c.abort(); }, onRetryEnd: () => ghostHit("ended") }, () => 1000);
	c._attempt = g.int(0, 4);
	const m = { role: "assistant", content: g.array(() => g.pick([{ type: "text", text: g.pick(["", " ", "x"]) }, { type: "thinking", thinking: g.pick(["", "t"]) }, { type: "toolCall", id: "1", name: "t", arguments: {} }])), stopReason: "error", errorMessage: genMsg(g), provider: g.pick(["xai", "anthropic", "openai"]), usage: { input: 0, output: 0, cacheRead: 0, cacheWrite: 0, totalTokens: 0 } };
	return [c, m];
};
const callRC = (c: any, m: any) => c.prepareRetry(m);

export const contracts = [
	contract({
		name: "computeRetryDelayMs",
		target: computeRetryDelayMs,
		frame: "pure",
		refine: FIN,
		ext: { random: { kind: "havoc" } },
		requires: (p: RetryPolicy, _n: number, o?: ComputeRetryDelayOptions) => p.baseDelayMs >= 0 && p.maxDelayMs >= 0 && p.jitterRatio <= 1 && o?.random === undefined,
		ensures: {
			"a server-suggested delay is honoured up to the cap": (r: number, _o: unknown, p: RetryPolicy, _n: number, o?: ComputeRetryDelayOptions) =>
				o?.retryAfterMs === undefined || r === (o.retryAfterMs < p.maxDelayMs ? o.retryAfterMs : p.maxDelayMs),
			"never above the cap when there is no jitter": (r: number, _o: unknown, p: RetryPolicy, _n: number, o?: ComputeRetryDelayOptions) => o?.retryAfterMs !== undefined || p.jitterRatio > 0 || r <= p.maxDelayMs,
			"jitter adds at most its ratio of the capped delay": (r: number, _o: unknown, p: RetryPolicy, _n: number, o?: ComputeRetryDelayOptions) => o?.retryAfterMs !== undefined || p.jitterRatio <= 0 || r <= p.maxDelayMs + p.jitterRatio * p.maxDelayMs + 0.5,
			"a computed delay is never negative": (r: number, _o: unknown, _p: RetryPolicy, _n: number, o?: ComputeRetryDelayOptions) => o?.retryAfterMs !== undefined || r >= 0,
			"the first attempt waits at least the base delay or the cap": (r: number, _o: unknown, p: RetryPolicy, n: number, o?: ComputeRetryDelayOptions) => o?.retryAfterMs !== undefined || n > 1 || r >= (p.baseDelayMs < p.maxDelayMs ? p.baseDelayMs : p.maxDelayMs) - 0.5,
		},
		gen: (g) => [genPolicy(g), g.int(0, 12), g.pick([undefined, {}, { retryAfterMs: g.pick([0, 5, 1000, 1e9]) }, { retryAfterMs: undefined }])],
	}),
	contract({
		name: "classifyFailure",
		target: classifyFailure,
		frame: "pure",
		ext: { parseRetryAfterMs: { kind: "pure" } },
		ensures: {
			"only transient failures are retryable": (r: ClassifiedError) => !r.retryable || transient(r.reason),
			"an abort is never retried": (r: ClassifiedError, _o: unknown, i: ClassifyFailureInput) => !i.aborted || (r.reason === "aborted" && !r.retryable && !r.shouldFallback && !r.shouldRotateCredential),
			"an overflow is compacted, not retried": (r: ClassifiedError, _o: unknown, i: ClassifyFailureInput) => !!i.aborted || !i.contextOverflow || (r.reason === "context_overflow" && r.shouldCompact && !r.retryable),
			"authentication failures rotate or fall back but never retry": (r: ClassifiedError) => r.reason !== "auth" || (!r.retryable && r.shouldRotateCredential && r.shouldFallback),
			"exhausted quota falls back but never retries": (r: ClassifiedError) => r.reason !== "billing_or_quota" || (!r.retryable && r.shouldFallback),
			"an unknown failure triggers nothing": (r: ClassifiedError) => r.reason !== "unknown" || (!r.retryable && !r.shouldRotateCredential && !r.shouldFallback),
			"the message is kept": (r: ClassifiedError, _o: unknown, i: ClassifyFailureInput) => r.message === i.message,
		},
		gen: (g) => [{ message: genMsg(g), ...g.partial({ aborted: (h) => h.pick([undefined, false, true]), contextOverflow: (h) => h.pick([undefined, false, true]), provider: (h) => h.pick([undefined, "anthropic", "mistral", "openrouter", "xai", "openai", ""]) }) }],
	}),
	contract({
		name: "RetryController.prepareRetry",
		target: RetryController.prototype.prepareRetry,
		refine: FIN,
		ext: {
			getPolicy: { kind: "pure" }, getContextWindow: { kind: "pure" }, isContextOverflow: { kind: "pure" }, parseRetryAfterMs: { kind: "pure" },
			sleepAbortable: { kind: "havoc", throws: true, effect: "slept" }, AbortController: { kind: "havoc" }, onRetryStart: { kind: "skip", effect: "started" }, onRetryEnd: { kind: "skip", effect: "ended" }, random: { kind: "havoc" },
		},
		requires: (c: RC) => c._attempt >= 0 && c._abortController === undefined,
		pre: (c: RC) => c._attempt,
		ensures: {
			"retries only when enabled": (r: boolean, _o: number, c: RC) => !r || c.getPolicy().enabled,
			"counts every retry": (r: boolean, o: number, c: RC) => !r || c._attempt === o + 1,
			"a retry is within the configured attempts": (r: boolean, _o: number, c: RC) => !r || c._attempt <= c.getPolicy().maxAttempts,
			"a refusal leaves the count or resets it after a cancel": (r: boolean, o: number, c: RC) => r || c._attempt === o || c._attempt === 0,
			"the retry window is closed on every exit": (_r: boolean, _o: number, c: RC) => c._abortController === undefined,
			"every retry waited and was announced once": (r: boolean) => !r || (ghostCount("slept") === 1 && ghostCount("started") === 1),
			"a cancelled retry is reported": (r: boolean) => r || ghostCount("ended") === ghostCount("slept"),
		},
		skipRuntime: false,
		gen: genRC,
		call: callRC,
	}),
];
