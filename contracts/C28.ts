import { DEFAULT_WORKER_TASK_ATTEMPTS, evaluateWorkerRetry, WORKER_TASK_RETRY_POLICY } from "../../repo/packages/coding-agent/src/core/delegation/worker-retry-policy.ts";
import type { WorkerRetryDecision } from "../../repo/packages/coding-agent/src/core/delegation/worker-retry-policy.ts";
import { contract } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

type A = Parameters<typeof evaluateWorkerRetry>[0];
const MSG = ["", "429 too many requests", "rate limit", "overloaded", "401 unauthorized", "quota exceeded billing", "network error", "timeout", "500", "stream stalled", "terminated", "credit balance is too low", "insufficient credits", "boom", "retry after 99999 s rate limit"];
const transient = (r: unknown): boolean => r === "rate_limit" || r === "overloaded" || r === "server_error" || r === "network" || r === "stream_stall";
const MAX = 60_000;

export const contracts = [
	contract({
		name: "evaluateWorkerRetry",
		target: evaluateWorkerRetry,
		frame: "pure",
		refine: { retriesUsed: "int", maxAttempts: "int", retryAfterMs: "fin" },
		ext: { parseRetryAfterMs: { kind: "pure" } },
		ensures: {
			"only a failed lane is retried": (r: WorkerRetryDecision, _o: unknown, a: A) => !r.retry || a.laneStatus === "failed",
			"only a completion error is retried": (r: WorkerRetryDecision, _o: unknown, a: A) => !r.retry || a.reasonCode === "completion_error",
			"an undiagnosed failure is never retried": (r: WorkerRetryDecision, _o: unknown, a: A) => !r.retry || (a.reasonDetail !== undefined && a.reasonDetail !== ""),
			"the attempt ceiling holds": (r: WorkerRetryDecision, _o: unknown, a: A) => !r.retry || a.retriesUsed + 1 < (a.maxAttempts === undefined || a.maxAttempts === null ? 2 : a.maxAttempts),
			"the default ceiling is two attempts": () => DEFAULT_WORKER_TASK_ATTEMPTS === 2,
			"only a transient failure is retried": (r: WorkerRetryDecision) => !r.retry || transient(r.reason),
			"the backoff is bounded": (r: WorkerRetryDecision) => !r.retry || r.delayMs <= MAX * 1.2 + 0.5,
		},
		gen: (g) => [{ laneStatus: g.pick(["failed", "failed", "failed", "succeeded", "canceled", "x"]), reasonCode: g.pick(["completion_error", "completion_error", "completion_error", "timeout", "aborted"]), provider: g.pick(["anthropic", "openai", "xai", "mistral", ""]), retriesUsed: g.int(0, 4), ...g.partial({ reasonDetail: (h) => h.pick([...MSG, undefined]), maxAttempts: (h) => h.pick([undefined, 0, 1, 2, 3, 4]) }) }],
	}),
];
void WORKER_TASK_RETRY_POLICY;
