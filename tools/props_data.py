p("C01","A tool call under an envelope is allowed only inside the granted authority",
 "When a capability envelope is active, the tool gate (evaluateToolGate) answers 'allow' only if the tool is not denied, is on the allow list when one is given, has a known capability policy, has every requirement of the call met by a granted capability, every path the call names lies inside the envelope (isPathWithinEnvelope) whenever the call has path access, and the operation's assessed risk neither requires approval nor is high-impact. In every other case the answer is 'block' or 'ask-user'. The risk assessment requires approval or review of every mutating command (destructive, publishing, package-changing or redirecting) other than one plain local git commit, and never treats a composed or amending commit as such.",
 ["inputs","configurations"],"every envelope, tool name, argument object and working directory",
 "Tests sample a few envelopes and tools; the guarantee is about every combination of deny list, allow list, capability set, action argument and path list.",
 [CA+"autonomy/gates.ts",CA+"tool-capability-policy.ts",CA+"autonomy/envelope-enforcement.ts"],
 [("evaluateToolGate",CA+"autonomy/gates.ts"),("resolveToolCallCapabilities",CA+"tool-capability-policy.ts"),("isPathWithinEnvelope",CA+"autonomy/envelope-enforcement.ts")])
p("C02","Combining gate verdicts never weakens the strictest one",
 "Combining any list of gate verdicts yields a verdict at least as restrictive as each of them (allow < downgrade < escalate < ask-user < block), taken from one of the inputs; an unknown or malformed verdict counts as block and an empty list asks the user. A fallback verdict for a gate that could not decide is never an allow, and blocks when the operation is irreversible.",
 ["inputs"],"every list of verdicts of any length, including malformed verdict kinds",
 "Lists of any length and any malformed kind; tests try lists of two or three well-formed verdicts.",
 [CA+"autonomy/gates.ts"],[("combineGateOutcomes",CA+"autonomy/gates.ts"),("fallbackGateOutcome",CA+"autonomy/gates.ts")])
p("C03","Path scope checks: deny wins, outside roots is rejected, failures close",
 "A path is judged inside an envelope (isPathWithinEnvelope), and a target inside a path scope (checkPathScope), only if its resolved real location lies within at least one allowed root when any is configured (and within the scope's root), and within no denied root; a denied root wins over every allowed root. A target that cannot be resolved, for example below a symbolic-link cycle, is never accepted, and an allowed root that cannot be resolved accepts nothing.",
 ["inputs","configurations","fault_sequences"],"every envelope, path and filesystem resolution outcome, including resolution errors at any point",
 "The set of allow/deny lists and of resolution failures is unbounded; tests use a handful of directories.",
 [CA+"autonomy/path-scope.ts",CA+"autonomy/envelope-enforcement.ts"],
 [("checkPathScope",CA+"autonomy/path-scope.ts"),("isPathWithinEnvelope",CA+"autonomy/envelope-enforcement.ts")])
p("C04","A path-scoped tool never runs when any path it names is outside scope",
 "A tool wrapped with an envelope scope (wrapToolWithEnvelopeScope), when the call is subject to path checks, executes the underlying tool only when every path extracted from its arguments is inside the envelope; otherwise it returns an error result without the underlying tool having been called. A call inside the envelope runs the tool exactly once. Every non-empty path argument and every entry of a path list is extracted.",
 ["inputs","configurations"],"every envelope, tool and argument object with any number of paths",
 "Quantifies over every argument shape and the position of the offending path.",
 [CA+"autonomy/envelope-enforcement.ts"],[("wrapToolWithEnvelopeScope",CA+"autonomy/envelope-enforcement.ts")])
p("C05","Envelopes derived for composite children never widen the parent's authority",
 "The envelope a composite tool hands to the calls it makes (deriveCompositeChildEnvelope) contains no capability or allowed path its parent lacks, keeps every denied tool and denied path and the path restriction of the parent, admits no tool when the parent itself is not admitted, and otherwise admits only the parent's allowed tools and the composite's own children. A child tool wrapped in the gate never runs when its verdict is block or ask-user.",
 ["inputs","configurations"],"every parent envelope and set of child tools","Every combination of lists; tests check single examples.",
 [CA+"autonomy/composite-tool-gate.ts"],[("deriveCompositeChildEnvelope",CA+"autonomy/composite-tool-gate.ts")])
p("C06","A tool call's resolved capabilities satisfy its policy and were all granted",
 "Resolving the capabilities for a tool call (resolveToolCallCapabilities, and resolveProfileToolCapabilities under a profile's ceiling) returns only capabilities that were granted and one for each requirement clause of the call; it fails when the call has no requirements or some requirement has no granted alternative, and only then. The requirements follow the call's action: a pipeline change needs planning and a write capability, a goal read or a pure memory query only needs memory.query and every other goal or memory call needs memory.mutate. The path access derived for a path-scoped call is write whenever a selected capability writes.",
 ["inputs","configurations"],"every granted set, tool name and argument object",
 "Every granted subset of capabilities against every tool policy; tests sample some.",
 [CA+"tool-capability-policy.ts"],[("resolveToolCallCapabilities",CA+"tool-capability-policy.ts"),("resolveToolCallPathAccess",CA+"tool-capability-policy.ts")])
p("C07","The capability gateway authorizes a tool call only within its unexpired grant",
 "A worker's tool call is authorized only if the grant has not expired, the tool was granted under a manifest of the same name whose capabilities are all granted and cover the call, no budget (calls, tokens, cost, wall clock) is exhausted, and every path the call touches is inside the granted scope for its access kind, as named and after links are resolved, and not denied (a path that cannot be resolved is refused). An authorized call counts as exactly one more call; a refused call is never run and counts no call.",
 ["inputs","configurations","histories"],"every grant, manifest set, usage history and request",
 "Requires all grants × usage states × requests; tests check one fault at a time.",
 [CA+"orchestration/capability-gateway.ts"],[("authorizeToolCall",CA+"orchestration/capability-gateway.ts")])
p("C08","Gateway usage accounting is validated, atomic and monotone, and budgets hold",
 "Recording usage either rejects a malformed report (a count that is not a non-negative safe integer, a cost that is negative or not finite) and changes nothing, or adds exactly the reported amounts, whole or not at all; each recorded amount never decreases, and the charged tokens never decrease for reports whose total covers its parts. Budget enforcement refuses exactly when some budget dimension is reached. The remaining attempt token budget is the granted maximum minus the charged tokens (cache reads at a tenth, rounded up) and never negative, and a provider reservation never exceeds what is requested or left.",
 ["inputs","histories"],"every sequence of usage reports, including malformed numbers",
 "Histories of any length with NaN, negative, fractional or unsafe numbers.",
 [CA+"orchestration/capability-gateway.ts"],[("recordUsage",CA+"orchestration/capability-gateway.ts"),("enforceBudget",CA+"orchestration/capability-gateway.ts")])
p("C09","Compiled worker policy never exceeds the request, the authority or the role",
 "A compiled execution grant contains only tools, capabilities and paths that were requested and that both the delegating authority and the role ceiling permit, carries every denied path of the authority, and has budgets no larger than any of the inputs; a required capability that cannot be granted yields a denial or an approval request instead of a grant.",
 ["inputs","configurations"],"every request, authority, role and manifest set","The lattice of requests and ceilings is unbounded.",
 [CA+"orchestration/policy-compiler.ts",CA+"orchestration/risk-budget.ts"],[("compile",CA+"orchestration/policy-compiler.ts")])
p("C10","Intersecting risk budgets never loosens a limit",
 "Intersecting any number of risk budgets gives, for each limit, exactly the smallest value any of them sets (none if none sets it), with the cost limit also no larger than the approval threshold. A child budget is reported as exceeding its authority on exactly the limits where both set a value and the child's is larger, and a budget with an unknown field, a negative, non-finite, or (for counts) non-integer value is rejected.",
 ["inputs"],"every list of budgets, of any length, with any subset of limits set",
 "Any number of budgets and any subset of fields, with non-finite and fractional numbers.",
 [CA+"orchestration/risk-budget.ts"],[("intersectRiskBudgets",CA+"orchestration/risk-budget.ts"),("validateRiskBudget",CA+"orchestration/risk-budget.ts"),("exceededRiskBudgetFields",CA+"orchestration/risk-budget.ts")])
p("C11","Attempt usage accounting is exact, monotone and rejects malformed numbers",
 "Adding two attempt usage snapshots sums every counter exactly, reconciling a checkpoint with a transcript takes the larger of each counter, converting gateway or provider usage preserves every counter, and the remaining token budget is never negative. Any snapshot whose counters are negative, non-finite or (for counts) not safe integers is rejected and no result is produced; inputs are never modified.",
 ["inputs","histories"],"every pair of snapshots, including malformed numbers",
 "Eight independent counters each over all numbers, with overflow beyond safe integers; tests use small values.",
 [CA+"orchestration/attempt-usage.ts"],[("addAttemptUsage",CA+"orchestration/attempt-usage.ts"),("reconcileAttemptUsage",CA+"orchestration/attempt-usage.ts"),("validateAttemptUsageSnapshot",CA+"orchestration/attempt-usage.ts"),("validateProviderUsage",CA+"orchestration/attempt-usage.ts")])
p("C12","Worker fleet admission never exceeds any delegation limit",
 "A new worker is admitted only if the session's identities, the parent's depth and children and the live nested workers all stay within the limits and its parent is known and not retired; the dispatch queue accepts a worker only while a slot remains, keeping one slot for verifiers, and refuses malformed counts. Host fleet limits are the profile's limits capped at the host ceilings, and intersecting a requested with a persisted boundary of delegation limits never yields a value larger than either.",
 ["inputs","configurations"],"every limit configuration and fleet occupancy","All limits × all occupancies, including malformed settings.",
 [CA+"delegation/worker-fleet-limits.ts"],[("evaluateWorkerDelegationAdmission",CA+"delegation/worker-fleet-limits.ts"),("intersectWorkerDelegationLimits",CA+"delegation/worker-fleet-limits.ts")])
p("C13","Shared worker-tree budgets are never over-committed",
 "For every worker tree, what is reserved by running workers plus what was already used never exceeds the tree's maximum, a reservation is released exactly once, and a worker that cannot be given budget waits or is refused instead of running unbudgeted.",
 ["schedules","histories"],"every interleaving of reservations, releases and completions","Interleavings of concurrent workers.",
 [CA+"delegation/worker-tree-budget-coordinator.ts"],[("WorkerTreeBudgetCoordinator",CA+"delegation/worker-tree-budget-coordinator.ts")])
p("C14","Two live workers never hold overlapping write reservations",
 "At no time do two different workers both hold write reservations whose path scopes overlap; a conflicting request is refused or queued, and a released reservation no longer blocks anyone.",
 ["schedules","histories","inputs"],"every history of acquire and release and every pair of path scopes","Histories and pairs of globs are unbounded.",
 [CA+"delegation/worker-write-reservation.ts"],[("WorkerWriteReservation",CA+"delegation/worker-write-reservation.ts")])
p("C15","The cost guard bounds spending and never raises the reasoning level",
 "The per-turn cost estimate is never negative and at least what the model's rates charge for the fresh input (at the dearer of the input and cache-write price), the cached input and the full output budget, with the long-context multipliers when they apply. The guard trips exactly when it was explicitly enabled with a positive ceiling and foreground plus non-negative background spend exceeds that ceiling. A suggested cheaper reasoning level is never above the current one, is supported by the model, and changes the effort the provider sees; an unrecognised level is left alone.",
 ["inputs","configurations"],"every rate table, token count, limit configuration and reasoning level","All prices, limits and levels.",
 [CA+"cost-guard.ts"],[("evaluateCostGuard",CA+"cost-guard.ts"),("estimateTurnCostUsd",CA+"cost-guard.ts"),("downgradeReasoning",CA+"cost-guard.ts")])
p("C16","Project trust comes only from a recorded decision for that exact directory",
 "A project directory is reported trusted only when the trust store holds an explicit positive decision under that directory's own normalized path; a missing, malformed or differently keyed record never yields trust, and reading a decision never changes the store.",
 ["inputs","histories","fault_sequences"],"every store content, directory and history of decisions","Every store content, including corrupt JSON.",
 [CA+"trust-manager.ts"],[("ProjectTrustStore",CA+"trust-manager.ts")])
p("C17","Durable files are replaced atomically and locks are always released",
 "After a crash at any point while a durable file is being replaced, the file holds either its complete old content or its complete new content, and a failed write leaves the old content and no leftover lock. A file lock is released on every exit, including when the protected operation throws.",
 ["crash_points","fault_sequences"],"every crash point and filesystem error","Crash points inside a write cannot be enumerated by unit tests.",
 [CA+"util/atomic-file.ts"],[("writeFileAtomicSync",CA+"util/atomic-file.ts"),("withFileLockSync",CA+"util/atomic-file.ts")])
p("C18","Walking a session's ancestry is exact, ordered and always terminates",
 "For every set of session entries, the branch reported for a leaf is exactly the chain from that leaf through its parents, in root-to-leaf order; a broken parent link ends or fails the walk and a cycle is detected, so the walk never loops and never visits an entry twice.",
 ["inputs","histories"],"every entry graph, including cyclic and dangling ones","Graphs are unbounded; tests use short chains.",
 [AG+"session/session-tree.ts"],[("collectSessionBranch",AG+"session/session-tree.ts"),("visitSessionAncestry",AG+"session/session-tree.ts")])
p("C19","Compaction never cuts between a tool call and its result",
 "For every session history and token target, compaction keeps a contiguous suffix of the entries in range, and the first kept message is never a tool result, so no kept tool result is separated from the call that produced it; the turn start reported lies at or before the cut.",
 ["inputs","histories"],"every entry sequence, range and keep-recent target","Histories of any length and shape.",
 [AG+"compaction/compaction.ts"],[("findCutPoint",AG+"compaction/compaction.ts"),("findTurnStartIndex",AG+"compaction/compaction.ts")])
p("C20","Truncated tool output never exceeds its line and byte limits",
 "For every text and limits, each truncation mode returns content within the byte limit and the line limit it was given, made only of text from the input (a prefix, a suffix, or a head and a tail around an omission marker), returns the input unchanged when it already fits, and reports truncation exactly when something was dropped.",
 ["inputs"],"every text, line limit and byte limit","All texts, including multi-byte characters and limits smaller than one line.",
 [AG+"utils/truncate.ts"],[("truncateHead",AG+"utils/truncate.ts"),("truncateTail",AG+"utils/truncate.ts"),("truncateMiddle",AG+"utils/truncate.ts")])
p("C21","Retry delays and attempt counts stay within their bounds",
 "A retry delay computed without a server hint is never negative and never exceeds the configured maximum plus its jitter ratio of that maximum; a server-suggested delay is honoured only up to the maximum. Only transient failures are classified as retryable: aborts, overflows, authentication and quota failures and unknown failures never are. The retry controller retries only when enabled, counts every retry, never retries beyond the configured attempts, waits exactly once per retry, and reports a cancelled retry.",
 ["inputs","fault_sequences","histories"],"every policy, attempt number, server delay and failure sequence","All policies and failure sequences.",
 [AG+"reliability/retry.ts",AG+"reliability/retry-controller.ts"],[("computeRetryDelayMs",AG+"reliability/retry.ts"),("RetryController",AG+"reliability/retry-controller.ts")])
p("C22","Every tool call sent to a provider has exactly one result and vice versa",
 "In the message list prepared for a provider, every tool call of a kept assistant message is followed by exactly one result before the next assistant or user message, and no result appears for a call that was dropped; assistant messages that errored or were aborted are not sent.",
 ["inputs","histories"],"every message history","Histories of any length with missing, duplicate and orphaned results.",
 [AI+"providers/transform-messages.ts"],[("transformMessages",AI+"providers/transform-messages.ts")])
p("C23","Line-framed streams decode the same however they are chunked",
 "The lines decoded from a byte stream depend only on its bytes and never on how it was split into chunks, and a line longer than the cap is rejected instead of being buffered without bound.",
 ["inputs","schedules"],"every byte stream and every split into chunks","Splits are exponential in stream length.",
 [AI+"utils/streaming-lines.ts"],[("StreamingLineDecoder",AI+"utils/streaming-lines.ts")])
p("C24","Editor undo and kill histories stay bounded and keep their order",
 "The undo history and the kill history never hold more than their configured number of entries and bytes, drop oldest entries first, and otherwise return exactly what was stored, newest first.",
 ["inputs","histories"],"every sequence of operations","Operation sequences are unbounded.",
 [TUI+"undo-stack.ts",TUI+"kill-ring.ts"],[("UndoStack",TUI+"undo-stack.ts"),("KillRing",TUI+"kill-ring.ts")])
p("C25","Untrusted content cannot forge the end of its fence",
 "Text wrapped as untrusted content cannot contain a line that closes or reopens the fence, whatever the text is, so everything the fence encloses is exactly the untrusted text in neutralised form.",
 ["inputs"],"every text","All strings, adversarially chosen.",
 [CA+"security/untrusted-boundary.ts"],[("wrapUntrustedText",CA+"security/untrusted-boundary.ts")])
p("C26","Goal status changes only along permitted transitions",
 "A goal's status moves only along the permitted transitions; a finished goal never becomes active again through an automatic update, and an illegal transition is rejected and leaves the goal unchanged.",
 ["inputs","histories"],"every status, event and history","All state × event pairs and their sequences.",
 [CA+"goals/goal-lifecycle.ts"],[("goal-lifecycle",CA+"goals/goal-lifecycle.ts")])
p("C27","A task plan never holds two active steps, duplicate ids or too many steps",
 "After every accepted operation a task plan has unique step ids, at most one step in progress, and no more steps than the limit; a rejected operation leaves the plan unchanged.",
 ["inputs","histories"],"every plan state and operation sequence","Histories of operations.",
 [CA+"tasks/task-state.ts"],[("task-state",CA+"tasks/task-state.ts")])
p("C28","A failed worker is retried only when that is safe and within its bound",
 "A worker attempt is retried only when its lane failed with a completion error whose recorded detail classifies as transient, and only while the retries used leave an attempt within the granted ceiling (two attempts by default); an undiagnosed failure is never retried and the backoff never exceeds its cap plus jitter.",
 ["inputs","fault_sequences"],"every failure kind, attempt count and budget","All combinations.",
 [CA+"delegation/worker-retry-policy.ts"],[("evaluateWorkerRetry",CA+"delegation/worker-retry-policy.ts")])
p("C29","The latest attempt of every agent is well-defined by durable order",
 "The latest attempt projected for an agent is the attempt its binding names as active when that attempt exists, and otherwise the last attempt in the durable insertion order of the attempt record that belongs to the agent; it never depends on identifiers, clocks or task grouping, and only known agents have one.",
 ["inputs","histories"],"every set of attempts","All permutations of records.",
 [CA+"orchestration/attempt-ordering.ts"],[("attempt-ordering",CA+"orchestration/attempt-ordering.ts")])
p("C30","Provider image budgets evict only what they must and never touch history",
 "Preparing a provider request removes images only when a budget is exceeded, removes oldest first and no more than needed, and never modifies the durable message history.",
 ["inputs","histories"],"every history and budget","All histories.",
 [CA+"provider-request-image-budget.ts"],[("image budget",CA+"provider-request-image-budget.ts")])
p("C31","Session files are an append-only tree that survives a crash at any point",
 "After a crash at any point, reopening a session yields a prefix of the entries that were appended, every entry still reachable through its parents, and no entry altered.",
 ["crash_points","histories"],"every crash point in every history","Crash points.",
 [AG+"session/session-manager.ts"],[("SessionManager",AG+"session/session-manager.ts")])
p("C32","Edits change exactly the requested text and nothing else",
 "An edit replaces each requested fragment exactly once where it occurs uniquely, leaves every other character of the file as it was, and fails without writing when a fragment is missing or ambiguous.",
 ["inputs"],"every file content and edit list","All texts.",
 [CA+"tools/edit-diff.ts"],[("applyEdits",CA+"tools/edit-diff.ts")])
p("C33","Archive extraction never writes outside its destination",
 "Extracting any archive creates files only below the destination directory, whatever names, links or sizes the archive contains.",
 ["inputs"],"every archive","Archives are adversarial.",
 ["packages/coding-agent/src/utils/zip-extractor.ts"],[("zip-extractor","packages/coding-agent/src/utils/zip-extractor.ts")])
p("C34","Replaying the task event log reproduces the same state from any crash point",
 "Replaying the durable task event log after any crash yields the state reached by the events it contains, duplicate or out-of-order events are rejected, and a terminal task never becomes active again.",
 ["crash_points","histories"],"every event history and crash point","Histories and crash points.",
 [CA+"orchestration/task-runtime-reducer.ts",CA+"orchestration/event-store.ts"],[("reducer",CA+"orchestration/task-runtime-reducer.ts")])
p("C35","The context token estimate is well-defined for every observation",
 "Whatever sequence of usage observations a token budget has been anchored to (including zero, negative, infinite or NaN ones, which change nothing), its characters-per-token ratio stays between 2.2 and 6, and its estimate of the context is finite, never below the anchor, counts everything added since the anchor at no fewer than one token per six characters, and keeps a margin of at least two per cent of the window and twice the recent estimation error.",
 ["configurations","inputs"],"every sequence of observations, including NaN, infinite, negative and zero ones","Sequences of observations are unbounded.",
 [AG+"compaction/token-budget.ts"],[("token-budget",AG+"compaction/token-budget.ts")])
