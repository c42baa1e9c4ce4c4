#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

S = "minter/src/"

p("C01", "A deposit is minted at most once, for the exact amount, to its account",
  "For every deposit log of the helper contract (identified by transaction hash and log index) the minter credits at most one mint, on the twin ledger of the deposited token, to exactly the principal and subaccount named in the log. The credited amount is the deposited value for ERC-20 tokens, and the deposited value minus the configured deposit fee for the native coin, with that fee (and nothing more) minted to the minter's own fee account. Nothing is ever minted to a user without such a log or a reimbursement. All this also holds when an upgrade moves the scanning back over blocks already scanned.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "all interleavings of scraping, minting, retries, ledger and RPC failures, callback traps and upgrades, for any set of deposits",
  "The repository's tests run a handful of fixed deposits against a cooperative ledger (and most of them cannot even be built here); double minting appears only under particular failures, traps or restarts.",
  [S+"deposit.rs", S+"deposit_logs/parser.rs", S+"state.rs", S+"state/audit.rs", S+"guard/mod.rs"],
  [("mint() with a quarantine scope guard and a task guard", S+"deposit.rs"), ("record_event_to_mint / record_successful_mint", S+"state.rs")],
  [("events_to_mint / minted_events", "deposits accepted and not yet minted / already minted, keyed by (tx hash, log index)", S+"state.rs")],
  ["icrc1_transfer calls received by the ledgers", "logs of the simulated chain"])

p("C02", "Every final valid deposit is eventually credited; no block is skipped",
  "Block scanning proceeds contiguously from the configured start block, so that every well-formed deposit of a supported token in a block at or below the reported last scraped block has been minted, is pending, or is recorded as quarantined; only a single block whose logs are reported too large is ever skipped, and that skip is recorded. One malformed, unsupported or undersized deposit never prevents the other deposits from being credited. Once failures stop, every valid deposit is credited.",
  ["histories", "fault_sequences", "inputs"],
  "all chains of deposits (valid, malformed, unsupported, both token kinds), RPC failure patterns including too-large responses, and upgrade points",
  "Existing tests scan at most a few synthetic responses; a gap or a stuck scan depends on the combination of range, failure and log content.",
  [S+"deposit.rs", S+"deposit_logs/scraping.rs", S+"deposit_logs/parser.rs", S+"numeric/range.rs", S+"state.rs"],
  [("scrape_until_block / scrape_block_range", S+"deposit.rs"), ("next_scrape topics", S+"deposit_logs/scraping.rs")],
  [("last_scraped_block_number", "highest block whose logs were processed", S+"state.rs")],
  ["eth_getLogs requests", "get_minter_info", "get_events", "ledger mints"])

p("C03", "Twin-token supply is always backed by what the minter holds on chain",
  "At every moment the twin tokens in circulation plus every outstanding obligation (deposits to mint, burned withdrawals not yet paid, pending reimbursements) never exceed the coins the minter controls on the EVM chain, per token, as long as each ledger and the chain behave correctly. The native and ERC-20 balances the minter reports equal deposits credited minus what its finalized transactions really spent (value plus gas used at the effective gas price, or the token amount transferred).",
  ["histories", "fault_sequences", "schedules", "crash_points"],
  "all histories of deposits, withdrawals, failed and replaced transactions, reimbursements, ledger faults and upgrades",
  "A conservation law over unbounded histories; tests assert balances after one or two hand-written steps.",
  [S+"state.rs", S+"deposit.rs", S+"withdraw.rs", S+"state/transactions/mod.rs", S+"main.rs"],
  [("native_balance / erc20_balances update on deposit and finalization", S+"state.rs")],
  [("native_balance, erc20_balances", "tracked locked funds", S+"state.rs")],
  ["get_minter_info", "ledger supplies", "simulated chain balances"])

p("C04", "A native withdrawal debits the user exactly and pays out at most once",
  "A withdrawal request that is accepted debits the caller's twin balance by exactly the requested amount (plus nothing but ledger transfer fees already contained in it), and at most one transaction for it is ever mined: a plain transfer to exactly the requested address whose value plus maximum gas cost never exceeds the burned amount and whose value is otherwise the whole burned amount minus the agreed maximum fee. Once faults stop and fees are affordable, the payment is made.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "all amounts, recipients, fee markets, replacement rounds, signing/sending/receipt failures, traps and upgrades",
  "Requires exploring retries and resubmissions over a moving fee market; tests use fixed fees and one or two resubmissions.",
  [S+"main.rs", S+"withdraw.rs", S+"state/transactions/mod.rs", S+"tx.rs", S+"ledger_client.rs"],
  [("withdraw_native_token", S+"main.rs"), ("create_transaction / resubmission", S+"state/transactions/mod.rs")],
  [("pending/created/sent/finalized transactions", "the withdrawal pipeline keyed by burn index", S+"state/transactions/mod.rs")],
  ["ledger burns", "eth_sendRawTransaction payloads", "mined transactions"])

p("C05", "An ERC-20 withdrawal transfers exactly the burned tokens within the gas paid",
  "For an accepted ERC-20 withdrawal the caller is debited exactly the requested token amount on that token's ledger, and one gas fee plus the configured service fee on the native ledger, and at most one transaction is mined for it: a zero-value call of the token's contract transferring exactly the burned amount to exactly the requested address. The maximum gas cost of every version of that transaction never exceeds the native fee burned for it. Once faults stop and the fee that was paid suffices, the transfer is made.",
  ["histories", "fault_sequences", "inputs", "crash_points"],
  "all amounts, recipients, token sets, fee changes between acceptance and submission, faults and upgrades",
  "Same as native withdrawals plus the two-ledger interplay; the tests cover single scripted flows.",
  [S+"main.rs", S+"state/transactions/mod.rs", S+"tx.rs", S+"withdraw.rs", S+"erc20.rs"],
  [("withdraw_erc20", S+"main.rs"), ("TransactionCallData encoding", S+"state/transactions/mod.rs")],
  [], ["ledger burns", "raw transaction calldata"])

p("C06", "Nonces are gap-free and unique; replacements only raise the price",
  "The withdrawals the minter executes use consecutive transaction nonces starting at the configured one, each nonce belonging to exactly one withdrawal forever. Every later version of a transaction keeps nonce, chain, gas limit, recipient and call data, never lowers either gas price component and, if it differs, raises the priority fee by at least 10%; a replacement is made only while the network has not yet consumed that nonce. The priority fee never exceeds the maximum fee.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of requests, fee movements, mined prefixes, signing failures and upgrades",
  "Nonce reuse shows only after particular interleavings of creation, failure, rescheduling and restart.",
  [S+"state/transactions/mod.rs", S+"withdraw.rs", S+"tx.rs"],
  [("next_nonce, created_tx, sent_tx", S+"state/transactions/mod.rs"), ("resubmit_transaction_price", S+"tx.rs")],
  [("next_nonce", "nonce of the next transaction", S+"state/transactions/mod.rs")],
  ["raw transactions", "get_events"])

p("C07", "Failed payouts are reimbursed exactly once; successful ones never",
  "When a withdrawal's finalized transaction failed, the user gets back on the burned ledger exactly the amount the transaction should have delivered, and when an ERC-20 burn fails after its gas fee was burned the user gets back that fee (less at most one ledger transfer fee); each such reimbursement is minted at most once and, once ledger failures stop, exactly once. A withdrawal whose transaction succeeded is never reimbursed.",
  ["histories", "fault_sequences", "crash_points"],
  "all mixes of succeeding and failing transactions, ledger faults during reimbursement, callback traps and upgrades",
  "Double or missing reimbursement needs a fault between the ledger reply and the record, which tests do not inject.",
  [S+"withdraw.rs", S+"state/transactions/mod.rs", S+"main.rs"],
  [("process_reimbursement with quarantine guard", S+"withdraw.rs"), ("record_finalized_transaction / maybe_reimburse", S+"state/transactions/mod.rs")],
  [("reimbursement_requests / reimbursed", "reimbursements due / done", S+"state/transactions/mod.rs")],
  ["icrc1_transfer calls", "receipts", "get_events"])

p("C08", "Every transaction sent is a valid EIP-1559 transaction of the minter",
  "Each raw transaction handed to the network is a canonically encoded type-2 transaction for the configured chain whose signature recovers to exactly the address the minter publishes, and whose hash is the one used for receipts and reported to users. The published address is the one derived from the minter's threshold public key.",
  ["inputs", "histories"],
  "all transaction field values (including zero and 256-bit extremes), both recovery parities and all keys",
  "Tests compare a few fixed vectors; leading-zero, parity and length edge cases are reachable only by generation.",
  [S+"tx.rs", S+"management.rs", S+"address.rs", S+"state.rs", S+"checked_amount/mod.rs"],
  [("sign / rlp encoding / recovery id", S+"tx.rs"), ("ecdsa public key to address", S+"address.rs")],
  [], ["eth_sendRawTransaction payloads", "minter_address", "eth_getTransactionReceipt requests"])

p("C09", "An upgrade at any point changes nothing observable",
  "At any point of any history, upgrading the canister leaves everything it reports (balances, supported tokens, settings, scanning progress, statuses of all withdrawals, past events) unchanged apart from the settings the upgrade sets and the caches that are fetched again (last observed block, fee estimate, public key), and the work that was pending continues to the same outcome. Replaying the recorded event log always succeeds and reproduces the live state.",
  ["histories", "crash_points", "configurations"],
  "upgrade inserted after any prefix of any history, with any valid upgrade arguments",
  "Tests replay a few recorded logs; a state change that is not recorded or not replayable shows only in particular states.",
  [S+"state/audit.rs", S+"state/event.rs", S+"storage.rs", S+"lifecycle.rs", S+"main.rs", S+"state.rs"],
  [("process_event applies and records; post_upgrade replays", S+"state/audit.rs"), ("event log in stable memory", S+"storage.rs")],
  [("event log", "stable-memory log of all state changes", S+"storage.rs")],
  ["all query endpoints before and after an upgrade"])

p("C10", "A refused withdrawal costs the user at most ledger fees",
  "When a withdrawal request returns an error, the caller's balances afterwards (after pending reimbursements) differ from before by no more than the ledgers' own transfer fees for the movements that were undone: service fee and gas fee already collected are given back, provided the ledgers accept the refunds, and no more than was collected. A request refused by validation moves nothing at all.",
  ["inputs", "histories", "fault_sequences"],
  "all amounts, recipients, balances, allowances, fee settings and ledger failures at each step of the request",
  "The failure must hit between two ledger calls of one request; tests exercise the success path.",
  [S+"main.rs", S+"ledger_client.rs", S+"endpoints.rs", S+"withdraw.rs"],
  [("fee refund and failed-withdrawal reimbursement", S+"main.rs"), ("refund_withdrawal_fee", S+"ledger_client.rs")],
  [], ["user balances on all ledgers around each request"])

p("C11", "Privileged and concurrent calls are refused",
  "Anonymous callers can never withdraw, only the configured ledger suite manager can add tokens, and no endpoint lets another party change state or settings or trigger minting to themselves. A principal has at most one withdrawal request in flight, at most 100 are in flight in total, none is let in while 100 accepted withdrawals still wait for their transaction, and a request slot is always released when the request ends, however it ends; each background task runs at most once at a time.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "all callers, all overlaps of requests and timers, and all endings (success, error, trap)",
  "Concurrency between messages is not exercised by unit tests.",
  [S+"main.rs", S+"guard/mod.rs", S+"state.rs"],
  [("retrieve_withdraw_guard / TimerGuard", S+"guard/mod.rs"), ("caller checks", S+"main.rs")],
  [("pending_withdrawal_principals, active_tasks", "in-flight markers", S+"state.rs")],
  ["replies and rejects of concurrent calls", "overlapping outgoing calls"])

p("C12", "Reported withdrawal status is truthful and never goes backwards",
  "For each withdrawal the reported status matches what has really happened (queued, transaction built, sent with its hash, finalized as success or failure with the mined hash, reimbursed with the minting block), and it only moves forward along that order, except that a sent withdrawal may show as created again while its replacement is being signed. Searching by id, sender account or recipient returns exactly the matching withdrawals with the amounts, sender and recipient of the request; unknown ids are reported as not found.",
  ["histories", "schedules", "fault_sequences"],
  "every withdrawal at every point of every history",
  "Tests query single states built by hand.",
  [S+"state/transactions/mod.rs", S+"main.rs", S+"endpoints.rs"],
  [("transaction_status / withdrawal_status", S+"state/transactions/mod.rs")],
  [], ["retrieve_witdrawal_status", "withdrawal_status"])

p("C13", "No RPC value is used unless enough providers agree on it",
  "Blocks, logs, receipts and finalized transaction counts are accepted only when the providers that answered agree and enough of them answered; fee history only by strict majority; a contradicted or under-supported answer is reported as a failure and changes nothing. Whether a value is accepted does not depend on the order in which providers are listed; a submission counts as answered when at least one provider answered it.",
  ["inputs", "fault_sequences"],
  "all multisets of provider answers and errors, in every order",
  "Tests enumerate a dozen fixed combinations of answers.",
  [S+"rpc_client/mod.rs", S+"rpc_client/providers.rs", "evm_rpc_client/src/lib.rs"],
  [("MultiCallResults reductions", S+"rpc_client/mod.rs")],
  [], ["result of a reduction for a generated set of provider answers", "minter behaviour on inconsistent answers"])

p("C14", "RPC calls are retried with more cycles until they succeed or the cap",
  "A request to the EVM RPC canister that fails for too few cycles is repeated with at least the demanded and at least double the previous cycles until it succeeds, fails otherwise, or the maximum number of retries is reached, whichever comes first. Any other answer is passed to the caller unchanged after exactly one more attempt, and a retry never changes the request itself.",
  ["fault_sequences", "inputs"],
  "all sequences of too-few-cycles answers (consistent and inconsistent between providers), other errors and successes",
  "Tests cover one two-step sequence.",
  ["evm_rpc_client/src/lib.rs"],
  [("call_internal retry loop", "evm_rpc_client/src/lib.rs")],
  [], ["calls seen by a recording runtime"])

p("C15", "Gas prices follow the fee history and stay within the agreed bounds",
  "The fee estimate derived from any fee history has as priority fee the median of the recent rewards but never less than the configured minimum, a maximum fee covering twice the base fee of the next block plus the priority fee, and saturates or fails cleanly instead of wrapping. A quoted or used transaction price never charges more than gas limit times maximum fee, and estimates are refreshed when older than the cache period.",
  ["inputs", "histories"],
  "all fee histories (any length, empty, zero and 256-bit extreme values) and all query times",
  "Tests use a few recorded histories.",
  [S+"tx.rs", S+"main.rs", S+"rpc_declrations.rs"],
  [("estimate_transaction_fee / lazy_refresh_gas_fee_estimate", S+"tx.rs")],
  [("last_transaction_price_estimate", "cached estimate with time", S+"state.rs")],
  ["eip_1559_transaction_price", "get_minter_info", "created transactions"])

p("C16", "A log is accepted as a deposit exactly when it is well formed",
  "A log entry is turned into a deposit exactly when it is a confirmed, not removed deposit log with the right number of topics, a decodable principal and a correctly sized data part; then token, sender, amount, principal, subaccount, block, transaction hash and log index are exactly those encoded. Every other log is reported as an error (identifying its source when known) and never crashes the parser or affects neighbouring logs.",
  ["inputs"],
  "all log entries: arbitrary topics, data lengths, missing fields, removed flags, principals of every length",
  "Tests parse a few fixed logs.",
  [S+"deposit_logs/parser.rs", S+"deposit_logs/mod.rs"],
  [("ReceivedDepositLogParser", S+"deposit_logs/parser.rs")],
  [], ["parser output on generated logs"])

p("C17", "Addresses are parsed, printed and validated without ambiguity",
  "Every 20-byte address printed by the minter is its EIP-55 checksum form and parses back to the same address; parsing accepts exactly 0x-prefixed strings of 40 hex digits in any letter case and rejects everything else. A withdrawal recipient is refused exactly when it does not parse or is the zero address.",
  ["inputs"],
  "all strings and all 20-byte values",
  "Tests check a few examples.",
  [S+"eth_types/mod.rs", S+"address.rs", S+"eth_types/serde_data.rs"],
  [("Address FromStr/Display", S+"eth_types/mod.rs"), ("validate_address_as_destination", S+"address.rs")],
  [], ["public parsing and printing functions", "withdraw endpoints"])

p("C18", "Amounts are exact 256-bit integers in every operation and encoding",
  "Every checked operation on amounts (add, subtract, multiply, divide rounding up, increment, unit change) returns the mathematically exact result or reports overflow, underflow or division by zero, never a wrapped value. Conversions between amounts and arbitrary-precision naturals, big-endian bytes, hex text, RLP and CBOR round-trip exactly, use the canonical form, and reject values above 256 bits.",
  ["inputs"],
  "all pairs of 256-bit values including boundaries, and all encodings",
  "Tests sample a few operations; some conversions have no test.",
  [S+"checked_amount/mod.rs", S+"cbor/u256.rs", S+"cbor/nat.rs", S+"numeric/mod.rs"],
  [("CheckedAmountOf", S+"checked_amount/mod.rs")],
  [], ["public amount API compared with arbitrary-precision reference"])

p("C19", "The persisted event log keeps every event and its format stable",
  "Every event recorded is kept in order and reads back equal, whatever its contents, and the bytes written follow the established format, so logs written by this version and by earlier versions stay readable. No two different events encode to the same bytes.",
  ["inputs", "histories"],
  "all event types with arbitrary field values (absent and present options, extreme numbers, empty and long byte strings)",
  "Tests round-trip a few types; format drift between versions is invisible to a round-trip test.",
  [S+"state/event.rs", S+"cbor/mod.rs", S+"cbor/id.rs", S+"cbor/nat.rs", S+"cbor/principal.rs", S+"cbor/u256.rs", S+"storage.rs", S+"lifecycle.rs"],
  [("minicbor derive indices", S+"state/event.rs"), ("record_event / with_event_iter", S+"storage.rs")],
  [], ["stable memory bytes", "get_events"])

p("C20", "Two-key maps behave like a map indexed by both keys",
  "The two-key map always answers lookups, removals, iteration and counts under either key exactly as one table of (key, alternative key, value) rows in which both keys are unique, and refuses an insertion that would break that. Its deduplicating form keeps primary and alternative entries consistent in the same way, and takes and drops exactly the rows asked for.",
  ["inputs", "histories"],
  "all sequences of operations over colliding and fresh keys",
  "Tests sample short sequences.",
  [S+"map.rs"],
  [("MultiKeyMap / DedupMultiKeyMap", S+"map.rs")],
  [], ["public map API compared with a reference table"])

p("C21", "Block ranges split into chunks and halves that cover them exactly",
  "Splitting an inclusive block range into chunks yields consecutive, non-overlapping, non-empty pieces of at most the chunk size (all but the last full, except next to the largest representable number) whose union is the range; halving yields two adjacent pieces covering the range; joining adjacent pieces gives back the whole. Empty and extreme ranges are handled without overflow.",
  ["inputs"],
  "all ranges over 256-bit block numbers, including empty, single-block and maximal ones, and all chunk sizes",
  "The range tests are not built here and sample few sizes; boundaries at the numeric maximum matter.",
  [S+"numeric/range.rs", S+"deposit.rs"],
  [("BlockRangeInclusive", S+"numeric/range.rs")],
  [], ["public range API"])

p("C22", "The log endpoint returns a bounded, ordered, unaltered window of entries",
  "Serialising the log never exceeds the requested size, always yields valid JSON holding the longest prefix of entries that fits, leaves each entry unaltered, and keeps the requested sort order (stable for equal timestamps). Entries of every priority survive a round trip.",
  ["inputs"],
  "all entry lists (any sizes, unicode, control characters) and all size limits",
  "Tests use small fixed logs.",
  [S+"logs.rs"],
  [("Log::serialize_logs", S+"logs.rs")],
  [], ["public log API"])

p("C23", "Each network uses its own chain id, providers, block tag and margin",
  "Every supported network maps to exactly one chain id and back, unknown ids are refused, and requests for a network only ever go to providers of that network's chain. A deposit is acted on only when its block is at least as deep as the network's finality rule requires (finalized tag where the network has one, otherwise the fixed number of confirmations behind the latest block).",
  ["configurations", "histories"],
  "all supported networks, all chain ids, all chain heights (including heights below the margin)",
  "Tests check one network.",
  [S+"evm_config.rs", S+"rpc_client/providers.rs", S+"deposit.rs", S+"state.rs"],
  [("EvmNetwork conversions", S+"evm_config.rs"), ("update_last_observed_block_number", S+"deposit.rs")],
  [], ["RpcServices argument of every RPC call", "eth_getLogs upper bounds"])

p("C24", "Ledger memos identify the operation and fit the ledger's limit",
  "Every memo attached to a mint, burn or reimbursement decodes to exactly the deposit (sender, transaction, log index) or withdrawal (recipient, amounts, token, burn index, transaction) it belongs to, distinct operations get distinct memos, and every memo fits the 80 bytes the ledger accepts. Memo encodings stay readable across versions.",
  ["inputs", "histories"],
  "all operations with extreme indices, amounts and symbol lengths",
  "Tests check sizes for a few generated values; the mapping from operations to memos is not tested.",
  [S+"memo.rs", S+"deposit.rs", S+"withdraw.rs", S+"main.rs"],
  [("Memo conversions", S+"memo.rs")],
  [], ["memo field of ledger calls"])

p("C25", "Only valid configurations are accepted, at install and at upgrade",
  "Installing or upgrading with an invalid configuration (bad or zero address, zero or below-fee minimum withdrawal, empty key name, anonymous ledger, out-of-range number, argument of the wrong kind) is refused and leaves the previous state; a valid one takes effect exactly as given and every setting not mentioned keeps its value.",
  ["configurations", "inputs"],
  "all combinations of present, absent, valid and invalid arguments, at install and at any upgrade",
  "Tests check one or two invalid arguments each.",
  [S+"lifecycle.rs", S+"state.rs", S+"main.rs"],
  [("TryFrom<InitArg> / upgrade / validate_config", S+"state.rs")],
  [], ["install and upgrade outcome", "get_minter_info"])

p("C26", "The public event history is complete, ordered and paged exactly",
  "For any start and length the event endpoint returns exactly the recorded events of that window in order (at most 100) and the true total; events are only ever appended, with non-decreasing timestamps. Every mint to a user for a deposit, every deposit log that was scanned and refused, every withdrawal burn, transaction version, finalization and reimbursement that happened appears in it exactly once, with the values that really occurred.",
  ["histories", "inputs", "fault_sequences"],
  "all histories and all (start, length) windows",
  "Tests read one page of a short log.",
  [S+"main.rs", S+"storage.rs", S+"state/audit.rs", S+"endpoints.rs"],
  [("get_events", S+"main.rs"), ("record_event", S+"storage.rs")],
  [], ["get_events"])

p("C27", "The token registry stays unique and only grows",
  "A token is added only when its ledger, its contract address and its symbol are not already used by another registered token, it is for the minter's own chain and its symbol is well formed (at most 20 ASCII characters); otherwise the call is refused and nothing changes. A registered token is reported with exactly the given data, survives upgrades, and from then on its deposits and withdrawals use exactly that ledger and contract.",
  ["histories", "inputs"],
  "all sequences of add requests with fresh and colliding ids, addresses, symbols and chains",
  "Tests add one or two tokens.",
  [S+"state.rs", S+"erc20.rs", S+"main.rs", S+"map.rs"],
  [("record_add_erc20_token", S+"state.rs"), ("ERC20TokenSymbol", S+"erc20.rs")],
  [("erc20_tokens", "registered tokens", S+"state.rs")],
  ["add_erc20_token", "get_minter_info"])

p("C28", "On-demand scraping is granted only for new blocks and once a minute",
  "A request to scrape early is accepted exactly when the named block is above the last observed block and at least one minute has passed since a block was last observed; otherwise the specific error is returned and no scraping results. A granted request leads to a scraping run.",
  ["histories", "inputs", "schedules"],
  "all block numbers (including beyond 256 bits), all request times and interleavings with timed scraping",
  "Tests check one boundary of the validation function.",
  [S+"main.rs", S+"deposit.rs"],
  [("validate_log_scraping_request", S+"deposit.rs")],
  [], ["request_scraping_logs replies and following RPC calls"])

p("C29", "The helper contract forwards every deposit to the minter and logs it truly",
  "Each successful deposit call of the Solidity helper contract transfers exactly the stated amount to the minter's address and emits exactly one deposit log with the true token, amount, sender, principal and subaccount.",
  ["inputs", "histories"],
  "all deposit calls of all tokens",
  "The contract has no executable test in this repository.",
  ["evm_helper_contract/src/Deposit.sol"],
  [("deposit", "Solidity helper contract")], [], [])

p("C30", "The native ledger suite is announced to its manager once and truly",
  "When it is installed the minter tells the configured ledger suite manager about the ledger suite of its native coin, with exactly its configured ledger, index, symbol and chain id; once that was accepted it is not announced again, not even after upgrades. Whatever the manager answers, the minter goes on working.",
  ["histories", "fault_sequences", "configurations"],
  "all configurations and networks, all answers of the manager (acceptance, each refusal, a rejected call), all following histories with upgrades",
  "One test builds the argument for one configuration.",
  [S+"lsm_client.rs", S+"main.rs"],
  [("lazy_add_native_ls_to_lsm_canister", S+"lsm_client.rs"), ("new_native_ls", S+"lsm_client.rs")],
  [], ["add_native_ls calls"])

p("C31", "The canister speaks exactly its published Candid interface",
  "Every endpoint of the published interface (evm_minter.did) exists and understands every argument that interface admits (blobs that stand for subaccounts being 32 bytes long): a call is at most refused for what it asks, never because the argument cannot be read. In every state the canister can reach, each reply, including every event, error and status variant, is a value of the published reply type, with every published field present and nothing lost when it is read by that type. The canister status is passed on unchanged.",
  ["inputs", "histories"],
  "all values of the published argument types (numbers of any size, any text, principals of every length), all replies along all histories of deposits, withdrawals, failures and upgrades",
  "No test compares the published interface with what the canister does; rarely seen variants (quarantine, reimbursement, skipped blocks, ledger errors) are reached only along long histories.",
  [S+"endpoints.rs", S+"main.rs", S+"lifecycle/mod.rs", "evm_minter.did"],
  [("Candid types of the endpoints", S+"endpoints.rs"), ("get_events mapping", S+"main.rs")],
  [], ["replies of all endpoints", "traps while decoding arguments"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        f.write(json.dumps(e) + "\n")
print(len(P))
