import json
L=[]
def P(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    L.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
S="cycles-ledger/src/storage.rs"; M="cycles-ledger/src/main.rs"; E="cycles-ledger/src/endpoints.rs"; CF="cycles-ledger/src/config.rs"; LB="cycles-ledger/src/lib.rs"
UT="The 11 unit tests exercise codecs and two pruning helpers; none runs an endpoint (the integration tests need a replica that is not available) and none "

P("C01","Tokens are fully backed by cycles at every moment",
"At every point between messages, the cycles the ledger canister holds beyond its own fuel, together with the cycles attached to calls it has in flight, are at least the total supply plus what open withdrawals and creations may still have to refund. No message, trap, failed call or upgrade lets tokens exist without cycles behind them, and cycles taken from an account either leave the canister or stay as backing or as collected fees, so that what the canister holds beyond the supply never shrinks from one message to the next.",
["histories","fault_sequences"],"Every interleaving of deposits, transfers, withdrawals, canister creations, their responses in any order, rejected calls, full or partial CMC refunds, rejects and unreadable replies that come back with all, some or none of the cycles, and upgrades.",
UT+"attaches or refunds cycles.",[M,S],
[("deposit accepts the attached cycles before minting",M+": deposit"),("withdraw burns before the call and reimburses only when the call failed",S+": withdraw"),("create_canister reimburses what the CMC gave back",S+": create_canister"),("reimburse",S+": reimburse")],
[("balances","tokens per account",S+": State.balances"),("total supply cache","sum of balances",S+": Cache.total_supply")],["canister cycle balance","cycles attached to outgoing calls","icrc1_total_supply"])

P("C02","Total supply equals the sum of balances; each operation moves exactly its sums",
"After every message the reported total supply equals the sum of all account balances. Every granted operation changes exactly the balances it is about, by exactly the amounts and fees it declares (fees are burned), and no other balance changes.",
["inputs","histories"],"All operation kinds, amounts up to and beyond 2^128, aliasing accounts (self transfers, both spellings of the default subaccount) and histories.",
UT+"checks a balance after an operation.",[S],
[("credit / debit with checked arithmetic",S+": State::credit, State::debit"),("process_block effects",S+": process_transaction, transfer, approve"),("invariant check in tests only",S+": check_invariants")],
[("balances","tokens per account",S+": State.balances"),("total_supply","cached sum",S+": Cache.total_supply")],["icrc1_balance_of","icrc1_total_supply"])

P("C03","Replaying the block log reproduces balances, allowances and supply",
"At every moment, an independent replay of all blocks from the first to the tip (mint, burn, transfer and approve with their fees, spenders and expirations) yields exactly the balances, live allowances and total supply that the ledger reports.",
["histories"],"All histories of granted and refused requests including refunds, expiries and upgrades.",
UT+"compares the log with the state.",[S],
[("every state change goes with exactly one block",S+": transfer, approve, mint, withdraw, create_canister, reimburse, reimburse_approval, penalize"),("emit_block",S+": State::emit_block")],
[("blocks","append-only log",S+": State.blocks")],["icrc3_get_blocks","icrc1_balance_of","icrc2_allowance"])

P("C04","The block log is append-only and hash-chained",
"Blocks get consecutive indices starting at 0, and a block once served never changes or disappears. Each block but the first carries as phash the ICRC-3 representation-independent hash of its predecessor as served, the first carries none, every block is stamped with the time of the message that produced it, and a granted request returns the index of its own block.",
["histories"],"All histories, across upgrades and refused or trapped requests.",
UT+"chains two blocks; the hash test compares two encodings of single random blocks only.",[S,LB],
[("emit_block links phash and appends",S+": State::emit_block"),("Block::hash over the generic value",S+": Block::hash"),("last block hash recomputed at start-up",S+": populate_last_block_hash_and_hash_tree")],
[("last_block_hash","hash of the tip",S+": Cache.phash")],["icrc3_get_blocks"])

P("C05","The certified tip always describes the last block",
"After every message the certified data equals the root hash of the hash tree served by icrc3_get_tip_certificate, and that tree holds exactly the last block's index (LEB128) and hash. With an empty log no tip is claimed, and the answer stays correct across upgrades.",
["histories"],"All histories; block indices of one and of several LEB128 bytes.",
UT+"looks at certified data (one test fixes four LEB128 encodings).",[S,M],
[("emit_block updates the tree and certified data",S+": State::emit_block"),("start-up recomputes both",S+": populate_last_block_hash_and_hash_tree"),("get_tip_certificate",S+": State::get_tip_certificate")],
[("hash_tree","certified tree",S+": Cache.hash_tree")],["icrc3_get_tip_certificate","certified_data_set"])

P("C06","A transaction with a creation time takes effect at most once",
"Submitting the same transaction again (same operation and created_at_time, same memo) while it is in the deduplication window is refused with Duplicate and the index of the original block (for canister creation also the created canister, once known), and changes nothing. Transactions that differ in any field, or have no created_at_time, are never taken for duplicates.",
["inputs","histories"],"All operation kinds and resubmissions with or without a difference in one field, at any time in the window, across other operations and upgrades.",
UT+"submits a transaction twice.",[S],
[("check_duplicate",S+": check_duplicate"),("hash recorded with the block",S+": State::emit_block"),("pruned only outside the window",S+": prune_transactions")],
[("transaction_hashes","hash to block index and canister",S+": State.transaction_hashes")],["all update endpoints"])

P("C07","created_at_time is honoured exactly within the 24 h window and 60 s drift",
"A request whose created_at_time lies within the 24 hours plus 60 seconds before, or within 60 seconds after, the ledger's time is not refused for its time; an older one is refused as TooOld and a later one as CreatedInFuture with the ledger's time. The bounds are exact to the nanosecond and the same for every operation that takes a creation time.",
["inputs"],"All created_at_time values relative to the ledger's time, including 0, 2^64-1 and both bounds, for all operation kinds.",
UT+"reaches created_at_time validation.",[S],
[("validate_created_at_time",S+": validate_created_at_time"),("is_before_transaction_window",S+": is_before_transaction_window")],None,["all update endpoints"])

P("C08","A refused request leaves no trace",
"A request that is answered with an error, or whose handling traps, changes no balance, allowance, block, certified data, deduplication record or cycle balance, except that a failed outgoing call may charge what its documentation says. A query never changes anything.",
["inputs","fault_sequences"],"All requests refused for any reason, in every reachable state, including requests that fail several conditions at once.",
UT+"checks the state after a refusal.",[S,M],
[("all checks come before the first write",S+": transfer, approve, withdraw, create_canister"),("UnexpectedTrap rather than a half-done change",M+": execute_transfer")],None,["every endpoint's reply","all queries afterwards"])

P("C09","Requests are accepted exactly when they should be, with truthful errors",
"A request is granted if and only if fee, funds, allowance, expected allowance, expiry, creation time, duplication, accounts and amounts permit it; amounts above 2^128 or equal to the whole balance are judged the same way as any other. Every error names a condition that really fails, and carries the true figure (balance, allowance, expected fee, ledger time, original block).",
["inputs","histories"],"All request kinds over generated states, amounts at the very edge of balance, allowance and 2^128, and combinations of failing conditions.",
UT+"runs an endpoint or looks at an error.",[S,M,LB],
[("check order and figures",S+": transfer, approve, withdraw, create_canister, check_allowance"),("error conversions",LB+": transfer_from_error_to_transfer_error and siblings")],None,["replies of all update endpoints"])

P("C10","Spending by allowance: exactly what was approved, never more",
"A spender other than the owner can move or withdraw from an account only under a live allowance, and each use lowers the allowance by exactly amount plus fee; the sum spent under an approval never exceeds the approved amount. An approval replaces the previous one, expected_allowance is honoured exactly, and the account's owner spending through the same subaccount uses no allowance.",
["inputs","histories"],"All sequences of approve, transfer_from, withdraw_from and create_canister_from between several owners, subaccounts and spenders.",
UT+"uses an allowance.",[S],
[("use_allowance / check_allowance",S+": use_allowance, check_allowance"),("record_approval",S+": record_approval")],
[("approvals","allowance and expiry per pair",S+": State.approvals")],["icrc2_allowance","icrc2_transfer_from"])

P("C11","An expired allowance is gone everywhere, a live one is untouched",
"From its expires_at on, an allowance reads as zero, cannot be spent, does not count as expected_allowance and is not listed, and pruning it never affects another allowance or a newer one of the same pair. Before that moment it is fully usable, and an approval whose expiry is not in the future is refused.",
["inputs","histories"],"Expiry times at, just before and just after the ledger's time, replaced and re-approved allowances, many allowances expiring together, time steps of any size.",
"One test prunes ten hand-made approvals directly; no test reaches the boundary instant, replacement, or the endpoints.",[S,M],
[("allowance / check_allowance / use_allowance",S+": allowance, check_allowance, use_allowance"),("prune_approvals and the expiration queue",S+": prune_approvals, record_approval"),("get_allowances filters",S+": get_allowances")],
[("expiration_queue","expiring approvals by time",S+": State.expiration_queue")],["icrc2_allowance","icrc2_transfer_from","icrc103_get_allowances"])

P("C12","A withdrawal is delivered in full or refunded; nothing is lost or doubled",
"withdraw and withdraw_from burn amount plus fee, then send exactly the amount to the named canister and nowhere else. If the call succeeds the block index is returned; if it fails in any way the amount (never more, the fee excepted as documented) is credited back exactly once to the account it came from, and the error names the burn and refund blocks truthfully.",
["inputs","fault_sequences"],"All withdrawals, with the outgoing call succeeding, rejected with any code, unable to leave, and answered after any other messages.",
UT+"performs a withdrawal.",[S,M],
[("withdraw",S+": withdraw"),("reimburse",S+": reimburse"),("penalize",S+": penalize")],None,["deposit_cycles call to the management canister","icrc3_get_blocks","reply"])

P("C13","Canister creation passes the request on and refunds what comes back",
"create_canister and create_canister_from attach exactly the amount to one call to the cycles minting canister, carrying the caller's settings and subnet choice, with the caller as controller if none is given. On success the block index and the CMC's canister id are returned and remembered; on failure, of whatever kind, what the CMC gave back and no more (less the documented fee) is credited to the payer exactly once.",
["inputs","fault_sequences"],"All settings and subnet choices, all CMC answers (created, refunded in part or in full, refund failed), rejections and unreadable replies with or without the cycles, and calls that cannot leave.",
UT+"creates a canister.",[S,E],
[("create_canister",S+": create_canister"),("argument types",E+": CmcCreateCanisterArgs")],None,["create_canister call to the CMC","reply","icrc3_get_blocks"])

P("C14","A spender's failed call gives the allowance back as far as it was used up",
"When withdraw_from or create_canister_from fails after the burn, the owner gets the refund and the spender's allowance, as it is by then, is raised by the refund less one fee and recorded in the log as an approval with its expiry kept. Nothing is given back once the approval that was drawn on has expired or when nothing remains after the fees, and on its own a failed request never leaves the allowance above what it was.",
["fault_sequences","histories"],"Failing calls by spenders interleaved with new approvals, expiry, pruning and other spending while the call is in flight.",
UT+"lets a call fail.",[S],
[("reimburse_approval",S+": reimburse_approval"),("record_approval",S+": record_approval")],None,["icrc2_allowance","icrc3_get_blocks"])

P("C15","An upgrade preserves everything",
"Upgrading at any point between messages leaves balances, allowances and their expiries, total supply, the block log, the certified tip, deduplication memory and configuration as they were, except for what the upgrade argument explicitly changes. An upgrade with no, empty or partial arguments never resets a setting, and one with init arguments is refused.",
["histories","configurations"],"Upgrades at every point of generated histories with every combination of upgrade arguments.",
UT+"upgrades a canister.",[M,S,E],
[("post_upgrade",M+": post_upgrade"),("stable structures in fixed regions",S+": STATE, CONFIG"),("cache rebuilt from stable memory",S+": compute_total_supply, populate_last_block_hash_and_hash_tree")],None,["all queries before and after"])

P("C16","An upgrade takes over the memory of the version deployed so far",
"A ledger whose stable memory was written by the version deployed so far (the present stable layout and encodings) is taken over by an upgrade exactly as it was: balances, allowances and expiries, blocks and their hashes, deduplication memory, expiry queue and configuration. From then on it behaves in every respect like a ledger that was run by the new version all along.",
["histories","configurations"],"All histories under the deployed version, then an upgrade at any point between messages, then any history under the version under test.",
UT+"reads memory that another version wrote.",[S,CF,"cycles-ledger/src/compact_account.rs"],
[("memory ids and stable structures",S+": constants, STATE, CONFIG"),("encodings of blocks, keys and configuration",S+": Storable for Cbor, Block; "+CF+": Storable for Config"),("account keys",S+": to_account_key")],
[("stable memory","everything that survives an upgrade",S+": State")],["all queries before and after","everything that follows"])

P("C17","icrc3_get_blocks returns exactly the blocks asked for, up to the limit",
"For any list of ranges the answer holds the existing blocks of each range in order, with their true index and content, cut off only at the configured maximum number of blocks in total, and log_length is the number of blocks. Ranges with starts or lengths beyond the log or beyond 2^64 are treated as what they mean, never misread or made to fail the call.",
["inputs"],"All lists of ranges: overlapping, empty, huge, out of order, at the edges of the log, and every max_blocks_per_request.",
UT+"asks for blocks.",[S],
[("get_blocks",S+": get_blocks")],None,["icrc3_get_blocks"])

P("C18","icrc103_get_allowances pages through exactly the live allowances",
"Starting from any account or allowance, the pages list the caller's live allowances from that account on in order of (account, spender), each with its true amount and expiry, none twice, none missing, none of another principal, and at most min(take, 500) per page. Feeding the last entry of a page back as the previous spender continues exactly after it.",
["inputs","histories"],"All sets of allowances (subaccounts, expired ones, more than a page) and all start points and page sizes.",
UT+"lists allowances.",[S,M],
[("get_allowances",S+": get_allowances"),("icrc103_get_allowances",M+": icrc103_get_allowances")],None,["icrc103_get_allowances"])

P("C19","Only an account's owner or an approved spender can debit it",
"No message by any caller lowers a balance or spends, grants or changes an allowance of an account owned by someone else, except within a live allowance granted to one of the caller's own accounts. Transfers and approvals that involve the management canister's principal are refused.",
["inputs","histories"],"All callers (including anonymous, the management canister, the ledger itself and the CMC), subaccounts and spender accounts.",
UT+"sets a caller.",[M,S],
[("from.owner is the caller",M+": icrc1_transfer, icrc2_approve, withdraw, create_canister"),("spender.owner is the caller",M+": icrc2_transfer_from, withdraw_from, create_canister_from"),("is_denied_account",S+": is_denied_account")],None,["icrc3_get_blocks","icrc1_balance_of"])

P("C20","Each block records truthfully what was done",
"The block of a granted request says the operation, accounts, spender, amount, memo, creation time, expected allowance and expiry exactly as requested, with the fee as given in the transaction if the caller gave one and otherwise as an effective fee of the block. It follows the ICRC-3 schema, uses only the block types the ledger lists as supported, and never claims something the caller did not ask for.",
["inputs"],"All requests of all kinds, with every combination of optional fields.",
"The schema test covers hand-generated transactions, not those that endpoints produce.",[S,M],
[("Transaction::to_value, Block::to_value",S+": to_value"),("effective_fee",S+": effective_fee, process_transaction"),("supported block types",M+": icrc3_supported_block_types")],None,["icrc3_get_blocks","icrc3_supported_block_types"])

P("C21","No input can corrupt the ledger or make it stop serving",
"Whatever bytes, candid values, numbers, memos, principals or HTTP requests are sent to any endpoint, the message is answered or cleanly refused and the ledger's state afterwards is the one it was in or the one a valid request gives. Every query endpoint keeps answering in every reachable state.",
["inputs"],"Arbitrary byte strings, mutated valid messages, and typed arguments at their extremes, for all endpoints, in generated states.",
UT+"sends a message to an endpoint.",[M,S,E],
[("conversions of Nat to u64/u128",M+": endpoints"),("validate_memo",  "cycles-ledger/src/memo.rs: validate_memo"),("http_request",M+": http_request")],None,["every endpoint"])

P("C22","Accounts are kept apart, and are the same however they are spelled",
"Two accounts share balance, allowances, blocks and listings if and only if they have the same owner and the same effective subaccount: no other pair of accounts, however alike in their bytes, is ever mixed up. The default subaccount left out and spelled as 32 zero bytes is one account in every request and query.",
["inputs","histories"],"All owners of 1 to 29 bytes and all subaccounts, in particular families of accounts that differ in one bit, or whose owner is prolonged, shortened, or runs on in the subaccount.",
"One test round-trips single random accounts through their compact form; none looks at two accounts side by side.",[S,"cycles-ledger/src/compact_account.rs",M],
[("to_account_key",S+": to_account_key"),("compact accounts in blocks","cycles-ledger/src/compact_account.rs: encode, decode"),("approval keys",S+": State.approvals"),("range start of listings",S+": get_allowances")],
[("balances","by account key",S+": State.balances"),("approvals","by pair of account keys",S+": State.approvals")],["icrc1_balance_of","icrc2_allowance","icrc103_get_allowances","icrc3_get_blocks"])

P("C23","Metrics are truthful and memory for expired things is reclaimed",
"The figures served at /metrics (transactions, total supply, sizes of the allowance, expiry and deduplication tables, canister balance) equal the true state at every moment, the log is served at /logs, and other paths give nothing. Expired allowances and transactions out of the deduplication window are removed as requests come in, and nothing live is removed with them, so these tables stay bounded.",
["histories"],"All histories with expiries, replacements and time steps.",
"Two tests prune hand-made tables; metrics are not tested.",[M,S],
[("encode_metrics",M+": encode_metrics, encode_state_metrics"),("prune",S+": prune, prune_approvals, prune_transactions")],
[("transaction_timestamps","by creation time",S+": State.transaction_timestamps")],["http_request /metrics","http_request /logs"])

P("C24","Installation creates what it is asked for, and nothing else",
"Installing with init arguments credits exactly the given initial balances, one mint block per entry in the order given and stamped with the time of installation, and takes exactly the given configuration; entries for one account add up, and the supply is the sum of all. If the balances do not fit, or the arguments are not init arguments, nothing is installed. A freshly installed ledger keeps every promise of one with a history, from its log and certified tip to its first upgrade.",
["inputs","configurations"],"All lists of initial balances (none, empty, repeated accounts, amounts up to 2^128-1 and sums beyond), configurations, and arguments of other kinds, followed by short histories.",
UT+"installs a canister.",[M,S,CF],
[("init",M+": init"),("initial mints",S+": mint"),("configuration",CF+": Config; "+S+": State.config")],None,["result of the installation","icrc1_balance_of","icrc3_get_blocks","icrc1_metadata"])

P("C25","Fee, metadata and configuration are reported truthfully and enforced",
"icrc1_fee, icrc1_metadata and the name, symbol, decimals, standards, minting account and index endpoints agree with each other, with the configuration and with what is charged, in every state and after every upgrade. A request that states any other fee than the one charged is refused with BadFee and the true fee, whatever else may be wrong with its amount.",
["inputs","configurations"],"All fee values including those that agree with the fee only modulo 2^64 or 2^128, all amounts, all configurations.",
UT+"compares metadata with behaviour.",[M,CF,S],
[("icrc1_metadata and siblings",M+": icrc1_metadata, icrc1_fee, icrc106_get_index_principal"),("BadFee checks",M+": execute_transfer, icrc2_approve")],None,["icrc1_fee","icrc1_metadata","replies"])

P("C26","A deposit credits what arrives less the fee, or keeps nothing",
"A deposit accepts all attached cycles, credits the named account with them less the fee, records a mint with the memo, and returns the new balance and block index. A deposit that cannot be credited (too small, memo too long, bad account) accepts no cycles at all.",
["inputs"],"All attached amounts from 0 to 2^127, all accounts and memos.",
UT+"makes a deposit.",[M,S],
[("deposit",M+": deposit"),("mint",S+": deposit, mint")],None,["deposit reply","accepted cycles","icrc3_get_blocks"])

D="depositor/src/main.rs"; FC="fake-cmc/src/main.rs"
P("C27","The depositor passes deposits on to its ledger exactly as asked",
"For every request the depositor makes exactly one call, to the deposit endpoint of the ledger it was installed for, with exactly the cycles, account and memo asked for, and answers with exactly what that ledger answered, whatever other deposits are under way. If the call cannot be made, is rejected or is answered with something that is no deposit result, no success is reported, and cycles that come back stay with the depositor.",
["inputs","schedules","fault_sequences"],"All amounts, accounts and memos, all interleavings of deposits with their answers, all answers and rejections.",
"The depositor is only run by integration tests that need PocketIC.",[D,"depositor/src/endpoints.rs","depositor/src/lib.rs"],
[("deposit",D+": deposit"),("configuration",D+": init, CONFIG")],None,["outgoing call","reply","cycle balance"])

P("C28","The stand-in CMC fails as told, creates otherwise, and keeps what it says",
"With less than 100 billion cycles attached, create_canister on the stand-in (fake-cmc) keeps nothing, calls nobody and says it refunded all. After fail_next_create_canister_with, exactly the next creation fails, with exactly the given error, and keeps all cycles but the refund named in it (all of them if the refund is said to have failed). Any other creation keeps all cycles and passes them with the settings asked for to the management canister, again for as long as the id is taken, answers with the new canister's id, and last_create_canister_args tells the arguments of the last attempt.",
["inputs","schedules","fault_sequences"],"All attached amounts around the threshold, settings, told failures, interleavings of creations with answers.",
"The stand-in is only run by integration tests that need PocketIC; what those say about the ledger rests on it.",[FC,"fake-cmc/src/lib.rs"],
[("create_canister",FC+": create_canister"),("told failures",FC+": fail_next_create_canister_with; fake-cmc/src/lib.rs: State")],None,["outgoing call","reply","accepted cycles"])
P("C29","What else the ledger holds changes neither an answer nor its cost",
"However many other accounts, blocks, approvals and remembered requests the ledger holds, a request is answered exactly as it would be without them (block indices and totals apart), and queries find every block and allowance there is. The work one message takes, in accesses to stable memory and allocations, stays bounded by what it asks for and does not grow with all those, ended approvals that are still to be removed included. Only an upgrade, with the first message after it, may go through all balances.",
["histories","inputs"],"All requests and queries, on ledgers of any size.",
UT+"makes a ledger of more than some hundred entries or looks at the cost of a message.",[S,M],
[("prune limits",S+": prune, prune_approvals, prune_transactions"),("pages",S+": get_blocks, get_allowances"),("cached supply and hash",S+": Cache")],
[("cache","total supply and parent hash, kept up to date instead of computed",S+": State.cache")],["replies","accesses to stable memory"])
P("C30","A block keeps its meaning through every form the ledger gives it",
"Every block, whatever its operation, accounts, amounts, memo and optional fields, has as its value exactly the ICRC-3 map the standard and the ledger's conventions ask for, hashes to that value's representation-independent hash (its transaction likewise, which is what a request is remembered under), and comes back unchanged from its value and from the bytes the log holds. A value that is not a block's (a required field missing, an unknown operation, a malformed account or hash, a number out of range) is refused with an error, never read as some block and never a panic. Between CBOR and generic values every value either converts and comes back the same or is refused, and anything nested too deep is refused.",
["inputs"],"All operations with all combinations of fields, accounts (owners of 0 to 29 bytes, with and without subaccount), numbers up to 2^128-1 and memos of any length; values that differ from a block's in one place; CBOR and generic values of any shape and depth.",
"The unit tests convert random blocks with owners of 29 bytes, memos of 32 bytes and nearly always huge numbers there and back with the same code; they know no expected value or hash, and try nothing that is not a block.",[S,LB,"cycles-ledger/src/compact_account.rs",CF],
[("block to value and back",S+": Block::to_value, Block::from_value, Transaction::to_value"),("stored form",S+": Cbor, FlattenedTransaction; cycles-ledger/src/compact_account.rs"),("fingerprints",S+": Block::hash, Transaction::hash"),("generic values",LB+": ciborium_to_generic_value, generic_to_ciborium_value")],None,["the library's conversions"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
import jsonschema
sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in L: jsonschema.validate(x,sc)
import re
for x in L:
    n=len(re.findall(r'\.(\s|$)',x["statement"]))
    if n>3: print(x["id"],n)
print(len(L))
