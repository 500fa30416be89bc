PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    m = {"not_applicable": na} if na else {"note": note}
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, "manifest": m})


P("C01", "Textual identifiers are canonical and lossless",
  "Every address, token id, hash and consensus-group id survives conversion to its text and JSON form and back. A text is accepted only if it is the text of exactly the value it is read as (hex letter case aside), so mistyped checksums, wrong kinds and wrong lengths are rejected and never silently become another identifier.",
  ["inputs"], "every byte value of every identifier, and every candidate text of the documented length (all other lengths up to a bound)",
  "tests convert a handful of literal addresses; the checksum and kind-flag logic is decided over all 2^168 address bodies and all texts only symbolically",
  ["common/types/address.go", "common/types/token.go", "common/types/hash.go", "common/types/gid.go"],
  [("address text codec", "common/types/address.go HexToAddress, IsValidHexAddress, Hex"), ("token text codec", "common/types/token.go HexToTokenTypeId"), ("hash and gid text codecs", "common/types/hash.go, common/types/gid.go")],
  "all identifier bytes symbolic; blake2b of symbolic data as a collision-free function; texts of the exact length fully symbolic, other lengths to 2x")

P("C02", "An account block's hash commits to every consensus-relevant field",
  "Two account blocks have the same hash exactly when they agree on their kind of transfer, position in the chain, account, destination, amount, token, source block, data, fee, log hash, nonce and inner sends; no field and no presence or length of an optional field can be altered without changing it. The hash of a block sent from inside a receive also commits to the host block and its index.",
  ["inputs"], "every pair of blocks, all fields symbolic, for each combination of optional parts",
  "tests compute the hash of fixed blocks; whether some pair of different blocks collides is a statement about all pairs",
  ["interfaces/core/account_block.go"],
  [("block hash", "interfaces/core/account_block.go ComputeHash, hashSourceV2"), ("send hash", "interfaces/core/account_block.go ComputeSendHash")],
  "all fixed-size fields, heights and amounts fully symbolic; data lengths 0..37 sampled, up to 2 inner sends; digest collision freedom assumed")

P("C03", "A snapshot block's hash commits to its content independently of map order",
  "Two snapshot blocks have the same hash exactly when they agree on previous hash, height, timestamp, seed commitment, version data and the full set of confirmed account heads. The hash never depends on the iteration order of the confirmed set or on uncommitted fields, serialisation loses nothing, and a seed commitment binds seed, previous hash and time.",
  ["inputs", "schedules"], "every pair of snapshot blocks with bounded content size, every map iteration order",
  "map iteration order and the set of all block pairs cannot be sampled exhaustively; tests hash single blocks",
  ["interfaces/core/snapshot_block.go"],
  [("snapshot hash", "interfaces/core/snapshot_block.go ComputeHash"), ("content serialisation", "interfaces/core/snapshot_block.go SnapshotContent"), ("seed commitment", "interfaces/core ComputeSeedHash")],
  "content of up to 2 (quick) or 3 (thorough) accounts with symbolic addresses, heights and hashes; every iteration order; both sides of the fork that changed the hash")

P("C04", "Stored ledger records decode to what was stored",
  "Every account block, contract record, hash-height pair and log list that is serialised and read back is equal to the original in every field that belongs to its type, at any nesting of inner sends. A copy of a block is equal to it and shares no mutable state with it, and the log hash binds every topic and data byte.",
  ["inputs"], "every record with all fields symbolic and bounded nesting",
  "round trips are tested on one sample per type; nil/empty/zero combinations and nested sends are not",
  ["interfaces/core/account_block.go", "interfaces/core/vm_log_list.go", "interfaces/core/contract_meta.go", "interfaces/core/hash_height.go"],
  [("block codec", "interfaces/core/account_block.go Proto, DeProto, Serialize, Deserialize"), ("copy", "interfaces/core/account_block.go Copy"), ("log codec and hash", "interfaces/core/vm_log_list.go"), ("contract meta codec", "interfaces/core/contract_meta.go")],
  "protobuf's wire codec is replaced by an identity model on the generated message structs; everything the repository adds around it is executed; nesting depth 2, list length 2")

P("C05", "Ledger database keys never collide and sort in height order",
  "Within one ledger database, two keys are equal exactly when they are of the same kind and name the same thing, so no write of one record can overwrite another. Keys that end in a height sort numerically, a prefix scan over an account's storage finds exactly that account's entries with that prefix, and a block location survives storage and compares in file order.",
  ["inputs"], "every pair of keys of every kind, all components symbolic, storage keys of every length from 0 to 32",
  "collisions between key kinds depend on byte layouts of arbitrary values; no test compares kinds",
  ["ledger/chain/utils/generate_key.go", "ledger/chain/utils/keys_index_db.go", "ledger/chain/utils/keys_state_db.go", "ledger/chain/utils/conversion.go", "ledger/chain/file_manager/location.go"],
  [("key constructors", "ledger/chain/utils Create*Key"), ("key refill", "ledger/chain/utils *KeyRefill"), ("location codec", "ledger/chain/utils SerializeLocation")],
  "all fixed-width components fully symbolic; storage key lengths chosen from the boundary set")

P("C06", "Block production slots tile time and admit only the scheduled producer",
  "Periods of a consensus group tile time from genesis without gaps or overlap, and each period's plan gives every elected member the same number of disjoint slots in member order inside the period. A block at a given time is accepted from exactly the member whose slot starts at that time, and the election of a period reads the snapshot chain before a proof time that precedes the period.",
  ["inputs"], "every period of the chain's first decades, every genesis time, every number of members up to one more than the group allows, every block time in the period",
  "tests check one plan at fixed times; off-by-one errors in slot boundaries and rounding show at particular instants only",
  ["ledger/consensus/core/group.go", "ledger/consensus/core/time_index.go", "ledger/consensus/consensus_verifier.go", "ledger/consensus/consensus_snapshot.go"],
  [("time to period", "ledger/consensus/core Time2Index, Index2Time"), ("slot plan", "ledger/consensus/core GenPlanByAddress"), ("producer check", "ledger/consensus VerifyProducers, VerifySnapshotProducer"), ("proof time", "ledger/consensus GenProofTime")],
  "six group shapes including the production ones; genesis and period index symbolic; whole seconds")

P("C07", "Elections are deterministic and follow votes and success rate",
  "A candidate's weight is the sum of the confirmed balances of exactly its voters, and the elected members are distinct candidates, at most one per place, taken from the highest-weighted range with ties broken by name. The result and its shuffled order are the same on every node regardless of the order in which candidates, balances and rates are read; a top candidate is passed over only when its production rate is below the line, at most two are, worst first, in favour of candidates above the line.",
  ["inputs", "schedules"], "every assignment of balances and rates to bounded candidate sets, every draw of the seeded generator, every reading order and map iteration order",
  "ties, equal rates and map orders are rare in tests and a nondeterministic election only shows across nodes",
  ["ledger/consensus/core/algo.go", "ledger/consensus/core/vote.go", "ledger/consensus/core/group.go"],
  [("vote count", "ledger/consensus/core CalVotes"), ("filter", "ledger/consensus/core FilterVotes, filterBySuccessRate, calRandCandidate"), ("shuffle", "ledger/consensus/core ShuffleVotes")],
  "up to 4 candidates and 3 places (one more in thorough), balances of 64 bits, rates symbolic in their whole range; the seeded generator is any deterministic function of its seed")

P("C10", "Contract VM arithmetic is exact 256-bit arithmetic",
  "Every arithmetic, comparison, bitwise and shift instruction of the contract VM leaves the mathematically exact result modulo 2^256 (two's complement for signed ones, zero for division by zero), consumes exactly its operands and leaves the rest of the stack untouched. The result is the same whatever recycled integers the interpreter's pools hand out.",
  ["inputs"], "every pair or triple of 256-bit operands for each instruction (products, quotients and powers in stated shapes), both sides of the upgrade that added instructions",
  "tests evaluate a few literal vectors per instruction; boundary words (sign bits, shift amounts near 256, zero divisors) are a vanishing fraction of the operand space",
  ["vm/instructions.go", "common/helper/math.go", "vm/util/int_pool.go"],
  [("instructions", "vm/instructions.go opAdd..opSAR"), ("word arithmetic", "common/helper BigU256, S256, Exp"), ("integer pool", "vm/util IntPool")],
  "operands fully symbolic for linear, bitwise, comparison and shift instructions; multiplication, division, mulmod and exponentiation with operands in small signed shapes or powers of two")

P("C11", "Contract code runs safely, within its quota, on exactly its own state",
  "Whatever bytes a contract's code, call data and stack hold, executing it never panics, never yields more quota than granted and charges something for every continuing instruction; jumps land only on real jump destinations, undefined instructions and short stacks fail. Memory, stack, storage, code, call-data, log and call instructions read and write exactly the addressed bytes (zero beyond the end, memory grown in whole words), and code that can observe the snapshot chain is always recognised as such.",
  ["inputs"], "every instruction byte with operands that are small, huge or missing; every memory word, call data, topic, target, token and amount; every jump destination in arbitrary short code and in code with any push at any alignment",
  "tests run hand-written programs; offsets at word boundaries or beyond 64 bits, pushes that straddle the code end and malformed programs are what an attacker sends",
  ["vm/interpreter.go", "vm/instructions.go", "vm/memory.go", "vm/memory_table.go", "vm/gas_table.go", "vm/stack.go", "vm/analysis.go", "vm/contract.go"],
  [("interpreter loop", "vm/interpreter.go runLoop"), ("memory", "vm/memory.go, vm/memory_table.go"), ("quota of instructions", "vm/gas_table.go"), ("jump destinations", "vm/analysis.go"), ("instructions", "vm/instructions.go opMload..opCall2")],
  "single instructions and short programs around them; memory offsets up to 70 and sizes 0..100 or at least 2^63; code of 4 arbitrary bytes or 48 bytes with one push")

P("C13", "Uncommitted execution state overlays the ledger exactly and reverts completely",
  "While a block executes, reads of storage, balances, code and contract records see its own latest writes over the committed state, deletions hide committed entries, and iteration in either direction visits exactly the merged entries of a prefix in key order. A reset discards every effect including logs, and what is finally handed over for commitment is the last write of each touched key and balance, with a state hash that depends on the writes and not on their order.",
  ["inputs", "histories"], "every sequence of a few writes, deletions, balance and log operations and resets over every committed state of a few keys; every walk over two merged layers",
  "tests write then read a few keys; combinations of deletion, re-creation, prefix overlap, reset and changes of direction are not sampled",
  ["vm_db/unsaved.go", "vm_db/storage.go", "vm_db/balance.go", "vm_db/state.go", "vm_db/storage_iterator.go", "common/db/merged_iterator.go", "common/db/xleveldb/memdb/memdb.go"],
  [("overlay", "vm_db/unsaved.go"), ("merged iteration", "common/db/merged_iterator.go"), ("state hash", "vm_db/state.go GetReceiptHash"), ("reset", "vm_db/unsaved.go Reset")],
  "4 keys with prefix overlap, 2-3 operations, symbolic values; merged walks over 3 keys in two layers with every membership, deletion and turn")

P("C12", "Executing a block conserves value; failed execution is undone and refunded",
  "A transfer or contract creation is accepted exactly when its parameters are valid and the sender can pay amount, fee and quota, and takes exactly that; a receive adds exactly the sent amount. Whatever a contract does while receiving, for each token what it had plus what came in equals what it keeps plus what it sends out, no balance is ever negative, and a failed execution leaves no storage, log, code or transfer behind and returns amount and fee to the caller; a request short of quota is either left to be retried or failed with nothing used.",
  ["inputs", "histories"], "every balance, amount, fee and quota grant, for each kind of block and contract program shape",
  "tests use literal balances; conservation is a statement over all amounts, both tokens, every failure point and refund combination",
  ["vm/vm.go", "vm/util/quota.go", "vm_db/balance.go"],
  [("send", "vm/vm.go sendCall, sendCreate"), ("receive", "vm/vm.go receiveCall, receiveCreate, receiveRefund"), ("refund", "vm/vm.go doRefund, revert"), ("quota accounting", "vm/util/quota.go CalcQuotaUsed")],
  "one block on one account with two tokens; amounts of 96 bits; contract code in seven shapes (store, log, transfer, revert, invalid)")

P("C14", "ABI encoding is lossless and decoding of arbitrary data is safe",
  "Packing arguments of the supported elementary types, byte strings and arrays gives exactly the specified ABI words, and unpacking them gives back equal values in the right fields (a negative 256-bit number as its residue); events split the same way into topics and data. Arbitrary bytes never make decoding panic: they decode to exactly the values the layout states, or are refused when a word, offset or length points outside the data or a boolean is not 0 or 1, and call data is taken for a method exactly when its first four bytes are that method's id.",
  ["inputs"], "every value of every elementary type, alone and in mixed argument lists; every byte string of bounded length as input to the decoder",
  "call data comes from anyone; offsets and lengths that overflow or point just past the end are chosen by attackers, not by tests",
  ["vm/abi/argument.go", "vm/abi/pack.go", "vm/abi/unpack.go", "vm/abi/type.go", "vm/abi/event.go", "vm/abi/abi.go", "vm/abi/reflect.go"],
  [("pack", "vm/abi/argument.go Pack, vm/abi/pack.go"), ("unpack", "vm/abi/unpack.go toGoType, lengthPrefixPointsTo, forEachUnpack"), ("struct mapping", "vm/abi/reflect.go"), ("events", "vm/abi/event.go"), ("selectors", "vm/abi/abi.go MethodById, UnpackMethod")],
  "elementary types alone and five mixed lists; decoder input up to 100 arbitrary bytes")

P("C15", "The ledger cache mirrors the ledger through every history",
  "After any history of inserted account blocks, snapshots and rollbacks, the chain's in-memory answers are those of the ledger: the latest snapshot, the unconfirmed blocks (all and per account, in order), the latest account blocks, and no deleted block is found any more. The quota used per account and in total over the window of recent snapshots, which decides what an account may still spend, is exactly what the confirmed and unconfirmed blocks in the window used.",
  ["inputs", "histories"], "every sequence of a few insertions, snapshots confirming any part of the open blocks, block deletions and snapshot rollbacks of any depth, with every quota figure",
  "the accumulated figures drift only after particular sequences, such as a rollback deeper than the window followed by new snapshots; tests do not roll back",
  ["ledger/chain/cache/cache.go", "ledger/chain/cache/quota_list.go", "ledger/chain/cache/unconfirmed_pool.go", "ledger/chain/cache/hot_data.go", "ledger/chain/cache/dataset.go"],
  [("quota window", "ledger/chain/cache quotaList"), ("unconfirmed pool", "ledger/chain/cache UnconfirmedPool"), ("hot data", "ledger/chain/cache hotData, dataSet")],
  "two accounts, a quota window of 3 snapshots, 4 operations after a start with up to 5 snapshots")

P("C09", "Quota is earned by stake or work exactly as priced and never over-granted",
  "A stake earns a quota per snapshot exactly when it is at least the amount asked for it, the difficulty asked for a quota earns it and no smaller one does, and the more the whole chain is used the less either earns. What an account may spend is what the window of recent snapshots earned less what was used in it, never negative and at most the limit of a block; work counts once per snapshot and only when its hash reaches the target, a contract that ran out waits, and no cost or multiplier wraps around.",
  ["inputs"], "every stake, difficulty, chain use, window of use, cost, multiplier, nonce and hash",
  "prices are tables of thousands of thresholds and the window is a saturating sum; tests sample a few entries",
  ["vm/quota/quota.go", "vm/quota/params.go", "vm/util/quota.go", "pow/pow.go"],
  [("stake and work quota", "vm/quota/quota.go GetQuota, GetQuotaForBlock, CalcStakeAmountByQuota, CalcPoWDifficulty"), ("congestion", "vm/quota/quota.go CalcQc"), ("window", "vm/quota/quota.go calcQuotaTotal"), ("costs", "vm/util/quota.go"), ("proof of work", "pow/pow.go CheckPowNonce, MapPowNonce")],
  "stakes below 2^128, windows of 3 snapshots, the target of a difficulty arbitrary (floating-point conversion not encoded)")

P("C08", "Production statistics and elections depend only on the current chain",
  "Whatever was asked before and however the snapshot chain was rolled back and regrown, the statistics of a period, hour or day count exactly the blocks made and slots planned in it on the current chain, span exactly its blocks, and a day carries the votes at its last block; success rates are made over planned in the last 48 periods. Elections answered from caches equal those of a fresh node on the same chain, contract blocks are accepted from exactly the elected, and stored points and elections are read back equal under their own key.",
  ["inputs", "histories"], "every short history of blocks at any instant, questions that fill the caches, rollbacks of any depth and regrowth",
  "a stale cache entry shows only when a question precedes a rollback that replaces blocks in the same period; tests ask once",
  ["ledger/consensus/consensus_point_array.go", "ledger/consensus/chain_rw.go", "ledger/consensus/consensus_snapshot.go", "ledger/consensus/consensus_contract_dpos.go", "ledger/consensus/rollback_proof.go", "ledger/consensus/cdb/point.go", "ledger/consensus/cdb/consensus.go"],
  [("linked arrays", "ledger/consensus/consensus_point_array.go linkedArray, periodLinkedArray"), ("success rate", "ledger/consensus/chain_rw.go GetSuccessRateByHour"), ("election caches", "ledger/consensus chainRw vote caches"), ("points", "ledger/consensus/cdb Point")],
  "up to 3 snapshots, one rollback and 1-2 more snapshots; periods of two slots")

P("C16", "Tokens are minted and burned only by right, and supply accounts for every unit",
  "A token's recorded supply grows by exactly what its owner has minted for it and shrinks by exactly what was burned, never beyond its maximum; only the owner of a re-issuable token can mint, hand over or freeze it, and only the owner can burn where burning is reserved. A refused request changes nothing and returns what was sent, a new token gets an unused id and index and carries exactly the requested properties, and what the queries report is what is on record.",
  ["inputs"], "every token record, caller, amount and era; one request of every kind through send, receive and response",
  "tests issue a fixed token and mint once; sums near the maximum, foreign callers and frozen tokens at every amount are not sampled",
  ["vm/contracts/contracts_asset.go", "vm/contracts/abi/abi_asset.go", "vm/vm.go"],
  [("issue", "vm/contracts/contracts_asset.go MethodIssue"), ("mint and burn", "vm/contracts/contracts_asset.go MethodReIssue, MethodBurn"), ("ownership", "vm/contracts/contracts_asset.go MethodTransferOwnership, MethodDisableReIssue"), ("token records", "vm/contracts/abi/abi_asset.go")],
  "one request on an arbitrary token state; supply and maximum to 200 bits")

P("C17", "Stakes stay their staker's, locked until due and counted for the beneficiary",
  "What is staked for quota is recorded for its staker and counted for its beneficiary, and only its staker (or the agent recorded for it) gets it back, at most what is there and not before its lock ends. After any request every beneficiary's staked total equals the sum of the stakes recorded for it, other stakes are untouched, a refused request changes nothing and returns what was sent, and a stake with callback is answered with its outcome.",
  ["inputs"], "every pair of stakes on record, caller, beneficiary, amount and height; one request of every kind",
  "tests stake and cancel one amount; partial cancellation, equal ids, foreign agents and heights at the lock boundary are not sampled",
  ["vm/contracts/contracts_quota.go", "vm/contracts/abi/abi_quota.go", "vm/vm.go"],
  [("stake", "vm/contracts/contracts_quota.go MethodStake, MethodDelegateStake, MethodStakeV3"), ("cancel", "vm/contracts/contracts_quota.go MethodCancelStake, MethodCancelDelegateStake, MethodCancelStakeV3"), ("records", "vm/contracts/abi/abi_quota.go")],
  "two stakes on record, one request; amounts to 72 bits")

P("C18", "Block producers keep their name, stake and exact rewards; votes count once",
  "A producer name belongs to whoever staked exactly the required amount for it until revoked, a producing address serves one name only, only the owner changes or revokes a registration, and revoking after the lock returns exactly the stake, once. A withdrawal by owner or payee mints exactly the reward of the complete days that are due, by the published formula, each day once; an account has at most one vote, for an active name, until it cancels. A refused request changes nothing and returns what was sent, and every list the contract answers agrees with its records.",
  ["inputs", "histories"], "every state of a registration, caller, amount, time of registration, revocation and withdrawal to the second; one or two requests of every kind",
  "rewards depend on where several timestamps fall relative to day boundaries and to an upgrade; tests use one calendar",
  ["vm/contracts/contracts_governance.go", "vm/contracts/abi/abi_gonvernance.go", "vm/util/consensus_reader.go"],
  [("registration", "vm/contracts/contracts_governance.go MethodRegister, MethodRevoke, MethodUpdateBlockProducingAddress, MethodUpdateRewardWithdrawAddress"), ("rewards", "vm/contracts/contracts_governance.go MethodWithdrawReward, CalcReward, calcRewardByDayDetail; vm/util/consensus_reader.go"), ("votes", "vm/contracts/contracts_governance.go MethodVote, MethodCancelVote"), ("records", "vm/contracts/abi/abi_gonvernance.go")],
  "two producers, one or two requests, 3-6 days at second granularity")

P("C19", "Orders match by price then time, never beyond a limit, and settle to the unit",
  "An order trades with the best-priced and then oldest standing orders within its limit, at their price, for all that both want, and stops when satisfied; a post-only order never takes, a fill-or-kill order fills completely or leaves no trace, an immediate or market order never stays in the book. Every trade moves its amount to the nearest unit from what was locked, never more, fees follow the rates within what was locked, and what one side pays is what the other side and the fees get. Whenever an order is closed or cancelled exactly the unspent rest is returned once, and the book holds exactly the open orders with what was executed of each.",
  ["inputs", "histories"], "every kind and side of order, all quantities, standing orders at equal, better and worse prices, repeated partial executions with rounding, tokens of different precision, self trades",
  "rounding, clamping to the locked amounts and dust interact over several partial executions; tests use a handful of amounts",
  ["vm/contracts/dex/matcher.go", "vm/contracts/dex/order.go", "vm/contracts/dex/calculator.go", "vm/contracts/dex/leveldb_book.go", "vm/contracts/dex/utils.go", "vm/contracts/dex/trade_helper.go"],
  [("matching and settlement", "vm/contracts/dex/matcher.go MatchOrder, calculateOrderAndTxAfterUpgrade12, handleRefund, handleTxFundSettle, CancelOrderById"), ("book order", "vm/contracts/dex/utils.go ComposeOrderId, leveldb_book.go"), ("amounts and fees", "vm/contracts/dex/calculator.go, matcher.go CalculateRawAmount, CalculateFeeAndExecutedFee")],
  "three orders, 4-6 bit quantities, four prices, fee rates from a list, after the newest upgrade")

P("C20", "What users keep on the exchange is always covered and only they can spend it",
  "What the exchange contract holds of every token is what it owes: what its users have free, locked in orders, locked or being unlocked as VX, being returned from stakes, and the fees and mining VX not yet handed out. A user's holdings change only by that user's own deposits, withdrawals, transfers, orders, locks and stakes, by those the user named as agent for a market, or by trades within those orders; nothing beyond the free part can be withdrawn, ordered, locked or staked, and settlements are accepted from the matching contract alone. Unlocked VX and ended mining stakes return to their owner after exactly seven periods, a stake can be ended by its owner only, and each period's dividends, operator fees and mined VX are handed out once, in full and in proportion.",
  ["inputs", "histories"], "all amounts, senders, order kinds and fee classes, and orders of deposits, withdrawals, orders, matches, cancellations, locks, stakes and period jobs",
  "several contracts pass amounts to each other over several blocks; tests follow one history each",
  ["vm/contracts/contracts_dex_fund.go", "vm/contracts/contracts_dex_trade.go", "vm/contracts/dex/account.go", "vm/contracts/dex/fund_settle.go", "vm/contracts/dex/fund_storage.go", "vm/contracts/dex/fund_stake.go", "vm/contracts/dex/fund_dividend.go", "vm/contracts/dex/fund_finish_pendings.go", "vm/contracts/dex/fund_mine.go", "vm/contracts/dex/fund_helper.go"],
  [("holdings", "vm/contracts/dex/fund_storage.go DepositAccount, ReduceAccount, updateFund, BatchUpdateFund"), ("orders and settlement", "vm/contracts/contracts_dex_fund.go PlaceOrder, PlaceAgentOrder, SettleOrdersV2, vm/contracts/dex/fund_settle.go, contracts_dex_trade.go"), ("VX, stakes and dividends", "vm/contracts/dex/fund_stake.go, fund_dividend.go, fund_finish_pendings.go, fund_mine.go, fund_settle.go DoSettleVxFunds")],
  "two to three requests of a kind per history, 4-9 bit amounts, two or three users, after the newest upgrade")

P("C21", "Pending calls reach a contract once each and in the caller's order",
  "The pool of pending calls offers a contract, for every caller with unreceived calls to it, exactly that caller's earliest unreceived call, and nothing else. Only that call may be received, whatever calls the same caller has made to other contracts and however several calls of one block are ordered. This holds after every sequence of sends, receives, rollbacks of either and restarts on the stored pool.",
  ["inputs", "histories", "crash points"], "all sequences of sends by users and contracts, receives, rollbacks and restarts, with all heights",
  "the pool is updated incrementally over a whole history; its tests insert one batch",
  ["ledger/onroad/pool/contract_pool.go", "ledger/onroad/pool/storage.go"],
  [("pool", "ledger/onroad/pool/contract_pool.go InsertAccountBlocks, DeleteAccountBlocks, GetFrontOnRoadBlocksByAddr, IsFrontOnRoadOfCaller"), ("stored queue", "ledger/onroad/pool/storage.go insertOnRoadTx, deleteOnRoadTx, getFirstOnroadTx")],
  "three steps (thorough four), two contracts, three callers")
