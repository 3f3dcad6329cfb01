#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

APP="shuttermint/app/"
p("E01","Encrypted transactions stay secret until they can no longer be answered, then run",
  "In a whole instance - keypers running the keyper command, the keyper chain, the contracts, users encrypting to the key the keypers announced - no correct keyper gives up its share of a batch's secret while the batch still takes transactions, nor for batches of configs it is not a keyper of. Batches are executed one after another, the encrypted part first, then the plain part: the encrypted part of a batch executes exactly the transactions that were properly encrypted for it, each once, and none that was garbled; the plain part executes exactly the plain transactions, in the order in which they came. The encrypted part is skipped only after the config's timeout, and never when it held proper transactions and enough keypers had been running all the time. Every closed batch is executed in the end, as long as a threshold of keypers keep running or come back: other keypers may be killed, stopped, started again or away from the beginning, one below the threshold may lie on the keyper chain, and configs may change, with keypers joining and leaving; no keyper ends by itself, and correct keypers accuse nobody. (Transactions encrypted to the key of an eon that has been replaced by another for the same batches need not be executed; with the published cryptographic library the system is built with, one encrypted for another batch may be executed as arbitrary bytes.)",
  ["inputs","schedules","crash_points","fault_sequences","histories"],"every schedule of keypers, blocks, users, stops and restarts, every set of keypers and threshold, every sequence of configs",
  "The tests never run a keyper, let alone several with both chains.",
  ["shuttermint/keyper","shuttermint/app","shuttermint/cmd/keyper.go","contracts"],
  [("Keyper.Run, Decider, runenv","shuttermint/keyper, shuttermint/keyper/fx"),("MainChain, Shutter views","shuttermint/keyper/observe"),("ShutterApp","shuttermint/app/app.go")],None,["messages and transactions of keypers, calls that reach the executor contract"])
p("A01","A new keyper set takes effect only by a threshold vote of the current one",
  "On the keyper chain a new batch config becomes current only once at least the current config's threshold of distinct current keypers have each voted for exactly that config, each keyper voting at most once per decision; it must name at least one keyper, no keyper twice, a threshold between 1 and the number of keypers, a start batch not before the current one and a higher config index. A vote that violates any of this is rejected without any effect, an accepted config is announced exactly once with exactly the voted contents, and the next decision starts with no votes.",
  ["histories","inputs"],"every sequence of transactions from any senders with any contents (including out-of-range 64-bit numbers, malformed addresses, duplicate and conflicting votes)",
  "Existing tests call the voting helpers and addConfig with a couple of hand-written configs; no test delivers config votes as transactions, votes across two successive decisions, or uses extreme thresholds.",
  [APP+"app.go",APP+"configvoting.go",APP+"voting.go","shuttermint/keyper/shutterevents/batchconfig.go"],
  [("deliverBatchConfig/checkConfig/addConfig",APP+"app.go"),("one vote per sender, outcome at threshold",APP+"configvoting.go, voting.go"),("EnsureValid / BatchConfigFromMessage","shuttermint/keyper/shutterevents/batchconfig.go")],
  [("Configs","accepted configs, last is current",APP+"types.go"),("ConfigVoting","open votes",APP+"types.go")],["DeliverTx response code and events"])
p("A02","A config starts, and validators change, only with enough attestations",
  "The newest config, unless it was voted in as already started, is started only at the end of a block in which at least the preceding config's threshold of distinct keypers of the preceding config have attested the start of that very config; attestations for anything else are rejected or do not count. The validator set handed to consensus is at all times that of the latest config that, at some block end while it was the newest, was started and had at least its threshold of keypers checked in, with equal power per keyper, power of keypers that have not checked in held by a placeholder, and each block's updates transform the previous set exactly into the new one.",
  ["histories","inputs"],"every interleaving of config acceptance, start attestations, check-ins and block ends, over any number of successive configs",
  "Tests check the power map helpers on single examples; no test runs EndBlock over several configs or leaves attestations pending across a config change.",
  [APP+"app.go",APP+"powermap.go"],
  [("deliverBatchConfigStarted, EndBlock, CurrentValidators",APP+"app.go"),("DiffPowermaps/ValidatorUpdates",APP+"powermap.go")],
  [("StartedVotes","attestations for the newest config",APP+"types.go"),("Validators","validator powers consensus was told",APP+"types.go")],["EndBlock validator updates"])
p("A03","Only authentic, fresh transactions for this chain take effect, exactly once",
  "A delivered transaction has an effect only if it decodes, carries the signature of the keyper it acts for, names this chain and uses a nonce that sender has not used before in a delivered transaction; all others are rejected with an error and change nothing. No byte string, however malformed, crashes the application, and every transaction acts in the name of its signer and no one else.",
  ["inputs","histories"],"every byte string delivered as a transaction at any point of any history, including bit flips, truncations, replays, cross-chain replays and re-signed payloads",
  "Tests cover signing of one message and the nonce tracker in isolation; DeliverTx is never fed replays, wrong-chain or corrupted transactions.",
  [APP+"app.go",APP+"noncetracker.go","shuttermint/shmsg/encode.go",APP+"messages.go"],
  [("decodeTx, DeliverTx chain id and nonce checks",APP+"app.go"),("SignMessage/GetSigner/GetMessage","shuttermint/shmsg/encode.go")],
  [("NonceTracker","used nonces per sender",APP+"types.go")],["DeliverTx response code, events, subsequent behaviour"])
p("A04","The mempool admits only members' fresh transactions, at most ten per block",
  "Between two commits the mempool check admits a transaction only if it is authentic, names this chain, its nonce was used neither in a delivered transaction nor in one already admitted in this interval, its sender is a keyper of some accepted config, and fewer than ten transactions of that sender were admitted in this interval; every transaction meeting all this is admitted. Checking never changes the replicated state, and each commit opens a fresh interval.",
  ["histories","inputs"],"every interleaving of mempool checks with delivered transactions, commits, config changes and restarts",
  "Tests exercise the check state struct alone; they never interleave CheckTx with DeliverTx, Commit, config changes or a reload.",
  [APP+"app.go",APP+"checktx.go"],
  [("CheckTx",APP+"app.go"),("CheckTxState.AddTx/Reset/SetMembers",APP+"checktx.go")],
  [("CheckTxState","per-interval admission counters and members",APP+"types.go")],["CheckTx response code"])
p("A05","The keyper chain application is a deterministic, crash-safe state machine",
  "All replicas that execute the same blocks give identical responses (codes, events with attributes, validator updates in order) for every transaction and block, regardless of their mempool traffic, wall clock or how often they saved state. A replica that stops at any point and restarts from its last saved file reports the height of a block whose effects are exactly contained in its state, and after re-executing the following blocks is indistinguishable from one that never stopped.",
  ["histories","crash_points","schedules"],"every block history, every crash point (between any two calls, before or after any save, during a save), every pattern of saves and mempool checks",
  "One test saves and loads a fresh application; nothing compares replicas, restarts with populated state, or crashes inside a block or a save.",
  [APP+"app.go",APP+"types.go",APP+"powermap.go"],
  [("PersistToDisk (temp file + rename), LoadShutterAppFromFile, Info",APP+"app.go"),("SortValidators",APP+"powermap.go")],
  [("LastBlockHeight","height of last executed block",APP+"types.go")],["all ABCI responses, state file"])
p("A06","Key generation messages are relayed once, only from keypers, and faithfully",
  "A key generation message is accepted if and only if it is well-formed, belongs to a started eon, its sender and everyone it addresses are keypers of that eon, nobody is addressed twice or by themselves, and the sender has not already sent that kind of message for that eon (for encrypted evaluations: to that receiver). An accepted message is published as exactly one event from which every keyper decodes exactly the sender, eon, addressees and contents sent; a rejected one publishes nothing and does not influence later acceptance.",
  ["histories","inputs"],"every sequence of evaluation, commitment, accusation and apology messages from any sender to any eon, well-formed or not",
  "Tests register a few messages on a single instance by direct calls and encode single events; no test checks that a rejected multi-receiver message leaves no trace, or drives messages through transactions into decoded events.",
  [APP+"app.go",APP+"dkg.go",APP+"messages.go","shuttermint/keyper/shutterevents/events.go","shuttermint/keyper/shutterevents/marshal.go"],
  [("Register*Msg",APP+"dkg.go"),("Parse*Msg",APP+"messages.go"),("MakeABCIEvent/MakeEvent","shuttermint/keyper/shutterevents")],
  [("DKGMap","per-eon seen messages",APP+"types.go")],["DeliverTx response and decoded events"])
p("A07","Eons are numbered consecutively and start exactly when they should",
  "A new eon starts exactly when a newly accepted config's keypers or threshold differ from those of the latest eon (or no eon exists), or when at least the threshold of distinct keypers of the config in charge of a batch currently vote for the same start batch; nothing else starts an eon. Eons are numbered 1, 2, 3, ... without gaps or reuse, each start is announced once with its start batch, only the latest vote of a keyper counts, and a decided vote is cleared.",
  ["histories"],"every sequence of config votes and eon start votes, with changed votes and several configs with pending votes at once",
  "One unit test counts votes in the voting helper; eon starts through transactions, re-votes, and votes pending for several configs are not tested.",
  [APP+"app.go",APP+"eonvoting.go"],
  [("ShouldStartDKG/StartDKG, deliverEonStartVoteMsg, maybeStartEon",APP+"app.go"),("EonStartVoting",APP+"eonvoting.go")],
  [("EONCounter","last eon number",APP+"types.go"),("EonStartVotings","open votes per config",APP+"types.go")],["EonStarted events"])
p("A08","Decryption signatures and key shares are relayed faithfully, once per keyper",
  "A decryption signature is accepted exactly when its sender is a keyper of the config in charge of the batch at the time the first signature for that batch was accepted and has not already had one accepted for that batch, and a well-formed epoch key share is always published. Each accepted message is published as exactly one event whose decoded contents and sender are exactly what was sent.",
  ["histories","inputs"],"every sequence of signature and share messages interleaved with config changes",
  "Unit tests add two signatures to a batch state; the transaction path, config changes between signatures and event fidelity are untested.",
  [APP+"app.go",APP+"batch_state.go",APP+"messages.go"],
  [("deliverDecryptionSignature, getBatchState, handleEpochSecretKeyShareMsg",APP+"app.go"),("AddDecryptionSignature",APP+"batch_state.go")],
  [("BatchStates","signatures per batch and the config frozen for it",APP+"types.go")],["DeliverTx response and decoded events"])

K="shuttermint/keyper/"
p("K01","A keyper's view of the keyper chain is a function of its blocks alone",
  "However a keyper's synchronisation is cut into steps, paged, delayed, retried after node errors, stopped and reloaded, its view after reaching a height contains exactly the events of all accepted transactions up to that height, each once, in chain order and with its height, and nothing from rejected transactions. Discarding data that was already processed never removes data that is still needed, and views already handed out never change.",
  ["histories","schedules","fault_sequences","crash_points"],"every chain history, every way of cutting synchronisation into windows and pages, every node error, every filter and reload point",
  "Tests cover adding single events to a view; the fetching, paging and filtering code is not run by any test.",
  [K+"observe/shutter.go",K+"shutterevents/events.go"],
  [("fetchAndApplyEvents, applyTxEvents, SyncToHead, SyncToHeight, ApplyFilter",K+"observe/shutter.go")],
  [("Shutter","the keyper's view",K+"observe/shutter.go")],["exported view fields after each sync"])
p("K02","Keypers driving key generation over the chain agree and keep to the phases",
  "For every eon, no two keypers that succeed end with different eon keys or inconsistent secret shares; if moreover fewer than the threshold misbehave and the honest keypers' messages reach the chain within their phases, the keypers that keep synchronising all finish with the same success or failure. A keyper sends each kind of key generation message at most once per eon (evaluations: once per receiver) and only while that phase is open on the chain, takes part with the keyper set the eon was started with, only accuses those whose evaluations were missing or wrong, answers every accusation against it, and restarting it from its saved state changes none of this.",
  ["schedules","crash_points","fault_sequences","histories"],"every interleaving of keyper steps and chain blocks, missed or late blocks, restarts, silent keypers, wrong or missing commitments, evaluations, accusations and apologies",
  "The driver code has no test at all; library tests run one happy path, one corrupt and one offline keyper without a chain.",
  [K+"decide.go","shlib/puredkg/puredkg.go"],
  [("handleDKGs, syncDKGWithEon, startPhase*",K+"decide.go"),("PhaseLength",K+"decide.go")],
  [("State.DKGs","per-eon key generation state",K+"decide.go")],["actions scheduled by each decision, final key generation result"])
p("K03","An epoch key is assembled only from enough verified shares, and is correct",
  "For every eon and epoch an epoch decryption key is produced exactly when valid shares from the threshold of distinct keypers of that eon have been received, in whatever order and however many invalid, duplicate or foreign shares arrive in between; the key is the one matching the eon public key and the epoch. Invalid shares, shares from non-members and repeated shares never count and never prevent completion.",
  ["inputs","schedules","histories"],"every arrival order and mix of valid, invalid, repeated, wrong-epoch and wrong-sender shares, for any threshold and key generation participants",
  "The only test feeds all valid shares in order for one configuration.",
  [K+"epochkg/epochkg.go",K+"decide.go"],
  [("HandleEpochSecretKeyShare, computeEpochSecretKey",K+"epochkg/epochkg.go"),("syncEKGs",K+"decide.go")],
  [("EpochKG.SecretKeys","assembled keys per epoch",K+"epochkg/epochkg.go")],["resulting keys"])
p("K04","A keyper never releases an epoch key share before the batch is closed",
  "A keyper releases its share of a batch's decryption key only after the last block in which transactions could be added to that batch, at most once per batch, never for batches whose config is inactive or whose execution has already timed out, and every other batch it sees closed while holding the eon key in charge of it, as a keyper, is served at once unless its decryption key is already known. This holds across restarts, long offline periods, node lag and config changes.",
  ["histories","schedules","crash_points","configurations"],"every main chain progress pattern (jumps, stalls), every config sequence, eon history and restart point",
  "No test runs the decision code.",
  [K+"decide.go","shuttermint/contract/config.go"],
  [("publishEpochSecretKeyShares",K+"decide.go")],
  [("NextEpochSecretShare","first batch not yet released",K+"decide.go")],["epoch key share messages scheduled per decision"])
p("K05","A keyper signs, once, exactly the decryption result every honest keyper computes",
  "For each non-empty encrypted batch that it can decrypt before its execution times out a keyper publishes exactly one decryption signature (none if enough keypers have signed already), only once the batch is closed and its decryption key is available, over exactly the contract, batch index, encrypted batch and the decrypted transactions in their canonical order; two honest keypers with the same chain data sign the same content. Undecryptable transactions are left out the same way by everyone.",
  ["inputs","histories","crash_points"],"every batch content (valid, malformed, foreign ciphertexts), arrival order of shares and restart point",
  "No test runs the decision code or compares two keypers' results.",
  [K+"decide.go",K+"decide.go"],
  [("sendDecryptionSignature, makeBatch*",K+"decide.go")],None,["signature messages scheduled per decision"])
p("K06","Batches execute in order, only when authorised, and by the keyper in turn",
  "A keyper attempts an execution half step only if it is the next one of the executor contract, the batch is closed, its config is active and it is not past the point where executing makes sense; an encrypted half step is executed only with the correct decrypted content backed by at least the threshold of valid distinct keyper signatures (or, if the batch is empty, none), and skipped only after its timeout plus the keyper's staggering delay. Half steps are attempted without gaps, at most once each unless rolled back, and a node that is behind never makes the keyper act.",
  ["histories","schedules","configurations","inputs"],"every chain progress, config, batch content, signature arrival and execution history",
  "No test runs the decision code.",
  [K+"decide.go"],
  [("maybeExecuteBatch, maybeExecuteHalfStep, executeCipherBatch, skipCipherBatch, executionDelay",K+"decide.go")],
  [("PendingHalfStep","next half step to attempt",K+"decide.go")],["main chain transactions scheduled per decision"])
p("K07","Keypers accuse exactly unauthorised executions and appeal wrong accusations",
  "A keyper accuses the executor of an encrypted half step exactly when the executed content differs from what its decryption of that batch yields, provided it can decrypt the batch before the batch's execution times out and nobody else has accused, once per half step, and never accuses a correct execution or a skipped step. When an accusation concerns a step for which it holds a threshold of valid signatures matching the executed content, it appeals once with exactly these signatures in keyper order.",
  ["histories","inputs","crash_points"],"every execution, skip, accusation and signature history and every order in which they become visible",
  "No test runs the decision code; contract tests are separate.",
  [K+"decide.go",K+"observe/mainchain.go"],
  [("maybeAccuse, maybeAppeal",K+"decide.go"),("syncExecutionState, syncSlashings",K+"observe/mainchain.go")],
  [("CipherExecutionReceipts","who executed what",K+"observe/mainchain.go"),("Accusations","open accusations",K+"observe/mainchain.go")],["main chain transactions scheduled per decision"])
p("K08","Keypers announce themselves, configs and eon keys exactly once, when due",
  "A keyper checks in once if and only if it is a keyper and has not been seen checked in; it votes once for exactly the next config scheduled on the main chain, votes once to restart an eon exactly when its key generation of that eon failed, and broadcasts an eon public key once when key generation succeeded. It never votes for a config that differs from the one on the main chain and does nothing for configs it has no say in.",
  ["histories","crash_points","configurations"],"every order in which main chain configs, keyper chain configs, block heights, key generation outcomes and restarts occur",
  "No test runs the decision code.",
  [K+"decide.go"],
  [("maybeSendCheckIn, maybeSendBatchConfig, maybeStartDKG, sendEonStartVote, broadcastEonPublicKey",K+"decide.go")],None,["actions scheduled per decision"])
p("K09","Scheduled actions are neither lost nor duplicated across crashes",
  "Every action a keyper decided on is either still queued, delivered, or dropped because it expired or failed permanently: a crash at any point between deciding, saving and sending loses no action and schedules no action twice. After a restart the queue continues where it was, with submitted main chain transactions still tracked and action numbers never reused.",
  ["crash_points","fault_sequences","schedules"],"every crash point in deciding, saving, sending and completing, every save failure, any number of actions",
  "Tests cover adding and removing actions in memory and one save/load; no crash points, no interplay with the keyper state file.",
  [K+"fx/pending.go",K+"fx/runenv.go",K+"keyper.go"],
  [("PendingActions AddActions/RemoveAction/Save/Load",K+"fx/pending.go"),("RunEnv.Load, handleInFlightTXs",K+"fx/runenv.go"),("runOneStep, saveState, LoadState",K+"keyper.go")],
  [("CurrentID","number of the next action",K+"fx/pending.go")],["queue file, messages and transactions sent"])
p("K10","Actions are sent in order, retried while useful, and dropped only when final",
  "Each queued action is sent until it succeeds, fails permanently or expires, keyper chain messages in the order they were decided; transient node failures never crash the keyper, lose an action or reorder messages, and stopping the keyper always ends it. A main chain transaction is submitted at most once while one submission is in flight, and an action that is expired or already pointless is never sent.",
  ["schedules","fault_sequences"],"every pattern of node errors, delays, reverts, expirations and concurrent completions",
  "No test runs the sending workers; expiry rules have no test.",
  [K+"fx/runenv.go",K+"fx/actions.go",K+"fx/messagesender.go"],
  [("RunEnv workers, sendMainChainTX, sendShuttermintMessage",K+"fx/runenv.go"),("IsExpired",K+"fx/actions.go")],None,["messages and transactions that reach the nodes"])
p("M01","A keyper's view of the main chain matches the contracts' history exactly",
  "After synchronising to a block, a keyper's view of configs, batches (every added transaction once, in order, with the right hashes), execution state, receipts, deposits, accusations and appeals equals what the contracts recorded up to that block, independent of how often it synchronised and from which node, even if a node lags, errors or restarts. The view never moves backwards and earlier snapshots never change.",
  ["histories","schedules","fault_sequences"],"every contract call history and every cut of it into synchronisation steps, including lagging nodes, transient errors, skipped half steps and unscheduled configs",
  "The synchronisation code is not run by any Go test.",
  [K+"observe/mainchain.go","shuttermint/contract/caller.go"],
  [("SyncToHead, syncConfigs, syncBatches, syncExecutionState, syncDeposits, syncSlashings",K+"observe/mainchain.go")],
  [("MainChain","the keyper's view",K+"observe/mainchain.go")],["exported view fields after each sync"])
p("M02","Batch calendar arithmetic partitions blocks into consecutive batches",
  "For every config, each main chain block from the config's start belongs to exactly one batch being closed, batches are numbered consecutively, each lasts exactly the configured span, and the batch a block maps to is the one whose boundaries contain that block; across a config change numbering continues seamlessly. The batch index, start, end, and timeout computed by keypers agree with the ones the contracts enforce.",
  ["inputs","configurations"],"every config (span, start batch, start block, timeout) and every block or batch number",
  "Tests evaluate a handful of points for one config.",
  ["shuttermint/contract/config.go","contracts/contracts/ConfigContract.sol"],
  [("BatchIndex/BatchStartBlock/BatchEndBlock/...","shuttermint/contract/config.go")],None,["returned values"])

p("M03","Contracts execute every closed batch once, as agreed, or skip it after its timeout",
  "On the main chain each half step is executed at most once, in order and only after its batch has closed: encrypted transactions only as submitted by a keyper of the batch's config with the batch's hash, plain ones with exactly the collected transactions, and a half step is skipped only after its timeout. A batch accepts transactions only while it is open and within its size limits and fee, and never changes afterwards. Only the executor of a real receipt can be accused, an appeal needs enough distinct keypers' signatures on the executed batch, and only an accused executor whose appeal period passed is slashed; deposits leave only through their owner after the delay.",
  ["histories"],"every sequence of calls by any accounts, with any arguments, at any block",
  "The Solidity tests cover single calls; the Go bindings of the contracts, which is what this code base deploys, are not tested over histories.",
  ["shuttermint/contract/binding.go","contracts/contracts"],
  [("ConfigContract, BatcherContract, ExecutorContract, KeyperSlasher, DepositContract, FeeBankContract, EonKeyStorage","shuttermint/contract/binding.go (bytecode and ABI)")],None,["success or failure of calls, events, contract state"])
p("M04","Config administration tools set and show exactly the requested config",
  "Whatever the contract's next config was before, setting a batch config leaves the contract's next config equal to the requested one in every field, keyper list and order included; reading it back gives what the contract holds, and configs survive their JSON form unchanged, with thresholds outside 1 to the number of keypers rejected.",
  ["inputs","histories"],"every pair of previous and requested configs, including keyper lists that are empty, longer, shorter, reordered or contain repetitions",
  "No Go test runs SetNextBatchConfig or the config readers against the contracts.",
  ["shuttermint/contract/config.go","shuttermint/contract/caller.go","shuttermint/medley/txbatch"],
  [("SetNextBatchConfig, GetNextConfig, BatchConfig JSON","shuttermint/contract/config.go"),("TXBatch","shuttermint/medley/txbatch")],None,["contract state after the transactions, returned values"])

p("O01","Operator's config commands change the contract exactly as asked",
  "`config set-next` with a valid file makes the contract's next config equal to the file in every field, whatever was set before; if the file leaves the start block open (0), the command picks a start block and batch that continue the last scheduled config without a gap, whether that one is inactive, running or not yet started, and that leave the notice the contract asks for (the larger of its heads-up blocks and the last config's batch span) plus a margin of 20 blocks, and is at most about one batch span beyond that, so that it can be scheduled. `config schedule` succeeds exactly if the contract accepts the next config, and then that one, unchanged, is the last scheduled config and the next config is empty; `schedule --config` does both. A malformed file, an unusable key or the key of somebody other than the owner changes nothing, and the exit status is success only if the change has been made. `config query` and `config list` print what the contract holds. After a failure of the node, repeating the command repairs what was half done.",
  ["inputs","histories","faults"],"every history of commands, config files, passing blocks, withdrawn configs and node failures, for every last config (inactive, running, in the future, with batch spans below and above the heads-up blocks)",
  "No test runs the commands.",
  ["shuttermint/cmd/config","shuttermint/contract/config.go","shuttermint/medley/txbatch"],
  [("set-next, schedule, query, list","shuttermint/cmd/config"),("SetNextBatchConfig, GetNextConfig, GetConfigByIndex, BatchConfig JSON","shuttermint/contract/config.go"),("TXBatch","shuttermint/medley/txbatch")],None,["exit status, printed output, contract state after the command"])

p("O02","Setup commands keep every key there is and move just the money asked for",
  "`init` makes what is missing of a node's files and keeps what is there: an existing validator key with its signing state, node key and genesis document are never changed (if the key or its state is unusable the command fails and leaves them as they are); a new genesis document names the given keypers (or the default one), a threshold of two thirds of them rounded up and the node's own validator key; ports follow from the index, timeouts from the block time, the app's file has the dev mode asked for. `prepare configs` either makes all keyper configs asked for, each readable for its owner only, with fresh keys that no other has and the given URLs and contracts, and a config.json naming exactly these keypers in order with a threshold of two thirds rounded up, or fails; it never changes an existing keyper config, and on failure not config.json. `prepare fund` brings every keyper of the config with less than half an ether to exactly one ether and touches nobody else, also when repeated or interrupted, and succeeds only once the transactions are mined; `prepare unfund` sends all of each named keyper's money but the fee to the receiver, skipping those who have nothing to give, and only to a receiver with a correct checksum; `fund query` shows the balances. Bad arguments change nothing.",
  ["inputs","histories","faults"],"every history of commands, lost, spoiled and existing files, balances around the bounds, node failures at any request, blocks that take their time",
  "No test runs the commands.",
  ["shuttermint/cmd/init.go","shuttermint/cmd/prepare","shuttermint/keyper/config.go","shuttermint/medley"],
  [("init","shuttermint/cmd/init.go"),("prepare configs, fund, fund query, unfund","shuttermint/cmd/prepare"),("Config: GenerateNewKeys, WriteTOML, Unmarshal","shuttermint/keyper/config.go"),("WaitMined, WaitMinedMany","shuttermint/medley")],None,["exit status, printed output, files and balances after the command"])

S="shlib/"
p("O03","Deploying yields one complete set of contracts, bootstrapping announces one config",
  "The deploy command succeeds only if all contracts are on the main chain, each referring to the others of the same set as the protocol needs it and owned by the deployer, with the registry the deposit token depends on (put there if missing, unless told not to), paying the gas price asked for; it then prints their addresses and names exactly them in the output file, which is left as it was in every other case, and sends nothing if its arguments are invalid. The bootstrap command sends, signed with the given key and for the chain it talks to, exactly the chosen (by default the latest) config of the contract named in the contracts file, each keyper once, and then, only if that was taken, that this config has started; it reports success exactly if both were taken and sends nothing if anything it needs cannot be read.",
  ["inputs","fault_sequences","histories"],"all arguments, files, scheduled configs, balances, node failures and answers of the chain",
  "No test runs these commands.",
  ["shuttermint/cmd/deploy/deploy.go","shuttermint/cmd/deploy/contracts.go","shuttermint/cmd/bootstrap.go","shuttermint/contract/erc1820/erc1820.go","shuttermint/medley/txbatch/txbatch.go"],
  [("deploy, batchContractDeployments, maybeDeployERC1820","shuttermint/cmd/deploy/deploy.go"),("bootstrap","shuttermint/cmd/bootstrap.go")],None,["contracts on the main chain, contracts file, messages sent, exit status"])
p("O04","A keyper starts only with a usable configuration and as the one it names",
  "The keyper command takes its configuration from the file named, or from ~/.config/shutter/keyper.toml, each value overridden by the environment variable of its name (KEYPER_...) if that is set; without a file the environment alone can do. If a key or the Ethereum URL is missing, or any value is malformed (keys of the wrong length or no numbers, addresses without their checksum, URLs of the wrong kind, a gas price multiplier that is no non-negative number), or the file named is not there or not TOML, the command fails with an error before it has contacted a node or touched a file; it does not crash. Otherwise it uses exactly the nodes named, keeps its database in the directory named, relative ones being relative to where the file is, touches no other file, sends every message under the signing key named and, if that key is a keyper's that the chain does not know yet, announces exactly once the validator and encryption keys named; the gas price it offers is the suggested one times the multiplier (1.5 if none is given). A database that cannot be read makes it fail, and is left as it is; one that cannot be written makes it end before anything is sent. SIGTERM and SIGINT end it with success; SIGUSR1 does not disturb it.",
  ["inputs","histories"],"every configuration file, every environment, every history of starts, stops and damaged databases",
  "No test runs the command; one test reads back a generated config.",
  ["shuttermint/cmd/keyper.go","shuttermint/keyper/config.go","shuttermint/keyper/keyper.go","shuttermint/keyper/gaspricer"],
  [("readKeyperConfig, keyperMain","shuttermint/cmd/keyper.go"),("Config.Unmarshal and its hooks","shuttermint/keyper/config.go"),("LoadState, init","shuttermint/keyper/keyper.go"),("SetMultiplier","shuttermint/keyper/gaspricer")],None,["exit status, requests at the nodes, messages, files"])
p("S01","Distributed key generation: honest participants agree on one valid key",
  "With any number of participants and any behaviour of fewer than the threshold of them, honest participants that receive the same broadcast messages end with the same set of contributors, the same eon public key and public key shares, and secret shares any threshold of which reconstruct the matching secret. A participant whose dealing was wrong towards someone and who did not justify it is excluded by everyone, one that behaved correctly is never excluded, and messages from outsiders, for another eon, after their phase has passed, repeated or malformed are rejected without effect.",
  ["inputs","schedules","fault_sequences"],"every subset of misbehaving participants and every combination of missing, wrong, late and repeated messages",
  "Tests run one happy, one corrupt and one offline scenario for a single size.",
  [S+"puredkg/puredkg.go",S+"shcrypto/feldman.go",S+"shcrypto/keys.go"],
  [("PureDKG phases and Handle*Msg, ComputeResult",S+"puredkg/puredkg.go"),("Gammas, VerifyPolyEval",S+"shcrypto/feldman.go")],
  [("PureDKG","one participant's state",S+"puredkg/puredkg.go")],["handler errors, accusations, apologies, result"])
p("S02","Encryption round-trips under the right epoch key and fails safely otherwise",
  "Whatever is encrypted to an eon public key and an epoch is recovered exactly with the epoch key derived from any threshold of valid shares, for every message length and after serialisation; decryption with another epoch's or eon's key, or of a modified ciphertext, reports an error and never returns another message. Neither operation modifies its inputs, and no two blocks of a message, nor of messages encrypted with different randomness, are masked with the same value.",
  ["inputs"],"all messages, keys, thresholds, share subsets, ciphertext modifications",
  "Tests encrypt a few random messages; tampering covers one position and share subsets are fixed.",
  [S+"shcrypto/encryption.go",S+"shcrypto/keys.go",S+"shcrypto/encoding.go"],
  [("Encrypt/Decrypt, padding, sigma check",S+"shcrypto/encryption.go"),("ComputeEpochSecretKey, Lagrange coefficients",S+"shcrypto/keys.go")],None,["ciphertexts, plaintexts, errors"])
p("S03","Decoders accept exactly the encodings of valid values and re-encode them",
  "Each decoder of keys, shares, commitments and ciphertexts accepts exactly the encodings of valid values (numbers may carry leading zeros, hexadecimal digits may be of either case), yields the encoded value and writes it back as the matching encoder does; every other byte string (wrong length, not on the curve, outside the group, out-of-range numbers, trailing data) is rejected with an error, without crashing and without leaving a changed value behind that would be taken for valid. Binary, text and stored forms are all inverse to their encoders, and a decoded value does not share memory with its input.",
  ["inputs"],"every byte string given to every decoder",
  "Tests round-trip valid values and try a few malformed ones.",
  [S+"shcrypto/encoding.go",S+"shcrypto/keys.go",S+"shcrypto/feldman.go"],
  [("Marshal/Unmarshal, MarshalText/UnmarshalText, GobEncode/GobDecode",S+"shcrypto/encoding.go, keys.go, feldman.go")],None,["decoder results"])
p("S04","Aggregate signatures verify exactly for the set of keys and messages signed",
  "A signature verifies under a public key exactly for the message it was made for, and an aggregate verifies exactly when it combines the right signatures for the given keys and message; keys, signatures and aggregates survive serialisation unchanged and malformed encodings are rejected.",
  ["inputs"],"all keys, messages, aggregation orders and groupings",
  "Tests use single fixed examples.",
  [S+"shcrypto/shbls/shbls.go"],
  [("Sign/Verify/Aggregate*",S+"shcrypto/shbls")],None,["verification results"])
p("S05","The order of a batch's transactions follows from its epoch key alone",
  "Shuffling a batch's transactions returns every one of them exactly once and leaves the given list alone; the order depends only on the epoch key and the number of transactions, not on what they contain, and is the same whenever it is computed; and it cannot be foreseen without the key: over the keys every order is about equally likely, every transaction reaches every position, and different keys give unrelated orders.",
  ["inputs"],"all keys, all lists of transactions",
  "One test shuffles a fixed list a few times.",
  [S+"shcrypto/shuffle.go"],
  [("Shuffle, computeSeed",S+"shcrypto/shuffle.go")],None,["orders of transactions"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
