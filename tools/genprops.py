#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept here so statements stay easy to edit).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

O="oracle/oracle.go"; B="oracle/block.go"; M="oracle/merklelizer.go"; N="oracle/onchain.go"; A="api/api.go"; MN="main.go"; T="oracle/types.go"; U="utils/utils.go"; C="config/config.go"
ST=[("oracle state","validators, balances, pool fees, frozen checkpoints, event logs","oracle/types.go OracleState")]

p("C01","Liabilities always equal assets, to the wei",
 "After every processed slot, the sum of every tracked validator's claimable and pending balance plus the pool's own fees equals exactly the sum of all ether the pool took in so far: every subscription collateral, every block reward (MEV or vanilla) that reached the pool and every donation. No balance is ever negative. The oracle's own reconciliation agrees with this at every slot.",
 ["inputs","histories","configurations"],"every chain history: any interleaving of proposals, missed slots, subscriptions, unsubscriptions, donations, bans, unbans, exits and consolidations, any fee, network and fork boundary",
 "Tests replay a handful of fixed sequences; conservation has to survive every ordering of events inside and across blocks and every rounding remainder.",
 [O,B],[("reward distribution with remainders","oracle/oracle.go increaseAllPendingRewards"),("offchain reconciliation","oracle/oracle.go RunOffchainReconciliation"),("cleanup redistribution","oracle/oracle.go ValidatorCleanup")],["oracle state after each processed slot"],None,ST)
p("C02","Each reward is split exactly by the fork's rule",
 "Every reward shared by the pool (block reward, donation, or balance forfeited by a validator) first pays the pool its configured percentage rounded down, and the rest goes only to validators in good standing (no card or one missed proposal): in equal shares before Electra and in proportion to effective balance at that slot from Electra on, each share rounded down and every undivided wei going to the pool. Before the first fork the fee's own rounding remainder also goes to the pool; when nobody is eligible the pool keeps everything. Which rule applies depends only on the network and the slot being processed.",
 ["inputs","histories","configurations"],"every reward amount (0 wei to thousands of ether), fee from 0% to 100%, set of eligible validators, effective-balance distribution, network and slot on either side of each fork",
 "Tests check a few round amounts per fork; rounding and eligibility must hold for all amounts, fees and populations.",
 [O],[("method selection by slot","oracle/oracle.go determineRewardMethod"),("per-fork split","oracle/oracle.go handleElectraRewardDistribution, handleFork1RewardDistribution, handlePreFork1RewardDistribution"),("eligibility","oracle/oracle.go getEligibleValidators")],["pending balances and pool fees after each processed slot"],None,ST)
p("C03","Validator status follows the published life cycle",
 "A tracked validator's status changes only along the published diagram: proposing correctly moves red card to yellow card to active; missing a proposal while subscribed moves active to yellow card to red card (and stays red); subscribing (manually or by a correct proposal) activates a not-subscribed validator; unsubscribing a subscribed one makes it not subscribed; a wrong fee recipient or a governance ban makes a subscribed one banned; only a governance unban leaves banned, to active. Events about validators that are not in a status where they apply change nothing, and each miss, correct proposal and wrong-fee proposal of a pool member is recorded exactly once.",
 ["inputs","histories"],"every sequence of events over any set of validators, including several events for the same validator in one block",
 "The tests walk individual edges of the diagram; the guarantee is over every path and every same-slot combination.",
 [O],[("state machine","oracle/oracle.go advanceStateMachine"),("slot processing order","oracle/oracle.go AdvanceStateToNextSlot")],["validator status and the proposed/missed/wrong-fee block lists after each processed slot"],None,ST)
p("C04","Manual subscriptions: admission and destination of the collateral",
 "A subscription event activates a validator exactly when the validator exists, is in a beacon state that may join, has an execution-type withdrawal credential (0x01 or 0x02), the event was sent by that withdrawal address, the validator is neither banned nor already subscribed, and the collateral is at least the required amount. An accepted collateral becomes the validator's pending balance; a valid sender's collateral for an already subscribed or banned validator is returned as claimable balance; in every other case it goes to the pool and creates or changes no validator. Events of one block apply in order.",
 ["inputs","histories"],"every subscription event: any sender, collateral from 0 upwards, validator status, credential type, beacon state, duplicates within a block",
 "Tests cover one rejection reason at a time; combinations, order and collateral routing range over every input.",
 [O,U],[("subscription rules","oracle/oracle.go handleManualSubscriptions"),("beacon states allowed to join","oracle/oracle.go CanValidatorSubscribeToPool"),("credential decoding","utils/utils.go GetCompatibleAddressByte")],["validators and balances after each processed slot"],None,ST)
p("C05","Only the owner can unsubscribe; leaving forfeits pending rewards",
 "A validator is unsubscribed by an unsubscription event only if the event's sender is that validator's execution withdrawal address and the validator is subscribed; anybody else's event changes nothing. On leaving, its claimable balance is untouched and its whole pending balance is shared among the remaining eligible validators under the normal split, leaving its own pending at zero.",
 ["inputs","histories"],"every unsubscription event: any sender, unknown validators, BLS or 0x02 credentials, duplicates, subscription and unsubscription in the same block",
 "The tests try a few senders; the authorization must hold for all senders and states.",
 [O],[("unsubscription rules","oracle/oracle.go handleManualUnsubscriptions")],["validators and balances after each processed slot"],None,ST)
p("C06","Bans remove earning power and nothing else",
 "A subscribed validator that proposes with a fee recipient other than the pool, or that governance bans, becomes banned, loses its pending balance to the remaining eligible validators and keeps its claimable balance; while banned it earns nothing from anyone's rewards and neither subscribing, proposing nor time lifts the ban. Validators banned together in one block get no part of each other's forfeited balance. Governance bans of validators that are not subscribed, and unbans of validators that are not banned, change nothing.",
 ["inputs","histories"],"every sequence of bans, unbans, wrong-fee proposals, subscriptions and proposals, with several bans and unbans in one block",
 "Tests ban one or two validators in a prepared state; the rule is over all histories and simultaneous bans.",
 [O],[("wrong fee ban","oracle/oracle.go handleBanValidator"),("governance bans","oracle/oracle.go handleManualBans, handleManualUnbans")],["validators and balances after each processed slot"],None,ST)
p("C07","Claimable balances never shrink and pay out only by proposing",
 "A validator's claimable balance never decreases. It grows only when that validator itself proposes a block whose reward reaches the pool, and then by exactly its whole pending balance including its share of that block, or by a subscription collateral handed back to it; likewise the pool's own claimable fees never decrease. Consequently, for every withdrawal address, successive published claimable totals never decrease.",
 ["inputs","histories"],"every history and every pair of successive slots and checkpoints",
 "Tests compare single before/after pairs; monotonicity is over all histories (the contract would revert or lock funds otherwise).",
 [O],[("consolidation on proposal","oracle/oracle.go handleCorrectBlockProposal, consolidateBalance"),("collateral refund","oracle/oracle.go increaseValidatorAccumulatedRewards")],["claimable balances after each processed slot; leaves of successive checkpoints"],None,ST)
p("C08","Every wei reaching the pool is classified exactly once",
 "For each block, a payment in the last transaction sent by the block's fee recipient (or by a whitelisted builder) is the MEV reward, a pool fee recipient without such a payment makes the exact priority-fee income of the block a vanilla reward, and every other ether-received event is a donation. No amount is counted twice or dropped, whatever equal amounts, transaction types, contract-forwarded payments or consensus fork the block has. Rewards that did not reach the pool are never credited.",
 ["inputs"],"every block: all consensus forks from Bellatrix to Fulu, all transaction types, any number of donations (also equal to the MEV payment), empty blocks, contract creations, payments forwarded by contracts",
 "Tests use a few recorded mainnet/testnet blocks; the classification must hold for every block composition.",
 [B],[("MEV detection","oracle/block.go MevRewardInWei"),("vanilla tip","oracle/block.go GetProposerTip"),("donation filter","oracle/block.go GetDonations"),("summary","oracle/block.go SummarizedBlock, GetSentRewardAndType")],["summarized block, donations and balances for a block built from known transactions"])
p("C09","Exited validators are swept: pending is consolidated or shared",
 "At every cleanup slot (each multiple of 1200 slots, from the first fork on) a tracked validator that is no longer active on the beacon chain and holds pending rewards loses all of them: if it is the source of a pending consolidation the amount moves in full to the target (tracked without subscribing it when unknown; shared among the pool when the target is banned), otherwise it is shared among the pool. If it was subscribed it becomes not subscribed, and claimable balances never change. Active validators, and slots that are not cleanup slots, are unaffected.",
 ["inputs","histories"],"every set of tracked validators, beacon states, consolidation requests (chains, unknown, banned or themselves exited targets) and cleanup slot on every network",
 "Tests cover one consolidation per scenario; simultaneous exits, chains and network/fork boundaries are unbounded.",
 [O],[("cleanup","oracle/oracle.go ValidatorCleanup")],["validators and balances before and after a cleanup slot"],None,ST)
p("C10","Replicas that see the same chain reach identical states and roots",
 "Any two oracles with the same configuration that process the same finalized blocks hold the same state hash after every slot and publish the same merkle root and proofs at every checkpoint, regardless of map iteration order, of the order in which beacon data is returned, of restarts or of which other requests they served meanwhile.",
 ["histories","schedules","configurations"],"every history, replayed any number of times in the same or another process",
 "A quorum of independent oracles must vote the same root; a test runs one oracle once and cannot see order-dependent results.",
 [O,M],[("state hashing","oracle/oracle.go hashStateLockFree"),("ordered leaves","oracle/merklelizer.go OrderByWithdrawalAddress"),("cleanup iteration","oracle/oracle.go ValidatorCleanup")],["state hash after each slot, root and proofs at each checkpoint"],None,ST)
p("C11","Published merkle roots and proofs let exactly the right amounts be claimed",
 "The tree of a checkpoint has exactly one leaf per distinct withdrawal address (lower case, ordered, with the sum of the claimable balances of all its validators), preceded by the pool-fee address with the pool's fees, and hashes leaf and nodes as the on-chain verifier does (packed address and 256-bit amount, sorted pairs). For every leaf the stored proof verifies against the published root, and no other address or amount verifies with it. Fewer than two leaves publish nothing.",
 ["inputs"],"every population of validators: any number of addresses (1 to hundreds), shared addresses in mixed case, zero and very large balances",
 "Tests compare a few precomputed roots; proofs must verify for all tree shapes, including odd and unbalanced ones.",
 [M,O],[("aggregation","oracle/merklelizer.go AggregateValidatorsIndexes"),("tree","oracle/merklelizer.go GenerateTreeFromState"),("proof storage","oracle/oracle.go FreezeCheckpoint")],["latest committed checkpoint: leaves, proofs, root"])
p("C12","Frozen checkpoints never change",
 "Once a checkpoint is frozen, its slot, root, leaves, proofs and per-validator balances stay exactly as published, whatever the oracle processes, serves, saves or loads afterwards, and it mirrors the validators' state at the moment it was frozen. Freezing itself changes no balance or status.",
 ["histories"],"every history after a freeze, including API reads, saves and reloads",
 "Tests look at a checkpoint right after freezing; aliasing with live balances only shows later.",
 [O,U],[("deep copy at freeze","oracle/oracle.go FreezeCheckpoint, utils/utils.go DeepCopy")],["all committed checkpoints after every later operation"],None,ST)
p("C13","Saving and loading at any slot is invisible",
 "Saving the state at any slot and loading it into a fresh oracle (from the saved file, from the per-slot copy, or from another oracle's state endpoint) reproduces it exactly, and continuing from there gives the same state hash and roots as never having stopped, including across scheduled fee changes. The stored hash is the one the saving oracle reports.",
 ["histories","crash_points"],"every point of every history at which a save/load can happen, repeated any number of times",
 "Tests round-trip one prepared state; field loss or aliasing shows only for particular histories and subsequent blocks.",
 [O,T],[("save","oracle/oracle.go SaveToJson"),("load","oracle/oracle.go LoadFromBytes, LoadFromPath, LoadGivenState"),("enum (de)serialization","oracle/types.go")],["state hash and contents before save, after load, and after further slots"],None,ST)
p("C14","A crash while saving never loses the last good state",
 "At whatever instant the process or its disk fails while the state is being persisted, the state file that a restart loads is either the complete previous one or the complete new one, and is accepted. A save that fails reports the error and leaves the oracle able to keep processing, saving and serving.",
 ["crash_points","fault_sequences"],"every prefix of the file operations of a save, plus write, create and space failures",
 "Tests never interrupt a save.",
 [O],[("persisting","oracle/oracle.go SaveToJson")],["the file system as seen by a loader at every point of a save"])
p("C15","Damaged, tampered or foreign state files are refused without side effects",
 "A state document is accepted only if its content matches its embedded hash and its network, addresses, fee (taking scheduled changes up to its slot into account), collateral, checkpoint size and deployment data match this oracle's configuration. Anything else is refused with an error, never a crash, and the live state and configuration stay exactly as they were, so that a good state can still be loaded afterwards.",
 ["inputs","fault_sequences"],"every corruption: truncation, bit flips, edited values, recomputed hashes with foreign configuration, missing fields, wrong types, any sequence of failed and successful loads",
 "Tests try a few mismatches; the input space is every byte string.",
 [O],[("hash and configuration checks","oracle/oracle.go LoadFromBytes"),("fee schedule on load","oracle/oracle.go applyFeeScheduleUpTo")],["return values, state hash and configuration around each load"])
p("C16","Slots are processed exactly once, in order; rejected blocks change nothing",
 "The oracle advances by exactly one slot per accepted block, and only for the block of the next slot: repeated, skipped, reordered or inconsistent blocks (wrong slot, unexpected configuration change, receipts or validator data missing or of something else) are refused and leave the whole state and configuration exactly as before, so the correct block can still be processed. So does a slot that cannot be processed because the beacon node fails while validators are cleaned up: it can be tried again with the same result as if the node had answered at once. The last processed slot and block always name the last accepted block.",
 ["histories","inputs"],"every interleaving of correct, duplicated, early, late and inconsistent blocks",
 "Tests feed one bad block at a time and do not compare the whole state around a rejection.",
 [O],[("sequence checks","oracle/oracle.go AdvanceStateToNextSlot"),("configuration checks","oracle/oracle.go validateFullBlockConfig")],["return value and state hash around every submitted block"],None,ST)
p("C17","Configuration changes are honoured only when scheduled",
 "A pool-fee change event is accepted only at a slot where it is scheduled for this network and with the scheduled value, and from that block on every reward uses the new fee while earlier ones keep the old; at any other slot or value it stops processing. Change events for the fee recipient, checkpoint size or collateral are accepted only when they restate the configured value. A state loaded from any point of the schedule carries the fee in force at that slot.",
 ["inputs","configurations","histories"],"every network, slot around the schedule, fee value and combination of configuration events",
 "Tests cover the schedule with synthetic entries; combinations with loads, restarts and rewards are unbounded.",
 [O],[("fee schedule","oracle/oracle.go feeSchedule, applyFeeScheduleUpTo, validateFullBlockConfig")],["acceptance, fee in state and reward split around configuration events"])
p("C18","No data races between processing, serving and saving",
 "Running block processing, periodic refreshes of the validator set, saves, and any mix of API requests at the same time never produces a data race, a concurrent-map crash or a torn read.",
 ["schedules"],"every interleaving of the processing loop, the signal handler's save and any number of concurrent API requests",
 "Existing tests are single-threaded.",
 [O,A,N,MN],[("state lock","oracle/oracle.go mutex"),("state accessor","oracle/oracle.go State, StateWithHash"),("validator cache","oracle/onchain.go RefreshBeaconValidators, Validators")],["race-detector reports while the real services run concurrently"])
p("C19","The service never deadlocks or stalls itself",
 "With any mix of processing, checkpointing, saving and API requests running at once, every operation completes within a bounded number of steps of the others, and no error path leaves the oracle locked. In particular readers that ask for the latest checkpoint or state never block forever behind a waiting writer.",
 ["schedules","fault_sequences"],"every interleaving of readers and writers of the state, including failing saves",
 "Deadlocks need a writer queued between two lock acquisitions of one reader; sequential tests cannot produce it.",
 [O],[("state lock","oracle/oracle.go IsCheckpoint, LatestCommitedSlot, LatestCommitedState, StateWithHash, SaveToJson")],["operation completion counts under concurrent load"])
p("C20","API answers reflect the state and never alter it",
 "Every memory, statistics, fees, blocks, donations, config, status and state endpoint reports exactly the oracle's current data (complete lists, exact amounts, correct totals and averages, correct found/not-found split), for every state the oracle can be in. Requests never modify the state, and a document served by the state endpoint loads into another oracle with the same configuration.",
 ["inputs","histories"],"every reachable state and every valid request",
 "API tests only cover address helpers and one virtual-state function; no endpoint is tested against arbitrary states.",
 [A],[("handlers","api/api.go handleMemory*, handleState, handleStatus, handleConfig")],["HTTP responses compared with the oracle state; state hash around requests"])
p("C21","Proofs are served only for the root that is on chain",
 "The proof endpoint answers only when the slot and root consolidated in the contract match a checkpoint this oracle froze, and then returns that checkpoint's root, the address's leaf and a proof that verifies against the on-chain root; claimable is the leaf amount minus what the contract says was already claimed, pending and registered validators are those of that checkpoint. In every other case (different root, unknown slot, unknown address, failing nodes, oracle not in sync) it returns an error and no proof.",
 ["histories","fault_sequences","inputs"],"every relation between the on-chain root/slot and the oracle's checkpoints, any address and claimed amount, node failures",
 "No test exercises this endpoint.",
 [A,O],[("proof endpoint","api/api.go handleOnchainMerkleProof"),("sync gate","api/api.go OracleReady")],["HTTP responses against a controlled contract state; proof verified independently"])
p("C22","Node faults never become wrong pool data",
 "When fetching a slot's data, any failure of a node (timeouts, dropped connections, server errors, malformed or truncated answers, unknown errors) results in a retry or an error, never in a block treated as missed, an event, receipt or validator silently dropped, or wrong data used; a slot counts as missed only when the beacon node authoritatively says there is no block. A fetch that succeeds returns exactly the chain's data for that slot.",
 ["fault_sequences","inputs"],"every fault at every request of a fetch, every slot number, every number of consecutive faults",
 "Tests that touch nodes are skipped without network and inject no faults.",
 [N],[("retrying fetchers","oracle/onchain.go FetchFullBlock, GetConsensusBlockAtSlot, Get*Events, GetSingleValidator, GetSetOfValidators, GetPendingConsolidations, GetProposalDuty, GetExecHeaderAndReceipts")],["fetched block compared with the simulated chain under injected faults"])
p("C23","Reports are submitted once, in turn and only by an authorised updater",
 "In updater mode the oracle submits to the contract exactly the slot and root of a checkpoint it froze, with zero value, only when that checkpoint directly follows the last one consolidated on chain, at most once per checkpoint, and moves on only when the contract has consolidated it; in dry-run mode it never sends a transaction. A transaction that reverts or is not accepted is reported as a failure, never as success, and an updater that is not whitelisted or has no funds refuses to start.",
 ["histories","fault_sequences","configurations"],"every contract state (behind, equal, ahead), transaction outcome, restart and mode",
 "No test runs the main loop or the submission path.",
 [MN,N],[("main loop","main.go mainLoop"),("submission","oracle/onchain.go UpdateContractMerkleRoot"),("whitelist check","oracle/onchain.go IsAddressWhitelisted")],["transactions received by a simulated execution node while the real program runs"],"time.Sleep in the program is shortened at build time by an overlay kept in /verif; no change to /repo")
p("C24","Malformed API requests get an error and harm nothing",
 "Any request, however malformed (bad indices, addresses, public keys, oversized or empty lists, unknown paths and methods), gets a well-formed HTTP response with an error status where the input is not valid, never a crash, a hang or a dropped connection, and changes nothing. Only well-formed validator public keys, addresses and indices are accepted.",
 ["inputs"],"every byte string in every path parameter and method, against every reachable oracle state",
 "Validator-format tests use a few strings; handlers are never called with hostile input.",
 [A],[("input validation","api/api.go IsValidIndex, IsValidAddress, IsValidPubkey"),("handlers","api/api.go")],["HTTP responses to generated requests; process health afterwards"])
p("C25","Reconciliation passes exactly when the books balance",
 "On-chain reconciliation succeeds if and only if all claimable and pending balances plus pool fees, minus everything already claimed, equal the contract's balance; off-chain reconciliation succeeds if and only if the recorded income equals what is owed. A discrepancy of a single wei in any single entry, in either direction, is reported as an error, and the addresses whose claims are summed are every distinct withdrawal address plus the pool-fee address, each once.",
 ["inputs","histories"],"every reachable state, every claimed amount per address and every single-entry perturbation",
 "Tests check one balanced and one unbalanced example.",
 [O,N],[("reconciliations","oracle/oracle.go RunOnchainReconciliation, RunOffchainReconciliation"),("addresses","oracle/oracle.go GetUniqueWithdrawalAddresses"),("claims","oracle/onchain.go GetClaimedPerWithdrawalAddress")],["return value on generated states and perturbations"])
p("C26","Stopping and restarting at any moment loses nothing",
 "Whenever the running program is killed or asked to stop and is started again on its data folder, it ends up with the same state, the same checkpoints and roots as a run that was never interrupted, without reprocessing or skipping a slot or a checkpoint.",
 ["crash_points","schedules"],"every moment of the processing loop (between fetch, processing, freezing, submitting and saving) and any number of interruptions",
 "No test starts the program, let alone kills it.",
 [MN,O],[("signal handling and startup load","main.go main"),("checkpoint step","main.go mainLoop")],["state endpoint and state files of the real program after interruptions at chosen requests"],"time.Sleep in the program is shortened at build time by an overlay kept in /verif; no change to /repo")
p("C27","Startup configuration is derived correctly from the chain",
 "The configuration a fresh oracle starts with is exactly what the chain says: the network of both nodes (which must agree), the deployment block and its slot, the checkpoint size, fee recipient and collateral of the contract, and the initial fee found in the initialization data of the deployment block (sent directly or inside a proxy deployment), or the network default if there is none. Inconsistent or unsupported chains are refused at startup.",
 ["inputs","configurations","fault_sequences"],"every deployment block layout, network pair, parameter value",
 "Tests decode one or two layouts; node agreement and network defaults are never run.",
 [N],[("configuration","oracle/onchain.go GetConfigFromContract, NewOnchain"),("initial fee","oracle/onchain.go decodeInitialPoolFee")],["configuration returned for simulated chains"])
p("C28","Relay registration verdicts are right",
 "For a validator key, the relay endpoint reports each configured relay exactly once, as correct when its registration pays the pool, wrong when it pays anyone else and unregistered when the relay has none; the overall verdict is positive exactly when at least one relay is correct and none is wrong. A relay that cannot be reached or answers garbage gives an error, never a verdict.",
 ["inputs","fault_sequences","configurations"],"every assignment of answers to relays, including failures, any fee recipient letter case",
 "Never tested.",
 [A],[("relay check","api/api.go handleValidatorRelayers")],["HTTP response against simulated relays"])
p("C29","The not-yet-final view predicts what finalization will do",
 "When listing the validators of a withdrawal address, pending subscriptions and unsubscriptions after the last processed block are applied, in block order and subscriptions first, exactly by the admission rules to that address's own validators only: valid ones show as active with the collateral added to pending, or as not subscribed with zero pending, and invalid ones change nothing. Neither the oracle's state nor any other validator is affected.",
 ["inputs","histories"],"every batch of unfinalized events (any order, senders, amounts, unknown validators) and every state",
 "Tests cover a few batches; unknown validators, ordering and interplay with the state are not covered.",
 [A],[("virtual state","api/api.go ApplyNonFinalizedState, handleMemoryValidatorsByWithdrawal, GetSubscriptionsTillHead, GetUnsubscriptionsTillHead")],["HTTP response against a simulated chain head; state hash around the request"])
p("C30","Checkpoints fall due on schedule and agreement with the chain is judged right",
 "A checkpoint is due exactly at slots a whole number of checkpoint lengths after deployment. The latest checkpoint reported is the one with the highest slot, or none if nothing was frozen. The oracle considers itself in agreement with the contract exactly when slot and root both match (or both sides have nothing), reports an error when only one of the two matches, and disagreement otherwise.",
 ["inputs","histories","configurations"],"every deployment slot, checkpoint size, processed slot, set of frozen checkpoints and on-chain slot and root",
 "Tests check a few slots and roots.",
 [O],[("cadence","oracle/oracle.go IsCheckpoint"),("latest checkpoint","oracle/oracle.go LatestCommitedSlot, LatestCommitedState"),("agreement","oracle/oracle.go IsOracleInSyncWithChain")],["return values on generated states"])
p("C31","A new oracle continues exactly from the state another one serves",
 "Started with a checkpoint-sync URL that answers the state of an honest oracle of the same pool (as its state endpoint serves it or as it was saved, after any slot, before or after freezing that slot's checkpoint), the program continues with the very next slot and ends with the same state, checkpoints and saved file as an oracle that processed everything itself, whatever is in its own folder. If the answer is anything else (an error status, cut, damaged, altered, of another pool, network or configuration, or nobody answers) it ends with a failure, without processing a slot and without touching its own saved files.",
 ["histories","inputs","configurations","fault_sequences"],"every slot at which the state may be taken, every content of the own folder, every damaged or foreign answer",
 "No test starts the program with a checkpoint-sync URL.",
 [MN,O,A],[("start from a URL","main.go main"),("acceptance","oracle/oracle.go LoadFromBytes"),("served state","api/api.go handleState")],["slots requested from the nodes, served and saved state, exit code and folder of the real program"],"time.Sleep in the program is shortened at build time by an overlay kept in /verif; no change to /repo")
p("C32","Unacceptable start-up options are refused before anything happens",
 "The program starts exactly with complete and consistent options: either dry run without a keystore and password, or both a keystore and its password; a hexadecimal 20-byte pool address; and a non-empty list of relays that are all well-formed https URLs. With any other options it ends with a failure before asking a node anything; with a keystore that is missing, damaged or opened with the wrong password it ends with a failure before processing, saving or sending anything.",
 ["inputs","configurations"],"every combination and order of options and every keystore content and password",
 "The only test of the options checks that no options at all are an error.",
 [C,MN,U],[("options","config/config.go NewCliConfig"),("keystore","utils/utils.go DecryptKey"),("use","main.go main")],["requests to the nodes, files and exit code of the real program"])
p("C33","The metrics tell the truth",
 "The exported metrics agree with the oracle: the latest processed slot and block are those of its state and never go back while it runs, the distance from the finalized slot is zero once everything final is processed, each checkpoint frozen since the start is listed with its root and no other one is, and each answered request to an API endpoint is counted once under its status code and path.",
 ["histories","schedules"],"every history, restart, pace of finality and sequence of requests",
 "No test looks at a metric.",
 ["metrics/metrics.go",MN,A],[("gauges","main.go mainLoop"),("definitions","metrics/metrics.go"),("request counter","api/api.go prometheusMiddleware")],["metrics endpoint of the real program while it runs and at rest"],"time.Sleep in the program is shortened at build time by an overlay kept in /verif; no change to /repo")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
import sys
for q in P:
    assert len(q["title"])<=80,q["id"]
print(len(P))
