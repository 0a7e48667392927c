seen="Reach is bounded by the generated histories (seeded; biased to the rules' boundaries)."
c("C10","replica monitor: three oracles per history (plain, serving requests with permuted beacon answers, restarting) compared by state hash and published checkpoint","Judged at every slot with a block, cleanup and checkpoint. "+seen)
c("C11","online checker of every published tree against an independent merkle implementation and verifier, with forged-claim probes","Trusts Keccak-256 of go-ethereum. Two recorded findings (own addresses of the pool as withdrawal address). "+seen)
c("C12","immutability monitor: bytes of every frozen checkpoint compared again after every later operation",seen)
c("C13","round-trip and continuation monitor: oracles saved and loaded at many slots run side by side with the uninterrupted one",seen)
c("C15","fault injection on state documents (bit flips, truncation, field edits with and without a fresh hash, foreign configurations) with acceptance judged by an independent reading","A consistent and well sealed document is a good one by definition. "+seen)
c("C16","wrong-block injection before every block, state and configuration compared byte for byte, then the right block against the reference",seen)
c("C17","change-event injection at and around every scheduled slot, and loads of states from all ages of the schedule into oracles of all ages",seen)
c("C25","perturbation monitor: reconciliation called on balanced books and on books with one entry changed",seen)
c("C30","online checker of due checkpoints, the latest checkpoint and agreement verdicts over histories and root/slot combinations",seen)
c("C14","system-call fault injection (kill, failing call, short disk at every call of a save) on a child process, offline trace checker (rename over the state only after fsync, no write in place), and a judge of what a restart finds","A rename is taken to be atomic and durable as journaling file systems make it; the page cache of a machine losing power is represented by the fsync rule of the trace checker, not by cutting power.")
c("C22","fault injection in front of the real client code (each request of a fetch answered with a fault: dropped, cut, error status, mutated field, null, wrong id), outcome compared with the fetch from a healthy node: identical or an error, never something else","Faults are single (one request per fetch) and of the listed kinds; a node that consistently lies is out of scope. A 404 on a block request is authoritative. One recorded finding.")
c("C20","online response checker: every answer of the read endpoints compared with a view computed from the reference ledger, over generated histories and node positions, and with requests racing the processing","Durations and next checkpoint estimates are not judged. "+seen)
c("C21","online checker of proof answers: membership verified against the root of the contract by an independent tree, under healthy and faulty nodes","A proof is judged against the root that the fake contract holds. "+seen)
c("C24","malformed request injection (paths, parameters, methods, raw bytes) with a response judge and a byte comparison of the state","Input of debatable validity only has to be answered. "+seen)
c("C28","hostile and random relay answers in front of the real client code, classes and verdict compared with the rule","Leniency of go-builder-client about field lengths is not judged. "+seen)
c("C29","online checker of the unfinalized view: answers compared with finalized state plus the events of the unfinalized blocks in order",seen)
c("C27","derivation monitor: the real startup code against simulated deployments (consistent, inconsistent, and with every request failing), its configuration compared with the chain's","Only the pool's own deployment carries decodable initialization data; fees above 10000 are not generated. "+seen)
c("C23","the real program in updater mode against fake nodes and a fake contract: every transaction judged when it arrives, progress judged at every block request, under reverts, rejections, interruptions and other members' votes; the submission function alone with every request failing","A transaction is mined as soon as it is accepted. The program's pauses are shortened (build overlay, sleeps only). "+seen)
c("C26","crash and stop injection on the real program at requests over its whole run, restarts on its folder, every saved state and the resumed slots compared with an uninterrupted reference","Interruptions are aligned with requests to the nodes (those within a save are C14's). The program's pauses are shortened (build overlay, sleeps only). "+seen)
c("C18","Go race detector over the real oracle, onchain client and API working together and over the real program under requests and stop signals, plus a torn-read monitor (every state served or saved must be one the same blocks alone go through)","Only schedules that occurred are seen; pauses are randomised by seed. Race reports wholly outside the repository are counted, not judged.")
c("C19","monitored mutexes put in by a build overlay (re-acquisition by the holder, both lock orders, unheld release, locks held when an operation returns), a watchdog with stack dumps, and reader/writer probes after each of a sequence of failing operations","The monitor covers sync.Mutex and sync.RWMutex of the repository; if a tree does not build with them, the watchdog and the probes decide alone.")
c("C31","the real program started from the state of another oracle, taken at any slot, and from damaged, foreign, cut and refused answers; its slots, final state and files compared with an uninterrupted reference, refusals judged by exit, folder and requests","The program's pauses are shortened (build overlay, sleeps only). "+seen)
c("C32","the real program with generated command lines that are right or wrong by construction, monitored for requests, files, transactions and its exit","Only the listed kinds of options; wording is not judged. "+seen)
c("C33","online comparison of the program's metrics with the slots it fetches while it runs, and with the reference at rest","Metric names are taken as the interface. The program's pauses are shortened (build overlay, sleeps only). "+seen)
