package main

// C01..C09: the accounting rules, slot by slot.

import (
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// chainSeed is the deterministic source of case i of a property
func chainRand(c *Ctx, id string, i int) *rand.Rand {
	h := int64(0)
	for _, b := range []byte(id) {
		h = h*131 + int64(b)
	}
	return rand.New(rand.NewSource(c.Seed*1000003 + h*7919 + int64(i)))
}

// cases calls f for every case of this shard (or the one asked for)
func (c *Ctx) cases(n int, f func(i int, name string)) {
	var mu sync.Mutex
	cur, since := "", time.Now()
	if c.CaseLimit > 0 && c.GiveUp != nil {
		go func() {
			for {
				time.Sleep(time.Second)
				mu.Lock()
				name, t := cur, since
				mu.Unlock()
				if p := c.R.progress(); p.After(t) {
					t = p
				}
				if name == "" || time.Since(t) < c.CaseLimit {
					continue
				}
				if st := busyInRepo(); st != "" {
					c.R.Violate("never-returns", name, fmt.Sprintf("the code under test makes no progress for %v", c.CaseLimit), map[string]string{"stack": st})
				} else {
					c.R.Inconc(fmt.Sprintf("%s takes more than %v", name, c.CaseLimit))
				}
				c.GiveUp()
			}
		}()
	}
	do := func(i int, name string) {
		mu.Lock()
		cur, since = name, time.Now()
		mu.Unlock()
		f(i, name)
		mu.Lock()
		cur = ""
		mu.Unlock()
	}
	if c.Only != "" {
		var i int
		if _, err := fmt.Sscanf(c.Only, "case-%d", &i); err == nil {
			do(i, c.Only)
		}
		return
	}
	for i := 0; i < n; i++ {
		if c.Mine(i) {
			if c.StopAfter > 0 && c.R.violating() >= c.StopAfter {
				c.R.Count("cases_left_after_violations", 1)
				continue
			}
			do(i, fmt.Sprintf("case-%d", i))
		}
	}
}

func (r *Report) violating() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Violations)
}

// busyInRepo: the stack of a goroutine that computes within the code under test
// (three samples in a row)
func busyInRepo() string {
	found := ""
	for k := 0; k < 3; k++ {
		buf := make([]byte, 8<<20)
		buf = buf[:runtime.Stack(buf, true)]
		found = ""
		for _, g := range strings.Split(string(buf), "\n\n") {
			head, _, _ := strings.Cut(g, "\n")
			if strings.Contains(g, "github.com/dappnode/mev-sp-oracle/") && !strings.Contains(head, "IO wait") && !strings.Contains(head, "select") {
				found = g
				break
			}
		}
		if found == "" {
			return ""
		}
		time.Sleep(2 * time.Second)
	}
	if len(found) > 6000 {
		found = found[:6000]
	}
	return found
}

func stepDetail(s *StepInfo, what []string) map[string]interface{} {
	evs := []string{}
	for _, e := range s.B.Events {
		evs = append(evs, fmt.Sprintf("%s id=%d addr=%s amount=%s tx=%d", e.Kind, e.ID, e.Addr.Hex(), bstr(e.Amount), e.Tx))
	}
	return map[string]interface{}{"chain": s.C.Name, "slot": s.B.Slot, "proposer": s.B.Proposer, "missed": s.B.Missed, "kind": s.B.Note, "fork": s.B.Fork,
		"txs": len(s.B.Txs), "events": evs, "differences": what, "tags": tagList(s.M)}
}

func tagList(m *Model) []string {
	var out []string
	for t := range m.tags {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

// diffKey: stable identification of what kind of thing failed
func diffKey(s *StepInfo) string {
	if len(s.Diffs) == 0 {
		return "none"
	}
	d := s.Diffs[0]
	if d.Field == "crash" || d.Field == "error" {
		g := d.Got
		if i := strings.IndexByte(g, '\n'); i > 0 {
			g = g[:i]
		}
		g = keepLetters(g)
		if len(g) > 60 {
			g = g[:60]
		}
		return d.Field + ":" + g
	}
	return d.Field + "@" + strings.Join(tagList(s.M), "+")
}

func keepLetters(s string) string {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' {
			out = append(out, ch)
		} else if len(out) > 0 && out[len(out)-1] != '_' {
			out = append(out, '_')
		}
	}
	return string(out)
}

func registerChainProp(id string, rule string, n, nThorough int, prof func(r *rand.Rand, i int) Profile, relevant func(s *StepInfo) []string, sig func(s *StepInfo) string) {
	register(&Check{ID: id, Rule: rule, MinEvals: 1000, Assumptions: []string{"the beacon node's answers for a slot are a function of the slot", "block data reaches the oracle through FullBlock's own constructor and setters"},
		Run: func(c *Ctx) {
			c.cases(c.N(n, nThorough), func(i int, name string) {
				r := chainRand(c, id, i)
				ch := GenChain(r, prof(r, i))
				c.R.Count("chains", 1)
				ch.Drive(true, func(s *StepInfo) bool {
					c.R.Eval(1)
					if len(s.M.vals) > 0 {
						c.R.Count("slots_with_members", 1)
					}
					for _, t := range s.M.trans {
						c.R.Count("seen_"+strings.Split(t, "-")[0], 1)
					}
					for t := range s.M.tags {
						c.R.Count("slots_tag_"+t, 1)
					}
					c.R.Max("members", len(s.M.vals))
					if g := sig(s); g != "" {
						c.R.Seen(g)
						if len(s.M.trans) > 2 {
							c.R.Sample(map[string]interface{}{"chain": ch.Name, "slot": s.B.Slot, "block": s.B.Note, "transitions": s.M.trans})
						}
					}
					if what := relevant(s); len(what) > 0 {
						c.R.Violate(diffKey(s), name, what[0], stepDetail(s, what))
						return false
					}
					if len(s.Diffs) > 0 {
						c.R.Count("chains_stopped_by_other_difference", 1)
						c.R.Count("other:"+diffKey(s), 1)
					}
					return true
				})
			})
		}})
}

func transSig(s *StepInfo) string {
	if len(s.M.trans) == 0 {
		return ""
	}
	t := append([]string{}, s.M.trans...)
	sort.Strings(t)
	return s.B.Note + "|" + strings.Join(t, ",")
}

func crashOrError(s *StepInfo) []string {
	if hasField(s.Diffs, "crash", "error") {
		return diffStrings(s.Diffs)
	}
	return nil
}

func init() {
	// C01 ---------------------------------------------------------------
	registerChainProp("C01", "distinct (block kind, multiset of accounting transitions) of slots whose books were added up", 560, 12000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.ZeroEB = i%5 == 0
			if i%4 == 1 {
				p.Exits, p.Consol, p.Cleanups, p.Busy = 60, 60, 3, 90
			}
			return p
		},
		func(s *StepInfo) []string {
			if w := crashOrError(s); w != nil {
				return w
			}
			st := s.Or.State()
			owed := bclone(st.PoolAccumulatedFees)
			var out []string
			if st.PoolAccumulatedFees.Sign() < 0 {
				out = append(out, "pool fees negative: "+st.PoolAccumulatedFees.String())
			}
			for i, v := range st.Validators {
				if v.AccumulatedRewardsWei.Sign() < 0 || v.PendingRewardsWei.Sign() < 0 {
					out = append(out, fmt.Sprintf("negative balance of validator %d: %s %s", i, v.AccumulatedRewardsWei, v.PendingRewardsWei))
				}
				owed.Add(owed, v.AccumulatedRewardsWei)
				owed.Add(owed, v.PendingRewardsWei)
			}
			if owed.Cmp(s.M.income) != 0 {
				out = append(out, fmt.Sprintf("owed %s, taken in %s (difference %s wei)", owed, s.M.income, new(big.Int).Sub(owed, s.M.income)))
			} else {
				// BLS proposals sent by vanilla blocks etc. are all recorded: the oracle's own books must agree
				var err error
				o := guard(func() { err = s.Or.RunOffchainReconciliation() })
				if o.Bad() {
					out = append(out, "RunOffchainReconciliation: "+o.String())
				} else if err != nil {
					out = append(out, "RunOffchainReconciliation: "+err.Error())
				}
			}
			return out
		}, transSig)

	// C02 ---------------------------------------------------------------
	registerChainProp("C02", "distinct (split method, cause, number of eligible validators) of the shared rewards whose every share was compared", 560, 12000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.PMev, p.PVan, p.RDon = 35, 30, 60
			p.ZeroEB = i%4 == 0
			p.SmallAmts = i%2 == 0
			p.NVals = pick(r, 4, 7, 12, 16)
			p.NoBad = i%2 == 0
			p.RSub = 60
			if i%3 == 2 {
				p.Exits, p.Cleanups, p.Busy = 50, 2, 60
			}
			return p
		},
		func(s *StepInfo) []string {
			if !hasTag(s.M, "share") {
				return nil
			}
			if hasField(s.Diffs, "acc", "pend", "fees", "crash", "error") {
				return diffStrings(s.Diffs)
			}
			return nil
		}, func(s *StepInfo) string {
			var t []string
			for _, x := range s.M.trans {
				if strings.HasPrefix(x, "share-") {
					t = append(t, x)
				}
			}
			if len(t) == 0 {
				return ""
			}
			return fmt.Sprint(t, s.M.feePct)
		})

	// C03 ---------------------------------------------------------------
	registerChainProp("C03", "distinct (block kind, multiset of status transitions and refused events) of compared slots", 560, 12000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.PMissed, p.PWrong, p.RBan, p.RUnban, p.RUnsub = 35, 10, 15, 25, 30
			p.NVals = 4 + r.Intn(6)
			return p
		},
		func(s *StepInfo) []string {
			var out []string
			if hasField(s.Diffs, "status", "missed", "wrongfee", "proposed", "tracked", "crash", "error") {
				out = diffStrings(s.Diffs)
			}
			// the diagram itself, whatever the reference says
			for i, p := range s.Prev {
				v := s.Or.State().Validators[i]
				if v == nil {
					out = append(out, fmt.Sprintf("validator %d is no longer tracked", i))
					continue
				}
				_ = p
			}
			return out
		}, transSig)

	// C04 ---------------------------------------------------------------
	registerChainProp("C04", "distinct multisets of subscription outcomes (destination of the collateral, reason) in compared slots", 560, 12000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.RSub, p.RBan, p.RUnban, p.RUnsub = 120, 15, 10, 25
			p.Exits = 40
			p.NVals = 8 + r.Intn(10)
			return p
		},
		func(s *StepInfo) []string {
			if !hasTag(s.M, "sub") || len(s.Diffs) == 0 {
				return nil
			}
			return diffStrings(s.Diffs)
		}, func(s *StepInfo) string {
			if !hasTag(s.M, "sub") {
				return ""
			}
			return transSig(s)
		})

	// C05 ---------------------------------------------------------------
	registerChainProp("C05", "distinct multisets of unsubscription outcomes in compared slots", 560, 12000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.RUnsub, p.RSub = 110, 60
			return p
		},
		func(s *StepInfo) []string {
			if !hasTag(s.M, "unsub") || len(s.Diffs) == 0 {
				return nil
			}
			return diffStrings(s.Diffs)
		}, func(s *StepInfo) string {
			if !hasTag(s.M, "unsub") {
				return ""
			}
			return transSig(s)
		})

	// C06 ---------------------------------------------------------------
	registerChainProp("C06", "distinct multisets of ban/unban/wrong-fee outcomes in compared slots", 560, 12000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.RBan, p.RUnban, p.PWrong, p.RSub = 60, 35, 14, 60
			p.RUnsub = 10
			return p
		},
		func(s *StepInfo) []string {
			var out []string
			if len(s.Diffs) > 0 && hasTag(s.M, "ban", "unban", "wrongfee", "banned-ok") {
				return diffStrings(s.Diffs)
			}
			if hasField(s.Diffs, "crash", "error") {
				return nil
			}
			// direct: a banned validator earns nothing and stays banned unless governance unbans it;
			// its claimable can only take back its own collateral
			st := s.Or.State()
			unban := map[uint64]bool{}
			back := map[uint64]bool{}
			for _, e := range s.B.Events {
				if e.Kind == "unban" {
					unban[e.ID] = true
				}
				if e.Kind == "sub" {
					back[e.ID] = true
				}
			}
			for i, p := range s.Prev {
				if p.Status != stBanned {
					continue
				}
				v := st.Validators[i]
				if v == nil {
					out = append(out, fmt.Sprintf("banned validator %d is no longer tracked", i))
					continue
				}
				if !unban[i] && v.ValidatorStatus.String() != stBanned {
					out = append(out, fmt.Sprintf("validator %d left the ban without an unban: %s", i, v.ValidatorStatus))
				}
				if v.PendingRewardsWei.Cmp(p.Pend) > 0 && !unban[i] {
					out = append(out, fmt.Sprintf("banned validator %d earned pending %s -> %s", i, p.Pend, v.PendingRewardsWei))
				}
				if v.AccumulatedRewardsWei.Cmp(p.Acc) != 0 && !back[i] && !(p.Pend.Sign() > 0) {
					out = append(out, fmt.Sprintf("claimable of banned validator %d changed %s -> %s", i, p.Acc, v.AccumulatedRewardsWei))
				}
			}
			return out
		}, func(s *StepInfo) string {
			if !hasTag(s.M, "ban", "unban", "wrongfee", "banned-ok") {
				return ""
			}
			return transSig(s)
		})

	// C07 ---------------------------------------------------------------
	registerChainProp("C07", "distinct multisets of transitions in slots where somebody's claimable balance changed", 560, 12000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.PMev, p.PVan = 35, 30
			p.RSub = 60
			if i%3 == 0 {
				p.Exits, p.Cleanups, p.Busy = 50, 2, 60
			}
			return p
		},
		func(s *StepInfo) []string {
			if hasField(s.Diffs, "crash", "error") {
				return nil
			}
			var out []string
			st := s.Or.State()
			if st.PoolAccumulatedFees.Cmp(s.PrevF) < 0 {
				out = append(out, fmt.Sprintf("the pool's claimable fees shrank %s -> %s", s.PrevF, st.PoolAccumulatedFees))
			}
			back := map[uint64]*big.Int{}
			for _, e := range s.B.Events {
				if e.Kind == "sub" {
					if back[e.ID] == nil {
						back[e.ID] = big0()
					}
					back[e.ID].Add(back[e.ID], e.Amount)
				}
			}
			okProp := s.M.tags["reward"] && !s.M.tags["bls"]
			for i, v := range st.Validators {
				p, had := s.Prev[i]
				acc0 := big0()
				if had {
					acc0 = p.Acc
				}
				switch v.AccumulatedRewardsWei.Cmp(acc0) {
				case -1:
					out = append(out, fmt.Sprintf("claimable of validator %d shrank %s -> %s", i, acc0, v.AccumulatedRewardsWei))
				case 1:
					if okProp && i == s.B.Proposer {
						break // the exact amount is compared with the reference below
					}
					d := new(big.Int).Sub(v.AccumulatedRewardsWei, acc0)
					if back[i] == nil || d.Cmp(back[i]) > 0 {
						out = append(out, fmt.Sprintf("claimable of validator %d grew by %s without a proposal of its own or a returned collateral", i, d))
					}
				}
			}
			for i := range s.Prev {
				if st.Validators[i] == nil {
					out = append(out, fmt.Sprintf("validator %d and its claimable balance vanished", i))
				}
			}
			if hasField(s.Diffs, "acc", "tracked") || (okProp && hasField(s.Diffs, "pend")) {
				out = append(out, diffStrings(s.Diffs)...)
			}
			return out
		}, func(s *StepInfo) string {
			if !hasTag(s.M, "reward", "returned") {
				return ""
			}
			return transSig(s)
		})

	// C08 ---------------------------------------------------------------
	registerChainProp("C08", "distinct (block construction, fork, transaction types, donations) of compared blocks", 560, 12000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.PMissed, p.PMev, p.PVan, p.PWrong, p.PIdle = 5, 40, 40, 12, 6
			p.RDon = 80
			p.RUnban = 40
			if i%16 == 0 {
				p.Net, p.Start = "mainnet", exceptionSlot
			}
			return p
		},
		func(s *StepInfo) []string {
			if s.B.Missed || len(s.Diffs) == 0 {
				return nil
			}
			return diffStrings(s.Diffs)
		}, func(s *StepInfo) string {
			if s.B.Missed {
				return ""
			}
			k := ""
			for _, t := range s.B.Txs {
				k += fmt.Sprint(t.Kind)
				if t.Unprotected {
					k += "u"
				}
			}
			d := 0
			for _, e := range s.B.Events {
				if e.Kind == "ether" {
					d++
				}
			}
			return fmt.Sprint(s.B.Note, s.B.Fork, k, d)
		})

	// C09 ---------------------------------------------------------------
	registerChainProp("C09", "distinct (cleanup outcomes) of compared cleanup slots", 240, 4000,
		func(r *rand.Rand, i int) Profile {
			p := defProfile()
			p.Exits, p.Consol, p.Cleanups, p.Busy = 60, 60, 5, 90
			p.RSub, p.RDon = 70, 40
			p.NVals = 8 + r.Intn(8)
			if i%6 == 0 {
				p.Net, p.Start = "mainnet", pick(r, uint64(10188000), 10189200-5, 10187990)
			}
			p.Crowd = -1
			if i%20 == 7 {
				p.Crowd, p.Cleanups = pick(r, 50, 130, 270), 2
			}
			return p
		},
		func(s *StepInfo) []string {
			if len(s.Diffs) == 0 {
				return nil
			}
			if s.B.Slot%1200 == 0 {
				return diffStrings(s.Diffs)
			}
			// at any other slot exited validators must be left alone
			for _, d := range s.Diffs {
				if wv := s.C.World.Vals[d.Val]; d.Val != 0 && wv != nil && !isActiveState(wv.at(s.B.Slot).Status) && (d.Field == "status" || d.Field == "tracked") {
					return diffStrings(s.Diffs)
				}
			}
			return nil
		}, func(s *StepInfo) string {
			if !hasTag(s.M, "cleanup") {
				return ""
			}
			return transSig(s) + fmt.Sprint(len(s.M.vals))
		})
}
