From 71888ae687e8b3d9c135574d44ac3c5d25b7051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 01/29] fix: tell the MEV payment from donations of the same
 amount and from plain calls to the pool

---
 oracle/block.go | 78 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 65 insertions(+), 13 deletions(-)

diff --git a/oracle/block.go b/oracle/block.go
index 228abf7..40c3be9 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -383,9 +383,11 @@ func (b *FullBlock) MevRewardInWei() (*big.Int, bool, string) {
 		// https://etherscan.io/tx/0x6c9adaa16946d1279e0db0fc9348201c48b2f70a62ac5edfe06dc0ba2b4f3e3c
 		// Note that the sender is still the protocol fee recipient, which allows us to distinguish
 		// between a mev reward and a donation as the last tx of the block
+		// The event must have been triggered by that very same tx, otherwise a donation of the
+		// same amount within the block would be confused with the mev reward
 		if b.Events.EtherReceived != nil {
 			for _, event := range b.Events.EtherReceived {
-				if event.DonationAmount.Cmp(tx.Value()) == 0 {
+				if event.Raw.TxHash == tx.Hash() && event.DonationAmount.Cmp(tx.Value()) == 0 {
 					return tx.Value(), true, strings.ToLower(event.Raw.Address.String())
 				}
 			}
@@ -397,6 +399,52 @@ func (b *FullBlock) MevRewardInWei() (*big.Int, bool, string) {
 	return big.NewInt(0), false, ""
 }
 
+// Returns the position in EtherReceived of the event triggered by the mev reward of the block, or
+// -1 if there is none: no mev reward was sent, or the last tx did not pay the pool (eg it failed or
+// just calls the contract). Other events with the same amount are donations.
+func (b *FullBlock) mevEventPosition() int {
+	mevReward, isMev, _ := b.MevRewardInWei()
+	if !isMev {
+		return -1
+	}
+
+	txs := b.GetBlockTransactions()
+	tx, err := utils.DecodeTx(txs[len(txs)-1])
+	if err != nil {
+		log.Fatal("could not decode tx: ", err)
+	}
+	txHash := tx.Hash()
+
+	// See SetEvents and MevRewardInWei. This event was artificially added
+	if b.ChainId == MainnetChainId && b.GetSlotUint64() == ExceptionSlotMainnet1 {
+		txHash = common.Hash{}
+	}
+
+	for i, event := range b.Events.EtherReceived {
+		if event.Raw.TxHash == txHash && event.DonationAmount.Cmp(mevReward) == 0 {
+			return i
+		}
+	}
+	return -1
+}
+
+// Returns if the last tx of the block is known to have succeeded, and just transfers ether
+func (b *FullBlock) isLastTxPlainTransfer() bool {
+	txs := b.GetBlockTransactions()
+	if len(txs) == 0 || len(txs) != len(b.ExecutionReceipts) {
+		return false
+	}
+
+	tx, err := utils.DecodeTx(txs[len(txs)-1])
+	if err != nil {
+		log.Fatal("could not decode tx: ", err)
+	}
+
+	return len(tx.Data()) == 0 &&
+		tx.Value().Sign() > 0 &&
+		b.ExecutionReceipts[len(txs)-1].Status == types.ReceiptStatusSuccessful
+}
+
 // Returns if the address received any reward, its amount and its type. A reward
 // can be i) mev (MEV reward) or ii) vanila (just fees as per EIP1559)
 // For the oracle, a reward is either one type or the other. It cannot be both
@@ -411,6 +459,17 @@ func (b *FullBlock) GetSentRewardAndType(
 	// i) check if mev reward (first as its cheaper to check)
 	mevReward, mevPresent, mevRecipient := b.MevRewardInWei()
 
+	// a call to the pool contract that did not pay anything to it (eg a subscription sent by the
+	// fee recipient in the last tx) is not an mev reward
+	if mevPresent && utils.Equals(mevRecipient, poolAddress) && b.mevEventPosition() == -1 {
+		// Sanity check: a plain transfer that succeeded always triggers the event
+		if b.isLastTxPlainTransfer() {
+			log.Fatal("An mev reward was expected but could not find it. "+
+				"Wanted reward: ", mevReward, " Events: ", b.Events.EtherReceived)
+		}
+		mevPresent = false
+	}
+
 	if mevPresent {
 		// there is mev, store its value and set type
 		txType = MevBlock
@@ -563,10 +622,11 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 
 	// EtherReceived event mixes: donations + mev rewards
 	// We need to filter out mev rewards
-	mevReward, isMev, mevRec := b.MevRewardInWei()
+	_, isMev, mevRec := b.MevRewardInWei()
+	mevPosition := b.mevEventPosition()
 
 	// If no mev reward or mev reward but not to the pool
-	if !isMev || !utils.Equals(mevRec, poolAddress) {
+	if !isMev || !utils.Equals(mevRec, poolAddress) || mevPosition == -1 {
 		// In this case we dont expect any etherReceived event due to MEV
 		// All events are donations
 		return b.Events.EtherReceived
@@ -575,21 +635,13 @@ func (b *FullBlock) GetDonations(poolAddress string) []*contract.ContractEtherRe
 	// If the pool got an mev reward, we must filter the mev reward
 	// from the event, as thats not considered a donation
 	filteredEvents := make([]*contract.ContractEtherReceived, 0)
-	foundMev := false
-	for _, etherRxEvent := range b.Events.EtherReceived {
-		if etherRxEvent.DonationAmount.Cmp(mevReward) == 0 {
-			foundMev = true
+	for i, etherRxEvent := range b.Events.EtherReceived {
+		if i == mevPosition {
 			continue
 		}
 		filteredEvents = append(filteredEvents, etherRxEvent)
 	}
 
-	// Sanity check
-	if !foundMev {
-		log.Fatal("An mev reward was expected but could not find it. "+
-			"Wanted reward: ", mevReward, " Events: ", b.Events.EtherReceived)
-	}
-
 	return filteredEvents
 }
 
-- 
2.43.0


From 78e3150b86551dad2eeb82919e79f623cdd182af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 02/29] fix: do not halt when no eligible validator has
 effective balance under Electra

---
 oracle/oracle.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 2aee065..04c5f01 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -1600,6 +1600,13 @@ func (or *Oracle) handleElectraRewardDistribution(
 	for _, v := range validatorsMap {
 		totalBalance.Add(totalBalance, big.NewInt(int64(v.Validator.EffectiveBalance)))
 	}
+
+	// All eligible validators have exited with nothing at stake (they are unsubscribed in the next
+	// cleanup). There is nobody to share the reward with, so the pool gets it all
+	if len(validatorsMap) > 0 && totalBalance.Sign() == 0 {
+		log.Warn("Eligible validators have no effective balance, pool fees address will receive all")
+		return map[uint64]*big.Int{}, new(big.Int).Set(reward), nil
+	}
 	if totalBalance.Sign() == 0 {
 		return nil, nil, fmt.Errorf("total balance is zero")
 	}
-- 
2.43.0


From c822eb66676b81838bc6074b4622a9c21dfd79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 03/29] fix: do not nest read locks, a waiting writer deadlocks
 them

---
 oracle/oracle.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 04c5f01..293bf86 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -123,7 +123,7 @@ func (or *Oracle) State() *OracleState {
 func (or *Oracle) IsCheckpoint() (bool, error) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
-	latestProcSlot := or.State().LatestProcessedSlot
+	latestProcSlot := or.state.LatestProcessedSlot
 
 	if latestProcSlot == 0 {
 		return false, errors.New(
@@ -771,12 +771,17 @@ func (or *Oracle) FreezeCheckpoint() bool {
 func (or *Oracle) LatestCommitedSlot() (uint64, bool) {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
+	return or.latestCommitedSlotLockFree()
+}
 
-	if len(or.State().CommitedStates) == 0 {
+// Same as LatestCommitedSlot, for callers that already hold the lock. Read locks can't be
+// nested: a writer waiting in between blocks both of them forever
+func (or *Oracle) latestCommitedSlotLockFree() (uint64, bool) {
+	if len(or.state.CommitedStates) == 0 {
 		return 0, false
 	}
 	latestCommitedSlot := uint64(0)
-	for slot, _ := range or.State().CommitedStates {
+	for slot, _ := range or.state.CommitedStates {
 		if slot > latestCommitedSlot {
 			latestCommitedSlot = slot
 		}
@@ -789,14 +794,14 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 	or.mutex.RLock()
 	defer or.mutex.RUnlock()
 
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
 		return nil
 	}
 
-	return or.State().CommitedStates[latestCommitedSlot]
+	return or.state.CommitedStates[latestCommitedSlot]
 }
 
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
-- 
2.43.0


From 8bb9362c9a0aef5765b246d7294bcf52dfce1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 04/29] fix: save and hash a consistent snapshot of the state,
 always releasing the lock

---
 oracle/oracle.go | 99 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 78 insertions(+), 21 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 293bf86..51930de 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -146,14 +146,61 @@ func (or *Oracle) IsCheckpoint() (bool, error) {
 // verification purposes
 func (or *Oracle) StateWithHash() (*OracleState, error) {
 	or.mutex.Lock()
+	defer or.mutex.Unlock()
 
 	// Update hash
 	err := or.hashStateLockFree()
 	if err != nil {
 		return nil, errors.Wrap(err, "error hashing the oracle state")
 	}
-	or.mutex.Unlock()
-	return or.State(), nil
+	return or.snapshotLockFree(), nil
+}
+
+// Returns a copy of the state that is safe to read while the oracle keeps processing blocks,
+// unlike State(). All its content belongs to the same instant.
+func (or *Oracle) StateSnapshot() *OracleState {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	return or.snapshotLockFree()
+}
+
+// Copies everything that changes in place. Recorded events, blocks and commited states are
+// never modified once added so they are shared.
+func (or *Oracle) snapshotLockFree() *OracleState {
+	snapshot := *or.state
+
+	snapshot.PoolAccumulatedFees = copyBigInt(or.state.PoolAccumulatedFees)
+
+	if or.state.Validators != nil {
+		snapshot.Validators = make(map[uint64]*ValidatorInfo, len(or.state.Validators))
+		for idx, validator := range or.state.Validators {
+			if validator == nil {
+				snapshot.Validators[idx] = nil
+				continue
+			}
+			validatorCopy := *validator
+			validatorCopy.AccumulatedRewardsWei = copyBigInt(validator.AccumulatedRewardsWei)
+			validatorCopy.PendingRewardsWei = copyBigInt(validator.PendingRewardsWei)
+			validatorCopy.CollateralWei = copyBigInt(validator.CollateralWei)
+			snapshot.Validators[idx] = &validatorCopy
+		}
+	}
+
+	if or.state.CommitedStates != nil {
+		snapshot.CommitedStates = make(map[uint64]*OnchainState, len(or.state.CommitedStates))
+		for slot, commited := range or.state.CommitedStates {
+			snapshot.CommitedStates[slot] = commited
+		}
+	}
+
+	return &snapshot
+}
+
+func copyBigInt(value *big.Int) *big.Int {
+	if value == nil {
+		return nil
+	}
+	return new(big.Int).Set(value)
 }
 
 // Given a previous or.state, this function applies the new block to it, updating the or.state
@@ -496,20 +543,18 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	// Not just read lock since we change the hash, minor thing
 	// but it cant be just a read mutex
 
-	or.mutex.Lock()
-
 	log.Info("Saving oracle state to JSON file")
 
-	err := or.hashStateLockFree()
+	// The lock is released in any case. All that is saved and logged belongs to this snapshot
+	state, err := or.StateWithHash()
 	if err != nil {
-		return errors.Wrap(err, "error hashing the oracle state")
+		return err
 	}
 
-	jsonData, err := json.MarshalIndent(or.state, "", " ")
+	jsonData, err := json.MarshalIndent(state, "", " ")
 	if err != nil {
 		return errors.Wrap(err, "could not marshal state to JSON")
 	}
-	or.mutex.Unlock()
 
 	path := filepath.Join(StateFolder, StateJsonName)
 	err = os.MkdirAll(StateFolder, os.ModePerm)
@@ -525,23 +570,23 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	}
 
 	log.WithFields(log.Fields{
-		"LatestProcessedSlot":  or.state.LatestProcessedSlot,
-		"LatestProcessedBlock": or.state.LatestProcessedBlock,
-		"NextSlotToProcess":    or.state.NextSlotToProcess,
-		"TotalValidators":      len(or.state.Validators),
-		"Network":              or.state.Network,
-		"PoolAddress":          or.state.PoolAddress,
+		"LatestProcessedSlot":  state.LatestProcessedSlot,
+		"LatestProcessedBlock": state.LatestProcessedBlock,
+		"NextSlotToProcess":    state.NextSlotToProcess,
+		"TotalValidators":      len(state.Validators),
+		"Network":              state.Network,
+		"PoolAddress":          state.PoolAddress,
 		"Path":                 path,
-		"Hash":                 or.state.StateHash,
+		"Hash":                 state.StateHash,
 	}).Info("Saved state to file")
 
 	// If saveSlot is true, save a copy of the state with the slot number in the file
 	if saveSlot {
-		filename := fmt.Sprintf("state_%d.json", or.State().LatestProcessedSlot)
+		filename := fmt.Sprintf("state_%d.json", state.LatestProcessedSlot)
 		path = filepath.Join(StateFolder, filename)
 
 		log.WithFields(log.Fields{
-			"LatestProcessedSlot": or.state.LatestProcessedSlot,
+			"LatestProcessedSlot": state.LatestProcessedSlot,
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
@@ -807,7 +852,10 @@ func (or *Oracle) LatestCommitedState() *OnchainState {
 // Check if the oracle is in sync with a given root and slot. Its considered in sync
 // when the latest commited state has the same root and slot as the onchain state
 func (or *Oracle) IsOracleInSyncWithChain(onchainRoot string, onchainSlot uint64) (bool, error) {
-	latestCommitedSlot, atLeastOne := or.LatestCommitedSlot()
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+
+	latestCommitedSlot, atLeastOne := or.latestCommitedSlotLockFree()
 
 	// If we havent commited any state yet
 	if !atLeastOne {
@@ -828,7 +876,7 @@ func (or *Oracle) IsOracleInSyncWithChain(onchainRoot string, onchainSlot uint64
 		return false, nil
 	}
 
-	latestOracleRoot := or.State().CommitedStates[latestCommitedSlot].MerkleRoot
+	latestOracleRoot := or.state.CommitedStates[latestCommitedSlot].MerkleRoot
 
 	if utils.Equals(onchainRoot, latestOracleRoot) && onchainSlot == latestCommitedSlot {
 		log.WithFields(log.Fields{
@@ -877,6 +925,9 @@ func (or *Oracle) RunOnchainReconciliation(
 	// both amount have to match at any time, asssuming we run this on finalized
 	// on the same slots (finalized epochs)
 
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+
 	// What we owe (1/2)
 	totalCumulativeRewards := big.NewInt(0)
 	for _, val := range or.state.Validators {
@@ -913,6 +964,9 @@ func (or *Oracle) RunOnchainReconciliation(
 }
 
 func (or *Oracle) RunOffchainReconciliation() error {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+
 	liabilities := big.NewInt(0)
 
 	for _, val := range or.state.Validators {
@@ -947,10 +1001,13 @@ func (or *Oracle) RunOffchainReconciliation() error {
 }
 
 func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+
 	var uniqueWithAdd []string
 
 	// Iterate all validators
-	for _, validator := range or.State().Validators {
+	for _, validator := range or.state.Validators {
 		skip := false
 		// Iterate all unique deposit addresses processed before
 		for _, u := range uniqueWithAdd {
@@ -967,7 +1024,7 @@ func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
 	}
 
 	// Include also the pool address
-	uniqueWithAdd = append(uniqueWithAdd, or.State().PoolFeesAddress)
+	uniqueWithAdd = append(uniqueWithAdd, or.state.PoolFeesAddress)
 
 	return uniqueWithAdd
 }
-- 
2.43.0


From ad7beb4c3da3b3afea27f36a1d14a13246a5638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 05/29] fix: write the state files atomically

---
 oracle/oracle.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 51930de..e6afe2c 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -564,7 +564,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 
 	log.Trace("Saving state to file:", fmt.Sprintf("%s", jsonData))
 
-	err = ioutil.WriteFile(path, jsonData, 0644)
+	err = writeFileAtomic(path, jsonData, 0644)
 	if err != nil {
 		return errors.Wrap(err, "could not write file")
 	}
@@ -590,7 +590,7 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 			"FileName":            filename,
 		}).Info("Storing also a copy of the state")
 
-		err = ioutil.WriteFile(path, jsonData, 0644)
+		err = writeFileAtomic(path, jsonData, 0644)
 		if err != nil {
 			return errors.Wrap(err, "could not write file")
 		}
@@ -599,6 +599,32 @@ func (or *Oracle) SaveToJson(saveSlot bool) error {
 	return nil
 }
 
+// Writes a file so that at any point in time, also after a crash or a disk failure, the file
+// has either its complete previous content or the complete new one
+func writeFileAtomic(path string, data []byte, perm os.FileMode) error {
+	tmpFile, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp-*")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(tmpFile.Name())
+
+	_, err = tmpFile.Write(data)
+	if err == nil {
+		err = tmpFile.Chmod(perm)
+	}
+	if err == nil {
+		err = tmpFile.Sync()
+	}
+	if closeErr := tmpFile.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(tmpFile.Name(), path)
+}
+
 // Loads the oracle state from a human readable json file. Multiple
 // check are performed to ensure the state is valid such as checking
 // the hash of the state and ensuring the configuation has not changed
-- 
2.43.0


From 6f5085a9b8a194c868d9a8dbee7c6b8ead6dcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 06/29] fix: clean validators up in a fixed order, so that all
 oracles agree

---
 oracle/oracle.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index e6afe2c..ade09cb 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -11,6 +11,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"sort"
 	"sync"
 
 	"github.com/avast/retry-go/v4"
@@ -316,6 +317,10 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 			indices = append(indices, phase0.ValidatorIndex(idx))
 		}
 
+		// The order matters when the target of a consolidation exits too, and all oracles have
+		// to reach the same state
+		sort.Slice(indices, func(i, j int) bool { return indices[i] < indices[j] })
+
 		// if oracle isn't tracking any validator, it means that nobody ever subscribed, nothing to cleanup
 		if len(indices) == 0 {
 			log.Info("No validators to cleanup, state has no validators")
@@ -347,7 +352,12 @@ func (or *Oracle) ValidatorCleanup(slot uint64) error {
 		// Iterate over all validators. If two or more validators exit or get slashed in the same slot,
 		// this cleanup will eventually set both of their pending rewards to 0 and share them among the pool
 		rewardsToDistribute := big.NewInt(0)
-		for _, validator := range validatorInfo {
+		for _, valIndex := range indices {
+			validator, found := validatorInfo[valIndex]
+			if !found {
+				continue
+			}
+
 			// If a validator is subscribed but not active onchain, we have to unsubscribe it and treat it as a ban:
 			// this means setting the validator rewards to 0 and sharing them among the pool
 			idx := uint64(validator.Index)
-- 
2.43.0


From deca00e404806921a511644408d0a028c5217913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 07/29] fix: change the fee only once the whole configuration
 of the block was validated

---
 oracle/oracle.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index ade09cb..cdc1703 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -512,21 +512,6 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 		return errors.New("more than one event of the same type in the same block, weird")
 	}
 
-	// If an UpdatePoolFee event is found, check if it's expected in the fee schedule.
-	// If expected, apply the new fee from the event. If not, crash.
-	if len(fullBlock.Events.UpdatePoolFee) != 0 {
-		slot := uint64(fullBlock.ConsensusDuty.Slot)
-		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
-		expectedFee, expected := getFeeSchedule(config.Network)[slot]
-		if !expected || expectedFee != newFee {
-			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
-				slot, newFee, expectedFee, expected))
-		}
-		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
-		config.PoolFeesPercentOver10000 = newFee
-		or.state.PoolFeesPercentOver10000 = newFee
-	}
-
 	if len(fullBlock.Events.PoolFeeRecipient) != 0 && !utils.Equals(config.PoolFeesAddress, fullBlock.Events.PoolFeeRecipient[0].NewPoolFeeRecipient.String()) {
 		return errors.New(fmt.Sprintf("pool fee recipient has changed. config: %s, block: %s",
 			config.PoolFeesAddress, fullBlock.Events.PoolFeeRecipient[0].NewPoolFeeRecipient.String()))
@@ -542,6 +527,22 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 			config.CollateralInWei, fullBlock.Events.UpdateSubscriptionCollateral[0].NewSubscriptionCollateral))
 	}
 
+	// If an UpdatePoolFee event is found, check if it's expected in the fee schedule.
+	// If expected, apply the new fee from the event. If not, crash. This is the last check, as
+	// nothing can be changed if the block is not accepted.
+	if len(fullBlock.Events.UpdatePoolFee) != 0 {
+		slot := uint64(fullBlock.ConsensusDuty.Slot)
+		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
+		expectedFee, expected := getFeeSchedule(config.Network)[slot]
+		if !expected || expectedFee != newFee {
+			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
+				slot, newFee, expectedFee, expected))
+		}
+		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
+		config.PoolFeesPercentOver10000 = newFee
+		or.state.PoolFeesPercentOver10000 = newFee
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 51742ca52b60907b091463732d548b9cd012e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 08/29] fix: expect the fee in force at the slot of a loaded
 state, and leave the config alone if it is refused

---
 oracle/oracle.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index cdc1703..f1b83b3 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -34,6 +34,7 @@ type GetPendingConsolidationsFunc func(stateID string, opts ...retry.Option) (*P
 
 type Oracle struct {
 	cfg                      *Config
+	initialPoolFee           int // before any scheduled change
 	state                    *OracleState
 	mutex                    sync.RWMutex
 	getSetOfValidators       GetSetOfValidatorsFunc
@@ -95,6 +96,7 @@ func NewOracle(cfg *Config) *Oracle {
 
 	oracle := &Oracle{
 		cfg:                      cfg,
+		initialPoolFee:           cfg.PoolFeesPercentOver10000,
 		state:                    state,
 		getSetOfValidators:       nil,
 		getPendingConsolidations: nil,
@@ -717,14 +719,15 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 			state.PoolFeesAddress, or.cfg.PoolFeesAddress))
 	}
 
-	if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
-		// The config starts at initialPoolFee. If the state was saved after a
-		// scheduled fee change, apply the schedule up to the state's slot.
-		applyFeeScheduleUpTo(or.cfg, state.LatestProcessedSlot)
-		if state.PoolFeesPercentOver10000 != or.cfg.PoolFeesPercentOver10000 {
-			return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
-				state.PoolFeesPercentOver10000, or.cfg.PoolFeesPercentOver10000))
-		}
+	// The fee in force at the slot of the state: the initial one, or the latest scheduled change
+	// up to that slot. Note that the config may be ahead or behind of the state being loaded, and
+	// is only updated once the state is accepted.
+	expectedConfig := *or.cfg
+	expectedConfig.PoolFeesPercentOver10000 = or.initialPoolFee
+	applyFeeScheduleUpTo(&expectedConfig, state.LatestProcessedSlot)
+	if state.PoolFeesPercentOver10000 != expectedConfig.PoolFeesPercentOver10000 {
+		return false, errors.New(fmt.Sprintf("pool fees percent mismatch, recovered: %d, expected: %d",
+			state.PoolFeesPercentOver10000, expectedConfig.PoolFeesPercentOver10000))
 	}
 
 	if state.CollateralInWei.Cmp(or.cfg.CollateralInWei) != 0 {
@@ -748,6 +751,7 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	}
 
 	or.state = &state
+	or.cfg.PoolFeesPercentOver10000 = expectedConfig.PoolFeesPercentOver10000
 
 	mRoot, enoughData := or.getMerkleRootIfAny()
 	log.WithFields(log.Fields{
-- 
2.43.0


From 17ccbe2cf3a8d09b465bd91c5dbd64efba593f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 09/29] fix: compare the whole value of a fee change event with
 the schedule

---
 oracle/oracle.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index f1b83b3..6449db6 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -536,9 +536,9 @@ func (or *Oracle) validateFullBlockConfig(fullBlock *FullBlock, config *Config)
 		slot := uint64(fullBlock.ConsensusDuty.Slot)
 		newFee := int(fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Int64())
 		expectedFee, expected := getFeeSchedule(config.Network)[slot]
-		if !expected || expectedFee != newFee {
+		if !expected || fullBlock.Events.UpdatePoolFee[0].NewPoolFee.Cmp(big.NewInt(int64(expectedFee))) != 0 {
 			return errors.New(fmt.Sprintf("unexpected pool fee change at slot %d. event fee: %d, expected: %d (scheduled: %v)",
-				slot, newFee, expectedFee, expected))
+				slot, fullBlock.Events.UpdatePoolFee[0].NewPoolFee, expectedFee, expected))
 		}
 		log.Info("Applying expected fee change from UpdatePoolFee event at slot ", slot, ": ", config.PoolFeesPercentOver10000, " -> ", newFee)
 		config.PoolFeesPercentOver10000 = newFee
-- 
2.43.0


From 40d8d7fa8b02339444776536a66689c18780778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 10/29] fix: refuse incomplete or unreadable state files with
 an error

---
 oracle/oracle.go | 76 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 74 insertions(+), 2 deletions(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 6449db6..b7ff951 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -657,9 +657,12 @@ func (or *Oracle) LoadFromPath(path string) (bool, error) {
 	defer jsonFile.Close()
 
 	// Dont error if the file wasnt found, just return not found
-	if err != nil {
+	if os.IsNotExist(err) {
 		return false, nil
 	}
+	if err != nil {
+		return false, errors.Wrap(err, "could not open json file")
+	}
 
 	byteValue, err := ioutil.ReadAll(jsonFile)
 	if err != nil {
@@ -698,11 +701,17 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	calculatedHashString := hexutil.Encode(calculatedHashByte[:])
 
 	// Hashes must match
-	if !utils.Equals(recoveredHash, calculatedHashString) {
+	if recoveredHash != calculatedHashString {
 		return false, errors.New(fmt.Sprintf("hash mismatch, recovered: %s, calculated: %s",
 			recoveredHash, calculatedHashString))
 	}
 
+	// A matching hash says nothing about missing data
+	err = checkStateIsComplete(&state)
+	if err != nil {
+		return false, errors.Wrap(err, "the state is not complete")
+	}
+
 	// Sanity check to ensure the oracle config matches the loaded state
 	if state.Network != or.cfg.Network {
 		return false, errors.New(fmt.Sprintf("network mismatch, recovered: %s, expected: %s",
@@ -766,6 +775,69 @@ func (or *Oracle) LoadFromBytes(rawBytes []byte) (bool, error) {
 	return true, nil
 }
 
+// Checks that nothing the oracle relies on is missing in a state
+func checkStateIsComplete(state *OracleState) error {
+	if state.PoolAccumulatedFees == nil || state.CollateralInWei == nil {
+		return errors.New("pool fees or collateral are missing")
+	}
+	if state.Validators == nil || state.CommitedStates == nil {
+		return errors.New("validators or commited states are missing")
+	}
+	err := checkValidatorsAreComplete(state.Validators)
+	if err != nil {
+		return err
+	}
+	for slot, commited := range state.CommitedStates {
+		if commited == nil {
+			return errors.New(fmt.Sprintf("commited state of slot %d is missing", slot))
+		}
+		err := checkValidatorsAreComplete(commited.Validators)
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("commited state of slot %d", slot))
+		}
+		for address, leaf := range commited.Leafs {
+			if leaf.AccumulatedBalanceWei == nil {
+				return errors.New(fmt.Sprintf("commited state of slot %d: leaf of %s is incomplete", slot, address))
+			}
+		}
+	}
+	for _, event := range state.SubscriptionEvents {
+		if event == nil || event.SubscriptionCollateral == nil {
+			return errors.New("a subscription event is incomplete")
+		}
+	}
+	for _, event := range state.UnsubscriptionEvents {
+		if event == nil {
+			return errors.New("an unsubscription event is missing")
+		}
+	}
+	for _, events := range [][]*contract.ContractEtherReceived{state.EtherReceivedEvents, state.Donations} {
+		for _, event := range events {
+			if event == nil || event.DonationAmount == nil {
+				return errors.New("an ether received event is incomplete")
+			}
+		}
+	}
+	for _, blocks := range [][]SummarizedBlock{state.ProposedBlocks, state.MissedBlocks, state.WrongFeeBlocks} {
+		for _, block := range blocks {
+			if block.Reward == nil {
+				return errors.New(fmt.Sprintf("the block of slot %d is incomplete", block.Slot))
+			}
+		}
+	}
+	return nil
+}
+
+func checkValidatorsAreComplete(validators map[uint64]*ValidatorInfo) error {
+	for idx, validator := range validators {
+		if validator == nil || validator.AccumulatedRewardsWei == nil ||
+			validator.PendingRewardsWei == nil || validator.CollateralWei == nil {
+			return errors.New(fmt.Sprintf("validator %d is incomplete", idx))
+		}
+	}
+	return nil
+}
+
 func (or *Oracle) LoadGivenState(slotCheckpoint uint64) (bool, error) {
 	// Try to load the given state
 	path := filepath.Join(StateFolder, fmt.Sprintf("state_%d.json", slotCheckpoint))
-- 
2.43.0


From 1c6ff9aeb384c546e97597eba0489188e52744bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 11/29] fix: count what the pool fee address claimed once in
 the reconciliation

---
 oracle/oracle.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index b7ff951..c588e2b 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -1136,7 +1136,12 @@ func (or *Oracle) GetUniqueWithdrawalAddresses() []string {
 		}
 	}
 
-	// Include also the pool address
+	// Include also the pool address, unless some validator withdraws to it
+	for _, u := range uniqueWithAdd {
+		if utils.Equals(or.state.PoolFeesAddress, u) {
+			return uniqueWithAdd
+		}
+	}
 	uniqueWithAdd = append(uniqueWithAdd, or.state.PoolFeesAddress)
 
 	return uniqueWithAdd
-- 
2.43.0


From fccae618b4ec5161df4b63b26475fb493934571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 12/29] fix: refuse states with a malformed withdrawal address
 instead of halting

---
 oracle/oracle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index c588e2b..0e65502 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -21,6 +21,7 @@ import (
 	"github.com/attestantio/go-eth2-client/spec/phase0"
 	"github.com/dappnode/mev-sp-oracle/contract"
 	"github.com/dappnode/mev-sp-oracle/utils"
+	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
 	log "github.com/sirupsen/logrus"
 )
@@ -834,6 +835,9 @@ func checkValidatorsAreComplete(validators map[uint64]*ValidatorInfo) error {
 			validator.PendingRewardsWei == nil || validator.CollateralWei == nil {
 			return errors.New(fmt.Sprintf("validator %d is incomplete", idx))
 		}
+		if len(validator.WithdrawalAddress) != len(DefaultAddress) || !common.IsHexAddress(validator.WithdrawalAddress) {
+			return errors.New(fmt.Sprintf("validator %d has a wrong withdrawal address: %s", idx, validator.WithdrawalAddress))
+		}
 	}
 	return nil
 }
-- 
2.43.0


From dfe7666e0a259e06002eced49dfd399029ccf53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 13/29] fix: treat a block as missed only if the beacon node
 answers 404

---
 oracle/onchain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 1419d49..b349a4f 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -227,7 +227,9 @@ func (o *Onchain) GetConsensusBlockAtSlot(slot uint64, opts ...retry.Option) (*s
 			// Its not possible to detect if the block was missed or if the block doesn't exist in the chain
 			// GET failed with status 404: {"code":404,"message":"NOT_FOUND: beacon block at slot 7408169","stacktraces":[]}
 			// To keep compatibility after go-eth2-client changes, we consider that a missed block is nil
-			if strings.Contains(err.Error(), "404") {
+			// Only the status code counts, the text of any other error can contain a "404" (slot, port, message)
+			var apiErr *api.Error
+			if errors.As(err, &apiErr) && apiErr.StatusCode == normalHttp.StatusNotFound {
 				signedBeaconBlock = &api.Response[*spec.VersionedSignedBeaconBlock]{
 					Data: nil,
 				}
-- 
2.43.0


From 51020665a7b8b6ea33a02eaeb5ca03968a3bade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 14/29] fix: report events that cannot be decoded instead of
 dropping them

---
 api/api.go        |  6 ++++++
 oracle/onchain.go | 27 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/api/api.go b/api/api.go
index 8c42474..cda11f7 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1138,6 +1138,9 @@ func (m *ApiService) GetSubscriptionsTillHead(latestProcessedBlock uint64) ([]Su
 		}
 		blockSubscriptions = append(blockSubscriptions, sub)
 	}
+	if itrSubs.Error() != nil {
+		return nil, errors.Wrap(itrSubs.Error(), "could not decode event")
+	}
 	err = itrSubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
@@ -1163,6 +1166,9 @@ func (m *ApiService) GetUnsubscriptionsTillHead(latestProcessedBlock uint64) ([]
 		}
 		blockUnsubscriptions = append(blockUnsubscriptions, unsub)
 	}
+	if itrUnsubs.Error() != nil {
+		return nil, errors.Wrap(itrUnsubs.Error(), "could not decode event")
+	}
 	err = itrUnsubs.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close subscription iterator")
diff --git a/oracle/onchain.go b/oracle/onchain.go
index b349a4f..0d7dd59 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1324,6 +1324,9 @@ func (o *Onchain) GetEtherReceivedEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close EtherReceived iterator")
@@ -1360,6 +1363,9 @@ func (o *Onchain) GetSubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close SubscribeValidator iterator")
@@ -1415,6 +1421,9 @@ func (o *Onchain) GetUnsubscribeValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnsubscribeValidator iterator")
@@ -1451,6 +1460,9 @@ func (o *Onchain) GetBanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close BanValidator iterator")
@@ -1487,6 +1499,9 @@ func (o *Onchain) GetUnbanValidatorEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close UnbanValidator iterator")
@@ -1532,6 +1547,9 @@ func (o *Onchain) GetUpdatePoolFeeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFee iterator")
@@ -1567,6 +1585,9 @@ func (o *Onchain) GetPoolFeeRecipientEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdatePoolFeeRecipient iterator")
@@ -1602,6 +1623,9 @@ func (o *Onchain) GetCheckpointSlotSizeEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateCheckpointSlotSize iterator")
@@ -1637,6 +1661,9 @@ func (o *Onchain) GetUpdateSubscriptionCollateralEvents(
 	for itr.Next() {
 		events = append(events, itr.Event)
 	}
+	if itr.Error() != nil {
+		return nil, errors.Wrap(itr.Error(), "could not decode event")
+	}
 	err = itr.Close()
 	if err != nil {
 		return nil, errors.Wrap(err, "could not close ContractUpdateSubscriptionCollateral iterator")
-- 
2.43.0


From 4eb0bc72bf632ea99ccaf4622a49fb6bf158b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 15/29] fix: refuse log answers that are null, empty or of
 another block

---
 oracle/onchain.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 0d7dd59..afe38c7 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -75,6 +75,36 @@ type Onchain struct {
 	validators      map[phase0.ValidatorIndex]*v1.Validator
 }
 
+// Execution client that refuses answers with malformed or unrelated logs, which
+// would otherwise be taken for events without content or for no events at all
+type checkedLogsClient struct {
+	*ethclient.Client
+}
+
+func (c checkedLogsClient) FilterLogs(ctx context.Context, query ethereum.FilterQuery) ([]types.Log, error) {
+	logs, err := c.Client.FilterLogs(ctx, query)
+	if err != nil {
+		return nil, err
+	}
+	// An empty answer is an empty list, not null
+	if logs == nil {
+		return nil, errors.New("execution client answered no logs")
+	}
+	for _, eventLog := range logs {
+		blockNumber := new(big.Int).SetUint64(eventLog.BlockNumber)
+		if (query.FromBlock != nil && blockNumber.Cmp(query.FromBlock) < 0) ||
+			(query.ToBlock != nil && blockNumber.Cmp(query.ToBlock) > 0) {
+			return nil, errors.New(fmt.Sprintf("execution client answered a log of another block: %d", eventLog.BlockNumber))
+		}
+		// All the events of the pool have content
+		if len(eventLog.Data) == 0 {
+			return nil, errors.New(fmt.Sprintf("execution client answered an empty log, block: %d index: %d",
+				eventLog.BlockNumber, eventLog.Index))
+		}
+	}
+	return logs, nil
+}
+
 func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchain, error) {
 
 	// Dial the execution client
@@ -144,7 +174,7 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 
 	// Instantiate the smoothing pool contract to run get/set operations on it
 	address := common.HexToAddress(cliCfg.PoolAddress)
-	contract, err := contract.NewContract(address, executionClient)
+	contract, err := contract.NewContract(address, checkedLogsClient{executionClient})
 	if err != nil {
 		return nil, errors.Wrap(err, "Error instantiating contract")
 	}
-- 
2.43.0


From 1b726a82cc7061680d6c05f270ec8fe0a4cc61ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 16/29] fix: fail if a receipt is not of its transaction

---
 oracle/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/block.go b/oracle/block.go
index 40c3be9..c36f9da 100644
--- a/oracle/block.go
+++ b/oracle/block.go
@@ -553,7 +553,7 @@ func (b *FullBlock) GetProposerTip() (*big.Int, error) {
 			return nil, errors.Wrap(err, "could not decode tx")
 		}
 		if tx.Hash() != b.ExecutionReceipts[i].TxHash {
-			return nil, errors.Wrap(err, "tx hash does not match receipt hash")
+			return nil, errors.New("tx hash does not match receipt hash")
 		}
 
 		tipFee := new(big.Int)
-- 
2.43.0


From b799ad97b991fb701349bdaafc8989234f1f61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 17/29] fix: answer an error if the proposal duties of an epoch
 are incomplete

---
 oracle/onchain.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index afe38c7..0d4057b 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -513,16 +513,11 @@ func findInitializeInCreationData(method abi.Method, selector []byte, data []byt
 
 func (o *Onchain) GetProposalDuty(slot uint64, opts ...retry.Option) (*v1.ProposerDuty, error) {
 	epoch := slot / constants.SlotsInEpoch
-	slotWithinEpoch := slot % constants.SlotsInEpoch
 	slotStr := strconv.FormatUint(slot, 10)
 
 	// If cache hit, return the result
-	if ProposalDutyCache.Epoch == epoch {
-		// Sanity check that should never happen
-		if ProposalDutyCache.Epoch != uint64(ProposalDutyCache.Duties[slotWithinEpoch].Slot/phase0.Slot(constants.SlotsInEpoch)) {
-			return nil, errors.New("Proposal duty epoch does not match when converting slot to epoch")
-		}
-		return ProposalDutyCache.Duties[slotWithinEpoch], nil
+	if ProposalDutyCache.Epoch == epoch && len(ProposalDutyCache.Duties) != 0 {
+		return dutyAtSlot(ProposalDutyCache.Duties, slot)
 	}
 
 	// Empty indexes to force fetching all duties
@@ -547,10 +542,30 @@ func (o *Onchain) GetProposalDuty(slot uint64, opts ...retry.Option) (*v1.Propos
 		return nil, errors.New("Error fetching proposal duties at slot " + slotStr + ": " + err.Error())
 	}
 
+	// Do not store an answer without the requested duty in the cache
+	duty, err := dutyAtSlot(duties.Data, slot)
+	if err != nil {
+		return nil, err
+	}
+
 	// If success, store result in cache
 	ProposalDutyCache = EpochDuties{epoch, duties.Data}
 
-	return duties.Data[slotWithinEpoch], nil
+	return duty, nil
+}
+
+// Returns the duty of a slot, out of the duties of its epoch
+func dutyAtSlot(duties []*v1.ProposerDuty, slot uint64) (*v1.ProposerDuty, error) {
+	slotWithinEpoch := slot % constants.SlotsInEpoch
+	if slotWithinEpoch >= uint64(len(duties)) || duties[slotWithinEpoch] == nil {
+		return nil, errors.New(fmt.Sprintf("Proposal duty of slot %d not found in the duties of its epoch", slot))
+	}
+	duty := duties[slotWithinEpoch]
+	// Sanity check that should never happen
+	if uint64(duty.Slot)/constants.SlotsInEpoch != slot/constants.SlotsInEpoch {
+		return nil, errors.New("Proposal duty epoch does not match when converting slot to epoch")
+	}
+	return duty, nil
 }
 
 // This function is expensive as gets every tx receipt from the block. Use only if needed
-- 
2.43.0


From 84641b7851dbcb5653045f765e8fabd58ed7092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 18/29] fix: do not take an empty sync or consolidations answer
 for a value

---
 oracle/onchain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 0d4057b..3e3c30d 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -220,6 +220,9 @@ func (o *Onchain) AreNodesInSync(opts ...retry.Option) (bool, error) {
 			log.Warn("Failed attempt to fetch consensus client sync progress: ", err.Error(), " Retrying...")
 			return errors.New("Error fetching execution client sync progress: " + err.Error())
 		}
+		if consSync.Data == nil {
+			return errors.New("Error fetching consensus client sync progress: empty answer")
+		}
 		return nil
 	}, o.GetRetryOpts(opts)...)
 
@@ -1991,6 +1994,11 @@ func (o *Onchain) GetPendingConsolidations(stateID string, opts ...retry.Option)
 			return fmt.Errorf("decoding response failed: %w", decodeErr)
 		}
 
+		// No pending consolidations are answered as an empty list
+		if result.Data == nil {
+			return errors.New("response without pending consolidations")
+		}
+
 		consolidations = &result
 		return nil
 	}, o.GetRetryOpts(opts)...)
-- 
2.43.0


From 5ece2af38c4e4979315ad5e9cb24b384ead93cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 19/29] fix: serve every request from a snapshot of the state,
 config and validator set

---
 api/api.go        | 123 +++++++++++++++++++++++++++-------------------
 oracle/onchain.go |   6 +++
 oracle/oracle.go  |   7 +++
 3 files changed, 85 insertions(+), 51 deletions(-)

diff --git a/api/api.go b/api/api.go
index cda11f7..0f739d1 100644
--- a/api/api.go
+++ b/api/api.go
@@ -282,7 +282,10 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalAccumulatedRewards := big.NewInt(0)
 	totalPendingRewards := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().Validators {
+	// All the answer is calculated from the same state
+	state := m.oracle.StateSnapshot()
+
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active {
 			totalActive++
 		} else if validator.ValidatorStatus == oracle.YellowCard {
@@ -305,19 +308,19 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalDonationsWei := big.NewInt(0)
 
 	// Prevent underflow
-	if uint64(m.oracle.State().LatestProcessedSlot) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedSlot) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head slot is lower than slots in a month, this should not happen")
 		return
 	}
 
-	if uint64(m.oracle.State().LatestProcessedBlock) < SlotsInOneMonth {
+	if uint64(state.LatestProcessedBlock) < SlotsInOneMonth {
 		m.respondError(w, http.StatusInternalServerError, "head block is lower than slots in a month, this should not happen")
 		return
 	}
 
 	// Only consider blocks in the last 30 days
-	limitSlot := uint64(m.oracle.State().LatestProcessedSlot) - SlotsInOneMonth
-	limitBlock := uint64(m.oracle.State().LatestProcessedBlock) - SlotsInOneMonth
+	limitSlot := uint64(state.LatestProcessedSlot) - SlotsInOneMonth
+	limitBlock := uint64(state.LatestProcessedBlock) - SlotsInOneMonth
 
 	// Note that in a month we have SlotsInOneMonth slots, but not exactly that amount of blocks. If blocks
 	// are missed we can have less. If blocks are missed we will take into account a time window
@@ -325,7 +328,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	totalOkPoolProposalBlocks := uint64(0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range state.ProposedBlocks {
 		// only consider ok pool proposals, since these are the only type of blocks that are shared
 		// across all validators
 		if block.BlockType == oracle.OkPoolProposal {
@@ -339,7 +342,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		}
 	}
 
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range state.Donations {
 		totalDonationsWei.Add(totalDonationsWei, donation.DonationAmount)
 
 		// Note that rewards also take donations into account
@@ -357,7 +360,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
 
-	totalProposedBlocks := uint64(len(m.oracle.State().ProposedBlocks))
+	totalProposedBlocks := uint64(len(state.ProposedBlocks))
 	avgBlockRewardWei := big.NewInt(0)
 
 	// Avoid division by zero
@@ -369,7 +372,7 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 	totalEffectiveBalance := uint64(0)
 	effectiveBalances := m.Onchain.Validators()
 
-	for _, validator := range m.oracle.State().Validators {
+	for _, validator := range state.Validators {
 		if validator.ValidatorStatus == oracle.Active ||
 			validator.ValidatorStatus == oracle.YellowCard ||
 			validator.ValidatorStatus == oracle.RedCard {
@@ -395,8 +398,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRedCard:                 totalRedCard,
 		TotalBanned:                  totalBanned,
 		TotalNotSubscribed:           totalNotSubscribed,
-		LatestCheckpointSlot:         m.oracle.State().LatestProcessedSlot,
-		NextCheckpointSlot:           m.oracle.State().LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
+		LatestCheckpointSlot:         state.LatestProcessedSlot,
+		NextCheckpointSlot:           state.LatestProcessedSlot + m.cfg.CheckPointSizeInSlots,
 		TotalAccumulatedRewardsWei:   totalAccumulatedRewards.String(),
 		TotalPendingRewaradsWei:      totalPendingRewards.String(),
 		TotalRewardsSentWei:          totalRewardsSentWei.String(),
@@ -405,8 +408,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 		TotalRewardsSent30DaysWei:    totalRewardsSent30DaysWei.String(),
 		RewardsPerValidatorPer30Days: rewardsPerValidatorPer30Days.String(),
 		TotalProposedBlocks:          totalProposedBlocks,
-		TotalMissedBlocks:            uint64(len(m.oracle.State().MissedBlocks)),
-		TotalWrongFeeBlocks:          uint64(len(m.oracle.State().WrongFeeBlocks)),
+		TotalMissedBlocks:            uint64(len(state.MissedBlocks)),
+		TotalWrongFeeBlocks:          uint64(len(state.WrongFeeBlocks)),
 		TotalEffectiveBalanceGwei:    fmt.Sprintf("%d", totalEffectiveBalance),
 		AvgEffectiveBalanceGwei:      fmt.Sprintf("%d", avgEffectiveBalance),
 	})
@@ -454,6 +457,9 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		consInSync = true
 	}
 
+	// Taken before asking for the finalized slot, so that its never ahead of it
+	state := m.oracle.StateSnapshot()
+
 	finality, err := m.Onchain.FinalizedBeaconBlockHeader(apiRetryOpts...)
 	if err != nil {
 		m.respondError(w, http.StatusInternalServerError, "could not get consensus latest finalized slot: "+err.Error())
@@ -463,7 +469,7 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 	finalizedSlot := uint64(finality.Header.Message.Slot)
 
 	oracleSync := false
-	if m.oracle.State().LatestProcessedSlot-finalizedSlot == 0 {
+	if state.LatestProcessedSlot-finalizedSlot == 0 {
 		oracleSync = true
 	}
 
@@ -484,11 +490,11 @@ func (m *ApiService) handleStatus(w http.ResponseWriter, req *http.Request) {
 		IsConsensusInSync:           consInSync,
 		IsExecutionInSync:           execInSync,
 		IsOracleInSync:              oracleSync,
-		LatestProcessedSlot:         m.oracle.State().LatestProcessedSlot,
-		LatestProcessedBlock:        m.oracle.State().LatestProcessedBlock,
+		LatestProcessedSlot:         state.LatestProcessedSlot,
+		LatestProcessedBlock:        state.LatestProcessedBlock,
 		LatestFinalizedEpoch:        finalizedSlot / 32,
 		LatestFinalizedSlot:         finalizedSlot,
-		OracleHeadDistance:          finalizedSlot - m.oracle.State().LatestProcessedSlot,
+		OracleHeadDistance:          finalizedSlot - state.LatestProcessedSlot,
 		NextCheckpointSlot:          onchainSlot + m.cfg.CheckPointSizeInSlots,
 		NextCheckpointTime:          "", // TODO:
 		NextCheckpointRemaining:     utils.SlotsToTime(nextCheckpointInSlots, constants.SecondsInSlot),
@@ -510,15 +516,16 @@ func (m *ApiService) handleConfig(w http.ResponseWriter, req *http.Request) {
 		m.respondError(w, http.StatusInternalServerError, "no config loaded, nil value")
 		return
 	}
+	cfg := m.oracle.ConfigSnapshot()
 	m.respondOK(w, httpOkConfig{
-		Network:                  m.cfg.Network,
-		PoolAddress:              m.cfg.PoolAddress,
-		DeployedSlot:             m.cfg.DeployedSlot,
-		CheckPointSizeInSlots:    m.cfg.CheckPointSizeInSlots,
-		PoolFeesPercentOver10000: m.cfg.PoolFeesPercentOver10000,
-		PoolFeesAddress:          m.cfg.PoolFeesAddress,
-		DryRun:                   m.cfg.DryRun,
-		CollateralInWei:          m.cfg.CollateralInWei.String(),
+		Network:                  cfg.Network,
+		PoolAddress:              cfg.PoolAddress,
+		DeployedSlot:             cfg.DeployedSlot,
+		CheckPointSizeInSlots:    cfg.CheckPointSizeInSlots,
+		PoolFeesPercentOver10000: cfg.PoolFeesPercentOver10000,
+		PoolFeesAddress:          cfg.PoolFeesAddress,
+		DryRun:                   cfg.DryRun,
+		CollateralInWei:          cfg.CollateralInWei.String(),
 	})
 }
 
@@ -527,7 +534,8 @@ func (m *ApiService) handleMemoryValidators(w http.ResponseWriter, req *http.Req
 		m.respondError(w, http.StatusServiceUnavailable, "Oracle node is currently syncing and not serving requests")
 		return
 	}
-	validators := maps.Values(m.oracle.State().Validators)
+	state := m.oracle.StateSnapshot()
+	validators := maps.Values(state.Validators)
 
 	// Order by index
 	sort.Slice(validators, func(i, j int) bool { return validators[i].ValidatorIndex < validators[j].ValidatorIndex })
@@ -572,7 +580,8 @@ func (m *ApiService) handleMemoryValidatorInfo(w http.ResponseWriter, req *http.
 		return
 	}
 
-	validator, found := m.oracle.State().Validators[valIndex]
+	state := m.oracle.StateSnapshot()
+	validator, found := state.Validators[valIndex]
 	if !found {
 		m.respondError(w, http.StatusBadRequest, fmt.Sprint("could not find validator with index: ", valIndex))
 		return
@@ -618,9 +627,10 @@ func (m *ApiService) handleMemoryValidatorsByIndex(w http.ResponseWriter, req *h
 	var foundValidators []httpOkValidatorInfo
 	var notFoundValidators []uint64
 
+	state := m.oracle.StateSnapshot()
 	// Check if each validator is in the oracle state. Append to foundValidators or notFoundValidators
 	for _, index := range indices {
-		if validator, found := m.oracle.State().Validators[index]; found {
+		if validator, found := state.Validators[index]; found {
 			// Convert ValidatorInfo to httpOkValidatorInfo. This is done to return strings instead of bigInts
 			beaconState, found := m.Onchain.Validators()[phase0.ValidatorIndex(validator.ValidatorIndex)]
 			if !found {
@@ -714,11 +724,12 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 		}
 	}
 
+	state := m.oracle.StateSnapshot()
 	// 2) Get all tracked validators for that withdrawal address (tracked)
 	validatorsCopy := make(map[uint64]*oracle.ValidatorInfo)
 
 	// Imporant! This is a deep copy, otherwise we will modify the state
-	utils.DeepCopy(m.oracle.State().Validators, &validatorsCopy)
+	utils.DeepCopy(state.Validators, &validatorsCopy)
 	for valIndex, validator := range validatorsCopy {
 		// Just overwrite the untracked validators with oracle state
 		if AreAddressEqual(validator.WithdrawalAddress, withdrawalAddress) {
@@ -745,12 +756,12 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 	// This applies a non-finalized state to the validators, creating a virtual state
 	// only used for the api.
 
-	if m.oracle.State().LatestProcessedBlock == 0 {
+	if state.LatestProcessedBlock == 0 {
 		m.respondError(w, http.StatusInternalServerError, "latest processed block is 0, try again later")
 		return
 	}
 
-	firstNotProcessedBlock := m.oracle.State().LatestProcessedBlock + 1
+	firstNotProcessedBlock := state.LatestProcessedBlock + 1
 
 	// TODO: Cache this, very inneficient to get it every time
 	allSubsTillHead, err := m.GetSubscriptionsTillHead(firstNotProcessedBlock)
@@ -800,10 +811,11 @@ func (m *ApiService) handleMemoryValidatorsByWithdrawal(w http.ResponseWriter, r
 }
 
 func (m *ApiService) handleMemoryFeesInfo(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
 	m.respondOK(w, httpOkMemoryFeesInfo{
-		PoolFeesPercentOver10000: m.oracle.State().PoolFeesPercentOver10000,
-		PoolFeesAddress:          m.oracle.State().PoolFeesAddress,
-		PoolAccumulatedFees:      m.oracle.State().PoolAccumulatedFees.String(),
+		PoolFeesPercentOver10000: state.PoolFeesPercentOver10000,
+		PoolFeesAddress:          state.PoolFeesAddress,
+		PoolAccumulatedFees:      state.PoolAccumulatedFees.String(),
 	})
 }
 
@@ -811,7 +823,8 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 	// Concat all the blocks, order is not guaranteed
 	allBlocks := make([]httpOkBlock, 0)
 
-	for _, block := range m.oracle.State().ProposedBlocks {
+	state := m.oracle.StateSnapshot()
+	for _, block := range state.ProposedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -824,7 +837,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range state.MissedBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -837,7 +850,7 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 		})
 	}
 
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range state.WrongFeeBlocks {
 		allBlocks = append(allBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -854,8 +867,9 @@ func (m *ApiService) handleMemoryAllBlocks(w http.ResponseWriter, req *http.Requ
 }
 
 func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
 	proposedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().ProposedBlocks {
+	for _, block := range state.ProposedBlocks {
 		proposedBlocks = append(proposedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -871,8 +885,9 @@ func (m *ApiService) handleMemoryProposedBlocks(w http.ResponseWriter, req *http
 }
 
 func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
 	missedBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().MissedBlocks {
+	for _, block := range state.MissedBlocks {
 		missedBlocks = append(missedBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -888,8 +903,9 @@ func (m *ApiService) handleMemoryMissedBlocks(w http.ResponseWriter, req *http.R
 }
 
 func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
 	wrongFeeBlocks := make([]httpOkBlock, 0)
-	for _, block := range m.oracle.State().WrongFeeBlocks {
+	for _, block := range state.WrongFeeBlocks {
 		wrongFeeBlocks = append(wrongFeeBlocks, httpOkBlock{
 			Slot:              block.Slot,
 			Block:             block.Block,
@@ -905,8 +921,9 @@ func (m *ApiService) handleMemoryWrongFeeBlocks(w http.ResponseWriter, req *http
 }
 
 func (m *ApiService) handleMemoryDonations(w http.ResponseWriter, req *http.Request) {
+	state := m.oracle.StateSnapshot()
 	donations := make([]httpOkDonation, 0)
-	for _, donation := range m.oracle.State().Donations {
+	for _, donation := range state.Donations {
 		donations = append(donations, httpOkDonation{
 			AmountWei: donation.DonationAmount.String(),
 			Block:     donation.Raw.BlockNumber,
@@ -940,29 +957,30 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 		return
 	}
 
-	_, found := m.oracle.State().CommitedStates[contractSlot]
+	state := m.oracle.StateSnapshot()
+	_, found := state.CommitedStates[contractSlot]
 	if !found {
 		m.respondError(w, http.StatusInternalServerError, "could not find onchain slot in oracle state: "+strconv.FormatUint(contractSlot, 10))
 		return
 	}
 
 	// Check if the oracle root matches the one offchain
-	if contractRoot != m.oracle.State().CommitedStates[contractSlot].MerkleRoot {
+	if contractRoot != state.CommitedStates[contractSlot].MerkleRoot {
 		m.respondError(w, http.StatusInternalServerError,
 			"contract merkle root does not match oracle state: "+
-				contractRoot+" vs "+m.oracle.State().CommitedStates[contractSlot].MerkleRoot)
+				contractRoot+" vs "+state.CommitedStates[contractSlot].MerkleRoot)
 		return
 	}
 
 	// Get the proofs of this withdrawal address (to be used onchain to claim rewards)
-	proofs, proofFound := m.oracle.State().CommitedStates[contractSlot].Proofs[withdrawalAddress]
+	proofs, proofFound := state.CommitedStates[contractSlot].Proofs[withdrawalAddress]
 	if !proofFound {
 		m.respondError(w, http.StatusBadRequest, "could not find proof for WithdrawalAddress: "+withdrawalAddress)
 		return
 	}
 
 	// Get the leafs of this withdrawal address (to be used onchain to claim rewards)
-	leafs, leafsFound := m.oracle.State().CommitedStates[contractSlot].Leafs[withdrawalAddress]
+	leafs, leafsFound := state.CommitedStates[contractSlot].Leafs[withdrawalAddress]
 	if !leafsFound {
 		m.respondError(w, http.StatusBadRequest, "could not find leafs for WithdrawalAddress: "+withdrawalAddress)
 		return
@@ -970,7 +988,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	// Get validators that are registered to this withdrawal address in the pool
 	registeredValidators := make([]uint64, 0)
-	for valIndex, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for valIndex, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			registeredValidators = append(registeredValidators, valIndex)
 		}
@@ -984,7 +1002,7 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 
 	totalPending := big.NewInt(0)
 
-	for _, validator := range m.oracle.State().CommitedStates[contractSlot].Validators {
+	for _, validator := range state.CommitedStates[contractSlot].Validators {
 		if strings.ToLower(validator.WithdrawalAddress) == strings.ToLower(withdrawalAddress) {
 			totalPending.Add(totalPending, validator.PendingRewardsWei)
 		}
@@ -993,8 +1011,8 @@ func (m *ApiService) handleOnchainMerkleProof(w http.ResponseWriter, req *http.R
 	m.respondOK(w, httpOkProofs{
 		LeafWithdrawalAddress:      leafs.WithdrawalAddress,
 		LeafAccumulatedBalance:     leafs.AccumulatedBalanceWei.String(),
-		MerkleRoot:                 m.oracle.State().CommitedStates[contractSlot].MerkleRoot,
-		CheckpointSlot:             m.oracle.State().CommitedStates[contractSlot].Slot,
+		MerkleRoot:                 state.CommitedStates[contractSlot].MerkleRoot,
+		CheckpointSlot:             state.CommitedStates[contractSlot].Slot,
 		Proofs:                     proofs,
 		RegisteredValidators:       registeredValidators,
 		TotalAccumulatedRewardsWei: leafs.AccumulatedBalanceWei.String(),
@@ -1259,6 +1277,9 @@ func (m *ApiService) OracleReady(maxSlotsBehind uint64) bool {
 	// otherwise the oracle wont be able to reply, since from time to time its normal that it fall behind sync
 	// since it has to process the new epochs that keep arriving.
 
+	// Taken before asking for the finalized slot, so that its never ahead of it
+	state := m.oracle.StateSnapshot()
+
 	finality, err := m.Onchain.FinalizedBeaconBlockHeader(apiRetryOpts...)
 	if err != nil {
 		return false
@@ -1269,7 +1290,7 @@ func (m *ApiService) OracleReady(maxSlotsBehind uint64) bool {
 		return false
 	}
 
-	slotsFromFinalized := finalizedSlot - m.oracle.State().LatestProcessedSlot
+	slotsFromFinalized := finalizedSlot - state.LatestProcessedSlot
 
 	// Use this if we want full in sync to latest finalized
 	/*oracleInSync := false
diff --git a/oracle/onchain.go b/oracle/onchain.go
index 3e3c30d..590077f 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -11,6 +11,7 @@ import (
 	normalHttp "net/http"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/pkg/errors"
@@ -73,6 +74,7 @@ type Onchain struct {
 	PoolAddress     string
 	ChainId         uint64
 	validators      map[phase0.ValidatorIndex]*v1.Validator
+	validatorsMutex sync.RWMutex
 }
 
 // Execution client that refuses answers with malformed or unrelated logs, which
@@ -1912,7 +1914,9 @@ func (o *Onchain) RefreshBeaconValidators() {
 	if err != nil {
 		log.Fatal("Could not get validators: ", err)
 	}
+	o.validatorsMutex.Lock()
 	o.validators = vals
+	o.validatorsMutex.Unlock()
 	if len(vals) != 0 {
 		log.WithFields(log.Fields{
 			"TotalValidators":       len(vals),
@@ -1925,6 +1929,8 @@ func (o *Onchain) RefreshBeaconValidators() {
 }
 
 func (o *Onchain) Validators() map[phase0.ValidatorIndex]*v1.Validator {
+	o.validatorsMutex.RLock()
+	defer o.validatorsMutex.RUnlock()
 	return o.validators
 }
 
diff --git a/oracle/oracle.go b/oracle/oracle.go
index 0e65502..84d99af 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -168,6 +168,13 @@ func (or *Oracle) StateSnapshot() *OracleState {
 	return or.snapshotLockFree()
 }
 
+// Returns a copy of the configuration, whose fee changes while blocks are processed.
+func (or *Oracle) ConfigSnapshot() Config {
+	or.mutex.RLock()
+	defer or.mutex.RUnlock()
+	return *or.cfg
+}
+
 // Copies everything that changes in place. Recorded events, blocks and commited states are
 // never modified once added so they are shared.
 func (or *Oracle) snapshotLockFree() *OracleState {
-- 
2.43.0


From afdcc1adc5d91fd5f8043f24b4b1187b623e4982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 20/29] fix: do not divide by zero in the statistics if all
 subscribed validators have a red card

---
 api/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 0f739d1..0dc3806 100644
--- a/api/api.go
+++ b/api/api.go
@@ -355,7 +355,8 @@ func (m *ApiService) handleMemoryStatistics(w http.ResponseWriter, req *http.Req
 
 	rewardsPerValidatorPer30Days := big.NewInt(0)
 	totalValidatorsEarning := totalActive + totalYellowCard
-	if totalSubscribed != 0 {
+	// Red card validators are subscribed but dont earn, so there may be none earning
+	if totalValidatorsEarning != 0 {
 		// This metric can be biased if multiple validators exit at once within the month
 		rewardsPerValidatorPer30Days.Div(totalRewardsSent30DaysWei, big.NewInt(0).SetUint64(totalValidatorsEarning))
 	}
-- 
2.43.0


From 8ed06f6d195371567301125ae937adbc1fec1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 21/29] fix: only accept hexadecimal validator public keys

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 0dc3806..3128c52 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1119,7 +1119,7 @@ func IsValidAddress(v string) bool {
 }
 
 func IsValidPubkey(v string) bool {
-	re := regexp.MustCompile("^0x[0-9a-fA-f]{96}$")
+	re := regexp.MustCompile("^0x[0-9a-fA-F]{96}$")
 	return re.MatchString(v)
 }
 
-- 
2.43.0


From 04b768398734a76cc18e076e53b2544802ecbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 22/29] fix: ignore unfinalized subscriptions of validators
 that are not loaded yet

---
 api/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 3128c52..439ab21 100644
--- a/api/api.go
+++ b/api/api.go
@@ -1241,7 +1241,8 @@ func (m *ApiService) ApplyNonFinalizedState(
 				eventAddress := subInBlock.Event.Sender.String()
 				if AreAddressEqual(valWithdrawalAddress, eventAddress) {
 					if subInBlock.Event.SubscriptionCollateral.Cmp(m.cfg.CollateralInWei) >= 0 {
-						if oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
+						// The validator may not be in the latest validators loaded from the beacon chain
+						if subInBlock.Validator != nil && oracle.CanValidatorSubscribeToPool(subInBlock.Validator) {
 							if val.ValidatorStatus == oracle.Untracked || val.ValidatorStatus == oracle.NotSubscribed {
 								validators[valIndex].ValidatorStatus = oracle.Active
 								validators[valIndex].PendingRewardsWei.Add(validators[valIndex].PendingRewardsWei, subInBlock.Event.SubscriptionCollateral)
-- 
2.43.0


From a5daa78099ca4ab79225164750fafa2b94b29f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 23/29] fix: do not take a relay that fails for one without
 registration, nor wait for it forever

---
 api/api.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/api/api.go b/api/api.go
index 439ab21..d620e3c 100644
--- a/api/api.go
+++ b/api/api.go
@@ -47,6 +47,9 @@ var apiRetryOpts = []retry.Option{
 	retry.Attempts(1),
 }
 
+// Client for the relays, that never waits forever for an answer
+var relaysClient = &http.Client{Timeout: 10 * time.Second}
+
 const defaultMerkleRoot = "0x0000000000000000000000000000000000000000000000000000000000000000"
 
 // 30 days/month * 24 hours/day * 3600 seconds/day / 12 seconds/slot
@@ -1039,7 +1042,7 @@ func (m *ApiService) handleValidatorRelayers(w http.ResponseWriter, req *http.Re
 
 	for _, relay := range relayers {
 		url := fmt.Sprintf("%s/relay/v1/data/validator_registration?pubkey=%s", relay, valPubKey)
-		resp, err := http.Get(url)
+		resp, err := relaysClient.Get(url)
 		if err != nil {
 			m.respondError(w, http.StatusInternalServerError, "could not call relayer endpoint: "+err.Error())
 			return
@@ -1071,10 +1074,15 @@ func (m *ApiService) handleValidatorRelayers(w http.ResponseWriter, req *http.Re
 			} else {
 				wrongFeeRelays = append(wrongFeeRelays, relayRegistration)
 			}
-		} else {
+		} else if resp.StatusCode == http.StatusNotFound || resp.StatusCode == http.StatusBadRequest {
+			// Depending on the relay, this is how an unknown registration is answered
 			unregisteredRelays = append(unregisteredRelays, httpRelay{
 				RelayAddress: relay,
 			})
+		} else {
+			m.respondError(w, http.StatusInternalServerError,
+				fmt.Sprintf("unexpected status from relayer endpoint %s: %d", relay, resp.StatusCode))
+			return
 		}
 	}
 
-- 
2.43.0


From d47f4a5116d572ab4cde0de5950f2b4cd8f68c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 24/29] fix: report an error if both nodes are of different
 chains

---
 oracle/onchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index 590077f..e8f69a4 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -142,7 +142,7 @@ func NewOnchain(cliCfg *config.CliConfig, updaterKey *ecdsa.PrivateKey) (*Onchai
 		" DepositContract: ", "0x"+hex.EncodeToString(depositContract.Data.Address[:]))
 
 	if depositContract.Data.ChainID != uint64(chainId.Int64()) {
-		return nil, errors.Wrap(err, fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
+		return nil, errors.New(fmt.Sprintf("Consensus and execution clients are not connected to the same chain %d vs %d",
 			depositContract.Data.ChainID, chainId))
 	}
 
-- 
2.43.0


From 93860a58c76441c1a2a8246d5d77dcb06c5d7127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 25/29] fix: report a submission that reverted or was never
 mined as failed

---
 oracle/onchain.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oracle/onchain.go b/oracle/onchain.go
index e8f69a4..f626ad9 100644
--- a/oracle/onchain.go
+++ b/oracle/onchain.go
@@ -1884,13 +1884,13 @@ func (o *Onchain) UpdateContractMerkleRoot(slot uint64, newMerkleRoot string) er
 
 	// It stops waiting when the context is canceled.
 	receipt, err := bind.WaitMined(ctx, o.ExecutionClient, tx)
-	if ctx.Err() != nil {
+	if err != nil {
 		return errors.Wrap(err,
-			fmt.Sprint("timeout expired waiting for tx to be validated txHash: ",
+			fmt.Sprint("could not wait for tx to be validated txHash: ",
 				tx.Hash().Hex()))
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
-		return errors.Wrap(err,
+		return errors.New(
 			fmt.Sprintf("tx failed err: %d hash: %s", receipt.Status, tx.Hash().Hex()))
 	}
 
-- 
2.43.0


From 313b0160eb764da1cbda388a35f931011a7dc6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 26/29] fix: freeze the checkpoint that a stop came in between
 of

---
 main.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 6b6b828..4d32060 100644
--- a/main.go
+++ b/main.go
@@ -224,6 +224,10 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 	lastReconciliationTime := int64(0)
 
+	// If the oracle was stopped after processing the slot of a checkpoint but before freezing it,
+	// the checkpoint comes first. It would be skipped otherwise
+	resumeCheckpoint := isCheckpointPending(oracleInstance)
+
 	// Load all the validators from the beacon chain
 	onchain.RefreshBeaconValidators()
 
@@ -253,7 +257,10 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 
 		finalizedSlot := uint64(finalizedBlockHeader.Header.Message.Slot)
 
-		if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
+		if resumeCheckpoint {
+			resumeCheckpoint = false
+			log.Info("Resuming the checkpoint of the latest processed slot: ", oracleInstance.State().LatestProcessedSlot)
+		} else if finalizedSlot >= oracleInstance.State().NextSlotToProcess {
 
 			// Fetch block information
 			fullBlock := onchain.FetchFullBlock(oracleInstance.State().NextSlotToProcess, oracleInstance)
@@ -494,3 +501,16 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 		}
 	}
 }
+
+// Returns if the latest processed slot is a checkpoint that was not frozen yet
+func isCheckpointPending(oracleInstance *oracle.Oracle) bool {
+	if oracleInstance.State().LatestProcessedSlot < oracleInstance.State().DeployedSlot {
+		return false
+	}
+	isCheckpoint, err := oracleInstance.IsCheckpoint()
+	if err != nil {
+		log.Fatal("Could not check if we are at a checkpoint: ", err)
+	}
+	_, frozen := oracleInstance.State().CommitedStates[oracleInstance.State().LatestProcessedSlot]
+	return isCheckpoint && !frozen
+}
-- 
2.43.0


From b1e97a3c9b8272f2263284c42f12ef440a27d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 27/29] fix: sync from the beginning if no state precedes the
 one to go back from

---
 main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 4d32060..f37db1c 100644
--- a/main.go
+++ b/main.go
@@ -185,7 +185,12 @@ func main() {
 				log.Fatal("Critical error loading state from json: ", err)
 			}
 			if !found {
-				log.Fatal("Could not find a save state for slot ", onchainSlot)
+				// Nothing was saved before the first checkpoint. Its config is loaded again, as the state changes the fees
+				log.Warn("Could not find a save state for slot ", onchainSlot, ", syncing from the begining slot=", cfg.DeployedSlot)
+				cfg = onchain.GetConfigFromContract(cliCfg)
+				oracleInstance = oracle.NewOracle(cfg)
+				oracleInstance.SetGetSetOfValidatorsFunc(onchain.GetSetOfValidators)
+				oracleInstance.GetPendingConsolidationsFunc(onchain.GetPendingConsolidations)
 			}
 		}
 	}
-- 
2.43.0


From 9e3c5a1b0fef117a907662a736df67c3a21f30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 28/29] fix: do not wait forever for a report once a later one
 is consolidated

---
 main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/main.go b/main.go
index f37db1c..b091b91 100644
--- a/main.go
+++ b/main.go
@@ -483,6 +483,15 @@ func mainLoop(oracleInstance *oracle.Oracle, onchain *oracle.Onchain, cfg *oracl
 								"OracleSlot":  newState.Slot,
 							}).Info("The submitted state is now consolidated in the contract")
 							break
+						} else if onchainSlot > newState.Slot {
+							// Others may have consolidated a later one since the last time it was checked
+							log.WithFields(log.Fields{
+								"OnchainRoot": onchainRoot,
+								"OnchainSlot": onchainSlot,
+								"OracleRoot":  newState.MerkleRoot,
+								"OracleSlot":  newState.Slot,
+							}).Warn("A later state than the submitted one is consolidated in the contract")
+							break
 						} else {
 							log.Info("Submitted merkle root is not consolidated, waiting for other oracles to update it")
 							time.Sleep(1 * time.Minute)
-- 
2.43.0


From cfe240028841fca277e0ae111b33242fca8654a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 29/29] fix: leave the state as it was if the cleanup of a slot
 fails

---
 oracle/oracle.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oracle/oracle.go b/oracle/oracle.go
index 84d99af..06e6ed5 100644
--- a/oracle/oracle.go
+++ b/oracle/oracle.go
@@ -235,6 +235,14 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 			or.state.NextSlotToProcess, " ", fullBlock.ConsensusDuty.Slot))
 	}
 
+	// Nodes may fail while validators are cleaned up, which must not leave this slot half processed
+	isCleanupSlot := or.state.NextSlotToProcess%uint64(1200) == 0
+	var previousState *OracleState
+	previousFee := or.cfg.PoolFeesPercentOver10000
+	if isCleanupSlot {
+		previousState = or.snapshotLockFree()
+	}
+
 	// Some misc validations
 	err := or.validateFullBlockConfig(fullBlock, or.cfg)
 	if err != nil {
@@ -299,9 +307,11 @@ func (or *Oracle) AdvanceStateToNextSlot(fullBlock *FullBlock) (uint64, error) {
 	// Handle validator cleanup: redisitribute the pending rewards of validators subscribed to the pool
 	// that are not in the beacon chain anymore (exited/slashed). We dont run this on every slot because
 	// its expensive. Runs every 4 hours.
-	if or.state.NextSlotToProcess%uint64(1200) == 0 {
+	if isCleanupSlot {
 		err = or.ValidatorCleanup(or.state.NextSlotToProcess)
 		if err != nil {
+			or.state = previousState
+			or.cfg.PoolFeesPercentOver10000 = previousFee
 			return 0, errors.Wrap(err, "could not cleanup validators")
 		}
 	}
-- 
2.43.0

