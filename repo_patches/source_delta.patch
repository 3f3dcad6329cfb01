From 13a1cfeccf54d3bfcc862d9db00e74abd07ad565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 01/35] fix: reject batch configs whose threshold does not fit
 in an int

EnsureValid converted the uint64 threshold to int, so a threshold of 2^63 or
more became negative and passed the check against the number of keypers. Such
a config (and every decision made under it) is then accepted with a single
vote.
---
 shuttermint/keyper/shutterevents/batchconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/batchconfig.go b/shuttermint/keyper/shutterevents/batchconfig.go
index a7e3ea3..b276723 100644
--- a/shuttermint/keyper/shutterevents/batchconfig.go
+++ b/shuttermint/keyper/shutterevents/batchconfig.go
@@ -32,7 +32,7 @@ func (bc *BatchConfig) EnsureValid() error {
 	if bc.Threshold == 0 {
 		return errors.Errorf("threshold must not be zero")
 	}
-	if int(bc.Threshold) > len(bc.Keypers) {
+	if bc.Threshold > uint64(len(bc.Keypers)) {
 		return errors.Errorf("threshold too high")
 	}
 	// XXX maybe we should check for duplicate addresses
-- 
2.43.0


From 15ee827836c115f38556782460cd0f54d479a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 02/35] fix: do not count start votes of the previous config
 for a new one

StartedVotes was kept when a new config was accepted. Votes for starting the
previous config then counted for the new one, which could be started without
a single vote of the keypers allowed to start it.
---
 shuttermint/app/app.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 9b5450d..262b36b 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -150,6 +150,7 @@ func (app *ShutterApp) addConfig(cfg BatchConfig) error {
 	}
 	log.Printf("adding config %d", cfg.ConfigIndex)
 	app.Configs = append(app.Configs, &cfg)
+	app.StartedVotes = make(map[common.Address]struct{}) // votes so far are for the previous config
 	app.updateCheckTxMembers()
 	return nil
 }
-- 
2.43.0


From 53b4720977fc4cccfec5cd2c36da4fe23a4c50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 03/35] fix: decode poly commitment events without any gammas

encodeGammas turns an empty list into the empty string, which decodeGammas
failed to parse. The application accepts and publishes such commitments, but
keypers could not decode the event.
---
 shuttermint/keyper/shutterevents/marshal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/shutterevents/marshal.go b/shuttermint/keyper/shutterevents/marshal.go
index d75cf47..7042c46 100644
--- a/shuttermint/keyper/shutterevents/marshal.go
+++ b/shuttermint/keyper/shutterevents/marshal.go
@@ -134,9 +134,11 @@ func encodeGammas(gammas *shcrypto.Gammas) []byte {
 }
 
 func decodeGammas(eventValue []byte) (shcrypto.Gammas, error) {
-	parts := strings.Split(string(eventValue), ",")
 	var res shcrypto.Gammas
-	for _, p := range parts {
+	if len(eventValue) == 0 {
+		return res, nil
+	}
+	for _, p := range strings.Split(string(eventValue), ",") {
 		marshaledG2, err := hex.DecodeString(p)
 		if err != nil {
 			return shcrypto.Gammas{}, err
-- 
2.43.0


From a7d6a0a4c86f76345661b4c89d11dbca714e091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 04/35] fix: keep unprocessed epoch secret key shares when
 filtering the shutter state

Eon.ApplyFilter only copied the DKG messages at or above the sync height and
dropped all epoch secret key shares, including those the keyper has not
processed yet.
---
 shuttermint/keyper/observe/shutter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ba179a1..ad3ede6 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -113,6 +113,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
 	clone.Accusations = append(clone.Accusations, eon.GetAccusations(syncHeight)...)
 	clone.Apologies = append(clone.Apologies, eon.GetApologies(syncHeight)...)
+	clone.EpochSecretKeyShares = append(clone.EpochSecretKeyShares, eon.GetEpochSecretKeyShares(syncHeight)...)
 	return &clone
 }
 
-- 
2.43.0


From fe93788daaa133ace41ed417eb50499f81cd1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 05/35] fix: do not crash when the shuttermint node is behind
 our current block

SyncToHead passed the lower height on to fetchAndApplyEvents, which panics if
it is asked to go back.
---
 shuttermint/keyper/observe/shutter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ad3ede6..3492ae8 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -492,7 +492,8 @@ func (shutter *Shutter) SyncToHead(ctx context.Context, shmcl client.Client) (*S
 	if err != nil {
 		return nil, err
 	}
-	if height == shutter.CurrentBlock {
+	if height <= shutter.CurrentBlock {
+		// There's nothing new, or the node we're asking is behind of what we've already seen.
 		return shutter, nil
 	}
 	return shutter.SyncToHeight(ctx, shmcl, height)
-- 
2.43.0


From f51204d232f077fd96d0101e1847c7add3148ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 06/35] fix: reject DKG messages naming unknown keypers

---
 shlib/puredkg/puredkg.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/shlib/puredkg/puredkg.go b/shlib/puredkg/puredkg.go
index e080078..5c7a313 100644
--- a/shlib/puredkg/puredkg.go
+++ b/shlib/puredkg/puredkg.go
@@ -120,6 +120,14 @@ func (pure *PureDKG) checkEon(eon uint64) error {
 	return nil
 }
 
+// checkKeyper checks that the given index belongs to a keyper taking part in the DKG.
+func (pure *PureDKG) checkKeyper(keyper KeyperIndex) error {
+	if keyper >= pure.NumKeypers {
+		return errors.Errorf("received msg with unknown keyper %d, number of keypers is %d", keyper, pure.NumKeypers)
+	}
+	return nil
+}
+
 func (pure *PureDKG) checkEonAndPhase(eon uint64, maxPhase Phase) error {
 	if err := pure.checkEon(eon); err != nil {
 		return err
@@ -345,6 +353,9 @@ func (pure *PureDKG) HandlePolyCommitmentMsg(msg PolyCommitmentMsg) error {
 	if err := pure.checkEonAndPhase(msg.Eon, Dealing); err != nil {
 		return err
 	}
+	if err := pure.checkKeyper(msg.Sender); err != nil {
+		return err
+	}
 	if pure.Commitments[msg.Sender] != nil {
 		return errors.Errorf("received duplicate poly commitment msg")
 	}
@@ -365,6 +376,9 @@ func (pure *PureDKG) HandlePolyEvalMsg(msg PolyEvalMsg) error {
 	if err := pure.checkEonAndPhase(msg.Eon, Dealing); err != nil {
 		return err
 	}
+	if err := pure.checkKeyper(msg.Sender); err != nil {
+		return err
+	}
 	if msg.Receiver != pure.Keyper {
 		return errors.Errorf("received poly eval msg for keyper %d instead of %d", msg.Receiver, pure.Keyper)
 	}
@@ -384,6 +398,12 @@ func (pure *PureDKG) HandleAccusationMsg(msg AccusationMsg) error {
 	if err := pure.checkEonAndPhase(msg.Eon, Accusing); err != nil {
 		return err
 	}
+	if err := pure.checkKeyper(msg.Accuser); err != nil {
+		return err
+	}
+	if err := pure.checkKeyper(msg.Accused); err != nil {
+		return err
+	}
 	key := accusationKey{Accuser: msg.Accuser, Accused: msg.Accused}
 	if _, ok := pure.Accusations[key]; ok {
 		return errors.Errorf("received duplicate accusation")
@@ -398,6 +418,12 @@ func (pure *PureDKG) HandleApologyMsg(msg ApologyMsg) error {
 	if err := pure.checkEonAndPhase(msg.Eon, Apologizing); err != nil {
 		return err
 	}
+	if err := pure.checkKeyper(msg.Accuser); err != nil {
+		return err
+	}
+	if err := pure.checkKeyper(msg.Accused); err != nil {
+		return err
+	}
 	key := accusationKey{Accuser: msg.Accuser, Accused: msg.Accused}
 	if _, ok := pure.Apologies[key]; ok {
 		return errors.Errorf("received duplicate apology")
-- 
2.43.0


From faca775b6593a20bd6fbe726cea83561490671e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 07/35] fix: keep missing DKG commitments and evals missing
 when reloading the state

---
 shuttermint/keyper/decide.go | 24 ++++++++++++++++++++++++
 shuttermint/keyper/keyper.go |  3 +++
 2 files changed, 27 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 3b2e1df..ede2a2b 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -70,6 +70,7 @@ type DKG struct {
 	Pure                 *puredkg.PureDKG
 	OutgoingPolyEvalMsgs []puredkg.PolyEvalMsg
 	PhaseLength          PhaseLength
+	HasEval              map[uint64]bool // the dealers whose poly eval we received
 }
 
 // EKG is used to store local state about the epoch key generation process.
@@ -173,7 +174,30 @@ func (dkg *DKG) syncPolyEvals(syncHeight int64, eon observe.Eon, decrypt decrypt
 				})
 			if err != nil {
 				log.Printf("Error in syncPolyEvals: %+v", err)
+				continue
+			}
+			if dkg.HasEval == nil {
+				dkg.HasEval = make(map[uint64]bool)
 			}
+			dkg.HasEval[uint64(sender)] = true
+		}
+	}
+}
+
+// fixGobDecoded restores the missing commitments and poly evals after the DKG has been decoded by
+// gob, which turns nil pointers inside of a slice into pointers to an empty value.
+func (dkg *DKG) fixGobDecoded() {
+	if dkg.Pure == nil {
+		return
+	}
+	for dealer, c := range dkg.Pure.Commitments {
+		if c != nil && len(*c) == 0 {
+			dkg.Pure.Commitments[dealer] = nil
+		}
+	}
+	for dealer, eval := range dkg.Pure.Evals {
+		if eval != nil && eval.Sign() == 0 && !dkg.HasEval[uint64(dealer)] {
+			dkg.Pure.Evals[dealer] = nil
 		}
 	}
 }
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 7f86e52..2b513c9 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -329,6 +329,9 @@ func (kpr *Keyper) LoadState() error {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
+	for i := range st.State.DKGs {
+		st.State.DKGs[i].fixGobDecoded()
+	}
 	kpr.State = st.State
 	world := observe.World{
 		Shutter:   st.Shutter,
-- 
2.43.0


From 6f9d692f9a9a8d239a63e095f5f5eae084ace751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 08/35] fix: let an eon keep the keypers of the config in
 charge when it started

---
 shuttermint/keyper/decide.go          | 2 +-
 shuttermint/keyper/observe/shutter.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index ede2a2b..0d1ead3 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -410,7 +410,7 @@ func (dcdr *Decider) maybeSendBatchConfig() {
 }
 
 func (dcdr *Decider) startDKG(eon *observe.Eon) {
-	batchConfig := dcdr.Shutter.FindBatchConfigByBatchIndex(eon.StartEvent.BatchIndex)
+	batchConfig := eon.Config
 	keyperIndex, err := medley.FindAddressIndex(batchConfig.Keypers, dcdr.Config.Address())
 	if err != nil {
 		return
diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index 3492ae8..47bc5f4 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -96,6 +96,7 @@ type Eon struct {
 	Eon                  uint64
 	StartHeight          int64
 	StartEvent           shutterevents.EonStarted
+	Config               shutterevents.BatchConfig // the config in charge when the eon was started
 	Commitments          []shutterevents.PolyCommitment
 	PolyEvals            []shutterevents.PolyEval
 	Accusations          []shutterevents.Accusation
@@ -108,6 +109,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 		Eon:         eon.Eon,
 		StartHeight: eon.StartHeight,
 		StartEvent:  eon.StartEvent,
+		Config:      eon.Config,
 	}
 	clone.Commitments = append(clone.Commitments, eon.GetPolyCommitments(syncHeight)...)
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
@@ -283,7 +285,12 @@ func (shutter *Shutter) applyEonStarted(e shutterevents.EonStarted) error {
 	if idx < len(shutter.Eons) {
 		return pkgErrors.Errorf("eons should increase")
 	}
-	shutter.Eons = append(shutter.Eons, Eon{Eon: e.Eon, StartEvent: e, StartHeight: e.Height})
+	shutter.Eons = append(shutter.Eons, Eon{
+		Eon:         e.Eon,
+		StartEvent:  e,
+		StartHeight: e.Height,
+		Config:      shutter.FindBatchConfigByBatchIndex(e.BatchIndex),
+	})
 	return nil
 }
 
-- 
2.43.0


From 1fb36ba94f23f42fdfff133e6d0b5e099371d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 09/35] fix: decrypt and sign a batch only after it is closed
 in our view of the main chain

A keyper whose main chain node lags behind could obtain the epoch secret key of a
batch before it had seen all of the batch's transactions. It then decrypted and
signed a partial batch, and later executed it or accused the honest executor.
---
 shuttermint/keyper/decide.go | 47 ++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 0d1ead3..a5a6884 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -80,6 +80,13 @@ type EKG struct {
 	EpochKG *epochkg.EpochKG
 }
 
+// UndecryptedBatch identifies a batch for which we know the epoch secret key, but that we haven't
+// decrypted yet.
+type UndecryptedBatch struct {
+	Eon        uint64
+	BatchIndex uint64
+}
+
 func (dkg *DKG) ShortInfo() string {
 	return fmt.Sprintf("eon=%d, #keypers=%d, %s", dkg.Eon, len(dkg.Keypers), dkg.Pure.ShortInfo())
 }
@@ -277,6 +284,7 @@ type State struct {
 	PendingHalfStep          *uint64
 	PendingAppeals           map[uint64]struct{}
 	NextEpochSecretShare     uint64
+	UndecryptedBatches       []UndecryptedBatch
 	Batches                  map[uint64]*Batch
 	HalfStepsChecked         uint64
 
@@ -683,14 +691,39 @@ func (dcdr *Decider) syncEKGWithEon(syncHeight int64, ekg *EKG, eon *observe.Eon
 			log.Printf("Error while handling epoch secret key share: %+v", err)
 			continue
 		}
-		if key, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
+		if _, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
 			log.Printf("Epoch secret key generated for epoch %d", share.Epoch)
-			dcdr.decryptTransactions(key, share.Epoch)
-			if !dcdr.executionTimeoutReachedOrInactive(share.Epoch) {
-				dcdr.sendDecryptionSignature(share.Epoch)
-			}
+			dcdr.State.UndecryptedBatches = append(
+				dcdr.State.UndecryptedBatches,
+				UndecryptedBatch{Eon: ekg.Eon, BatchIndex: share.Epoch},
+			)
+		}
+	}
+}
+
+// decryptBatches decrypts the batches for which we have the epoch secret key and signs the result.
+// A batch is only handled after it has been closed in our view of the main chain, since otherwise
+// we may not know all of its transactions yet.
+func (dcdr *Decider) decryptBatches() {
+	config := dcdr.MainChain.CurrentConfig()
+	currentBatchIndex := config.BatchIndex(dcdr.MainChain.CurrentBlock)
+
+	var remaining []UndecryptedBatch
+	for _, b := range dcdr.State.UndecryptedBatches {
+		if b.BatchIndex >= currentBatchIndex {
+			remaining = append(remaining, b)
+			continue
+		}
+		ekg, err := dcdr.State.FindEKGByEon(b.Eon)
+		if err != nil {
+			panic(err)
+		}
+		dcdr.decryptTransactions(ekg.EpochKG.SecretKeys[b.BatchIndex], b.BatchIndex)
+		if !dcdr.executionTimeoutReachedOrInactive(b.BatchIndex) {
+			dcdr.sendDecryptionSignature(b.BatchIndex)
 		}
 	}
+	dcdr.State.UndecryptedBatches = remaining
 }
 
 // Add a prefix to avoid accidentally signing data with special meaning in different context, in
@@ -748,8 +781,7 @@ func (dcdr *Decider) decryptTransactions(key *shcrypto.EpochSecretKey, epoch uin
 	batchIndex := epoch
 	batch, ok := dcdr.MainChain.Batches[batchIndex]
 	if !ok {
-		// We may run into this case if our main chain node is lagging behind or if the
-		// batch is empty. XXX The former case is not being handled here.
+		// The batch is empty.
 		log.Printf("Batch missing for batch index=%d", batchIndex)
 		batch = &observe.Batch{BatchIndex: batchIndex}
 	}
@@ -843,6 +875,7 @@ func (dcdr *Decider) executionTimeoutReachedOrInactive(batchIndex uint64) bool {
 
 func (dcdr *Decider) handleEpochKG() {
 	dcdr.syncEKGs()
+	dcdr.decryptBatches()
 	dcdr.publishEpochSecretKeyShares()
 }
 
-- 
2.43.0


From 9cf682d94ea8964bfa0f4328d93cba8ab69ca3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 10/35] fix: check executed half steps again once their batch
 has been decrypted

maybeAccuse never looked again at half steps that were executed before we had
decrypted the batch, so that wrong executions went unnoticed.
---
 shuttermint/keyper/decide.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index a5a6884..5896ca8 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -287,6 +287,7 @@ type State struct {
 	UndecryptedBatches       []UndecryptedBatch
 	Batches                  map[uint64]*Batch
 	HalfStepsChecked         uint64
+	UncheckedHalfSteps       []uint64 // half steps below HalfStepsChecked that still have to be checked
 
 	// We store the actions that should be executed together with a counter. When starting the
 	// program, we feed these actions into runenv, which can use the counter to identify the
@@ -1159,8 +1160,17 @@ func (dcdr *Decider) maybeAppeal() {
 	}
 }
 
+// maybeAccuse accuses the executors of cipher half steps that don't match what we've decrypted. Half
+// steps of batches that we haven't decrypted yet are checked again later, unless it's too late to
+// decrypt them.
 func (dcdr *Decider) maybeAccuse() {
+	halfSteps := dcdr.State.UncheckedHalfSteps
 	for halfStep := dcdr.State.HalfStepsChecked; halfStep < dcdr.MainChain.NumExecutionHalfSteps; halfStep++ {
+		halfSteps = append(halfSteps, halfStep)
+	}
+
+	var unchecked []uint64
+	for _, halfStep := range halfSteps {
 		if halfStep%2 != 0 {
 			continue // only accuse for cipher execution half steps, not plain ones
 		}
@@ -1175,6 +1185,9 @@ func (dcdr *Decider) maybeAccuse() {
 
 		stBatch, ok := dcdr.State.Batches[batchIndex]
 		if !ok {
+			if !dcdr.executionTimeoutReachedOrInactive(batchIndex) {
+				unchecked = append(unchecked, halfStep)
+			}
 			continue
 		}
 
@@ -1201,6 +1214,7 @@ func (dcdr *Decider) maybeAccuse() {
 		}
 	}
 
+	dcdr.State.UncheckedHalfSteps = unchecked
 	dcdr.State.HalfStepsChecked = dcdr.MainChain.NumExecutionHalfSteps
 }
 
-- 
2.43.0


From d778ffd3e6c3ce7b690c2c3c4635e3d2a4e149a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 11/35] fix: count decryption signatures that arrive after
 older ones have been filtered

The index into the list of decryption signatures became wrong when the filter
dropped the beginning of the list. Use the signatures' heights instead.
---
 shuttermint/keyper/decide.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 5896ca8..39a75a7 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -35,13 +35,13 @@ type decryptfn func(encrypted []byte) ([]byte, error)
 
 // Batch is used to store local state about a single Batch.
 type Batch struct {
-	BatchIndex               uint64
-	DecryptionSignatureHash  []byte
-	DecryptedTransactions    [][]byte
-	DecryptedBatchHash       []byte
-	DecryptionSignatureIndex int
-	VerifiedSignatures       map[common.Address][]byte
-	IsEmpty                  bool
+	BatchIndex              uint64
+	DecryptionSignatureHash []byte
+	DecryptedTransactions   [][]byte
+	DecryptedBatchHash      []byte
+	SignatureSyncHeight     int64 // signatures below this height have been handled
+	VerifiedSignatures      map[common.Address][]byte
+	IsEmpty                 bool
 }
 
 // VerifySignature checks if the sender signed the batches' DecryptionSignatureHash.
@@ -905,8 +905,10 @@ func (dcdr *Decider) syncBatch(batch *Batch) {
 	}
 
 	signatureCount := 0
-	for i := batch.DecryptionSignatureIndex; i < len(shBatch.DecryptionSignatures); i++ {
-		ev := shBatch.DecryptionSignatures[i]
+	for _, ev := range shBatch.DecryptionSignatures {
+		if ev.Height < batch.SignatureSyncHeight {
+			continue
+		}
 		if !config.IsKeyper(ev.Sender) {
 			log.Printf("Ignoring signature for batch %d from non-keyper %s", batch.BatchIndex, ev.Sender.Hex())
 			continue
@@ -930,7 +932,7 @@ func (dcdr *Decider) syncBatch(batch *Batch) {
 		log.Printf("Verified %d signatures for batch %d, total %d signatures",
 			signatureCount, batch.BatchIndex, len(batch.VerifiedSignatures))
 	}
-	batch.DecryptionSignatureIndex = len(shBatch.DecryptionSignatures)
+	batch.SignatureSyncHeight = dcdr.Shutter.CurrentBlock + 1
 }
 
 func (dcdr *Decider) handleDecryptionSignatures() {
-- 
2.43.0


From 5a25e70e074dbfecbd63d8e5ceb00004632b4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:21 +0000
Subject: [PATCH 12/35] fix: remember across restarts that half step zero is
 being executed

---
 shuttermint/keyper/decide.go | 10 ++++++++--
 shuttermint/keyper/keyper.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 39a75a7..8c32b02 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -282,6 +282,7 @@ type State struct {
 	DKGs                     []DKG
 	EKGs                     []*EKG
 	PendingHalfStep          *uint64
+	HalfStepPending          bool // PendingHalfStep != nil; gob does not store a pointer to zero
 	PendingAppeals           map[uint64]struct{}
 	NextEpochSecretShare     uint64
 	UndecryptedBatches       []UndecryptedBatch
@@ -306,6 +307,11 @@ func NewState() *State {
 	}
 }
 
+func (st *State) setPendingHalfStep(halfStep *uint64) {
+	st.PendingHalfStep = halfStep
+	st.HalfStepPending = halfStep != nil
+}
+
 // GetShutterFilter returns the shutter filter to be applied to the Shutter state.
 func (st *State) GetShutterFilter(mainChain *observe.MainChain) observe.ShutterFilter {
 	return observe.ShutterFilter{
@@ -954,7 +960,7 @@ func (dcdr *Decider) maybeExecuteBatch() {
 		// XXX There's a chance that another keyper has executed the previous half step and our tx
 		// is still pending. In that case we should probably wait until it fails before sending
 		// another one.
-		dcdr.State.PendingHalfStep = nil
+		dcdr.State.setPendingHalfStep(nil)
 	}
 	if dcdr.State.PendingHalfStep != nil {
 		// Don't try to execute anything if there's already one or more pending transaction
@@ -967,7 +973,7 @@ func (dcdr *Decider) maybeExecuteBatch() {
 		if action := dcdr.maybeExecuteHalfStep(halfStep); action != nil {
 			dcdr.addAction(action)
 			halfStep2 := halfStep // avoid using reference to loop variable
-			dcdr.State.PendingHalfStep = &halfStep2
+			dcdr.State.setPendingHalfStep(&halfStep2)
 		} else {
 			break
 		}
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 2b513c9..e3acc5c 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -253,7 +253,7 @@ func (kpr *Keyper) loadRunenv(ctx context.Context) error {
 
 	if !havePendingActions && len(kpr.State.Actions) == 0 && kpr.State.PendingHalfStep != nil {
 		log.Printf("Fixing State: PendingHalfStep should be nil!")
-		kpr.State.PendingHalfStep = nil
+		kpr.State.setPendingHalfStep(nil)
 	}
 	return nil
 }
@@ -332,6 +332,9 @@ func (kpr *Keyper) LoadState() error {
 	for i := range st.State.DKGs {
 		st.State.DKGs[i].fixGobDecoded()
 	}
+	if st.State.HalfStepPending && st.State.PendingHalfStep == nil {
+		st.State.setPendingHalfStep(new(uint64))
+	}
 	kpr.State = st.State
 	world := observe.World{
 		Shutter:   st.Shutter,
-- 
2.43.0


From e22e87d10fa11c7d97a31029f413eb6cc13240a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 13/35] fix: do not crash when the main chain node fails while
 preparing a transaction

---
 shuttermint/keyper/fx/runenv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 57a18e0..c92016d 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -66,11 +66,11 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 	var auth *bind.TransactOpts
 
 	auth, err = runenv.ContractCaller.Auth()
-	auth.Context = ctx
-
 	if err != nil {
 		return err
 	}
+	auth.Context = ctx
+
 	tx, err = act.SendTX(runenv.ContractCaller, auth)
 	if err != nil {
 		return err
-- 
2.43.0


From e9b02ea20896319876741514f7e904fd63535795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 14/35] fix: keep track of submitted transactions when waiting
 for them is interrupted

---
 shuttermint/keyper/fx/runenv.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index c92016d..ab35ada 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -82,19 +82,22 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 
 var zerohash = common.Hash{}
 
-func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
+// waitMined waits until the transaction of the given action has been mined. It returns false if
+// the context is done before that.
+func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) bool {
 	act := runenv.PendingActions.GetAction(id)
 	hash := runenv.PendingActions.GetMainChainTXHash(id)
 	if hash == zerohash {
 		log.Fatalf("internal error: cannot wait for the zero hash, id=%d", id)
 	}
 	receipt, err := medley.WaitMined(ctx, runenv.ContractCaller.Ethclient, hash)
-	if err == context.Canceled {
-		return
-	}
-	if err != nil {
+	for err != nil {
+		if ctx.Err() != nil {
+			return false
+		}
 		log.Printf("Error waiting for transaction id=%d, %s: %v", id, hash.Hex(), err)
-		return
+		medley.Sleep(ctx, time.Second)
+		receipt, err = medley.WaitMined(ctx, runenv.ContractCaller.Ethclient, hash)
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
 		world := runenv.CurrentWorld() // XXX we should make sure our world includes the receipt's blocknumber
@@ -103,7 +106,7 @@ func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
 		tx, _, err := runenv.ContractCaller.Ethclient.TransactionByHash(ctx, hash)
 		if err != nil {
 			log.Printf("TX reverted: id=%d, gasUsed=%d, expired=%t, %s, hash=%s", id, receipt.GasUsed, expired, act, hash.Hex())
-			return
+			return true
 		}
 
 		reason := medley.GetRevertReason(ctx, runenv.ContractCaller.Ethclient, runenv.ContractCaller.Address(), tx, receipt.BlockNumber)
@@ -111,6 +114,7 @@ func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
 	} else {
 		log.Printf("TX success: id=%d, gasUsed=%d, %s, hash=%s", id, receipt.GasUsed, act, hash.Hex())
 	}
+	return true
 }
 
 func (runenv *RunEnv) RunActions(ctx context.Context, actionCounter uint64, actions []IAction) error {
@@ -237,8 +241,9 @@ func (runenv *RunEnv) handleInFlightTXs(ctx context.Context) {
 	for {
 		select {
 		case id := <-runenv.inFlightMainChainTXs:
-			runenv.waitMined(ctx, id)
-			runenv.PendingActions.RemoveAction(id)
+			if runenv.waitMined(ctx, id) {
+				runenv.PendingActions.RemoveAction(id)
+			}
 		case <-ctx.Done():
 			return
 		}
-- 
2.43.0


From 27ebd4156962d47ce267e5cd9d90a7a2a9db2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 15/35] fix: do not hang on shutdown after submitting a
 transaction

---
 shuttermint/keyper/fx/runenv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index ab35ada..4101098 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -76,7 +76,11 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 		return err
 	}
 	runenv.PendingActions.SetMainChainTXHash(id, tx.Hash())
-	runenv.inFlightMainChainTXs <- id
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case runenv.inFlightMainChainTXs <- id:
+	}
 	return nil
 }
 
-- 
2.43.0


From dc568a32276af4217dd1d0259c6b8282d5864744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 16/35] fix: retry keyper chain messages the mempool does not
 accept

---
 shuttermint/keyper/fx/messagesender.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shuttermint/keyper/fx/messagesender.go b/shuttermint/keyper/fx/messagesender.go
index 67ab21f..03a2170 100644
--- a/shuttermint/keyper/fx/messagesender.go
+++ b/shuttermint/keyper/fx/messagesender.go
@@ -117,6 +117,9 @@ func (ms *RPCMessageSender) SendMessage(ctx context.Context, msg *shmsg.Message)
 	if err != nil {
 		return err
 	}
+	if res.CheckTx.Code != 0 {
+		return errors.Errorf("message not accepted by the mempool: %s", res.CheckTx.Log)
+	}
 	if res.DeliverTx.Code != 0 {
 		return &RemoteError{
 			msg: res.DeliverTx.Log,
-- 
2.43.0


From b7d6d01ee800e2aec9cff8909536b3760eaa6238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 17/35] fix: don't store the zero receipt of a skipped half
 step as half step 0's

---
 shuttermint/keyper/observe/mainchain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 49033ce..0c79247 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -223,6 +223,9 @@ func (mainchain *MainChain) syncExecutionState(cc *contract.Caller, opts *bind.C
 		if err != nil {
 			return errors.Wrap(err, "failed to get cipher execution receipt from contract")
 		}
+		if !receipt.Executed {
+			continue // the half step has been skipped, there's no receipt
+		}
 		mainchain.CipherExecutionReceipts[receipt.HalfStep] = &receipt
 	}
 	mainchain.NumExecutionHalfSteps = numExecutionHalfSteps
-- 
2.43.0


From 1f0978b56c22508c59757bfbcc567997efb88869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 18/35] fix: don't move the main chain view backwards when the
 node lags

---
 shuttermint/keyper/observe/mainchain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 0c79247..ac56171 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -346,6 +346,10 @@ func (mainchain *MainChain) SyncToHead(
 	} else {
 		syncUntilBlockNumber = 0
 	}
+	if syncUntilBlockNumber < mainchain.CurrentBlock {
+		// The node lags behind what we've already seen.
+		return mainchain, nil
+	}
 
 	mainchain = mainchain.Clone()
 
-- 
2.43.0


From f3a3e7884a0e27d685ee5f7ed49255cf4f51a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 19/35] fix: forget unscheduled configs in the main chain view

---
 shuttermint/keyper/observe/mainchain.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index ac56171..c017c48 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -148,7 +148,19 @@ func (mainchain *MainChain) ConfigForBatchIndex(batchIndex uint64) (contract.Bat
 	return mainchain.BatchConfigs[index], true
 }
 
-func (mainchain *MainChain) syncConfigs(cc *contract.Caller, opts *bind.CallOpts) error {
+func (mainchain *MainChain) syncConfigs(cc *contract.Caller, opts *bind.CallOpts, filter *bind.FilterOpts) error {
+	unscheduledIt, err := cc.ConfigContract.FilterConfigUnscheduled(filter)
+	if err != nil {
+		return errors.Wrap(err, "failed to filter for config unscheduled events")
+	}
+	if unscheduledIt.Next() {
+		// Some of the configs we know may have been removed or replaced, so fetch all of them again.
+		mainchain.BatchConfigs = nil
+	}
+	if unscheduledIt.Error() != nil {
+		return errors.Wrap(unscheduledIt.Error(), "failed to iterate config unscheduled events")
+	}
+
 	numConfigs, err := cc.ConfigContract.NumConfigs(opts)
 	if err != nil {
 		return errors.Wrap(err, "failed to get number of configs from contract")
@@ -362,7 +374,7 @@ func (mainchain *MainChain) SyncToHead(
 		End:   &syncUntilBlockNumber,
 	}
 
-	err = mainchain.syncConfigs(cc, opts)
+	err = mainchain.syncConfigs(cc, opts, filter)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1738820a975602755ec0af8d8a5563b2cbb9d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 20/35] fix: don't change the main chain view when a deposit is
 looked up

---
 shuttermint/keyper/observe/mainchain.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index c017c48..17e4355 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -326,7 +326,6 @@ func (mainchain *MainChain) GetDeposit(account common.Address) *Deposit {
 		deposit = &Deposit{
 			Account: account,
 		}
-		mainchain.Deposits[account] = deposit
 	}
 	return deposit
 }
-- 
2.43.0


From a4f24fe1f780dc80efb170dcad6adcd2ef665966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 21/35] fix: replace the contract's whole keyper list when
 setting the next config

---
 shuttermint/contract/config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 976a641..74f9187 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -381,9 +381,14 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 		}
 		batch.Add(tx)
 	}
-	if !addressesEqual(newbc.Keypers, curbc.Keypers) {
+	// curbc.Keypers doesn't contain duplicates, the contract's list may do
+	curKeypers, err := cc.GetNextConfigKeypers(callOpts)
+	if err != nil {
+		return err
+	}
+	if !addressesEqual(newbc.Keypers, curKeypers) {
 		// TODO: remove and keypers in groups if there are too many of them
-		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curbc.Keypers))); err != nil {
+		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curKeypers))); err != nil {
 			return err
 		}
 		batch.Add(tx)
-- 
2.43.0


From 226f3ada0ad114e366e4227d536ee3220d8ac475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 22/35] fix: don't write padding into the memory following the
 message

---
 shlib/shcrypto/encryption.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 22f50be..84d1bf9 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -171,7 +171,8 @@ func DecryptBlocks(encryptedBlocks []Block, sigma Block) []Block {
 func PadMessage(m []byte) []Block {
 	paddingLength := BlockSize - len(m)%BlockSize
 	padding := bytes.Repeat([]byte{byte(paddingLength)}, paddingLength)
-	m = append(m, padding...)
+	// copy the message, append could write to the memory following it
+	m = append(append(make([]byte, 0, len(m)+paddingLength), m...), padding...)
 
 	blocks := []Block{}
 	numBlocks := len(m) / BlockSize
-- 
2.43.0


From 60072e96e6bdf4acc61e33ba3e1d0f09a2bfed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:31 +0000
Subject: [PATCH 23/35] fix: reject ciphertexts whose padding has been modified

---
 shlib/shcrypto/encryption.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 84d1bf9..679891e 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -187,7 +187,7 @@ func PadMessage(m []byte) []Block {
 // UnpadMessage returns the message provided in padded form as a sequence of blocks.
 func UnpadMessage(blocks []Block) ([]byte, error) {
 	if len(blocks) == 0 {
-		return []byte{}, nil
+		return nil, errors.New("no blocks, not even for the padding")
 	}
 
 	lastBlock := blocks[len(blocks)-1]
@@ -198,6 +198,11 @@ func UnpadMessage(blocks []Block) ([]byte, error) {
 	if paddingLength > BlockSize {
 		return nil, fmt.Errorf("invalid padding length %d (greater than block size %d)", paddingLength, BlockSize)
 	}
+	for _, b := range lastBlock[BlockSize-paddingLength:] {
+		if int(b) != paddingLength {
+			return nil, errors.New("invalid padding")
+		}
+	}
 
 	m := make([]byte, len(blocks)*BlockSize-paddingLength)
 	// copy unpadded blocks
-- 
2.43.0


From 450298ca008369ff69a8938d483fc3b78503eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:50 +0000
Subject: [PATCH 24/35] fix: reject byte strings that don't encode a point of
 the group

The result of Uncompress was ignored, so that anything was accepted: the
value kept what it held before, by default the point at infinity.
---
 shlib/shcrypto/encoding.go | 91 ++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 44 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 42bebf3..2b401f8 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -18,6 +18,30 @@ var (
 	}
 )
 
+// uncompressP1 decodes a point of the group G1.
+func uncompressP1(d []byte) (*blst.P1Affine, error) {
+	p := new(blst.P1Affine).Uncompress(d)
+	if p == nil {
+		return nil, errors.New("failed to uncompress point")
+	}
+	if !p.InG1() {
+		return nil, errors.New("point is not in G1")
+	}
+	return p, nil
+}
+
+// uncompressP2 decodes a point of the group G2.
+func uncompressP2(d []byte) (*blst.P2Affine, error) {
+	p := new(blst.P2Affine).Uncompress(d)
+	if p == nil {
+		return nil, errors.New("failed to uncompress point")
+	}
+	if !p.InG2() {
+		return nil, errors.New("point is not in G2")
+	}
+	return p, nil
+}
+
 // Marshal serializes the EncryptedMessage object. It panics, if C1 is nil.
 func (m *EncryptedMessage) Marshal() []byte {
 	if m.C1 == nil {
@@ -48,16 +72,11 @@ func (m *EncryptedMessage) Unmarshal(d []byte) error {
 		(len(d)-1-blst.BLST_P2_COMPRESS_BYTES-BlockSize)%BlockSize != 0 {
 		return fmt.Errorf("invalid length %d of encrypted message", len(d))
 	}
-	if m.C1 == nil {
-		m.C1 = new(blst.P2Affine)
-	}
-	m.C1.Uncompress(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
-	if m.C1 == nil {
-		return errors.New("failed to deserialize C1")
-	}
-	if !m.C1.InG2() {
-		return errors.New("C1 not on curve")
+	c1, err := uncompressP2(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
+	if err != nil {
+		return fmt.Errorf("failed to deserialize C1: %w", err)
 	}
+	m.C1 = c1
 
 	copy(m.C2[:], d[1+blst.BLST_P2_COMPRESS_BYTES:1+blst.BLST_P2_COMPRESS_BYTES+BlockSize])
 
@@ -92,14 +111,11 @@ func (eonPublicKeyShare *EonPublicKeyShare) Marshal() []byte {
 
 // Unmarshal deserializes an eon public key share.
 func (eonPublicKeyShare *EonPublicKeyShare) Unmarshal(m []byte) error {
-	p := (*blst.P2Affine)(eonPublicKeyShare)
-	p.Uncompress(m)
-	if p == nil {
-		return errors.New("failed to deserialize eon public key share")
-	}
-	if !p.InG2() {
-		return errors.New("eon public key share is not on curve")
+	p, err := uncompressP2(m)
+	if err != nil {
+		return fmt.Errorf("failed to deserialize eon public key share: %w", err)
 	}
+	*eonPublicKeyShare = EonPublicKeyShare(*p)
 	return nil
 }
 
@@ -110,14 +126,11 @@ func (eonPublicKey *EonPublicKey) Marshal() []byte {
 
 // Unmarshal deserializes an eon public key from the given byte slice.
 func (eonPublicKey *EonPublicKey) Unmarshal(m []byte) error {
-	p := (*blst.P2Affine)(eonPublicKey)
-	p.Uncompress(m)
-	if p == nil {
-		return errors.New("failed to deserialize eon public key")
-	}
-	if !p.InG2() {
-		return errors.New("eon public key is not on curve")
+	p, err := uncompressP2(m)
+	if err != nil {
+		return fmt.Errorf("failed to deserialize eon public key: %w", err)
 	}
+	*eonPublicKey = EonPublicKey(*p)
 	return nil
 }
 
@@ -142,13 +155,9 @@ func (epochID *EpochID) Marshal() []byte {
 
 // Unmarshal deserializes an epoch id.
 func (epochID *EpochID) Unmarshal(m []byte) error {
-	p := (*blst.P1Affine)(epochID)
-	p.Uncompress(m)
-	if p == nil {
-		return errors.New("failed to deserialize epoch id")
-	}
-	if !p.InG1() {
-		return errors.New("epoch id is not on curve")
+	p, err := uncompressP1(m)
+	if err != nil {
+		return fmt.Errorf("failed to deserialize epoch id: %w", err)
 	}
 	*epochID = EpochID(*p)
 	return nil
@@ -161,14 +170,11 @@ func (epochSecretKeyShare *EpochSecretKeyShare) Marshal() []byte {
 
 // Unmarshal deserializes an epoch secret key share.
 func (epochSecretKeyShare *EpochSecretKeyShare) Unmarshal(m []byte) error {
-	p := (*blst.P1Affine)(epochSecretKeyShare)
-	p.Uncompress(m)
-	if p == nil {
-		return errors.New("failed to deserialize epoch secret key share")
-	}
-	if !p.InG1() {
-		return errors.New("epoch secret key share is not on curve")
+	p, err := uncompressP1(m)
+	if err != nil {
+		return fmt.Errorf("failed to deserialize epoch secret key share: %w", err)
 	}
+	*epochSecretKeyShare = EpochSecretKeyShare(*p)
 	return nil
 }
 
@@ -179,14 +185,11 @@ func (epochSecretKey *EpochSecretKey) Marshal() []byte {
 
 // Unmarshal deserializes an epoch secret key.
 func (epochSecretKey *EpochSecretKey) Unmarshal(m []byte) error {
-	p := (*blst.P1Affine)(epochSecretKey)
-	p.Uncompress(m)
-	if p == nil {
-		return errors.New("failed to deserialize epoch secret key")
-	}
-	if !p.InG1() {
-		return errors.New("epoch secret key is not on curve")
+	p, err := uncompressP1(m)
+	if err != nil {
+		return fmt.Errorf("failed to deserialize epoch secret key: %w", err)
 	}
+	*epochSecretKey = EpochSecretKey(*p)
 	return nil
 }
 
-- 
2.43.0


From 09e2c6928eac99696e4ca1c36477d0ec47fbe296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 25/35] fix: decode gammas completely or not at all

Unmarshal left nil points in the value when a point was wrong.  GobDecode
crashed on lengths that are no multiple of a point's, didn't notice
points that cannot be decoded and appended to what the value held.
---
 shlib/shcrypto/encoding.go | 17 +++++++----------
 shlib/shcrypto/feldman.go  | 14 +-------------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 2b401f8..a7ae2da 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -254,18 +254,15 @@ func (g *Gammas) Unmarshal(m []byte) error {
 		return errors.New("invalid length of gammas")
 	}
 	n := len(m) / blst.BLST_P2_COMPRESS_BYTES
-	*g = make(Gammas, n)
-	for i := 0; i < int(n); i++ {
-		p := new(blst.P2Affine)
-		p = p.Uncompress(m[i*blst.BLST_P2_COMPRESS_BYTES : (i+1)*blst.BLST_P2_COMPRESS_BYTES])
-		if p == nil {
-			return errors.New("failed to deserialize gamma")
+	gammas := make(Gammas, n)
+	for i := 0; i < n; i++ {
+		p, err := uncompressP2(m[i*blst.BLST_P2_COMPRESS_BYTES : (i+1)*blst.BLST_P2_COMPRESS_BYTES])
+		if err != nil {
+			return fmt.Errorf("failed to deserialize gamma: %w", err)
 		}
-		if !p.InG2() {
-			return errors.New("gamma is not on curve")
-		}
-		(*g)[i] = p
+		gammas[i] = p
 	}
+	*g = gammas
 	return nil
 }
 
diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index 088ace1..9ee24e8 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -3,7 +3,6 @@ package shcrypto
 import (
 	"bytes"
 	"crypto/rand"
-	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -171,18 +170,7 @@ func (g *Gammas) GobEncode() ([]byte, error) {
 
 // GobDecode decodes a Gammas value. See https://golang.org/pkg/encoding/gob/#GobDecoder
 func (g *Gammas) GobDecode(data []byte) error {
-	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
-		p := new(blst.P2Affine)
-		p.Uncompress(data[i : i+blst.BLST_P2_COMPRESS_BYTES])
-		if p == nil {
-			return errors.New("failed to deserialize gammas")
-		}
-		if !p.InG2() {
-			return errors.New("gamma is not on curve")
-		}
-		*g = append(*g, p)
-	}
-	return nil
+	return g.Unmarshal(data)
 }
 
 // KeyperX computes the x value assigned to the keyper identified by its index.
-- 
2.43.0


From e5cc82f2796c1a78ffbb1553431265e5953496ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 26/35] fix: reject eon secret key shares outside the field
 when decoding them with gob

---
 shlib/shcrypto/encoding.go |  5 +++--
 shlib/shcrypto/keys.go     | 10 +++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index a7ae2da..f20e7df 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -97,10 +97,11 @@ func (eonSecretKeyShare *EonSecretKeyShare) Marshal() []byte {
 
 // Unarshal deserializes an eon secret key share.
 func (eonSecretKeyShare *EonSecretKeyShare) Unmarshal(m []byte) error {
-	(*big.Int)(eonSecretKeyShare).SetBytes(m)
-	if (*big.Int)(eonSecretKeyShare).Cmp(order) >= 0 {
+	share := new(big.Int).SetBytes(m)
+	if share.Cmp(order) >= 0 {
 		return ErrInvalidEonSecretKeyShare
 	}
+	*eonSecretKeyShare = EonSecretKeyShare(*share)
 	return nil
 }
 
diff --git a/shlib/shcrypto/keys.go b/shlib/shcrypto/keys.go
index 9d3eafe..3d83b47 100644
--- a/shlib/shcrypto/keys.go
+++ b/shlib/shcrypto/keys.go
@@ -92,7 +92,15 @@ func (eonSecretKeyShare *EonSecretKeyShare) GobEncode() ([]byte, error) {
 }
 
 func (eonSecretKeyShare *EonSecretKeyShare) GobDecode(data []byte) error {
-	return (*big.Int)(eonSecretKeyShare).GobDecode(data)
+	share := new(big.Int)
+	if err := share.GobDecode(data); err != nil {
+		return err
+	}
+	if share.Sign() < 0 || share.Cmp(order) >= 0 {
+		return ErrInvalidEonSecretKeyShare
+	}
+	*eonSecretKeyShare = EonSecretKeyShare(*share)
+	return nil
 }
 
 func (eonSecretKeyShare *EonSecretKeyShare) Equal(e2 *EonSecretKeyShare) bool {
-- 
2.43.0


From 137e97940373a20e575599366e9a30e0e8b52e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 27/35] fix: reject blocks of the wrong length when decoding
 them from hex

---
 shlib/shcrypto/encoding.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index f20e7df..4530c9d 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -216,8 +216,14 @@ func (block Block) MarshalText() ([]byte, error) { //nolint:unparam
 // UnmarshalText deserializes the block from hex.
 func (block *Block) UnmarshalText(b []byte) error {
 	decoded, err := hexutil.Decode(string(b))
+	if err != nil {
+		return err
+	}
+	if len(decoded) != BlockSize {
+		return fmt.Errorf("invalid length %d of block", len(decoded))
+	}
 	copy(block[:], decoded)
-	return err
+	return nil
 }
 
 // MarshalText serializes the encrypted message to hex.
-- 
2.43.0


From 801d8498d269ff391b7b6a5e87552b41af9cd98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:55 +0000
Subject: [PATCH 28/35] fix: reject a negative zero as eon secret key share

---
 shlib/shcrypto/keys.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/keys.go b/shlib/shcrypto/keys.go
index 3d83b47..d702d3d 100644
--- a/shlib/shcrypto/keys.go
+++ b/shlib/shcrypto/keys.go
@@ -96,7 +96,8 @@ func (eonSecretKeyShare *EonSecretKeyShare) GobDecode(data []byte) error {
 	if err := share.GobDecode(data); err != nil {
 		return err
 	}
-	if share.Sign() < 0 || share.Cmp(order) >= 0 {
+	// a negative zero has sign 0, but is still less than zero for Cmp
+	if share.Cmp(new(big.Int)) < 0 || share.Cmp(order) >= 0 {
 		return ErrInvalidEonSecretKeyShare
 	}
 	*eonSecretKeyShare = EonSecretKeyShare(*share)
-- 
2.43.0


From c06e62fc959e50f9aea745c82a8cf1a0f8aa1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 29/35] fix: don't skip keyper chain events when reloading a
 state in which nothing has been decided yet

---
 shuttermint/keyper/keyper.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index e3acc5c..b3b2958 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -325,7 +325,9 @@ func (kpr *Keyper) LoadState() error {
 		return err
 	}
 
-	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 {
+	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 && (len(st.State.DKGs) > 0 || len(st.State.EKGs) > 0) {
+		// A keyper that hasn't decided anything yet, because it has been waiting for its nodes to
+		// be synced, must not skip the events it has seen.
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
-- 
2.43.0


From ab745aa71ce912933e1148b03237e4f2aa3ecf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 30/35] fix: choose a start block that leaves the config
 contract's notice, also before the last config has started

---
 shuttermint/cmd/config/setnext.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/shuttermint/cmd/config/setnext.go b/shuttermint/cmd/config/setnext.go
index 76108c4..1c3d055 100644
--- a/shuttermint/cmd/config/setnext.go
+++ b/shuttermint/cmd/config/setnext.go
@@ -77,13 +77,21 @@ func chooseStartBlockAndBatch(ctx context.Context, client *ethclient.Client, cc
 	if err != nil {
 		return 0, 0, errors.Wrap(err, "failed to get header")
 	}
-	minStartBlock := header.Number.Uint64() + headsUp + 20
+	// the contract asks for as much notice as the current batch takes
+	notice := headsUp
+	if batchSpan > notice {
+		notice = batchSpan
+	}
+	minStartBlock := header.Number.Uint64() + notice + 20
 
 	if batchSpan == 0 {
 		return minStartBlock, startBatchIndex, nil
 	}
-	delta := minStartBlock - startBlockNumber
-	numStartedBatches := (delta + batchSpan + 1) / batchSpan
+	numStartedBatches := uint64(1)
+	if minStartBlock > startBlockNumber {
+		delta := minStartBlock - startBlockNumber
+		numStartedBatches = (delta + batchSpan + 1) / batchSpan
+	}
 	newStartBlockNumber := startBlockNumber + numStartedBatches*batchSpan
 	newStartBatchIndex := startBatchIndex + numStartedBatches
 	return newStartBlockNumber, newStartBatchIndex, nil
-- 
2.43.0


From bcb75a5b7ddafc08dcbbe4a5bab8d93c3dda3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:27 +0000
Subject: [PATCH 31/35] fix: deploy divided by the gas price, crashing if it is
 zero

---
 shuttermint/cmd/deploy/deploy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shuttermint/cmd/deploy/deploy.go b/shuttermint/cmd/deploy/deploy.go
index 687e912..9fec9ef 100644
--- a/shuttermint/cmd/deploy/deploy.go
+++ b/shuttermint/cmd/deploy/deploy.go
@@ -91,7 +91,9 @@ var DeployCmd = &cobra.Command{
 		log.Printf("Deploy Address: %s", address)
 		log.Printf("Balance: %f ETH", weiToEther(balance))
 		log.Printf("Gas Price: %f GWei", weiToGwei(gasPrice))
-		log.Printf("Available gas: %d", new(big.Int).Quo(balance, gasPrice))
+		if gasPrice.Sign() > 0 {
+			log.Printf("Available gas: %d", new(big.Int).Quo(balance, gasPrice))
+		}
 
 		if !deployFlags.NoERC1820 {
 			err := maybeDeployERC1820(ctx, client)
-- 
2.43.0


From 1f5c768ddab9d33ed0d7f528bcb43bf2052c990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 32/35] fix: keyper started without its keys, crashing sooner
 or later

---
 shuttermint/cmd/keyper.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/shuttermint/cmd/keyper.go b/shuttermint/cmd/keyper.go
index cb91ccf..e103385 100644
--- a/shuttermint/cmd/keyper.go
+++ b/shuttermint/cmd/keyper.go
@@ -93,6 +93,15 @@ func readKeyperConfig() (keyper.Config, error) {
 	if !keyper.IsWebsocketURL(config.EthereumURL) {
 		return config, errors.Errorf("field EthereumURL must start with ws:// or wss://")
 	}
+	if config.SigningKey == nil {
+		return config, errors.Errorf("field SigningKey is missing")
+	}
+	if config.EncryptionKey == nil {
+		return config, errors.Errorf("field EncryptionKey is missing")
+	}
+	if len(config.ValidatorKey) == 0 {
+		return config, errors.Errorf("field ValidatorSeed is missing")
+	}
 
 	return config, err
 }
-- 
2.43.0


From 8392e97b434fc65b318883626f1de2af2d6456c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:50 +0000
Subject: [PATCH 33/35] fix: keyper offered a gas price of zero if its config
 did not set the multiplier

---
 shuttermint/cmd/keyper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/cmd/keyper.go b/shuttermint/cmd/keyper.go
index e103385..fd6bac9 100644
--- a/shuttermint/cmd/keyper.go
+++ b/shuttermint/cmd/keyper.go
@@ -51,6 +51,7 @@ func readKeyperConfig() (keyper.Config, error) {
 	viper.BindEnv("DKGPhaseLength")
 
 	viper.SetDefault("ShuttermintURL", "http://localhost:26657")
+	viper.SetDefault("GasPriceMultiplier", 1.5)
 
 	defer func() {
 		if viper.ConfigFileUsed() != "" {
-- 
2.43.0


From 3df1f4afb18b7e22145bf445a39f68b4d70725a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:26 +0000
Subject: [PATCH 34/35] fix: a gas price multiplier that is no number made
 keypers crash

---
 shuttermint/keyper/gaspricer/gaspricer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shuttermint/keyper/gaspricer/gaspricer.go b/shuttermint/keyper/gaspricer/gaspricer.go
index 1a67424..a3de60d 100644
--- a/shuttermint/keyper/gaspricer/gaspricer.go
+++ b/shuttermint/keyper/gaspricer/gaspricer.go
@@ -3,6 +3,7 @@
 package gaspricer
 
 import (
+	"math"
 	"math/big"
 
 	"github.com/pkg/errors"
@@ -15,6 +16,9 @@ func SetMultiplier(f float64) error {
 	if f < 0.0 {
 		return errors.New("gas price multiplier must be non-negative")
 	}
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return errors.New("gas price multiplier must be a number")
+	}
 	gasPriceMultiplier = big.NewFloat(f)
 	return nil
 }
-- 
2.43.0


From 2790fc3bf8e62ba26c1b94a44a2a42118e42b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:39 +0000
Subject: [PATCH 35/35] fix: negative numbers in keyper configs became huge
 positive ones

---
 shuttermint/keyper/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/shuttermint/keyper/config.go b/shuttermint/keyper/config.go
index 3afbfd4..51dc868 100644
--- a/shuttermint/keyper/config.go
+++ b/shuttermint/keyper/config.go
@@ -120,6 +120,14 @@ func stringToAddress(f reflect.Type, t reflect.Type, data interface{}) (interfac
 	return addr, nil
 }
 
+// refuseNegative prevents negative numbers from being taken for huge positive ones.
+func refuseNegative(f reflect.Type, t reflect.Type, data interface{}) (interface{}, error) {
+	if t.Kind() == reflect.Uint64 && f.Kind() == reflect.Int64 && reflect.ValueOf(data).Int() < 0 {
+		return nil, errors.Errorf("not a non-negative number: %d", data)
+	}
+	return data, nil
+}
+
 func randomSigningKey() (*ecdsa.PrivateKey, error) {
 	return crypto.GenerateKey()
 }
@@ -171,6 +179,7 @@ func (config *Config) Unmarshal(v *viper.Viper) error {
 				stringToEcdsaPrivateKey,
 				stringToEciesPrivateKey,
 				stringToAddress,
+				refuseNegative,
 				mapstructure.StringToTimeDurationHookFunc(),
 				mapstructure.StringToSliceHookFunc(","),
 			),
-- 
2.43.0

