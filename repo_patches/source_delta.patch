From b843328fcbb5443317186ed3ac15b4a031081285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 01/70] fix: do not panic on a negative return data index

---
 arwen/elrondapi/elrondei.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f4ee745..ac109ad 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2895,7 +2895,7 @@ func v1_3_getReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
@@ -2912,7 +2912,7 @@ func v1_3_getReturnData(context unsafe.Pointer, resultID int32, dataOffset int32
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
-- 
2.43.0


From d4d25338adf28cf7ced860738a3608094b4111ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 02/70] fix: do not panic on a negative argument index in the
 big integer API

---
 arwen/elrondapi/bigIntOps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index 1f8cabd..a33880c 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -274,7 +274,7 @@ func v1_3_bigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destinatio
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
@@ -293,7 +293,7 @@ func v1_3_bigIntGetSignedArgument(context unsafe.Pointer, id int32, destination
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
-- 
2.43.0


From ae7c7f83279be9f010b97c3d0f8ba5becbcd7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 03/70] fix: keep read-only mode on after a nested read-only
 call

---
 arwen/elrondapi/elrondei.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index ac109ad..2b501d0 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2682,9 +2682,10 @@ func ExecuteReadOnlyWithTypedArguments(
 		return 1
 	}
 
+	wasReadOnly := runtime.ReadOnly()
 	runtime.SetReadOnly(true)
 	_, err = host.ExecuteOnSameContext(contractCallInput)
-	runtime.SetReadOnly(false)
+	runtime.SetReadOnly(wasReadOnly)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
-- 
2.43.0


From 51ce8f8dbcdb7b6d4e13da88c4109e4d475bf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 04/70] fix: refuse indirect upgrades in read-only mode

---
 arwen/host/execution.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 88aa8c5..2f19b76 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -539,6 +539,10 @@ func (host *vmHost) executeUpgrade(input *vmcommon.ContractCallInput) error {
 		return err
 	}
 
+	if runtime.ReadOnly() {
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	code, codeMetadata, err := runtime.ExtractCodeUpgradeFromArgs()
 	if err != nil {
 		return arwen.ErrInvalidUpgradeArguments
-- 
2.43.0


From 2d76ad6e560504b1f20249bc2d0805c3af90ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 05/70] fix: fail indirect calls whose arguments cannot be read

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 2b501d0..edcd16c 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -919,6 +919,9 @@ func extractIndirectContractCallArguments(
 		argumentsLengthOffset,
 		dataOffset,
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(actualLen))
 	metering.UseGas(gasToUse)
-- 
2.43.0


From 7cc29a1bb75fd2ab226603844baa41ec5f8e1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 06/70] fix: restore the code size of the caller after a nested
 call

---
 arwen/contexts/runtime.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1ba0bcd..da366ad 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -323,6 +323,7 @@ func (context *runtimeContext) SetCustomCallFunction(callFunction string) {
 func (context *runtimeContext) PushState() {
 	newState := &runtimeContext{
 		scAddress:        context.scAddress,
+		codeSize:         context.codeSize,
 		callFunction:     context.callFunction,
 		readOnly:         context.readOnly,
 		asyncCallInfo:    context.asyncCallInfo,
@@ -352,6 +353,7 @@ func (context *runtimeContext) PopSetActiveState() {
 
 	context.SetVMInput(prevState.vmInput)
 	context.scAddress = prevState.scAddress
+	context.codeSize = prevState.codeSize
 	context.callFunction = prevState.callFunction
 	context.readOnly = prevState.readOnly
 	context.asyncCallInfo = prevState.asyncCallInfo
-- 
2.43.0


From d376e9e1383331508fb780f7429da19f04155810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 07/70] fix: keep the previous transaction hash of the input

---
 arwen/contexts/runtime.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index da366ad..5826504 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -476,6 +476,11 @@ func (context *runtimeContext) SetVMInput(vmInput *vmcommon.VMInput) {
 		copy(context.vmInput.CurrentTxHash, vmInput.CurrentTxHash)
 	}
 
+	if len(vmInput.PrevTxHash) > 0 {
+		context.vmInput.PrevTxHash = make([]byte, len(vmInput.PrevTxHash))
+		copy(context.vmInput.PrevTxHash, vmInput.PrevTxHash)
+	}
+
 	if len(vmInput.Arguments) > 0 {
 		context.vmInput.Arguments = make([][]byte, len(vmInput.Arguments))
 		for i, arg := range vmInput.Arguments {
-- 
2.43.0


From 21aff0d29525b15389972d2e73cafab302862c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 08/70] fix: clear the instance and blockchain stacks between
 executions

---
 arwen/contexts/runtime.go | 1 +
 arwen/host/arwen.go       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 5826504..98328bd 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -375,6 +375,7 @@ func (context *runtimeContext) PopDiscard() {
 // ClearStateStack reinitializes the state stack.
 func (context *runtimeContext) ClearStateStack() {
 	context.stateStack = make([]*runtimeContext, 0)
+	context.instanceStack = make([]wasmer.InstanceHandler, 0)
 }
 
 // pushInstance appends the current wasmer instance to the instance stack.
diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 782c41d..d28ff53 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -285,6 +285,7 @@ func (host *vmHost) ClearContextStateStack() {
 	host.meteringContext.ClearStateStack()
 	host.runtimeContext.ClearStateStack()
 	host.storageContext.ClearStateStack()
+	host.blockchainContext.ClearStateStack()
 }
 
 // Clean closes the currently running Wasmer instance
-- 
2.43.0


From 80a2f8d71f87fb54447bce1bc05cd1ae7c29bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:02 +0000
Subject: [PATCH 09/70] fix: keep the gas refund of the caller when merging a
 nested call

---
 arwen/contexts/output.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 4c06e4a..3fc8fb8 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -97,7 +97,9 @@ func (context *outputContext) PopMergeActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 
+	refund := big.NewInt(0).Add(prevState.GasRefund, context.outputState.GasRefund)
 	mergeVMOutputs(prevState, context.outputState)
+	prevState.GasRefund = refund
 	context.outputState = newVMOutput()
 	mergeVMOutputs(context.outputState, prevState)
 }
-- 
2.43.0


From f1daeb833bb2ba361c8237cc2a7680f673ac61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:02 +0000
Subject: [PATCH 10/70] fix: verify the code of contracts deployed by other
 contracts

---
 arwen/contexts/runtime.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 98328bd..5bffd38 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -213,13 +213,11 @@ func (context *runtimeContext) makeInstanceFromContractByteCode(contract []byte,
 	hostReference := uintptr(unsafe.Pointer(&context.host))
 	context.instance.SetContextData(hostReference)
 
-	if newCode {
-		err = context.VerifyContractCode()
-		if err != nil {
-			context.CleanWasmerInstance()
-			logRuntime.Trace("instance creation", "code", "bytecode", "error", err)
-			return err
-		}
+	err = context.VerifyContractCode()
+	if err != nil {
+		context.CleanWasmerInstance()
+		logRuntime.Trace("instance creation", "code", "bytecode", "error", err)
+		return err
 	}
 
 	if context.useWarmInstance {
-- 
2.43.0


From 3f1a791a9a1e91606dd3e1deb91aca24abc15458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:02 +0000
Subject: [PATCH 11/70] fix: keep the old gas schedule when the new one is
 refused

---
 arwen/host/arwen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index d28ff53..d3adc61 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -306,13 +306,13 @@ func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
 	host.mutExecution.Lock()
 	defer host.mutExecution.Unlock()
 
-	host.gasSchedule = newGasSchedule
 	gasCostConfig, err := config.CreateGasConfig(newGasSchedule)
 	if err != nil {
 		log.Error("cannot apply new gas config remained with old one")
 		return
 	}
 
+	host.gasSchedule = newGasSchedule
 	opcodeCosts := gasCostConfig.WASMOpcodeCost.ToOpcodeCostsArray()
 	wasmer.SetOpcodeCosts(&opcodeCosts)
 
-- 
2.43.0


From facd36758c0d91c6843ae012d31fc1262d579c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 12/70] fix: charge the gas attached to a transfer that leaves
 the contract

---
 arwen/elrondapi/elrondei.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index edcd16c..19de40b 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1051,6 +1051,7 @@ func TransferValueExecuteWithTypedArgs(
 	}
 
 	data := makeCrossShardCallFromInput(contractCallInput)
+	metering.UseGas(uint64(gasLimit))
 	err = output.Transfer(dest, sender, uint64(gasLimit), 0, value, []byte(data), vmcommon.DirectCall)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
-- 
2.43.0


From e2b30a0bab3c797abb289bc8811e425df03b4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:37 +0000
Subject: [PATCH 13/70] fix: do not run cached code of an account with pending
 new code

---
 arwen/contexts/blockchain.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 4f18f9f..080472e 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -1,6 +1,7 @@
 package contexts
 
 import (
+	"bytes"
 	"math/big"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
@@ -137,6 +138,15 @@ func (context *blockchainContext) GetCodeHash(address []byte) []byte {
 		return nil
 	}
 
+	// the code of a pending deployment or upgrade is not the code of the account yet
+	outputAccount, hasOutput := context.host.Output().GetOutputAccounts()[string(address)]
+	if hasOutput && len(outputAccount.Code) > 0 {
+		code := context.blockChainHook.GetCode(account)
+		if !bytes.Equal(outputAccount.Code, code) {
+			return nil
+		}
+	}
+
 	codeHash := account.GetCodeHash()
 	return codeHash
 }
-- 
2.43.0


From 24506524246f470e29e753b3d6b395cc7a4b50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:57 +0000
Subject: [PATCH 14/70] fix: count the pending balance of accounts the network
 does not know

---
 arwen/contexts/blockchain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 080472e..31b5549 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -75,7 +75,7 @@ func (context *blockchainContext) GetBalanceBigInt(address []byte) *big.Int {
 		if outputAccount.Balance == nil {
 			account, err := context.blockChainHook.GetUserAccount(address)
 			if err != nil || arwen.IfNil(account) {
-				return big.NewInt(0)
+				return big.NewInt(0).Set(outputAccount.BalanceDelta)
 			}
 
 			outputAccount.Balance = account.GetBalance()
-- 
2.43.0


From ab46fa24da73e9cc2fad21acf6a2adc76a975821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 15/70] fix: lock gas for the callback by the size of the code
 being deployed

---
 arwen/contexts/runtime.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 5bffd38..89a0bde 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -126,6 +126,9 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 		return arwen.ErrMaxInstancesReached
 	}
 
+	// the code of a deployment or an upgrade does not come from GetSCCode()
+	context.codeSize = uint64(len(contract))
+
 	warmInstanceUsed := context.setWarmInstanceWhenNeeded(gasLimit)
 	if warmInstanceUsed {
 		return nil
-- 
2.43.0


From ba0fbbd038dcbb696b80be83fbb5026ca31060b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 16/70] fix: forget the code updates of failed nested calls

---
 arwen/contexts/output.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 3fc8fb8..03a8d68 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -19,6 +19,8 @@ type outputContext struct {
 	outputState *vmcommon.VMOutput
 	stateStack  []*vmcommon.VMOutput
 	codeUpdates map[string]struct{}
+
+	codeUpdatesStack []map[string]struct{}
 }
 
 // NewOutputContext creates a new outputContext
@@ -69,6 +71,12 @@ func (context *outputContext) PushState() {
 	newState := newVMOutput()
 	mergeVMOutputs(newState, context.outputState)
 	context.stateStack = append(context.stateStack, newState)
+
+	codeUpdates := make(map[string]struct{}, len(context.codeUpdates))
+	for address := range context.codeUpdates {
+		codeUpdates[address] = struct{}{}
+	}
+	context.codeUpdatesStack = append(context.codeUpdatesStack, codeUpdates)
 }
 
 // PopSetActiveState removes the latest entry from the state stack and sets it as the current vm output
@@ -81,6 +89,8 @@ func (context *outputContext) PopSetActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 	context.outputState = prevState
+	context.codeUpdates = context.codeUpdatesStack[stateStackLen-1]
+	context.codeUpdatesStack = context.codeUpdatesStack[:stateStackLen-1]
 }
 
 // PopMergeActiveState merges the current state into the head of the stateStack,
@@ -96,6 +106,7 @@ func (context *outputContext) PopMergeActiveState() {
 
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
+	context.codeUpdatesStack = context.codeUpdatesStack[:stateStackLen-1]
 
 	refund := big.NewInt(0).Add(prevState.GasRefund, context.outputState.GasRefund)
 	mergeVMOutputs(prevState, context.outputState)
@@ -113,11 +124,13 @@ func (context *outputContext) PopDiscard() {
 	}
 
 	context.stateStack = context.stateStack[:stateStackLen-1]
+	context.codeUpdatesStack = context.codeUpdatesStack[:stateStackLen-1]
 }
 
 // ClearStateStack reinitializes the state stack.
 func (context *outputContext) ClearStateStack() {
 	context.stateStack = make([]*vmcommon.VMOutput, 0)
+	context.codeUpdatesStack = make([]map[string]struct{}, 0)
 }
 
 // CensorVMOutput will cause the next executed SC to appear isolated, as if
-- 
2.43.0


From 0eb76c380e7c9defcc625346d7683e562ef0e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 17/70] fix: make the gas locked for a callback available to it

---
 arwen/host/execution.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 2f19b76..9df0988 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -102,8 +102,9 @@ func (host *vmHost) doRunSmartContractUpgrade(input *vmcommon.ContractCallInput)
 
 	_, _, metering, output, runtime, storage := host.GetContexts()
 
-	runtime.InitStateFromContractCallInput(input)
+	// metering goes first, because it unlocks the gas of a callback in the input
 	metering.InitStateFromContractCallInput(&input.VMInput)
+	runtime.InitStateFromContractCallInput(input)
 	output.AddTxValueToAccount(input.RecipientAddr, input.CallValue)
 	storage.SetAddress(runtime.GetSCAddress())
 
@@ -153,8 +154,9 @@ func (host *vmHost) doRunSmartContractCall(input *vmcommon.ContractCallInput) (v
 
 	_, _, metering, output, runtime, storage := host.GetContexts()
 
-	runtime.InitStateFromContractCallInput(input)
+	// metering goes first, because it unlocks the gas of a callback in the input
 	metering.InitStateFromContractCallInput(&input.VMInput)
+	runtime.InitStateFromContractCallInput(input)
 	output.AddTxValueToAccount(input.RecipientAddr, input.CallValue)
 	storage.SetAddress(runtime.GetSCAddress())
 
-- 
2.43.0


From 9f491dbbf90eea18e2c44dab49e952b9b7fa76c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 18/70] fix: report to the callback only the value sent by the
 called contract

---
 arwen/host/asyncCall.go | 44 +++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index b0586ed..23db9d1 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -61,9 +61,15 @@ func (host *vmHost) handleAsyncCallBreakpoint() error {
 	}
 
 	// Start calling the destination SC, synchronously.
+	numPreviousTransfers := host.countOutputTransfersToCaller()
 	destinationVMOutput, destinationErr := host.executeSyncDestinationCall(asyncCallInfo)
 
-	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(asyncCallInfo, destinationVMOutput, destinationErr)
+	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(
+		asyncCallInfo,
+		destinationVMOutput,
+		numPreviousTransfers,
+		destinationErr,
+	)
 
 	err = host.processCallbackVMOutput(callbackVMOutput, callBackErr)
 	if err != nil {
@@ -162,11 +168,13 @@ func (host *vmHost) executeSyncDestinationCall(asyncCallInfo arwen.AsyncCallInfo
 func (host *vmHost) executeSyncCallbackCall(
 	asyncCallInfo arwen.AsyncCallInfoHandler,
 	destinationVMOutput *vmcommon.VMOutput,
+	numPreviousTransfers int,
 	destinationErr error,
 ) (*vmcommon.VMOutput, error) {
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		asyncCallInfo,
 		destinationVMOutput,
+		numPreviousTransfers,
 		asyncCallInfo.GetDestination(),
 		arwen.CallbackFunctionName,
 		destinationErr,
@@ -318,7 +326,21 @@ func (host *vmHost) createDestinationContractCallInput(asyncCallInfo arwen.Async
 	return contractCallInput, nil
 }
 
-func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *vmcommon.VMOutput) *big.Int {
+// countOutputTransfersToCaller counts the transfers to the current contract
+// which were made before calling the destination
+func (host *vmHost) countOutputTransfersToCaller() int {
+	outAcc, ok := host.Output().GetOutputAccounts()[string(host.Runtime().GetSCAddress())]
+	if !ok {
+		return 0
+	}
+
+	return len(outAcc.OutputTransfers)
+}
+
+func (host *vmHost) computeCallValueFromLastOutputTransfer(
+	destinationVMOutput *vmcommon.VMOutput,
+	numPreviousTransfers int,
+) *big.Int {
 	if !host.IsArwenV3Enabled() {
 		return big.NewInt(0)
 	}
@@ -333,7 +355,8 @@ func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *
 		return returnTransfer
 	}
 
-	if len(outAcc.OutputTransfers) == 0 {
+	// the transfers made before the call are not the answer of the destination
+	if len(outAcc.OutputTransfers) <= numPreviousTransfers {
 		return returnTransfer
 	}
 
@@ -348,6 +371,7 @@ func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *
 func (host *vmHost) createCallbackContractCallInput(
 	asyncCallInfo arwen.AsyncCallInfoHandler,
 	destinationVMOutput *vmcommon.VMOutput,
+	numPreviousTransfers int,
 	callbackInitiator []byte,
 	callbackFunction string,
 	destinationErr error,
@@ -392,7 +416,7 @@ func (host *vmHost) createCallbackContractCallInput(
 		VMInput: vmcommon.VMInput{
 			CallerAddr:           callbackInitiator,
 			Arguments:            arguments,
-			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput),
+			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput, numPreviousTransfers),
 			CallType:             vmcommon.AsynchronousCallBack,
 			GasPrice:             runtime.GetVMInput().GasPrice,
 			GasProvided:          gasLimit,
@@ -523,11 +547,12 @@ func (host *vmHost) processAsyncInfo(asyncInfo *arwen.AsyncContextInfo) (*arwen.
  */
 func (host *vmHost) processAsyncCall(asyncCall *arwen.AsyncGeneratedCall) error {
 	input, _ := host.createDestinationContractCallInput(asyncCall)
+	numPreviousTransfers := host.countOutputTransfersToCaller()
 	output, asyncMap, executionError := host.ExecuteOnDestContext(input)
 
 	pendingMap := host.getPendingAsyncCalls(asyncMap)
 	if len(pendingMap.AsyncContextMap) == 0 {
-		return host.callbackAsync(asyncCall, output, executionError)
+		return host.callbackAsync(asyncCall, output, numPreviousTransfers, executionError)
 	}
 
 	return executionError
@@ -536,7 +561,12 @@ func (host *vmHost) processAsyncCall(asyncCall *arwen.AsyncGeneratedCall) error
 /**
  * callbackAsync will execute a callback from an async call that was ran on this host and set it's status to resolved or rejected
  */
-func (host *vmHost) callbackAsync(asyncCall *arwen.AsyncGeneratedCall, vmOutput *vmcommon.VMOutput, executionError error) error {
+func (host *vmHost) callbackAsync(
+	asyncCall *arwen.AsyncGeneratedCall,
+	vmOutput *vmcommon.VMOutput,
+	numPreviousTransfers int,
+	executionError error,
+) error {
 	asyncCall.Status = arwen.AsyncCallResolved
 	callbackFunction := asyncCall.SuccessCallback
 	if vmOutput.ReturnCode != vmcommon.Ok {
@@ -547,6 +577,7 @@ func (host *vmHost) callbackAsync(asyncCall *arwen.AsyncGeneratedCall, vmOutput
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		asyncCall,
 		vmOutput,
+		numPreviousTransfers,
 		asyncCall.Destination,
 		callbackFunction,
 		executionError,
@@ -736,6 +767,7 @@ func (host *vmHost) processCallbackStack() error {
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		nil,
 		host.Output().GetVMOutput(),
+		0,
 		asyncInfo.CallerAddr,
 		arwen.CallbackFunctionName,
 		nil,
-- 
2.43.0


From 7ca2f4a0fb03594adebadc1e6bff973b20e0a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 19/70] fix: refuse uncompressed secp256k1 keys with an invalid
 format byte

---
 crypto/signing/secp256k1/secp256k1.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/signing/secp256k1/secp256k1.go b/crypto/signing/secp256k1/secp256k1.go
index b026b51..5e4d39d 100644
--- a/crypto/signing/secp256k1/secp256k1.go
+++ b/crypto/signing/secp256k1/secp256k1.go
@@ -6,6 +6,8 @@ import (
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 )
 
+const invalidUncompressedFormat = byte(0x05)
+
 type secp256k1 struct {
 }
 
@@ -14,6 +16,11 @@ func NewSecp256k1() *secp256k1 {
 }
 
 func (sec *secp256k1) VerifySecp256k1(key []byte, msg []byte, sig []byte) error {
+	// btcec ignores the lowest bit of the format byte of an uncompressed key
+	if len(key) == btcec.PubKeyBytesLenUncompressed && key[0] == invalidUncompressedFormat {
+		return signing.ErrInvalidPublicKey
+	}
+
 	pubKey, err := btcec.ParsePubKey(key, btcec.S256())
 	if err != nil {
 		return err
-- 
2.43.0


From b39509db6a59d252f55b7c3ee015701aaf9caa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 20/70] fix: refuse BLS signatures followed by other bytes

---
 crypto/signing/bls/bls.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/signing/bls/bls.go b/crypto/signing/bls/bls.go
index f648aa3..ca615b9 100644
--- a/crypto/signing/bls/bls.go
+++ b/crypto/signing/bls/bls.go
@@ -7,6 +7,9 @@ import (
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/signing/mcl/singlesig"
 )
 
+// signatureLength is the length of a serialized point on G1
+const signatureLength = 48
+
 type bls struct {
 	keyGenerator crypto.KeyGenerator
 	signer       crypto.SingleSigner
@@ -22,6 +25,10 @@ func NewBLS() *bls {
 }
 
 func (b *bls) VerifyBLS(key []byte, msg []byte, sig []byte) error {
+	if len(sig) != signatureLength {
+		return signing.ErrInvalidSignature
+	}
+
 	publicKey, err := b.keyGenerator.PublicKeyFromByteArray(key)
 	if err != nil {
 		return err
-- 
2.43.0


From 9669cc228354422ef14f15e33c7116b204ad83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:02 +0000
Subject: [PATCH 21/70] fix: report empty signed fixed-width numbers as
 malformed

---
 mandos-go/expression/interpreter/interpreter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index 4cc5a55..2448ca2 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -183,7 +183,7 @@ func (ei *ExprInterpreter) InterpretString(strRaw string) ([]byte, error) {
 // targetWidth = 0 means minimum length that can contain the result
 func (ei *ExprInterpreter) interpretNumber(strRaw string, targetWidth int) ([]byte, error) {
 	// signed numbers
-	if strRaw[0] == '-' || strRaw[0] == '+' {
+	if len(strRaw) > 0 && (strRaw[0] == '-' || strRaw[0] == '+') {
 		numberBytes, err := ei.interpretUnsignedNumber(strRaw[1:])
 		if err != nil {
 			return []byte{}, err
-- 
2.43.0


From 65c696c70e95481fa74c936b95f02403ce379a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:02 +0000
Subject: [PATCH 22/70] fix: refuse a sign after the binary prefix

---
 mandos-go/expression/interpreter/interpreter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index 2448ca2..c3ac057 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -225,7 +225,7 @@ func (ei *ExprInterpreter) interpretUnsignedNumber(strRaw string) ([]byte, error
 		result := new(big.Int)
 		var parseOk bool
 		result, parseOk = result.SetString(str[2:], 2)
-		if !parseOk {
+		if !parseOk || result.Sign() < 0 {
 			return []byte{}, fmt.Errorf("could not parse binary value: %s", strRaw)
 		}
 
-- 
2.43.0


From 1966ea6e131b9153fe021f64aecc2ad76405f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:02 +0000
Subject: [PATCH 23/70] fix: show the shard of contract addresses as two hex
 digits

---
 mandos-go/expression/reconstructor/reconstructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index eaa52f1..4baca19 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -95,7 +95,7 @@ func addressPretty(value []byte) string {
 			addrStr := string(value[ei.SCAddressNumLeadingZeros:31])
 			addrStr = strings.TrimRight(addrStr, "_")
 			shard_id := value[31]
-			return fmt.Sprintf("sc:%s#%x", addrStr, shard_id)
+			return fmt.Sprintf("sc:%s#%02x", addrStr, shard_id)
 		}
 	}
 
-- 
2.43.0


From 346337ac4663e4547eedc1f8910615ad0194456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:24 +0000
Subject: [PATCH 24/70] fix: show addresses that contain separators in hex

---
 mandos-go/expression/reconstructor/reconstructor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index 4baca19..d9f1fed 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -83,6 +83,11 @@ func addressPretty(value []byte) string {
 		return unknownByteArrayPretty(value)
 	}
 
+	// names containing separators would not be read back as the same address
+	if bytes.ContainsAny(value[:31], "#|") {
+		return fmt.Sprintf("0x%s", hex.EncodeToString(value))
+	}
+
 	// smart contract addresses
 	leadingZeros := make([]byte, ei.SCAddressNumLeadingZeros)
 	if bytes.Equal(value[:ei.SCAddressNumLeadingZeros], leadingZeros) {
-- 
2.43.0


From 737f3a805bd22270eddc79ae9054f574c62cd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:24 +0000
Subject: [PATCH 25/70] fix: end JSON strings that finish with an escaped
 backslash

---
 mandos-go/orderedjson/ojParse.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index d1d3f49..2a151df 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -15,6 +15,7 @@ type jsonParserStateAnyObjPlaceholder struct {
 type jsonParserStateSingleValue struct {
 	buffer       bytes.Buffer
 	stringEscape bool
+	charEscape   bool
 }
 
 type jsonParserStateMap struct {
@@ -22,9 +23,10 @@ type jsonParserStateMap struct {
 }
 
 type jsonStateMapKeyValue struct {
-	keyBuffer bytes.Buffer
-	state     int // 0=key, 1=':', 2=value
-	currentKV OJsonKeyValuePair
+	keyBuffer  bytes.Buffer
+	charEscape bool
+	state      int // 0=key, 1=':', 2=value
+	currentKV  OJsonKeyValuePair
 }
 
 type jsonParserStateList struct {
@@ -41,7 +43,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 	stateStack.push(&jsonParserStateAnyObjPlaceholder{})
 	var pendingResult OJsonObject
 
-	for i, c := range input {
+	for _, c := range input {
 		done := false
 		for !done {
 			done = true
@@ -80,10 +82,13 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 					specificState.stringEscape = (c == '"')
 					specificState.buffer.WriteByte(c)
 				} else {
-					prevChar := input[i-1]
 					if specificState.stringEscape {
 						specificState.buffer.WriteByte(c)
-						if c == '"' && prevChar != '\\' {
+						if specificState.charEscape {
+							specificState.charEscape = false
+						} else if c == '\\' {
+							specificState.charEscape = true
+						} else if c == '"' {
 							stateStack.pop()
 							var err error
 							pendingResult, err = specificState.finalize()
@@ -152,8 +157,11 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						}
 					} else {
 						specificState.keyBuffer.WriteByte(c)
-						prevChar := input[i-1]
-						if c == '"' && prevChar != '\\' {
+						if specificState.charEscape {
+							specificState.charEscape = false
+						} else if c == '\\' {
+							specificState.charEscape = true
+						} else if c == '"' {
 							specificState.state = 1
 						}
 					}
-- 
2.43.0


From fb52e4ccc859f965c32ad3d9802c9afb074fd348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 26/70] fix: refuse JSON lists and maps with misplaced items or
 commas

---
 mandos-go/orderedjson/ojParse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index 2a151df..6e1e019 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -127,6 +127,8 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						done = false
 					} else if c == ',' {
 						stateStack.push(&jsonParserStateAnyObjPlaceholder{})
+					} else {
+						return nil, errors.New("invalid list state")
 					}
 				}
 			case *jsonParserStateMap:
@@ -135,7 +137,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 				} else if c == '}' {
 					pendingResult = specificState.currentMap
 					stateStack.pop()
-				} else if c == ',' {
+				} else if c == ',' && specificState.currentMap.Size() > 0 {
 					stateStack.push(&jsonStateMapKeyValue{})
 				} else if specificState.currentMap.Size() == 0 {
 					stateStack.push(&jsonStateMapKeyValue{})
-- 
2.43.0


From 7ba9bf8c2cf553968d72ddae1a15efe4d4249a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 27/70] fix: accept a JSON boolean that ends the input

---
 mandos-go/orderedjson/ojParse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index 6e1e019..25af6de 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -202,6 +202,14 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 		}
 	}
 
+	if stateStack.size() == 1 {
+		// a value that is not enclosed in quotes can also end with the input
+		value, isValue := stateStack.peek().(*jsonParserStateSingleValue)
+		if isValue && !value.stringEscape {
+			return value.finalize()
+		}
+	}
+
 	if stateStack.size() != 0 {
 		return nil, errors.New("state stack should be empty at the end")
 	}
-- 
2.43.0


From 24a91f58a6ab0552c6cb8fab2e51ea5d4984a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:59 +0000
Subject: [PATCH 28/70] fix: refuse scenario steps without transaction or
 accounts

---
 mandos-go/json/parse/parseScenario.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/parse/parseScenario.go b/mandos-go/json/parse/parseScenario.go
index 36a5901..b0b80c2 100644
--- a/mandos-go/json/parse/parseScenario.go
+++ b/mandos-go/json/parse/parseScenario.go
@@ -207,6 +207,9 @@ func (p *Parser) processScenarioStep(stepObj oj.OJsonObject) (mj.Step, error) {
 				return nil, fmt.Errorf("invalid check state field: %s", kvp.Key)
 			}
 		}
+		if step.CheckAccounts == nil {
+			return nil, errors.New("check state step without accounts")
+		}
 		return step, nil
 	case mj.StepNameDumpState:
 		step := &mj.DumpStateStep{}
@@ -260,8 +263,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 				return nil, fmt.Errorf("cannot parse tx step transaction: %w", err)
 			}
 		case "expect":
-			if !step.Tx.Type.IsSmartContractTx() {
-				return nil, fmt.Errorf("no expected result allowed for step of type %s", step.StepTypeName())
+			if !txType.IsSmartContractTx() {
+				return nil, errors.New("no expected result allowed for steps without smart contract transactions")
 			}
 			step.ExpectedResult, err = p.processTxExpectedResult(kvp.Value)
 			if err != nil {
@@ -271,5 +274,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 			return nil, fmt.Errorf("invalid tx step field: %s", kvp.Key)
 		}
 	}
+	if step.Tx == nil {
+		return nil, errors.New("tx step without transaction")
+	}
 	return step, nil
 }
-- 
2.43.0


From 4f67701ce0f4cd099ad8cff171fc3a70172fd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:59 +0000
Subject: [PATCH 29/70] fix: do not panic on tests without postState or block
 header

---
 mandos-go/json/parse/parseTest.go |  3 +++
 mandos-go/json/write/writeTest.go | 16 +++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/mandos-go/json/parse/parseTest.go b/mandos-go/json/parse/parseTest.go
index 9d659e6..e157f8e 100644
--- a/mandos-go/json/parse/parseTest.go
+++ b/mandos-go/json/parse/parseTest.go
@@ -86,6 +86,9 @@ func (p *Parser) processTest(testObj oj.OJsonObject) (*mj.Test, error) {
 			return nil, fmt.Errorf("unknown test: %s", kvp.Key)
 		}
 	}
+	if test.PostState == nil {
+		return nil, errors.New("test without postState")
+	}
 
 	return &test, nil
 }
diff --git a/mandos-go/json/write/writeTest.go b/mandos-go/json/write/writeTest.go
index 8d38ccc..e92802d 100644
--- a/mandos-go/json/write/writeTest.go
+++ b/mandos-go/json/write/writeTest.go
@@ -84,13 +84,15 @@ func blockToOJ(block *mj.Block) oj.OJsonObject {
 	txsOJ := oj.OJsonList(txList)
 	blockOJ.Put("transactions", &txsOJ)
 
-	blockHeaderOJ := oj.NewMap()
-	blockHeaderOJ.Put("gasLimit", bigIntToOJ(block.BlockHeader.GasLimit))
-	blockHeaderOJ.Put("number", bigIntToOJ(block.BlockHeader.Number))
-	blockHeaderOJ.Put("difficulty", bigIntToOJ(block.BlockHeader.Difficulty))
-	blockHeaderOJ.Put("timestamp", uint64ToOJ(block.BlockHeader.Timestamp))
-	blockHeaderOJ.Put("coinbase", bigIntToOJ(block.BlockHeader.Beneficiary))
-	blockOJ.Put("blockHeader", blockHeaderOJ)
+	if block.BlockHeader != nil {
+		blockHeaderOJ := oj.NewMap()
+		blockHeaderOJ.Put("gasLimit", bigIntToOJ(block.BlockHeader.GasLimit))
+		blockHeaderOJ.Put("number", bigIntToOJ(block.BlockHeader.Number))
+		blockHeaderOJ.Put("difficulty", bigIntToOJ(block.BlockHeader.Difficulty))
+		blockHeaderOJ.Put("timestamp", uint64ToOJ(block.BlockHeader.Timestamp))
+		blockHeaderOJ.Put("coinbase", bigIntToOJ(block.BlockHeader.Beneficiary))
+		blockOJ.Put("blockHeader", blockHeaderOJ)
+	}
 
 	return blockOJ
 }
-- 
2.43.0


From 709c8d5937fd3b856d99296ef94433f01cb23491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:59 +0000
Subject: [PATCH 30/70] fix: write valid JSON for log entries with missing
 fields

---
 mandos-go/json/write/writeCommon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeCommon.go b/mandos-go/json/write/writeCommon.go
index 8d0d21c..165d0c5 100644
--- a/mandos-go/json/write/writeCommon.go
+++ b/mandos-go/json/write/writeCommon.go
@@ -137,7 +137,8 @@ func bytesFromTreeToOJ(bytes mj.JSONBytesFromTree) oj.OJsonObject {
 }
 
 func checkBytesToOJ(checkBytes mj.JSONCheckBytes) oj.OJsonObject {
-	if checkBytes.OriginalEmpty() && len(checkBytes.Value) > 0 {
+	originalMissing := checkBytes.Original == nil || (checkBytes.OriginalEmpty() && len(checkBytes.Value) > 0)
+	if originalMissing {
 		checkBytes.Original = &oj.OJsonString{Value: hex.EncodeToString(checkBytes.Value)}
 	}
 	return checkBytes.Original
-- 
2.43.0


From 466d3a29b2739d01d69a7ae48d8a025ce2d8ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:59 +0000
Subject: [PATCH 31/70] fix: write all specified fields of accounts and
 transactions, and no empty addresses

---
 mandos-go/json/write/writeAccount.go  |  3 +++
 mandos-go/json/write/writeScenario.go | 17 ++++++++++++-----
 mandos-go/json/write/writeTest.go     | 11 +++++++++--
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 3360263..1afa6a4 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -13,6 +13,9 @@ func AccountsToOJ(accounts []*mj.Account) oj.OJsonObject {
 		if len(account.Comment) > 0 {
 			acctOJ.Put("comment", stringToOJ(account.Comment))
 		}
+		if len(account.Shard.Original) > 0 {
+			acctOJ.Put("shard", uint64ToOJ(account.Shard))
+		}
 		acctOJ.Put("nonce", uint64ToOJ(account.Nonce))
 		acctOJ.Put("balance", bigIntToOJ(account.Balance))
 		if len(account.ESDTData) > 0 {
diff --git a/mandos-go/json/write/writeScenario.go b/mandos-go/json/write/writeScenario.go
index da11b2d..8803e20 100644
--- a/mandos-go/json/write/writeScenario.go
+++ b/mandos-go/json/write/writeScenario.go
@@ -93,10 +93,13 @@ func ScenarioToOrderedJSON(scenario *mj.Scenario) oj.OJsonObject {
 
 func transactionToScenarioOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ := oj.NewMap()
-	if tx.Type.HasSender() {
+	if len(tx.Nonce.Original) > 0 {
+		transactionOJ.Put("nonce", uint64ToOJ(tx.Nonce))
+	}
+	if tx.Type.HasSender() && len(tx.From.Value) > 0 {
 		transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
 	}
-	if tx.Type.HasReceiver() {
+	if tx.Type.HasReceiver() && len(tx.To.Value) > 0 {
 		transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
 	}
 	if tx.Type.HasValue() {
@@ -113,7 +116,7 @@ func transactionToScenarioOJ(tx *mj.Transaction) oj.OJsonObject {
 		transactionOJ.Put("contractCode", bytesFromStringToOJ(tx.Code))
 	}
 
-	if tx.Type.HasFunction() || tx.Type == mj.ScDeploy {
+	if tx.Type.HasFunction() || tx.Type == mj.ScDeploy || len(tx.Arguments) > 0 {
 		var argList []oj.OJsonObject
 		for _, arg := range tx.Arguments {
 			argList = append(argList, bytesFromTreeToOJ(arg))
@@ -134,9 +137,13 @@ func newAddressMocksToOJ(newAddressMocks []*mj.NewAddressMock) oj.OJsonObject {
 	var namList []oj.OJsonObject
 	for _, namEntry := range newAddressMocks {
 		namOJ := oj.NewMap()
-		namOJ.Put("creatorAddress", bytesFromStringToOJ(namEntry.CreatorAddress))
+		if len(namEntry.CreatorAddress.Value) > 0 {
+			namOJ.Put("creatorAddress", bytesFromStringToOJ(namEntry.CreatorAddress))
+		}
 		namOJ.Put("creatorNonce", uint64ToOJ(namEntry.CreatorNonce))
-		namOJ.Put("newAddress", bytesFromStringToOJ(namEntry.NewAddress))
+		if len(namEntry.NewAddress.Value) > 0 {
+			namOJ.Put("newAddress", bytesFromStringToOJ(namEntry.NewAddress))
+		}
 		namList = append(namList, namOJ)
 	}
 	namOJList := oj.OJsonList(namList)
diff --git a/mandos-go/json/write/writeTest.go b/mandos-go/json/write/writeTest.go
index e92802d..22529c0 100644
--- a/mandos-go/json/write/writeTest.go
+++ b/mandos-go/json/write/writeTest.go
@@ -49,7 +49,12 @@ func transactionToTestOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ.Put("function", stringToOJ(tx.Function))
 	transactionOJ.Put("gasLimit", uint64ToOJ(tx.GasLimit))
 	transactionOJ.Put("value", bigIntToOJ(tx.Value))
-	transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
+	if tx.Type == mj.ScDeploy || len(tx.To.Value) > 0 {
+		transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
+	}
+	if tx.ESDTValue != nil {
+		transactionOJ.Put("esdt", esdtTxDataToOJ(tx.ESDTValue))
+	}
 
 	var argList []oj.OJsonObject
 	for _, arg := range tx.Arguments {
@@ -62,7 +67,9 @@ func transactionToTestOJ(tx *mj.Transaction) oj.OJsonObject {
 		transactionOJ.Put("contractCode", bytesFromStringToOJ(tx.Code))
 	}
 	transactionOJ.Put("gasPrice", uint64ToOJ(tx.GasPrice))
-	transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
+	if len(tx.From.Value) > 0 {
+		transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
+	}
 
 	return transactionOJ
 }
-- 
2.43.0


From f82c5ce8fd1a239207a0c342a00a8bd4649aafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 32/70] fix: write all token fields and expectations of
 scenarios

---
 mandos-go/json/write/writeAccount.go   |  2 +-
 mandos-go/json/write/writeESDT.go      | 15 ++++++++++++--
 mandos-go/json/write/writeESDTCheck.go | 27 ++++++++++++++++----------
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 1afa6a4..1c1a91a 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -59,7 +59,7 @@ func checkAccountsToOJ(checkAccounts *mj.CheckAccounts) oj.OJsonObject {
 		if checkAccount.IgnoreESDT {
 			acctOJ.Put("esdt", stringToOJ("*"))
 		} else {
-			if len(checkAccount.CheckESDTData) > 0 {
+			if len(checkAccount.CheckESDTData) > 0 || checkAccount.MoreESDTTokensAllowed {
 				acctOJ.Put("esdt", checkESDTDataToOJ(
 					checkAccount.CheckESDTData, checkAccount.MoreESDTTokensAllowed))
 			}
diff --git a/mandos-go/json/write/writeESDT.go b/mandos-go/json/write/writeESDT.go
index 76c609b..c923578 100644
--- a/mandos-go/json/write/writeESDT.go
+++ b/mandos-go/json/write/writeESDT.go
@@ -37,7 +37,9 @@ func esdtItemToOJ(esdtItem *mj.ESDTData) oj.OJsonObject {
 	// instances
 	if len(esdtItem.Instances) == 1 {
 		appendESDTInstanceToOJ(esdtItem.Instances[0], esdtItemOJ)
-	} else {
+	}
+	if esdtItemOJ.Size() == 0 {
+		// several instances, or a single one with nothing specified
 		var convertedList []oj.OJsonObject
 		for _, esdtInstance := range esdtItem.Instances {
 			esdtInstanceOJ := oj.NewMap()
@@ -105,5 +107,14 @@ func isCompactESDT(esdtItem *mj.ESDTData) bool {
 	if len(esdtItem.Frozen.Original) > 0 {
 		return false
 	}
-	return true
+	if len(esdtItem.LastNonce.Original) > 0 {
+		return false
+	}
+
+	// no field other than the balance
+	instance := *esdtItem.Instances[0]
+	instance.Balance = mj.JSONBigInt{}
+	instanceOJ := oj.NewMap()
+	appendESDTInstanceToOJ(&instance, instanceOJ)
+	return instanceOJ.Size() == 0 && len(esdtItem.Instances[0].Balance.Original) > 0
 }
diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 6ce84de..b0e960f 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -26,7 +26,9 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 	// instances
 	if len(esdtItem.Instances) == 1 {
 		appendCheckESDTInstanceToOJ(esdtItem.Instances[0], esdtItemOJ)
-	} else {
+	}
+	if esdtItemOJ.Size() == 0 {
+		// several instances, or a single one with nothing specified
 		var convertedList []oj.OJsonObject
 		for _, esdtInstance := range esdtItem.Instances {
 			esdtInstanceOJ := oj.NewMap()
@@ -58,25 +60,25 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 }
 
 func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *oj.OJsonMap) {
-	if len(esdtInstance.Nonce.Original) > 0 {
+	if !esdtInstance.Nonce.Unspecified {
 		targetOj.Put("nonce", checkUint64ToOJ(esdtInstance.Nonce))
 	}
-	if len(esdtInstance.Balance.Original) > 0 {
+	if !esdtInstance.Balance.Unspecified {
 		targetOj.Put("balance", checkBigIntToOJ(esdtInstance.Balance))
 	}
-	if !esdtInstance.Creator.Unspecified && len(esdtInstance.Creator.Value) > 0 {
+	if !esdtInstance.Creator.Unspecified {
 		targetOj.Put("creator", checkBytesToOJ(esdtInstance.Creator))
 	}
-	if !esdtInstance.Royalties.Unspecified && len(esdtInstance.Royalties.Original) > 0 {
+	if !esdtInstance.Royalties.Unspecified {
 		targetOj.Put("royalties", checkUint64ToOJ(esdtInstance.Royalties))
 	}
-	if !esdtInstance.Hash.Unspecified && len(esdtInstance.Hash.Value) > 0 {
+	if !esdtInstance.Hash.Unspecified {
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
-	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
-		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Creator))
+	if !esdtInstance.Uri.Unspecified {
+		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
-	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
+	if !esdtInstance.Attributes.Unspecified {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
 	}
 }
@@ -94,5 +96,10 @@ func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	if len(esdtItem.Frozen.Original) > 0 {
 		return false
 	}
-	return true
+	if len(esdtItem.LastNonce.Original) > 0 {
+		return false
+	}
+
+	// in the compact form the other fields have no original
+	return esdtItem.Instances[0].Creator.Original == nil
 }
-- 
2.43.0


From 0051d83b7e37988c72bd9b1689dfad7d9777d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 33/70] fix: show strings that contain the concatenation
 operator in hex

---
 mandos-go/expression/reconstructor/reconstructor.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index d9f1fed..20f78d5 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -40,7 +40,7 @@ func (er *ExprReconstructor) Reconstruct(value []byte, hint ExprReconstructorHin
 	case NumberHint:
 		return fmt.Sprintf("%d", big.NewInt(0).SetBytes(value))
 	case StrHint:
-		return fmt.Sprintf("str:%s", string(value))
+		return stringPretty(value)
 	case AddressHint:
 		return addressPretty(value)
 	case CodeHint:
@@ -78,6 +78,15 @@ func unknownByteArrayPretty(bytes []byte) string {
 	return fmt.Sprintf("0x%s (str:%s)", hex.EncodeToString(bytes), strconv.Quote(string(bytes)))
 }
 
+func stringPretty(value []byte) string {
+	// the concatenation operator would not be read back as part of the string
+	if bytes.IndexByte(value, '|') >= 0 {
+		return fmt.Sprintf("0x%s", hex.EncodeToString(value))
+	}
+
+	return fmt.Sprintf("str:%s", string(value))
+}
+
 func addressPretty(value []byte) string {
 	if len(value) != 32 {
 		return unknownByteArrayPretty(value)
-- 
2.43.0


From e5cb2c79c9d3ebe633e11760a6216f1faa1b5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:44 +0000
Subject: [PATCH 34/70] fix: show the sign of negative numbers

---
 mandos-go/expression/reconstructor/reconstructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index 20f78d5..ed8a196 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -51,7 +51,7 @@ func (er *ExprReconstructor) Reconstruct(value []byte, hint ExprReconstructorHin
 }
 
 func (er *ExprReconstructor) ReconstructFromBigInt(value *big.Int) string {
-	return er.Reconstruct(value.Bytes(), NumberHint)
+	return value.String()
 }
 
 func (er *ExprReconstructor) ReconstructFromUint64(value uint64) string {
-- 
2.43.0


From 41e868c422a9fb3e223c5e9af4bdf19652da1e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 35/70] fix: allow the tokens covered by "+" in checkState

---
 arwenmandos/stepCheckAccounts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index b637ecd..e3ba585 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -181,6 +181,10 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 		expectedToken := expectedTokens[tokenName]
 		accountToken := accountTokens[tokenName]
 		if expectedToken == nil {
+			if expectedAcct.MoreESDTTokensAllowed {
+				// if `"+": ""` was written in the test, any unspecified tokens are allowed
+				continue
+			}
 			expectedToken = &mj.CheckESDTData{
 				TokenIdentifier: mj.JSONBytesFromString{
 					Value:    []byte(tokenName),
-- 
2.43.0


From 72494e19c25d01b09a4713104bad00e3081aa515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 36/70] fix: check the owner of accounts in checkState

---
 arwenmandos/stepCheckAccounts.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index e3ba585..8907ce3 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -82,6 +82,17 @@ func (ae *ArwenTestExecutor) checkAccounts(checkAccounts *mj.CheckAccounts) erro
 					er.CodeHint))
 		}
 
+		// currently ignoring owner that is unspecified in the json
+		if !expectedAcct.Owner.IsUnspecified() &&
+			!expectedAcct.Owner.Check(matchingAcct.OwnerAddress) {
+			return fmt.Errorf("bad account owner. Account: %s. Want: %s. Have: \"%s\"",
+				expectedAcct.Address.Original,
+				oj.JSONString(expectedAcct.Owner.Original),
+				ae.exprReconstructor.Reconstruct(
+					matchingAcct.OwnerAddress,
+					er.AddressHint))
+		}
+
 		// currently ignoring asyncCallData that is unspecified in the json
 		if !expectedAcct.AsyncCallData.IsUnspecified() &&
 			!expectedAcct.AsyncCallData.Check([]byte(matchingAcct.AsyncCallData)) {
-- 
2.43.0


From 82c821e26f05428a9f16949038abc12f18474e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 37/70] fix: check the frozen flag of tokens in checkState

---
 arwenmandos/stepCheckAccounts.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 8907ce3..97d7304 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -11,6 +11,7 @@ import (
 	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
 	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
 	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
 )
 
@@ -255,9 +256,28 @@ func (ae *ArwenTestExecutor) checkTokenState(
 
 	errors = append(errors, checkTokenRoles(accountAddress, tokenName, expectedToken, accountToken)...)
 
+	// currently ignoring frozen flag that is unspecified in the json
+	frozenSpecified := len(expectedToken.Frozen.Original) > 0
+	if frozenSpecified && !expectedToken.Frozen.CheckBool(isTokenFrozen(accountToken)) {
+		errors = append(errors, fmt.Errorf("bad account ESDT frozen flag. Account: %s. Token: %s. Want: \"%s\". Have: %t",
+			accountAddress,
+			tokenName,
+			expectedToken.Frozen.Original,
+			isTokenFrozen(accountToken)))
+	}
+
 	return errors
 }
 
+func isTokenFrozen(accountToken *worldmock.MockESDTData) bool {
+	for _, instance := range accountToken.Instances {
+		if builtInFunctions.ESDTUserMetadataFromBytes(instance.Properties).Frozen {
+			return true
+		}
+	}
+	return false
+}
+
 func (ae *ArwenTestExecutor) checkTokenInstances(
 	accountAddress string,
 	tokenName string,
-- 
2.43.0


From 24021a280635904d0f439286e82d09cf243ef885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 38/70] fix: accept token instances without balance in setState

---
 arwenmandos/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index f024805..67165f1 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -52,6 +52,9 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			tokenNonce := instance.Nonce.Value
 			tokenKey := worldmock.MakeTokenKey(tokenName, tokenNonce)
 			tokenBalance := instance.Balance.Value
+			if tokenBalance == nil {
+				tokenBalance = big.NewInt(0)
+			}
 			tokenData := &esdt.ESDigitalToken{
 				Value:      tokenBalance,
 				Type:       uint32(vmcommon.Fungible),
-- 
2.43.0


From 361e455acbf52b67b03dcc968a4c782b3e84299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 39/70] fix: set the last nonce of tokens without instances

---
 arwenmandos/util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index 67165f1..e50c8f7 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -73,12 +73,12 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			if err != nil {
 				return nil, err
 			}
-			err = account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
-			if err != nil {
-				return nil, err
-			}
 		}
-		err := account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
+		err := account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
+		if err != nil {
+			return nil, err
+		}
+		err = account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5343cb22d8567762781a15aa103ceb2d29b9bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 40/70] fix: report builtin function calls that involve missing
 accounts

---
 mock/world/builtinFunctionsWrapper.go | 16 +++++++++++-----
 mock/world/mockESDT.go                | 13 +++++++++++++
 mock/world/worldDef.go                |  6 ++----
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/mock/world/builtinFunctionsWrapper.go b/mock/world/builtinFunctionsWrapper.go
index 0d87502..25072e6 100644
--- a/mock/world/builtinFunctionsWrapper.go
+++ b/mock/world/builtinFunctionsWrapper.go
@@ -64,8 +64,14 @@ func NewBuiltinFunctionsWrapper(
 // ProcessBuiltInFunction delegates the execution of a real builtin function to
 // the inner BuiltInFunctionContainer.
 func (bf *BuiltinFunctionsWrapper) ProcessBuiltInFunction(input *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
-	caller := bf.getAccountSharded(input.CallerAddr)
-	recipient := bf.getAccountSharded(input.RecipientAddr)
+	caller, err := bf.getAccountSharded(input.CallerAddr)
+	if err != nil {
+		return nil, err
+	}
+	recipient, err := bf.getAccountSharded(input.RecipientAddr)
+	if err != nil {
+		return nil, err
+	}
 
 	function, err := bf.Container.Get(input.Function)
 	if err != nil {
@@ -81,10 +87,10 @@ func (bf *BuiltinFunctionsWrapper) GetBuiltinFunctionNames() vmcommon.FunctionNa
 }
 
 // TODO change AccountMap to support this instead
-func (bf *BuiltinFunctionsWrapper) getAccountSharded(address []byte) vmcommon.UserAccountHandler {
+func (bf *BuiltinFunctionsWrapper) getAccountSharded(address []byte) (vmcommon.UserAccountHandler, error) {
 	accountShard := bf.World.ComputeId(address)
 	if accountShard != bf.World.SelfId() {
-		return nil
+		return nil, nil
 	}
-	return bf.World.AcctMap.GetAccount(address)
+	return bf.World.GetUserAccount(address)
 }
diff --git a/mock/world/mockESDT.go b/mock/world/mockESDT.go
index faa376a..96e052a 100644
--- a/mock/world/mockESDT.go
+++ b/mock/world/mockESDT.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math/big"
 
+	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
 	"github.com/ElrondNetwork/elrond-vm-common"
 	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
 )
@@ -21,6 +22,9 @@ var ESDTNonceKeyPrefix = []byte(vmcommon.ElrondProtectedKeyPrefix + vmcommon.ESD
 // key (token keys are built from the token identifier using MakeTokenKey).
 func (bf *BuiltinFunctionsWrapper) GetTokenBalance(address []byte, tokenKey []byte) (*big.Int, error) {
 	account := bf.World.AcctMap.GetAccount(address)
+	if account == nil {
+		return nil, arwen.ErrInvalidAccount
+	}
 	return account.GetTokenBalance(tokenKey)
 }
 
@@ -28,6 +32,9 @@ func (bf *BuiltinFunctionsWrapper) GetTokenBalance(address []byte, tokenKey []by
 // key (token keys are built from the token identifier using MakeTokenKey).
 func (bf *BuiltinFunctionsWrapper) SetTokenBalance(address []byte, tokenKey []byte, balance *big.Int) error {
 	account := bf.World.AcctMap.GetAccount(address)
+	if account == nil {
+		return arwen.ErrInvalidAccount
+	}
 	return account.SetTokenBalance(tokenKey, balance)
 }
 
@@ -35,6 +42,9 @@ func (bf *BuiltinFunctionsWrapper) SetTokenBalance(address []byte, tokenKey []by
 // (token keys are built from the token identifier using MakeTokenKey).
 func (bf *BuiltinFunctionsWrapper) GetTokenData(address []byte, tokenKey []byte) (*esdt.ESDigitalToken, error) {
 	account := bf.World.AcctMap.GetAccount(address)
+	if account == nil {
+		return nil, arwen.ErrInvalidAccount
+	}
 	return account.GetTokenData(tokenKey)
 }
 
@@ -42,6 +52,9 @@ func (bf *BuiltinFunctionsWrapper) GetTokenData(address []byte, tokenKey []byte)
 // (token keys are built from the token identifier using MakeTokenKey).
 func (bf *BuiltinFunctionsWrapper) SetTokenData(address []byte, tokenKey []byte, tokenData *esdt.ESDigitalToken) error {
 	account := bf.World.AcctMap.GetAccount(address)
+	if account == nil {
+		return arwen.ErrInvalidAccount
+	}
 	return account.SetTokenData(tokenKey, tokenData)
 }
 
diff --git a/mock/world/worldDef.go b/mock/world/worldDef.go
index dd0ecc5..c45809c 100644
--- a/mock/world/worldDef.go
+++ b/mock/world/worldDef.go
@@ -103,7 +103,7 @@ func (b *MockWorld) NumberOfShards() uint32 {
 
 // ComputeId -
 func (b *MockWorld) ComputeId(address []byte) uint32 {
-	return b.AcctMap.GetAccount(address).ShardID
+	return b.GetShardOfAddress(address)
 }
 
 // SelfId -
@@ -113,9 +113,7 @@ func (b *MockWorld) SelfId() uint32 {
 
 // SameShard -
 func (b *MockWorld) SameShard(firstAddress []byte, secondAddress []byte) bool {
-	firstAccount := b.AcctMap.GetAccount(firstAddress)
-	secondAccount := b.AcctMap.GetAccount(secondAddress)
-	return firstAccount.ShardID == secondAccount.ShardID
+	return b.GetShardOfAddress(firstAddress) == b.GetShardOfAddress(secondAddress)
 }
 
 // CommunicationIdentifier -
-- 
2.43.0


From 5f2d5dd89619e651d7e984685fca78e4fdb382aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 41/70] fix: keep the gas checking mode of the scenario after
 its external steps

---
 arwenmandos/execScenario.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index ef118d9..62eab1f 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -63,6 +63,7 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	fileResolverBackup := ae.fileResolver
+	checkGasBackup := ae.checkGas
 	clonedFileResolver := ae.fileResolver.Clone()
 	externalStepsRunner := mc.NewScenarioRunner(ae, clonedFileResolver)
 
@@ -73,6 +74,7 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	ae.fileResolver = fileResolverBackup
+	ae.checkGas = checkGasBackup
 
 	return nil
 }
-- 
2.43.0


From 97259bcc0d14dfd64ac646737af65e1bb2209c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 42/70] fix: keep the snapshot that the accounts are reverted
 to

---
 mock/world/worldAccountMap.go      | 4 ++--
 mock/world/worldAccountsAdapter.go | 3 ++-
 mock/world/worldUpdate.go          | 7 ++++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/mock/world/worldAccountMap.go b/mock/world/worldAccountMap.go
index ce386d3..44b0896 100644
--- a/mock/world/worldAccountMap.go
+++ b/mock/world/worldAccountMap.go
@@ -84,7 +84,7 @@ func (am AccountMap) Clone() AccountMap {
 }
 
 // LoadAccountStorageFrom reassigns the storage of the accounts to the storage
-// of the accounts found in otherAM; it only does a reference change, not a deep copy.
+// of the accounts found in otherAM; it copies the storage, so that otherAM remains usable.
 func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 	for address, account := range am {
 		otherAccount, otherExists := otherAM[address]
@@ -93,7 +93,7 @@ func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 				"account %s could not be loaded from AccountMap",
 				hex.EncodeToString([]byte(address)))
 		}
-		account.Storage = otherAccount.Storage
+		account.Storage = otherAccount.cloneStorage()
 	}
 
 	return nil
diff --git a/mock/world/worldAccountsAdapter.go b/mock/world/worldAccountsAdapter.go
index 28a4920..e3774fb 100644
--- a/mock/world/worldAccountsAdapter.go
+++ b/mock/world/worldAccountsAdapter.go
@@ -91,7 +91,8 @@ func (m *MockAccountsAdapter) RevertToSnapshot(snapshotIndex int) error {
 	}
 
 	snapshot := m.Snapshots[snapshotIndex]
-	m.Snapshots = m.Snapshots[:snapshotIndex]
+	// the snapshot itself remains valid, only the ones taken after it are dropped
+	m.Snapshots = m.Snapshots[:snapshotIndex+1]
 
 	// TODO should probably set BalanceDelta of all accounts to 0 as well?
 	return m.World.AcctMap.LoadAccountStorageFrom(snapshot)
diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index 7493a76..4760b64 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -111,5 +111,10 @@ func (b *MockWorld) CommitChanges() error {
 
 // RollbackChanges should be called after the VM test has run, if the tx has failed
 func (b *MockWorld) RollbackChanges() error {
-	return b.AccountsAdapter.RevertToSnapshot(0)
+	err := b.AccountsAdapter.RevertToSnapshot(0)
+	if err != nil {
+		return err
+	}
+
+	return b.CommitChanges()
 }
-- 
2.43.0


From f9f3fcf8b277bf85993555bc11df6c92b329eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 43/70] fix: revert to snapshots older than the creation of an
 account

---
 mock/world/worldAccountMap.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mock/world/worldAccountMap.go b/mock/world/worldAccountMap.go
index 44b0896..3af3dcc 100644
--- a/mock/world/worldAccountMap.go
+++ b/mock/world/worldAccountMap.go
@@ -1,8 +1,6 @@
 package worldmock
 
 import (
-	"encoding/hex"
-	"fmt"
 	"math/big"
 
 	"github.com/ElrondNetwork/elrond-vm-common"
@@ -85,13 +83,14 @@ func (am AccountMap) Clone() AccountMap {
 
 // LoadAccountStorageFrom reassigns the storage of the accounts to the storage
 // of the accounts found in otherAM; it copies the storage, so that otherAM remains usable.
+// Accounts missing from otherAM are removed.
 func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 	for address, account := range am {
 		otherAccount, otherExists := otherAM[address]
 		if !otherExists {
-			return fmt.Errorf(
-				"account %s could not be loaded from AccountMap",
-				hex.EncodeToString([]byte(address)))
+			// the account was created after otherAM had been cloned
+			am.DeleteAccount([]byte(address))
+			continue
 		}
 		account.Storage = otherAccount.cloneStorage()
 	}
-- 
2.43.0


From b2db23d4e33344dfd2e1d9f401580927dfe1a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 44/70] fix: do not modify the balances given by the users of
 the world mock

---
 mock/world/worldUpdate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index 4760b64..e545a46 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -44,7 +44,7 @@ func (b *MockWorld) UpdateWorldStateBefore(
 	if acct.Balance.Cmp(gasPayment) < 0 {
 		return errors.New("not enough balance to pay gas upfront")
 	}
-	acct.Balance.Sub(acct.Balance, gasPayment)
+	acct.Balance = big.NewInt(0).Sub(acct.Balance, gasPayment)
 	return nil
 }
 
-- 
2.43.0


From 4632ad492f4b6639a96964171c7fcd23d6072268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 45/70] fix: no panic on blocks without random seed

---
 mock/world/worldCallbacks.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mock/world/worldCallbacks.go b/mock/world/worldCallbacks.go
index da08932..e13849e 100644
--- a/mock/world/worldCallbacks.go
+++ b/mock/world/worldCallbacks.go
@@ -100,7 +100,7 @@ func (b *MockWorld) LastTimeStamp() uint64 {
 
 // LastRandomSeed returns the random seed from the last committed block
 func (b *MockWorld) LastRandomSeed() []byte {
-	if b.PreviousBlockInfo == nil {
+	if b.PreviousBlockInfo == nil || b.PreviousBlockInfo.RandomSeed == nil {
 		return nil
 	}
 	return b.PreviousBlockInfo.RandomSeed[:]
@@ -145,7 +145,7 @@ func (b *MockWorld) CurrentTimeStamp() uint64 {
 
 // CurrentRandomSeed returns the random seed from the current header
 func (b *MockWorld) CurrentRandomSeed() []byte {
-	if b.CurrentBlockInfo == nil {
+	if b.CurrentBlockInfo == nil || b.CurrentBlockInfo.RandomSeed == nil {
 		return nil
 	}
 	return b.CurrentBlockInfo.RandomSeed[:]
-- 
2.43.0


From 492d32571dc4994ae4ea979df60ee46bb538561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 46/70] fix: roll back transactions whose token transfer or
 state update fails

---
 arwenmandos/stepRunTx.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arwenmandos/stepRunTx.go b/arwenmandos/stepRunTx.go
index 46a9f0c..dde5e80 100644
--- a/arwenmandos/stepRunTx.go
+++ b/arwenmandos/stepRunTx.go
@@ -43,12 +43,10 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 
 		gasForExecution = tx.GasLimit.Value
 		if tx.ESDTValue != nil {
-			gasRemaining, err := ae.directESDTTransferFromTx(tx)
+			gasForExecution, err = ae.directESDTTransferFromTx(tx)
 			if err != nil {
 				return nil, err
 			}
-
-			gasForExecution = gasRemaining
 		}
 	}
 
@@ -91,7 +89,7 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 	}
 
 	if output.ReturnCode == vmcommon.Ok {
-		err := ae.updateStateAfterTx(tx, output)
+		err = ae.updateStateAfterTx(tx, output)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3057e43f2b1bb2c06c82db3ece58411a8ab19d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 47/70] fix: no panic on token instances without expectation

---
 arwenmandos/stepCheckAccounts.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 97d7304..ca83fbc 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -305,10 +305,8 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 		accountInstance := accountInstances[nonce]
 
 		if expectedInstance == nil {
-			expectedInstance = &mj.CheckESDTInstance{
-				Nonce:   mj.JSONCheckUint64{Value: nonce, Original: ""},
-				Balance: mj.JSONCheckBigInt{Value: big.NewInt(0), Original: ""},
-			}
+			expectedInstance = mj.NewCheckESDTInstance()
+			expectedInstance.Nonce = mj.JSONCheckUint64{Value: nonce, Original: ""}
 		} else if accountInstance == nil {
 			accountInstance = &esdt.ESDigitalToken{
 				Value: big.NewInt(0),
-- 
2.43.0


From e99c97f9e3551b322190efe6b7d2345249ba56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 48/70] fix: bring back accounts deleted after the snapshot
 that is reverted to

---
 mock/world/worldAccountMap.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mock/world/worldAccountMap.go b/mock/world/worldAccountMap.go
index 3af3dcc..e8174cf 100644
--- a/mock/world/worldAccountMap.go
+++ b/mock/world/worldAccountMap.go
@@ -83,7 +83,7 @@ func (am AccountMap) Clone() AccountMap {
 
 // LoadAccountStorageFrom reassigns the storage of the accounts to the storage
 // of the accounts found in otherAM; it copies the storage, so that otherAM remains usable.
-// Accounts missing from otherAM are removed.
+// Accounts missing from otherAM are removed, and accounts found only in otherAM are restored.
 func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 	for address, account := range am {
 		otherAccount, otherExists := otherAM[address]
@@ -95,5 +95,11 @@ func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 		account.Storage = otherAccount.cloneStorage()
 	}
 
+	for address, otherAccount := range otherAM {
+		if _, exists := am[address]; !exists {
+			am[address] = otherAccount.Clone()
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From 1713546e1a150618f727a6d4101f055c2c595976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 49/70] fix: recognise all blockchain hook calls that arrive
 from Arwen

---
 ipc/common/messages.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 3b128cf..26a2f6e 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -286,7 +286,11 @@ func CreateReplySlots(noopReplier MessageReplier) []MessageReplier {
 // IsHookCall returns whether a message is a hook call
 func IsHookCall(message MessageHandler) bool {
 	kind := message.GetKind()
-	return kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	if kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse {
+		return true
+	}
+
+	return kind >= BlockchainClearCompiledCodesRequest && kind <= BlockchainProcessBuiltInFunctionResponse
 }
 
 // IsStopRequest returns whether a message is a stop request
-- 
2.43.0


From e5d0bdc257f542238523fe741ad0d01becc98b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 50/70] fix: create the messages of gas schedule changes upon
 receiving them

---
 ipc/common/messagesFactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipc/common/messagesFactory.go b/ipc/common/messagesFactory.go
index d9f24dc..0377791 100644
--- a/ipc/common/messagesFactory.go
+++ b/ipc/common/messagesFactory.go
@@ -31,6 +31,8 @@ func init() {
 	messageCreators[DiagnoseWaitResponse] = createMessageDiagnoseWaitResponse
 	messageCreators[VersionRequest] = createMessageVersionRequest
 	messageCreators[VersionResponse] = createMessageVersionResponse
+	messageCreators[GasScheduleChangeRequest] = createMessageGasScheduleChangeRequest
+	messageCreators[GasScheduleChangeResponse] = createMessageGasScheduleChangeResponse
 
 	messageCreators[BlockchainNewAddressRequest] = createMessageBlockchainNewAddressRequest
 	messageCreators[BlockchainNewAddressResponse] = createMessageBlockchainNewAddressResponse
@@ -121,6 +123,14 @@ func createMessageDiagnoseWaitResponse() MessageHandler {
 	return &MessageDiagnoseWaitResponse{}
 }
 
+func createMessageGasScheduleChangeRequest() MessageHandler {
+	return &MessageGasScheduleChangeRequest{}
+}
+
+func createMessageGasScheduleChangeResponse() MessageHandler {
+	return &Message{}
+}
+
 func createMessageVersionRequest() MessageHandler {
 	return &MessageVersionRequest{}
 }
-- 
2.43.0


From f7ec3c53585aff192dc6a0986008d118c7c91886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 51/70] fix: return the error of reverting to a snapshot to
 Arwen

---
 ipc/arwenpart/blockchainGateway.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 035dc96..703f7f8 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -504,5 +504,5 @@ func (blockchain *BlockchainHookGateway) RevertToSnapshot(snapshot int) error {
 		return common.ErrBadHookResponseFromNode
 	}
 
-	return err
+	return rawResponse.GetError()
 }
-- 
2.43.0


From fca5d1745329b81afaf2c1678e750f9458d5523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 52/70] fix: keep percent signs in the errors of messages

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 26a2f6e..1dc3431 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -209,7 +210,7 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return fmt.Errorf(message.ErrorMessage)
+	return errors.New(message.ErrorMessage)
 }
 
 // SetError sets the error within the message
-- 
2.43.0


From 8ec56664748470011c41f8cb72221b6e9a602722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 53/70] fix: refuse messages whose kind is not the announced
 one

---
 ipc/common/errors.go   | 3 +++
 ipc/common/receiver.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipc/common/errors.go b/ipc/common/errors.go
index 0f0c315..5b9a07b 100644
--- a/ipc/common/errors.go
+++ b/ipc/common/errors.go
@@ -44,6 +44,9 @@ var ErrArwenNotFound = &CriticalError{InnerErr: fmt.Errorf("arwen binary not fou
 // ErrInvalidMessageNonce signals a critical error
 var ErrInvalidMessageNonce = &CriticalError{InnerErr: fmt.Errorf("invalid dialogue nonce")}
 
+// ErrInvalidMessageKind signals a critical error
+var ErrInvalidMessageKind = &CriticalError{InnerErr: fmt.Errorf("invalid message kind")}
+
 // ErrStopPerNodeRequest signals a critical error
 var ErrStopPerNodeRequest = &CriticalError{InnerErr: fmt.Errorf("arwen will stop, as requested")}
 
diff --git a/ipc/common/receiver.go b/ipc/common/receiver.go
index f3e9329..06c3665 100644
--- a/ipc/common/receiver.go
+++ b/ipc/common/receiver.go
@@ -81,6 +81,9 @@ func (receiver *Receiver) readMessage(kind MessageKind, length int) (MessageHand
 	if err != nil {
 		return nil, err
 	}
+	if kind >= LastKind || message.GetKind() != kind {
+		return nil, ErrInvalidMessageKind
+	}
 
 	return message, nil
 }
-- 
2.43.0


From d89738fa062859b1192dbee9c5e86c4f24aac493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 54/70] fix: bound the arguments and topics a contract
 announces by its memory

---
 arwen/elrondapi/elrondei.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 19de40b..c33ab45 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2008,6 +2008,11 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 		return
 	}
 
+	err = checkElementsFitInMemory(runtime, numTopics, arwen.HashLen)
+	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
+		return
+	}
+
 	topics, err := arwen.GuardedMakeByteSlice2D(numTopics)
 	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return
@@ -2986,6 +2991,11 @@ func getArgumentsFromMemory(
 		return nil, 0, fmt.Errorf("negative numArguments (%d)", numArguments)
 	}
 
+	err := checkElementsFitInMemory(runtime, numArguments, 4)
+	if err != nil {
+		return nil, 0, err
+	}
+
 	argumentsLengthData, err := runtime.MemLoad(argumentsLengthOffset, numArguments*4)
 	if err != nil {
 		return nil, 0, err
@@ -3005,6 +3015,18 @@ func getArgumentsFromMemory(
 	return data, totalArgumentBytes, nil
 }
 
+// checkElementsFitInMemory returns an error if the given number of elements
+// could not be stored in the memory of the contract; this must be checked
+// before allocating space for the elements.
+func checkElementsFitInMemory(runtime arwen.RuntimeContext, numElements int32, elementSize int32) error {
+	memoryLength := runtime.GetInstance().GetInstanceCtxMemory().Length()
+	if int64(numElements)*int64(elementSize) > int64(memoryLength) {
+		return fmt.Errorf("%d elements of %d bytes: %w", numElements, elementSize, arwen.ErrBadBounds)
+	}
+
+	return nil
+}
+
 func createInt32Array(rawData []byte, numIntegers int32) []int32 {
 	integers := make([]int32, numIntegers)
 	index := 0
-- 
2.43.0


From a1482731574a717f440ff22fc4d1dfe7419f425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 55/70] fix: refuse to load more than the contract's memory
 holds

---
 arwen/contexts/runtime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 89a0bde..68bf5ab 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -864,6 +864,7 @@ func (context *runtimeContext) MemLoad(offset int32, length int32) ([]byte, erro
 	isOffsetTooLarge := uint32(offset) > memoryLength
 	isRequestedEndTooLarge := uint32(requestedEnd) > memoryLength
 	isLengthNegative := length < 0
+	isLengthTooLarge := uint32(length) > memoryLength
 
 	if isOffsetTooSmall || isOffsetTooLarge {
 		return nil, fmt.Errorf("mem load: %w", arwen.ErrBadBounds)
@@ -871,6 +872,9 @@ func (context *runtimeContext) MemLoad(offset int32, length int32) ([]byte, erro
 	if isLengthNegative {
 		return nil, fmt.Errorf("mem load: %w", arwen.ErrNegativeLength)
 	}
+	if isLengthTooLarge {
+		return nil, fmt.Errorf("mem load: %w", arwen.ErrBadBounds)
+	}
 
 	result := make([]byte, length)
 	if isRequestedEndTooLarge {
-- 
2.43.0


From f44e293e98c4828a325aa04d67904aa70dad31f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 56/70] fix: write the token's name for getCallValueTokenName

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index c33ab45..92a2569 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1972,7 +1972,7 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 	esdtTransfer := getFirstESDTTransferIfExist(runtime.GetVMInput())
 
 	if len(esdtTransfer.ESDTTokenName) > 0 {
-		tokenName = make([]byte, 0, len(esdtTransfer.ESDTTokenName))
+		tokenName = make([]byte, len(esdtTransfer.ESDTTokenName))
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
-- 
2.43.0


From 51e9f82e765d97ed8d4cc1c174ec9f39dbdf445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 57/70] fix: undo logs and transfers of a token transfer whose
 call failed

---
 arwen/elrondapi/elrondei.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 92a2569..99cbb02 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1245,8 +1245,12 @@ func TransferESDTNFTExecuteWithTypedArgs(
 	}
 
 	snapshotBeforeTransfer := host.Blockchain().GetSnapshot()
+	output.PushState()
 
 	gasLimitForExec, executeErr := output.TransferESDT(dest, sender, esdtTokenName, uint64(nonce), esdtValue, contractCallInput)
+	if executeErr != nil {
+		output.PopSetActiveState()
+	}
 	if arwen.WithFaultAndHost(host, executeErr, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
@@ -1258,12 +1262,12 @@ func TransferESDTNFTExecuteWithTypedArgs(
 		if executeErr != nil {
 			logEEI.Trace("ESDT post-transfer execution failed", "error", executeErr)
 			host.Blockchain().RevertToSnapshot(snapshotBeforeTransfer)
+			output.PopSetActiveState()
 			return 1
 		}
-
-		return 0
 	}
 
+	output.PopDiscard()
 	return 0
 }
 
-- 
2.43.0


From 3a0e84262f02bb44dce914aa3c6ed389521e56d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 58/70] fix: undo the output of a failed call through a
 built-in function

---
 arwen/host/execution.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 9df0988..458ec6b 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -228,6 +228,18 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 	blockchain.PushState()
 
 	if host.IsBuiltinFunctionName(input.Function) {
+		// The transfers and the logs of the built-in function must not outlive
+		// the failure of the execution that follows it.
+		output := host.Output()
+		output.PushState()
+		defer func() {
+			if err != nil {
+				output.PopSetActiveState()
+			} else {
+				output.PopDiscard()
+			}
+		}()
+
 		scExecutionInput, vmOutput, err = host.handleBuiltinFunctionCall(input)
 		if err != nil {
 			blockchain.PopSetActiveState()
-- 
2.43.0


From 81e8277f2ade0030728642950251e5cbf54dca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 59/70] fix: transfer tokens without calling an empty function

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 99cbb02..cad3339 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1215,7 +1215,7 @@ func TransferESDTNFTExecuteWithTypedArgs(
 	sender := runtime.GetSCAddress()
 
 	var contractCallInput *vmcommon.ContractCallInput
-	if function != nil {
+	if len(function) > 0 {
 		contractCallInput, executeErr = prepareIndirectContractCallInput(
 			host,
 			sender,
-- 
2.43.0


From d6f5c2798e0de8f02b18306d4f7a3318ff5fabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 60/70] fix: record the receiver of an NFT transfer to another
 shard

---
 arwen/host/execution.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 458ec6b..ec39db4 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -767,9 +767,6 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 	if output.ReturnCode != vmcommon.Ok {
 		return
 	}
-	if !host.AreInSameShard(input.RecipientAddr, input.CallerAddr) {
-		return
-	}
 	isESDTTransfer := input.Function == vmcommon.BuiltInFunctionESDTTransfer || input.Function == vmcommon.BuiltInFunctionESDTNFTTransfer
 	if !isESDTTransfer {
 		return
@@ -777,11 +774,14 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 
 	recipientAddr := input.RecipientAddr
 	if input.Function == vmcommon.BuiltInFunctionESDTNFTTransfer {
-		if len(input.Arguments) != 4 {
+		if len(input.Arguments) < 4 {
 			return
 		}
 		recipientAddr = input.Arguments[3]
 	}
+	if !host.AreInSameShard(recipientAddr, input.CallerAddr) {
+		return
+	}
 	addOutputTransferToVMOutput(input.Function, input.Arguments, input.CallerAddr, recipientAddr, input.CallType, output)
 }
 
-- 
2.43.0


From 08819853829494763e7844bf3f493ed1e6c4b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 61/70] fix: find the destination of an own NFT transfer made
 asynchronously

---
 arwen/host/asyncCall.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index 23db9d1..cc8a125 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -118,7 +118,15 @@ func (host *vmHost) determineAsyncCallExecutionMode(asyncCallInfo *arwen.AsyncCa
 		return arwen.AsyncUnknown, err
 	}
 
-	sameShard := host.AreInSameShard(runtime.GetSCAddress(), asyncCallInfo.Destination)
+	// An ESDTNFTTransfer is sent to the contract itself, and names the account
+	// that receives the token in its fourth argument.
+	destination := asyncCallInfo.Destination
+	isNFTTransfer := functionName == vmcommon.BuiltInFunctionESDTNFTTransfer && len(args) >= 4
+	if isNFTTransfer && bytes.Equal(destination, runtime.GetSCAddress()) {
+		destination = args[3]
+	}
+
+	sameShard := host.AreInSameShard(runtime.GetSCAddress(), destination)
 	if host.IsBuiltinFunctionName(functionName) {
 		if sameShard {
 			isESDTTransfer, _, _ := isESDTTransferOnReturnDataFromFunctionAndArgs(functionName, args)
-- 
2.43.0


From 82b9d909a54b935bb3e400be9b02c21954af1f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 62/70] fix: read reserved keys from the chain, where the
 protocol changes them

---
 arwen/contexts/storage.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/arwen/contexts/storage.go b/arwen/contexts/storage.go
index 72238af..9018693 100644
--- a/arwen/contexts/storage.go
+++ b/arwen/contexts/storage.go
@@ -133,17 +133,7 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 		}
 	}
 
-	// If the requested key is protected by the Elrond node, the stored value
-	// could have been changed by a built-in function in the meantime, even if
-	// contracts themselves cannot change protected values. Values stored under
-	// protected keys must always be retrieved from the node, not from the cached
-	// StorageUpdates.
-	var value []byte
-	if context.isElrondReservedKey(key) {
-		value, _ = context.blockChainHook.GetStorageData(address, key)
-	} else {
-		value = context.getStorageFromAddressUnmetered(address, key)
-	}
+	value := context.getStorageFromAddressUnmetered(address, key)
 
 	costPerByte := metering.GasSchedule().BaseOperationCost.DataCopyPerByte
 	gasToUse := math.MulUint64(costPerByte, uint64(len(value)))
@@ -156,6 +146,16 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 func (context *storageContext) getStorageFromAddressUnmetered(address []byte, key []byte) []byte {
 	var value []byte
 
+	// If the requested key is protected by the Elrond node, the stored value
+	// could have been changed by a built-in function in the meantime, even if
+	// contracts themselves cannot change protected values. Values stored under
+	// protected keys must always be retrieved from the node, not from the cached
+	// StorageUpdates.
+	if context.isElrondReservedKey(key) {
+		value, _ = context.blockChainHook.GetStorageData(address, key)
+		return value
+	}
+
 	storageUpdates := context.GetStorageUpdates(address)
 	if storageUpdate, ok := storageUpdates[string(key)]; ok {
 		value = storageUpdate.Data
-- 
2.43.0


From eeb5c26cadadd23a046ee95ba557e2a9c7cc9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 63/70] fix: keep the refund when the built-in function's
 output has none

---
 arwen/contexts/output.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 03a8d68..394f128 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -519,9 +519,10 @@ func (context *outputContext) resolveReturnCodeFromError(err error) vmcommon.Ret
 
 // AddToActiveState merges the given vmOutput with the outputState.
 func (context *outputContext) AddToActiveState(rightOutput *vmcommon.VMOutput) {
-	if rightOutput.GasRefund != nil {
-		rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
+	if rightOutput.GasRefund == nil {
+		rightOutput.GasRefund = big.NewInt(0)
 	}
+	rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
 
 	for _, rightAccount := range rightOutput.OutputAccounts {
 		leftAccount, ok := context.outputState.OutputAccounts[string(rightAccount.Address)]
-- 
2.43.0


From 6e80c9e3d8ae7acda017cb03a125cad1a8de73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 64/70] fix: refuse transfers of value in read-only calls

---
 arwen/contexts/output.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 394f128..482638f 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -268,6 +268,12 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 		return arwen.ErrTransferInsufficientFunds
 	}
 
+	hasValue := value.Cmp(arwen.Zero) > 0
+	if hasValue && context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer value", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	payable, err := context.host.Blockchain().IsPayable(destination)
 	if err != nil {
 		logOutput.Trace("transfer value", "error", err)
@@ -276,7 +282,6 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 
 	isAsyncCall := context.host.IsArwenV3Enabled() && context.host.Runtime().GetVMInput().CallType == vmcommon.AsynchronousCall
 	checkPayable = checkPayable || !context.host.IsESDTFunctionsEnabled()
-	hasValue := value.Cmp(arwen.Zero) > 0
 	if checkPayable && !payable && hasValue && !isAsyncCall {
 		logOutput.Trace("transfer value", "error", arwen.ErrAccountNotPayable)
 		return arwen.ErrAccountNotPayable
@@ -295,6 +300,11 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 // the necessary steps to create accounts and reverses the state in case of an
 // execution error or failed value transfer.
 func (context *outputContext) Transfer(destination []byte, sender []byte, gasLimit uint64, gasLocked uint64, value *big.Int, input []byte, callType vmcommon.CallType) error {
+	if context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	checkPayableIfNotCallback := gasLimit > 0 && callType != vmcommon.AsynchronousCallBack
 	err := context.TransferValueOnly(destination, sender, value, checkPayableIfNotCallback)
 	if err != nil {
-- 
2.43.0


From eadf33641a515b4a7bebe5e45829b5a4a1f473f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 65/70] fix: refuse transfers of tokens in read-only calls

---
 arwen/host/execution.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index ec39db4..ca72d0f 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -678,6 +678,11 @@ func (host *vmHost) callSCMethodIndirect() error {
 func (host *vmHost) ExecuteESDTTransfer(destination []byte, sender []byte, tokenIdentifier []byte, nonce uint64, value *big.Int, callType vmcommon.CallType) (*vmcommon.VMOutput, uint64, error) {
 	_, _, metering, _, runtime, _ := host.GetContexts()
 
+	if runtime.ReadOnly() {
+		log.Trace("ESDT transfer", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return nil, 0, arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	esdtTransferInput := &vmcommon.ContractCallInput{
 		VMInput: vmcommon.VMInput{
 			CallerAddr:  sender,
@@ -734,6 +739,11 @@ func (host *vmHost) ExecuteESDTTransfer(destination []byte, sender []byte, token
 func (host *vmHost) callBuiltinFunction(input *vmcommon.ContractCallInput) (*vmcommon.ContractCallInput, *vmcommon.VMOutput, error) {
 	metering := host.Metering()
 
+	if host.Runtime().ReadOnly() {
+		metering.UseGas(input.GasProvided)
+		return nil, nil, arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	vmOutput, err := host.Blockchain().ProcessBuiltInFunction(input)
 	if err != nil {
 		metering.UseGas(input.GasProvided)
-- 
2.43.0


From d30a4809919db69f94ce965a8012969b039ed9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 66/70] fix: give a read-only call no value

---
 arwen/elrondapi/elrondei.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index cad3339..f81f19d 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2675,11 +2675,10 @@ func ExecuteReadOnlyWithTypedArguments(
 	metering.UseGas(gasToUse)
 
 	sender := runtime.GetSCAddress()
-	value := runtime.GetVMInput().CallValue
 	contractCallInput, err := prepareIndirectContractCallInput(
 		host,
 		sender,
-		value,
+		big.NewInt(0),
 		gasLimit,
 		dest,
 		function,
-- 
2.43.0


From 54ad8eb7646c457bc66912830f7f89876ddbb84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:20 +0000
Subject: [PATCH 67/70] fix: save the state when a snapshot of the simulated
 world is taken

---
 mock/world/worldDef.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mock/world/worldDef.go b/mock/world/worldDef.go
index c45809c..235a532 100644
--- a/mock/world/worldDef.go
+++ b/mock/world/worldDef.go
@@ -121,8 +121,10 @@ func (b *MockWorld) CommunicationIdentifier(destShardID uint32) string {
 	return fmt.Sprintf("commID-dest-%d", destShardID)
 }
 
-// GetSnapshot -
+// GetSnapshot saves the current state, and returns the snapshot with which
+// RevertToSnapshot restores it.
 func (b *MockWorld) GetSnapshot() int {
+	b.CreateStateBackup()
 	return b.AccountsAdapter.JournalLen()
 }
 
-- 
2.43.0


From 687f98f734dabd4232a85aeb534a486d96eaa720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 68/70] fix: refuse instruction costs which do not fit the
 engine's cost table

The costs of WASMOpcodeCost are decoded into uint32 fields, so that a larger
cost was silently truncated: 4294967301 became 5.
---
 config/gasSchedule.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/config/gasSchedule.go b/config/gasSchedule.go
index 85a434b..c180738 100644
--- a/config/gasSchedule.go
+++ b/config/gasSchedule.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/mitchellh/mapstructure"
@@ -70,6 +71,11 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 		return nil, err
 	}
 
+	err = checkUint32Values(gasMap["WASMOpcodeCost"])
+	if err != nil {
+		return nil, err
+	}
+
 	opcodeCosts := &WASMOpcodeCost{}
 	err = mapstructure.Decode(gasMap["WASMOpcodeCost"], opcodeCosts)
 	if err != nil {
@@ -93,6 +99,17 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 	return gasCost, nil
 }
 
+// checkUint32Values refuses the costs which would be truncated by the uint32 fields of WASMOpcodeCost
+func checkUint32Values(costs map[string]uint64) error {
+	for name, value := range costs {
+		if value > math.MaxUint32 {
+			return fmt.Errorf("Gas cost for operation %s is too large: %d.", name, value)
+		}
+	}
+
+	return nil
+}
+
 func checkForZeroUint64Fields(arg interface{}) error {
 	v := reflect.ValueOf(arg)
 	for i := 0; i < v.NumField(); i++ {
-- 
2.43.0


From 6c12de6b38ff47d5b263900d67afdafaff98eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 69/70] fix: do not restart Arwen with a gas schedule it
 refuses

The driver kept a malformed gas schedule for the next start of the Arwen
process, which then ended at once: after a single restart, no transaction could
be executed anymore. The schedule is checked first, as Arwen itself does.
---
 ipc/nodepart/arwenDriver.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 32615d6..5affd86 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 	"syscall"
 
+	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 	logger "github.com/ElrondNetwork/elrond-go-logger"
@@ -243,8 +244,15 @@ func (driver *ArwenDriver) GasScheduleChange(newGasSchedule map[string]map[strin
 	driver.operationsMutex.Lock()
 	defer driver.operationsMutex.Unlock()
 
+	// Arwen would refuse it, and could not be restarted with it either
+	_, err := config.CreateGasConfig(newGasSchedule)
+	if err != nil {
+		log.Error("GasScheduleChange invalid gas schedule, remained with old one", "error", err)
+		return
+	}
+
 	driver.arwenArguments.GasSchedule = newGasSchedule
-	err := driver.RestartArwenIfNecessary()
+	err = driver.RestartArwenIfNecessary()
 	if err != nil {
 		log.Error("GasScheduleChange RestartArwenIfNecessary", "error", err)
 		return
-- 
2.43.0


From bfe52588429bf4511ed3bd3d0bbce7dea3546881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 70/70] fix: survive a failure to start the Arwen process

When the Arwen process could not be started again, the next request ended the
node: there was no process to ask whether it was still running.
---
 ipc/nodepart/arwenDriver.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 5affd86..a59e260 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -203,6 +203,11 @@ func (driver *ArwenDriver) RestartArwenIfNecessary() error {
 
 // IsClosed checks whether the Arwen process is closed
 func (driver *ArwenDriver) IsClosed() bool {
+	if driver.command.Process == nil {
+		// the process could not be started
+		return true
+	}
+
 	pid := driver.command.Process.Pid
 	process, err := os.FindProcess(pid)
 	if err != nil {
@@ -368,6 +373,10 @@ func (driver *ArwenDriver) Close() error {
 }
 
 func (driver *ArwenDriver) stopArwen() error {
+	if driver.command.Process == nil {
+		return nil
+	}
+
 	err := driver.command.Process.Kill()
 	if err != nil {
 		return err
-- 
2.43.0

