//go:build go1.21

package vmdiff

// scheduleNames are the entries a gas schedule must have, but for those of the instructions.
var scheduleNames = map[string]string{
	"BaseOperationCost": `StorePerByte ReleasePerByte DataCopyPerByte PersistPerByte CompilePerByte AoTPreparePerByte GetCode`,
	"ElrondAPICost": `GetSCAddress GetOwnerAddress IsSmartContract GetShardOfAddress GetExternalBalance GetBlockHash TransferValue
GetArgument GetFunction GetNumArguments StorageStore StorageLoad GetCaller GetCallValue Log Finish SignalError
GetBlockTimeStamp GetGasLeft Int64GetArgument Int64StorageStore Int64StorageLoad Int64Finish GetStateRootHash
GetBlockNonce GetBlockEpoch GetBlockRound GetBlockRandomSeed ExecuteOnSameContext ExecuteOnDestContext
DelegateExecution ExecuteReadOnly AsyncCallStep AsyncCallbackGasLock CreateContract GetReturnData
GetNumReturnData GetReturnDataSize`,
	"EthAPICost": `UseGas GetAddress GetExternalBalance GetBlockHash Call CallDataCopy GetCallDataSize CallCode CallDelegate
CallStatic StorageStore StorageLoad GetCaller GetCallValue CodeCopy GetCodeSize GetBlockCoinbase Create
GetBlockDifficulty ExternalCodeCopy GetExternalCodeSize GetGasLeft GetBlockGasLimit GetTxGasPrice Log
GetBlockNumber GetTxOrigin Finish Revert GetReturnDataSize ReturnDataCopy SelfDestruct GetBlockTimeStamp`,
	"BigIntAPICost": `BigIntNew BigIntUnsignedByteLength BigIntSignedByteLength BigIntGetUnsignedBytes BigIntGetSignedBytes
BigIntSetUnsignedBytes BigIntSetSignedBytes BigIntIsInt64 BigIntGetInt64 BigIntSetInt64 BigIntAdd BigIntSub
BigIntMul BigIntTDiv BigIntTMod BigIntEDiv BigIntEMod BigIntAbs BigIntNeg BigIntSign BigIntCmp BigIntNot
BigIntAnd BigIntOr BigIntXor BigIntShr BigIntShl BigIntFinishUnsigned BigIntFinishSigned
BigIntStorageLoadUnsigned BigIntStorageStoreUnsigned BigIntGetUnsignedArgument BigIntGetSignedArgument
BigIntGetCallValue BigIntGetExternalBalance`,
	"CryptoAPICost": `SHA256 Keccak256 Ripemd160 VerifyBLS VerifyEd25519 VerifySecp256k1`,
}
