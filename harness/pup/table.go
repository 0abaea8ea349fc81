//go:build go1.21

// Code generated by puppet/gen.py; DO NOT EDIT.

package pup

// Fn is one host function.
type Fn struct {
	Name     string
	Ret      string
	Args     []string
	ArgNames []string
}

// Fns lists every host function, in the order of the puppet's dispatch table.
var Fns = []Fn{
	{"asyncCall", "void", []string{"i32", "i32", "i32", "i32"}, []string{"dstOffset", "valueOffset", "dataOffset", "length"}},
	{"bigIntAbs", "void", []string{"i32", "i32"}, []string{"destination", "op"}},
	{"bigIntAdd", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntAnd", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntCmp", "i32", []string{"i32", "i32"}, []string{"op1", "op2"}},
	{"bigIntEDiv", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntEMod", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntFinishSigned", "void", []string{"i32"}, []string{"reference"}},
	{"bigIntFinishUnsigned", "void", []string{"i32"}, []string{"reference"}},
	{"bigIntGetCallValue", "void", []string{"i32"}, []string{"destination"}},
	{"bigIntGetESDTCallValue", "void", []string{"i32"}, []string{"destination"}},
	{"bigIntGetESDTExternalBalance", "void", []string{"i32", "i32", "i32", "i64", "i32"}, []string{"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce", "result"}},
	{"bigIntGetExternalBalance", "void", []string{"i32", "i32"}, []string{"addressOffset", "result"}},
	{"bigIntGetInt64", "i64", []string{"i32"}, []string{"reference"}},
	{"bigIntGetSignedArgument", "void", []string{"i32", "i32"}, []string{"id", "destination"}},
	{"bigIntGetSignedBytes", "i32", []string{"i32", "i32"}, []string{"reference", "byteOffset"}},
	{"bigIntGetUnsignedArgument", "void", []string{"i32", "i32"}, []string{"id", "destination"}},
	{"bigIntGetUnsignedBytes", "i32", []string{"i32", "i32"}, []string{"reference", "byteOffset"}},
	{"bigIntIsInt64", "i32", []string{"i32"}, []string{"reference"}},
	{"bigIntMul", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntNeg", "void", []string{"i32", "i32"}, []string{"destination", "op"}},
	{"bigIntNew", "i32", []string{"i64"}, []string{"smallValue"}},
	{"bigIntNot", "void", []string{"i32", "i32"}, []string{"destination", "op"}},
	{"bigIntOr", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntSetInt64", "void", []string{"i32", "i64"}, []string{"destination", "value"}},
	{"bigIntSetSignedBytes", "void", []string{"i32", "i32", "i32"}, []string{"destination", "byteOffset", "byteLength"}},
	{"bigIntSetUnsignedBytes", "void", []string{"i32", "i32", "i32"}, []string{"destination", "byteOffset", "byteLength"}},
	{"bigIntShl", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op", "bits"}},
	{"bigIntShr", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op", "bits"}},
	{"bigIntSign", "i32", []string{"i32"}, []string{"op"}},
	{"bigIntSignedByteLength", "i32", []string{"i32"}, []string{"reference"}},
	{"bigIntStorageLoadUnsigned", "i32", []string{"i32", "i32", "i32"}, []string{"keyOffset", "keyLength", "destination"}},
	{"bigIntStorageStoreUnsigned", "i32", []string{"i32", "i32", "i32"}, []string{"keyOffset", "keyLength", "source"}},
	{"bigIntSub", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntTDiv", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntTMod", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"bigIntUnsignedByteLength", "i32", []string{"i32"}, []string{"reference"}},
	{"bigIntXor", "void", []string{"i32", "i32", "i32"}, []string{"destination", "op1", "op2"}},
	{"checkNoPayment", "void", []string{}, []string{}},
	{"clearStorageLock", "i32", []string{"i32", "i32"}, []string{"keyOffset", "keyLength"}},
	{"createContract", "i32", []string{"i64", "i32", "i32", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"gas", "valueOffset", "codeOffset", "codeMetadataOffset", "length", "resultOffset", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"delegateExecution", "i32", []string{"i64", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"gas", "addressOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"deployFromSourceContract", "i32", []string{"i64", "i32", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"gas", "valueOffset", "addressOffset", "codeMetadataOffset", "resultOffset", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"executeOnDestContext", "i32", []string{"i64", "i32", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"gas", "addressOffset", "valueOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"executeOnDestContextByCaller", "i32", []string{"i64", "i32", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"gas", "addressOffset", "valueOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"executeOnSameContext", "i32", []string{"i64", "i32", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"gas", "addressOffset", "valueOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"executeReadOnly", "i32", []string{"i64", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"gas", "addressOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"finish", "void", []string{"i32", "i32"}, []string{"dataOffset", "length"}},
	{"getArgument", "i32", []string{"i32", "i32"}, []string{"id", "argOffset"}},
	{"getArgumentLength", "i32", []string{"i32"}, []string{"id"}},
	{"getBlockEpoch", "i64", []string{}, []string{}},
	{"getBlockHash", "i32", []string{"i64", "i32"}, []string{"nonce", "resultOffset"}},
	{"getBlockNonce", "i64", []string{}, []string{}},
	{"getBlockRandomSeed", "void", []string{"i32"}, []string{"resultOffset"}},
	{"getBlockRound", "i64", []string{}, []string{}},
	{"getBlockTimestamp", "i64", []string{}, []string{}},
	{"getCallValue", "i32", []string{"i32"}, []string{"resultOffset"}},
	{"getCallValueTokenName", "i32", []string{"i32", "i32"}, []string{"callValueOffset", "tokenNameOffset"}},
	{"getCaller", "void", []string{"i32"}, []string{"resultOffset"}},
	{"getCurrentESDTNFTNonce", "i64", []string{"i32", "i32", "i32"}, []string{"addressOffset", "tokenIDOffset", "tokenIDLen"}},
	{"getESDTBalance", "i32", []string{"i32", "i32", "i32", "i64", "i32"}, []string{"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce", "resultOffset"}},
	{"getESDTNFTAttributeLength", "i32", []string{"i32", "i32", "i32", "i64"}, []string{"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce"}},
	{"getESDTNFTNameLength", "i32", []string{"i32", "i32", "i32", "i64"}, []string{"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce"}},
	{"getESDTNFTURILength", "i32", []string{"i32", "i32", "i32", "i64"}, []string{"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce"}},
	{"getESDTTokenData", "i32", []string{"i32", "i32", "i32", "i64", "i32", "i32", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce", "valueOffset", "propertiesOffset", "hashOffset", "nameOffset", "attributesOffset", "creatorOffset", "royaltiesOffset", "urisOffset"}},
	{"getESDTTokenName", "i32", []string{"i32"}, []string{"resultOffset"}},
	{"getESDTTokenNonce", "i64", []string{}, []string{}},
	{"getESDTTokenType", "i32", []string{}, []string{}},
	{"getESDTValue", "i32", []string{"i32"}, []string{"resultOffset"}},
	{"getExternalBalance", "void", []string{"i32", "i32"}, []string{"addressOffset", "resultOffset"}},
	{"getFunction", "i32", []string{"i32"}, []string{"functionOffset"}},
	{"getGasLeft", "i64", []string{}, []string{}},
	{"getNumArguments", "i32", []string{}, []string{}},
	{"getNumReturnData", "i32", []string{}, []string{}},
	{"getOriginalTxHash", "void", []string{"i32"}, []string{"resultOffset"}},
	{"getOwnerAddress", "void", []string{"i32"}, []string{"resultOffset"}},
	{"getPrevBlockEpoch", "i64", []string{}, []string{}},
	{"getPrevBlockNonce", "i64", []string{}, []string{}},
	{"getPrevBlockRandomSeed", "void", []string{"i32"}, []string{"resultOffset"}},
	{"getPrevBlockRound", "i64", []string{}, []string{}},
	{"getPrevBlockTimestamp", "i64", []string{}, []string{}},
	{"getReturnData", "i32", []string{"i32", "i32"}, []string{"resultID", "dataOffset"}},
	{"getReturnDataSize", "i32", []string{"i32"}, []string{"resultID"}},
	{"getSCAddress", "void", []string{"i32"}, []string{"resultOffset"}},
	{"getShardOfAddress", "i32", []string{"i32"}, []string{"addressOffset"}},
	{"getStateRootHash", "void", []string{"i32"}, []string{"resultOffset"}},
	{"getStorageLock", "i64", []string{"i32", "i32"}, []string{"keyOffset", "keyLength"}},
	{"int64finish", "void", []string{"i64"}, []string{"value"}},
	{"int64getArgument", "i64", []string{"i32"}, []string{"id"}},
	{"int64storageLoad", "i64", []string{"i32", "i32"}, []string{"keyOffset", "keyLength"}},
	{"int64storageStore", "i32", []string{"i32", "i32", "i64"}, []string{"keyOffset", "keyLength", "value"}},
	{"isSmartContract", "i32", []string{"i32"}, []string{"addressOffset"}},
	{"isStorageLocked", "i32", []string{"i32", "i32"}, []string{"keyOffset", "keyLength"}},
	{"keccak256", "i32", []string{"i32", "i32", "i32"}, []string{"dataOffset", "length", "resultOffset"}},
	{"ripemd160", "i32", []string{"i32", "i32", "i32"}, []string{"dataOffset", "length", "resultOffset"}},
	{"setStorageLock", "i32", []string{"i32", "i32", "i64"}, []string{"keyOffset", "keyLength", "lockTimestamp"}},
	{"sha256", "i32", []string{"i32", "i32", "i32"}, []string{"dataOffset", "length", "resultOffset"}},
	{"signalError", "void", []string{"i32", "i32"}, []string{"messageOffset", "messageLength"}},
	{"smallIntFinishSigned", "void", []string{"i64"}, []string{"value"}},
	{"smallIntFinishUnsigned", "void", []string{"i64"}, []string{"value"}},
	{"smallIntGetSignedArgument", "i64", []string{"i32"}, []string{"id"}},
	{"smallIntGetUnsignedArgument", "i64", []string{"i32"}, []string{"id"}},
	{"smallIntStorageLoadSigned", "i64", []string{"i32", "i32"}, []string{"keyOffset", "keyLength"}},
	{"smallIntStorageLoadUnsigned", "i64", []string{"i32", "i32"}, []string{"keyOffset", "keyLength"}},
	{"smallIntStorageStoreSigned", "i32", []string{"i32", "i32", "i64"}, []string{"keyOffset", "keyLength", "value"}},
	{"smallIntStorageStoreUnsigned", "i32", []string{"i32", "i32", "i64"}, []string{"keyOffset", "keyLength", "value"}},
	{"storageLoad", "i32", []string{"i32", "i32", "i32"}, []string{"keyOffset", "keyLength", "dataOffset"}},
	{"storageLoadFromAddress", "i32", []string{"i32", "i32", "i32", "i32"}, []string{"addressOffset", "keyOffset", "keyLength", "dataOffset"}},
	{"storageLoadLength", "i32", []string{"i32", "i32"}, []string{"keyOffset", "keyLength"}},
	{"storageStore", "i32", []string{"i32", "i32", "i32", "i32"}, []string{"keyOffset", "keyLength", "dataOffset", "dataLength"}},
	{"transferESDT", "i32", []string{"i32", "i32", "i32", "i32", "i64", "i32", "i32"}, []string{"dstOffset", "tokenIDOffset", "tokenIdLen", "valueOffset", "gasLimit", "dataOffset", "length"}},
	{"transferESDTExecute", "i32", []string{"i32", "i32", "i32", "i32", "i64", "i32", "i32", "i32", "i32", "i32"}, []string{"dstOffset", "tokenIDOffset", "tokenIdLen", "valueOffset", "gasLimit", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"transferESDTNFTExecute", "i32", []string{"i32", "i32", "i32", "i32", "i64", "i64", "i32", "i32", "i32", "i32", "i32"}, []string{"dstOffset", "tokenIDOffset", "tokenIdLen", "valueOffset", "nonce", "gasLimit", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"transferValue", "i32", []string{"i32", "i32", "i32", "i32"}, []string{"dstOffset", "valueOffset", "dataOffset", "length"}},
	{"transferValueExecute", "i32", []string{"i32", "i32", "i64", "i32", "i32", "i32", "i32", "i32"}, []string{"dstOffset", "valueOffset", "gasLimit", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"upgradeContract", "void", []string{"i32", "i64", "i32", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"dstOffset", "gas", "valueOffset", "codeOffset", "codeMetadataOffset", "length", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"upgradeFromSourceContract", "void", []string{"i32", "i64", "i32", "i32", "i32", "i32", "i32", "i32"}, []string{"dstOffset", "gas", "valueOffset", "addressOffset", "codeMetadataOffset", "numArguments", "argumentsLengthOffset", "dataOffset"}},
	{"verifyBLS", "i32", []string{"i32", "i32", "i32", "i32"}, []string{"keyOffset", "messageOffset", "messageLength", "sigOffset"}},
	{"verifyEd25519", "i32", []string{"i32", "i32", "i32", "i32"}, []string{"keyOffset", "messageOffset", "messageLength", "sigOffset"}},
	{"verifySecp256k1", "i32", []string{"i32", "i32", "i32", "i32", "i32"}, []string{"keyOffset", "keyLength", "messageOffset", "messageLength", "sigOffset"}},
	{"writeEventLog", "void", []string{"i32", "i32", "i32", "i32", "i32"}, []string{"numTopics", "topicLengthsOffset", "topicOffset", "dataOffset", "dataLength"}},
	{"writeLog", "void", []string{"i32", "i32", "i32", "i32"}, []string{"pointer", "length", "topicPtr", "numTopics"}},
}
