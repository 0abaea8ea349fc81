__attribute__((import_module("env"), import_name("asyncCall"))) void h_asyncCall(int, int, int, int);
__attribute__((import_module("env"), import_name("bigIntAbs"))) void h_bigIntAbs(int, int);
__attribute__((import_module("env"), import_name("bigIntAdd"))) void h_bigIntAdd(int, int, int);
__attribute__((import_module("env"), import_name("bigIntAnd"))) void h_bigIntAnd(int, int, int);
__attribute__((import_module("env"), import_name("bigIntCmp"))) int h_bigIntCmp(int, int);
__attribute__((import_module("env"), import_name("bigIntEDiv"))) void h_bigIntEDiv(int, int, int);
__attribute__((import_module("env"), import_name("bigIntEMod"))) void h_bigIntEMod(int, int, int);
__attribute__((import_module("env"), import_name("bigIntFinishSigned"))) void h_bigIntFinishSigned(int);
__attribute__((import_module("env"), import_name("bigIntFinishUnsigned"))) void h_bigIntFinishUnsigned(int);
__attribute__((import_module("env"), import_name("bigIntGetCallValue"))) void h_bigIntGetCallValue(int);
__attribute__((import_module("env"), import_name("bigIntGetESDTCallValue"))) void h_bigIntGetESDTCallValue(int);
__attribute__((import_module("env"), import_name("bigIntGetESDTExternalBalance"))) void h_bigIntGetESDTExternalBalance(int, int, int, long long, int);
__attribute__((import_module("env"), import_name("bigIntGetExternalBalance"))) void h_bigIntGetExternalBalance(int, int);
__attribute__((import_module("env"), import_name("bigIntGetInt64"))) long long h_bigIntGetInt64(int);
__attribute__((import_module("env"), import_name("bigIntGetSignedArgument"))) void h_bigIntGetSignedArgument(int, int);
__attribute__((import_module("env"), import_name("bigIntGetSignedBytes"))) int h_bigIntGetSignedBytes(int, int);
__attribute__((import_module("env"), import_name("bigIntGetUnsignedArgument"))) void h_bigIntGetUnsignedArgument(int, int);
__attribute__((import_module("env"), import_name("bigIntGetUnsignedBytes"))) int h_bigIntGetUnsignedBytes(int, int);
__attribute__((import_module("env"), import_name("bigIntIsInt64"))) int h_bigIntIsInt64(int);
__attribute__((import_module("env"), import_name("bigIntMul"))) void h_bigIntMul(int, int, int);
__attribute__((import_module("env"), import_name("bigIntNeg"))) void h_bigIntNeg(int, int);
__attribute__((import_module("env"), import_name("bigIntNew"))) int h_bigIntNew(long long);
__attribute__((import_module("env"), import_name("bigIntNot"))) void h_bigIntNot(int, int);
__attribute__((import_module("env"), import_name("bigIntOr"))) void h_bigIntOr(int, int, int);
__attribute__((import_module("env"), import_name("bigIntSetInt64"))) void h_bigIntSetInt64(int, long long);
__attribute__((import_module("env"), import_name("bigIntSetSignedBytes"))) void h_bigIntSetSignedBytes(int, int, int);
__attribute__((import_module("env"), import_name("bigIntSetUnsignedBytes"))) void h_bigIntSetUnsignedBytes(int, int, int);
__attribute__((import_module("env"), import_name("bigIntShl"))) void h_bigIntShl(int, int, int);
__attribute__((import_module("env"), import_name("bigIntShr"))) void h_bigIntShr(int, int, int);
__attribute__((import_module("env"), import_name("bigIntSign"))) int h_bigIntSign(int);
__attribute__((import_module("env"), import_name("bigIntSignedByteLength"))) int h_bigIntSignedByteLength(int);
__attribute__((import_module("env"), import_name("bigIntStorageLoadUnsigned"))) int h_bigIntStorageLoadUnsigned(int, int, int);
__attribute__((import_module("env"), import_name("bigIntStorageStoreUnsigned"))) int h_bigIntStorageStoreUnsigned(int, int, int);
__attribute__((import_module("env"), import_name("bigIntSub"))) void h_bigIntSub(int, int, int);
__attribute__((import_module("env"), import_name("bigIntTDiv"))) void h_bigIntTDiv(int, int, int);
__attribute__((import_module("env"), import_name("bigIntTMod"))) void h_bigIntTMod(int, int, int);
__attribute__((import_module("env"), import_name("bigIntUnsignedByteLength"))) int h_bigIntUnsignedByteLength(int);
__attribute__((import_module("env"), import_name("bigIntXor"))) void h_bigIntXor(int, int, int);
__attribute__((import_module("env"), import_name("checkNoPayment"))) void h_checkNoPayment(void);
__attribute__((import_module("env"), import_name("clearStorageLock"))) int h_clearStorageLock(int, int);
__attribute__((import_module("env"), import_name("createContract"))) int h_createContract(long long, int, int, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("delegateExecution"))) int h_delegateExecution(long long, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("deployFromSourceContract"))) int h_deployFromSourceContract(long long, int, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("executeOnDestContext"))) int h_executeOnDestContext(long long, int, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("executeOnDestContextByCaller"))) int h_executeOnDestContextByCaller(long long, int, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("executeOnSameContext"))) int h_executeOnSameContext(long long, int, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("executeReadOnly"))) int h_executeReadOnly(long long, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("finish"))) void h_finish(int, int);
__attribute__((import_module("env"), import_name("getArgument"))) int h_getArgument(int, int);
__attribute__((import_module("env"), import_name("getArgumentLength"))) int h_getArgumentLength(int);
__attribute__((import_module("env"), import_name("getBlockEpoch"))) long long h_getBlockEpoch(void);
__attribute__((import_module("env"), import_name("getBlockHash"))) int h_getBlockHash(long long, int);
__attribute__((import_module("env"), import_name("getBlockNonce"))) long long h_getBlockNonce(void);
__attribute__((import_module("env"), import_name("getBlockRandomSeed"))) void h_getBlockRandomSeed(int);
__attribute__((import_module("env"), import_name("getBlockRound"))) long long h_getBlockRound(void);
__attribute__((import_module("env"), import_name("getBlockTimestamp"))) long long h_getBlockTimestamp(void);
__attribute__((import_module("env"), import_name("getCallValue"))) int h_getCallValue(int);
__attribute__((import_module("env"), import_name("getCallValueTokenName"))) int h_getCallValueTokenName(int, int);
__attribute__((import_module("env"), import_name("getCaller"))) void h_getCaller(int);
__attribute__((import_module("env"), import_name("getCurrentESDTNFTNonce"))) long long h_getCurrentESDTNFTNonce(int, int, int);
__attribute__((import_module("env"), import_name("getESDTBalance"))) int h_getESDTBalance(int, int, int, long long, int);
__attribute__((import_module("env"), import_name("getESDTNFTAttributeLength"))) int h_getESDTNFTAttributeLength(int, int, int, long long);
__attribute__((import_module("env"), import_name("getESDTNFTNameLength"))) int h_getESDTNFTNameLength(int, int, int, long long);
__attribute__((import_module("env"), import_name("getESDTNFTURILength"))) int h_getESDTNFTURILength(int, int, int, long long);
__attribute__((import_module("env"), import_name("getESDTTokenData"))) int h_getESDTTokenData(int, int, int, long long, int, int, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("getESDTTokenName"))) int h_getESDTTokenName(int);
__attribute__((import_module("env"), import_name("getESDTTokenNonce"))) long long h_getESDTTokenNonce(void);
__attribute__((import_module("env"), import_name("getESDTTokenType"))) int h_getESDTTokenType(void);
__attribute__((import_module("env"), import_name("getESDTValue"))) int h_getESDTValue(int);
__attribute__((import_module("env"), import_name("getExternalBalance"))) void h_getExternalBalance(int, int);
__attribute__((import_module("env"), import_name("getFunction"))) int h_getFunction(int);
__attribute__((import_module("env"), import_name("getGasLeft"))) long long h_getGasLeft(void);
__attribute__((import_module("env"), import_name("getNumArguments"))) int h_getNumArguments(void);
__attribute__((import_module("env"), import_name("getNumReturnData"))) int h_getNumReturnData(void);
__attribute__((import_module("env"), import_name("getOriginalTxHash"))) void h_getOriginalTxHash(int);
__attribute__((import_module("env"), import_name("getOwnerAddress"))) void h_getOwnerAddress(int);
__attribute__((import_module("env"), import_name("getPrevBlockEpoch"))) long long h_getPrevBlockEpoch(void);
__attribute__((import_module("env"), import_name("getPrevBlockNonce"))) long long h_getPrevBlockNonce(void);
__attribute__((import_module("env"), import_name("getPrevBlockRandomSeed"))) void h_getPrevBlockRandomSeed(int);
__attribute__((import_module("env"), import_name("getPrevBlockRound"))) long long h_getPrevBlockRound(void);
__attribute__((import_module("env"), import_name("getPrevBlockTimestamp"))) long long h_getPrevBlockTimestamp(void);
__attribute__((import_module("env"), import_name("getReturnData"))) int h_getReturnData(int, int);
__attribute__((import_module("env"), import_name("getReturnDataSize"))) int h_getReturnDataSize(int);
__attribute__((import_module("env"), import_name("getSCAddress"))) void h_getSCAddress(int);
__attribute__((import_module("env"), import_name("getShardOfAddress"))) int h_getShardOfAddress(int);
__attribute__((import_module("env"), import_name("getStateRootHash"))) void h_getStateRootHash(int);
__attribute__((import_module("env"), import_name("getStorageLock"))) long long h_getStorageLock(int, int);
__attribute__((import_module("env"), import_name("int64finish"))) void h_int64finish(long long);
__attribute__((import_module("env"), import_name("int64getArgument"))) long long h_int64getArgument(int);
__attribute__((import_module("env"), import_name("int64storageLoad"))) long long h_int64storageLoad(int, int);
__attribute__((import_module("env"), import_name("int64storageStore"))) int h_int64storageStore(int, int, long long);
__attribute__((import_module("env"), import_name("isSmartContract"))) int h_isSmartContract(int);
__attribute__((import_module("env"), import_name("isStorageLocked"))) int h_isStorageLocked(int, int);
__attribute__((import_module("env"), import_name("keccak256"))) int h_keccak256(int, int, int);
__attribute__((import_module("env"), import_name("ripemd160"))) int h_ripemd160(int, int, int);
__attribute__((import_module("env"), import_name("setStorageLock"))) int h_setStorageLock(int, int, long long);
__attribute__((import_module("env"), import_name("sha256"))) int h_sha256(int, int, int);
__attribute__((import_module("env"), import_name("signalError"))) void h_signalError(int, int);
__attribute__((import_module("env"), import_name("smallIntFinishSigned"))) void h_smallIntFinishSigned(long long);
__attribute__((import_module("env"), import_name("smallIntFinishUnsigned"))) void h_smallIntFinishUnsigned(long long);
__attribute__((import_module("env"), import_name("smallIntGetSignedArgument"))) long long h_smallIntGetSignedArgument(int);
__attribute__((import_module("env"), import_name("smallIntGetUnsignedArgument"))) long long h_smallIntGetUnsignedArgument(int);
__attribute__((import_module("env"), import_name("smallIntStorageLoadSigned"))) long long h_smallIntStorageLoadSigned(int, int);
__attribute__((import_module("env"), import_name("smallIntStorageLoadUnsigned"))) long long h_smallIntStorageLoadUnsigned(int, int);
__attribute__((import_module("env"), import_name("smallIntStorageStoreSigned"))) int h_smallIntStorageStoreSigned(int, int, long long);
__attribute__((import_module("env"), import_name("smallIntStorageStoreUnsigned"))) int h_smallIntStorageStoreUnsigned(int, int, long long);
__attribute__((import_module("env"), import_name("storageLoad"))) int h_storageLoad(int, int, int);
__attribute__((import_module("env"), import_name("storageLoadFromAddress"))) int h_storageLoadFromAddress(int, int, int, int);
__attribute__((import_module("env"), import_name("storageLoadLength"))) int h_storageLoadLength(int, int);
__attribute__((import_module("env"), import_name("storageStore"))) int h_storageStore(int, int, int, int);
__attribute__((import_module("env"), import_name("transferESDT"))) int h_transferESDT(int, int, int, int, long long, int, int);
__attribute__((import_module("env"), import_name("transferESDTExecute"))) int h_transferESDTExecute(int, int, int, int, long long, int, int, int, int, int);
__attribute__((import_module("env"), import_name("transferESDTNFTExecute"))) int h_transferESDTNFTExecute(int, int, int, int, long long, long long, int, int, int, int, int);
__attribute__((import_module("env"), import_name("transferValue"))) int h_transferValue(int, int, int, int);
__attribute__((import_module("env"), import_name("transferValueExecute"))) int h_transferValueExecute(int, int, long long, int, int, int, int, int);
__attribute__((import_module("env"), import_name("upgradeContract"))) void h_upgradeContract(int, long long, int, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("upgradeFromSourceContract"))) void h_upgradeFromSourceContract(int, long long, int, int, int, int, int, int);
__attribute__((import_module("env"), import_name("verifyBLS"))) int h_verifyBLS(int, int, int, int);
__attribute__((import_module("env"), import_name("verifyEd25519"))) int h_verifyEd25519(int, int, int, int);
__attribute__((import_module("env"), import_name("verifySecp256k1"))) int h_verifySecp256k1(int, int, int, int, int);
__attribute__((import_module("env"), import_name("writeEventLog"))) void h_writeEventLog(int, int, int, int, int);
__attribute__((import_module("env"), import_name("writeLog"))) void h_writeLog(int, int, int, int);
static unsigned long long dispatch(unsigned fn, long long *a) {
  switch (fn) {
    case 0: h_asyncCall((int)a[0], (int)a[1], (int)a[2], (int)a[3]); return 0;
    case 1: h_bigIntAbs((int)a[0], (int)a[1]); return 0;
    case 2: h_bigIntAdd((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 3: h_bigIntAnd((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 4: return (unsigned long long)(long long)h_bigIntCmp((int)a[0], (int)a[1]);
    case 5: h_bigIntEDiv((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 6: h_bigIntEMod((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 7: h_bigIntFinishSigned((int)a[0]); return 0;
    case 8: h_bigIntFinishUnsigned((int)a[0]); return 0;
    case 9: h_bigIntGetCallValue((int)a[0]); return 0;
    case 10: h_bigIntGetESDTCallValue((int)a[0]); return 0;
    case 11: h_bigIntGetESDTExternalBalance((int)a[0], (int)a[1], (int)a[2], (long long)a[3], (int)a[4]); return 0;
    case 12: h_bigIntGetExternalBalance((int)a[0], (int)a[1]); return 0;
    case 13: return (unsigned long long)(long long)h_bigIntGetInt64((int)a[0]);
    case 14: h_bigIntGetSignedArgument((int)a[0], (int)a[1]); return 0;
    case 15: return (unsigned long long)(long long)h_bigIntGetSignedBytes((int)a[0], (int)a[1]);
    case 16: h_bigIntGetUnsignedArgument((int)a[0], (int)a[1]); return 0;
    case 17: return (unsigned long long)(long long)h_bigIntGetUnsignedBytes((int)a[0], (int)a[1]);
    case 18: return (unsigned long long)(long long)h_bigIntIsInt64((int)a[0]);
    case 19: h_bigIntMul((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 20: h_bigIntNeg((int)a[0], (int)a[1]); return 0;
    case 21: return (unsigned long long)(long long)h_bigIntNew((long long)a[0]);
    case 22: h_bigIntNot((int)a[0], (int)a[1]); return 0;
    case 23: h_bigIntOr((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 24: h_bigIntSetInt64((int)a[0], (long long)a[1]); return 0;
    case 25: h_bigIntSetSignedBytes((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 26: h_bigIntSetUnsignedBytes((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 27: h_bigIntShl((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 28: h_bigIntShr((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 29: return (unsigned long long)(long long)h_bigIntSign((int)a[0]);
    case 30: return (unsigned long long)(long long)h_bigIntSignedByteLength((int)a[0]);
    case 31: return (unsigned long long)(long long)h_bigIntStorageLoadUnsigned((int)a[0], (int)a[1], (int)a[2]);
    case 32: return (unsigned long long)(long long)h_bigIntStorageStoreUnsigned((int)a[0], (int)a[1], (int)a[2]);
    case 33: h_bigIntSub((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 34: h_bigIntTDiv((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 35: h_bigIntTMod((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 36: return (unsigned long long)(long long)h_bigIntUnsignedByteLength((int)a[0]);
    case 37: h_bigIntXor((int)a[0], (int)a[1], (int)a[2]); return 0;
    case 38: h_checkNoPayment(); return 0;
    case 39: return (unsigned long long)(long long)h_clearStorageLock((int)a[0], (int)a[1]);
    case 40: return (unsigned long long)(long long)h_createContract((long long)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7], (int)a[8]);
    case 41: return (unsigned long long)(long long)h_delegateExecution((long long)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6]);
    case 42: return (unsigned long long)(long long)h_deployFromSourceContract((long long)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7]);
    case 43: return (unsigned long long)(long long)h_executeOnDestContext((long long)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7]);
    case 44: return (unsigned long long)(long long)h_executeOnDestContextByCaller((long long)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7]);
    case 45: return (unsigned long long)(long long)h_executeOnSameContext((long long)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7]);
    case 46: return (unsigned long long)(long long)h_executeReadOnly((long long)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6]);
    case 47: h_finish((int)a[0], (int)a[1]); return 0;
    case 48: return (unsigned long long)(long long)h_getArgument((int)a[0], (int)a[1]);
    case 49: return (unsigned long long)(long long)h_getArgumentLength((int)a[0]);
    case 50: return (unsigned long long)(long long)h_getBlockEpoch();
    case 51: return (unsigned long long)(long long)h_getBlockHash((long long)a[0], (int)a[1]);
    case 52: return (unsigned long long)(long long)h_getBlockNonce();
    case 53: h_getBlockRandomSeed((int)a[0]); return 0;
    case 54: return (unsigned long long)(long long)h_getBlockRound();
    case 55: return (unsigned long long)(long long)h_getBlockTimestamp();
    case 56: return (unsigned long long)(long long)h_getCallValue((int)a[0]);
    case 57: return (unsigned long long)(long long)h_getCallValueTokenName((int)a[0], (int)a[1]);
    case 58: h_getCaller((int)a[0]); return 0;
    case 59: return (unsigned long long)(long long)h_getCurrentESDTNFTNonce((int)a[0], (int)a[1], (int)a[2]);
    case 60: return (unsigned long long)(long long)h_getESDTBalance((int)a[0], (int)a[1], (int)a[2], (long long)a[3], (int)a[4]);
    case 61: return (unsigned long long)(long long)h_getESDTNFTAttributeLength((int)a[0], (int)a[1], (int)a[2], (long long)a[3]);
    case 62: return (unsigned long long)(long long)h_getESDTNFTNameLength((int)a[0], (int)a[1], (int)a[2], (long long)a[3]);
    case 63: return (unsigned long long)(long long)h_getESDTNFTURILength((int)a[0], (int)a[1], (int)a[2], (long long)a[3]);
    case 64: return (unsigned long long)(long long)h_getESDTTokenData((int)a[0], (int)a[1], (int)a[2], (long long)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7], (int)a[8], (int)a[9], (int)a[10], (int)a[11]);
    case 65: return (unsigned long long)(long long)h_getESDTTokenName((int)a[0]);
    case 66: return (unsigned long long)(long long)h_getESDTTokenNonce();
    case 67: return (unsigned long long)(long long)h_getESDTTokenType();
    case 68: return (unsigned long long)(long long)h_getESDTValue((int)a[0]);
    case 69: h_getExternalBalance((int)a[0], (int)a[1]); return 0;
    case 70: return (unsigned long long)(long long)h_getFunction((int)a[0]);
    case 71: return (unsigned long long)(long long)h_getGasLeft();
    case 72: return (unsigned long long)(long long)h_getNumArguments();
    case 73: return (unsigned long long)(long long)h_getNumReturnData();
    case 74: h_getOriginalTxHash((int)a[0]); return 0;
    case 75: h_getOwnerAddress((int)a[0]); return 0;
    case 76: return (unsigned long long)(long long)h_getPrevBlockEpoch();
    case 77: return (unsigned long long)(long long)h_getPrevBlockNonce();
    case 78: h_getPrevBlockRandomSeed((int)a[0]); return 0;
    case 79: return (unsigned long long)(long long)h_getPrevBlockRound();
    case 80: return (unsigned long long)(long long)h_getPrevBlockTimestamp();
    case 81: return (unsigned long long)(long long)h_getReturnData((int)a[0], (int)a[1]);
    case 82: return (unsigned long long)(long long)h_getReturnDataSize((int)a[0]);
    case 83: h_getSCAddress((int)a[0]); return 0;
    case 84: return (unsigned long long)(long long)h_getShardOfAddress((int)a[0]);
    case 85: h_getStateRootHash((int)a[0]); return 0;
    case 86: return (unsigned long long)(long long)h_getStorageLock((int)a[0], (int)a[1]);
    case 87: h_int64finish((long long)a[0]); return 0;
    case 88: return (unsigned long long)(long long)h_int64getArgument((int)a[0]);
    case 89: return (unsigned long long)(long long)h_int64storageLoad((int)a[0], (int)a[1]);
    case 90: return (unsigned long long)(long long)h_int64storageStore((int)a[0], (int)a[1], (long long)a[2]);
    case 91: return (unsigned long long)(long long)h_isSmartContract((int)a[0]);
    case 92: return (unsigned long long)(long long)h_isStorageLocked((int)a[0], (int)a[1]);
    case 93: return (unsigned long long)(long long)h_keccak256((int)a[0], (int)a[1], (int)a[2]);
    case 94: return (unsigned long long)(long long)h_ripemd160((int)a[0], (int)a[1], (int)a[2]);
    case 95: return (unsigned long long)(long long)h_setStorageLock((int)a[0], (int)a[1], (long long)a[2]);
    case 96: return (unsigned long long)(long long)h_sha256((int)a[0], (int)a[1], (int)a[2]);
    case 97: h_signalError((int)a[0], (int)a[1]); return 0;
    case 98: h_smallIntFinishSigned((long long)a[0]); return 0;
    case 99: h_smallIntFinishUnsigned((long long)a[0]); return 0;
    case 100: return (unsigned long long)(long long)h_smallIntGetSignedArgument((int)a[0]);
    case 101: return (unsigned long long)(long long)h_smallIntGetUnsignedArgument((int)a[0]);
    case 102: return (unsigned long long)(long long)h_smallIntStorageLoadSigned((int)a[0], (int)a[1]);
    case 103: return (unsigned long long)(long long)h_smallIntStorageLoadUnsigned((int)a[0], (int)a[1]);
    case 104: return (unsigned long long)(long long)h_smallIntStorageStoreSigned((int)a[0], (int)a[1], (long long)a[2]);
    case 105: return (unsigned long long)(long long)h_smallIntStorageStoreUnsigned((int)a[0], (int)a[1], (long long)a[2]);
    case 106: return (unsigned long long)(long long)h_storageLoad((int)a[0], (int)a[1], (int)a[2]);
    case 107: return (unsigned long long)(long long)h_storageLoadFromAddress((int)a[0], (int)a[1], (int)a[2], (int)a[3]);
    case 108: return (unsigned long long)(long long)h_storageLoadLength((int)a[0], (int)a[1]);
    case 109: return (unsigned long long)(long long)h_storageStore((int)a[0], (int)a[1], (int)a[2], (int)a[3]);
    case 110: return (unsigned long long)(long long)h_transferESDT((int)a[0], (int)a[1], (int)a[2], (int)a[3], (long long)a[4], (int)a[5], (int)a[6]);
    case 111: return (unsigned long long)(long long)h_transferESDTExecute((int)a[0], (int)a[1], (int)a[2], (int)a[3], (long long)a[4], (int)a[5], (int)a[6], (int)a[7], (int)a[8], (int)a[9]);
    case 112: return (unsigned long long)(long long)h_transferESDTNFTExecute((int)a[0], (int)a[1], (int)a[2], (int)a[3], (long long)a[4], (long long)a[5], (int)a[6], (int)a[7], (int)a[8], (int)a[9], (int)a[10]);
    case 113: return (unsigned long long)(long long)h_transferValue((int)a[0], (int)a[1], (int)a[2], (int)a[3]);
    case 114: return (unsigned long long)(long long)h_transferValueExecute((int)a[0], (int)a[1], (long long)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7]);
    case 115: h_upgradeContract((int)a[0], (long long)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7], (int)a[8]); return 0;
    case 116: h_upgradeFromSourceContract((int)a[0], (long long)a[1], (int)a[2], (int)a[3], (int)a[4], (int)a[5], (int)a[6], (int)a[7]); return 0;
    case 117: return (unsigned long long)(long long)h_verifyBLS((int)a[0], (int)a[1], (int)a[2], (int)a[3]);
    case 118: return (unsigned long long)(long long)h_verifyEd25519((int)a[0], (int)a[1], (int)a[2], (int)a[3]);
    case 119: return (unsigned long long)(long long)h_verifySecp256k1((int)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4]);
    case 120: h_writeEventLog((int)a[0], (int)a[1], (int)a[2], (int)a[3], (int)a[4]); return 0;
    case 121: h_writeLog((int)a[0], (int)a[1], (int)a[2], (int)a[3]); return 0;
  }
  __builtin_trap();
}
static const unsigned char nargs_of[] = {4, 2, 3, 3, 2, 3, 3, 1, 1, 1, 1, 5, 2, 1, 2, 2, 2, 2, 1, 3, 2, 1, 2, 3, 2, 3, 3, 3, 3, 1, 1, 3, 3, 3, 3, 3, 1, 3, 0, 2, 9, 7, 8, 8, 8, 8, 7, 2, 2, 1, 0, 2, 0, 1, 0, 0, 1, 2, 1, 3, 5, 4, 4, 4, 12, 1, 0, 0, 1, 2, 1, 0, 0, 0, 1, 1, 0, 0, 1, 0, 0, 2, 1, 1, 1, 1, 2, 1, 1, 2, 3, 1, 2, 3, 3, 3, 3, 2, 1, 1, 1, 1, 2, 2, 3, 3, 3, 4, 2, 4, 7, 10, 11, 4, 8, 9, 8, 4, 4, 5, 5, 4};
