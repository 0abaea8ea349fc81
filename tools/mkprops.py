#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, texts and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "Gas is conserved: nothing is created, lost or spent twice",
 "For every transaction, the gas left over plus the gas charged to each account touched plus the gas forwarded or locked in outgoing transfers equals the gas provided, and no part is ever negative or larger than what was provided. A failing transaction has no gas left over, and a nested call can never consume more than the caller gave it nor return more than it received.",
 ["inputs", "programs", "histories"], "every call tree of contracts (nested, asynchronous, failing, out of gas at any point) and every gas limit",
 "The host tests compare hand-computed gas totals for a few fixed call trees and gas limits; conservation must hold for every program, nesting, failure point and limit.",
 ["arwen/contexts/metering.go", "arwen/contexts/output.go", "arwen/host/execution.go", "arwen/host/asyncCall.go"],
 [("gas accounting per account", "arwen/contexts/metering.go UpdateGasStateOnSuccess/updateSCGasUsed/checkGas"), ("remaining gas restored to the caller", "arwen/host/execution.go ExecuteOnDestContext/ExecuteOnSameContext")],
 ["VMOutput.GasRemaining, OutputAccount.GasUsed, OutputTransfer.GasLimit/GasLocked"],
 [("gas used per account", "gas attributed to each account on the call stack", "arwen/contexts/metering.go")])

prop("C02", "A failed execution leaves no effects behind",
 "When a transaction fails for any reason, its output contains no storage change, balance change, transfer, log, code or return data beyond the error. When a nested call fails and the caller carries on, none of the callee's storage writes, transfers, logs, deployed code or returned data is visible afterwards, to the caller or in the final output.",
 ["inputs", "programs", "fault_sequences"], "every program, failure kind (error signalled by the contract, out of gas, trap, bad argument, host refusal) and every point at which the failure happens",
 "Existing tests fail a handful of fixed contracts at one fixed point each; the rollback must be complete for every prefix of effects and every nesting depth.",
 ["arwen/host/execution.go", "arwen/contexts/output.go", "arwen/contexts/storage.go", "arwen/contexts/blockchain.go"],
 [("state stacks: push on entry, discard or restore on failure", "arwen/contexts/output.go PushState/PopSetActiveState/PopMergeActiveState"), ("error output built from scratch", "arwen/contexts/output.go CreateVMOutputInCaseOfError")],
 ["VMOutput of the transaction; later reads in the same transaction"],
 [("output state stack", "saved outputs of the enclosing calls", "arwen/contexts/output.go")])

prop("C03", "Native value is conserved and never overdrawn",
 "In the output of every transaction the balance changes of all accounts add up to zero once the value attached to the transaction is taken into account, and each recorded transfer is matched by the balance changes it implies. No sequence of transfers, calls and callbacks drives any balance below zero, and an attempt to spend more than is held fails without moving anything.",
 ["inputs", "programs", "histories"], "every program of transfers, nested and asynchronous calls with value, deployments and failures, and every starting balance",
 "Tests transfer fixed amounts along fixed paths; conservation and no-overdraft depend on the interleaving of transfers with calls and failures.",
 ["arwen/contexts/output.go", "arwen/host/execution.go", "arwen/host/asyncCall.go", "arwen/elrondapi/elrondei.go"],
 [("balance check before a transfer", "arwen/contexts/output.go hasSufficientBalance/TransferValueOnly"), ("value moved on entry to a call", "arwen/host/execution.go")],
 ["VMOutput.OutputAccounts[].BalanceDelta and OutputTransfers; balance queries by the contract"],
 [("balance deltas", "pending change of every account", "arwen/contexts/output.go")])

prop("C04", "Contract storage behaves like a private persistent map",
 "A contract reads back exactly the bytes last written under a key in the same transaction, or else the persisted bytes, with the length and the added, modified, unchanged or deleted status reported truthfully; writing an empty value removes the entry. One contract's writes never alter another's storage, keys reserved by the protocol cannot be written, a time lock is reported until it expires, and in the final output every key written has its final value and no other key changes.",
 ["inputs", "programs", "histories"], "every sequence of storage operations by several contracts, on every key and value including empty, long, binary and reserved ones, and every initial storage",
 "Unit tests store and load a few keys; the map semantics must hold over operation histories spanning nested calls and all keys.",
 ["arwen/contexts/storage.go", "arwen/elrondapi/elrondei.go", "arwen/elrondapi/smallIntOps.go", "arwen/elrondapi/bigIntOps.go"],
 [("updates cached per account over the persisted state", "arwen/contexts/storage.go GetStorage/SetStorage"), ("protected key prefix", "arwen/contexts/storage.go isElrondReservedKey"), ("time lock check", "arwen/elrondapi/elrondei.go setStorageLock/isStorageLocked")],
 ["storage reads, lengths and status codes seen by contracts; VMOutput storage updates"],
 [("storage updates", "pending writes per account", "OutputAccount.StorageUpdates")])

prop("C05", "Nested synchronous calls run in the right context and combine correctly",
 "Each nested call sees the caller, own address, attached value, arguments and function it was called with, and when it returns the caller's own context is exactly as it was before. Calls on the callee's own context change the callee's storage, calls on the same context change the caller's, and return data and logs of all successful calls appear in execution order.",
 ["inputs", "programs", "histories"], "every finite call tree, mixing call kinds, values, arguments and recursion up to the depth limit, with arbitrary work before and after each call",
 "The hosttest suite checks a few two-level trees; the context switch has to be right for every tree shape and every interleaving of effects.",
 ["arwen/host/execution.go", "arwen/contexts/runtime.go", "arwen/contexts/output.go", "arwen/elrondapi/elrondei.go"],
 [("push/pop of every context around a call", "arwen/host/execution.go ExecuteOnDestContext/ExecuteOnSameContext/callSCMethodIndirect"), ("merge of outputs", "arwen/contexts/output.go mergeVMOutputs/PopMergeActiveState")],
 ["values reported by the contract API inside each call; VMOutput.ReturnData, Logs, OutputAccounts"],
 [("context stacks", "saved contexts of the enclosing calls", "arwen/contexts/*.go stateStack")])

prop("C06", "Read-only execution cannot change state",
 "While a read-only call is in progress, at any nesting depth below it, no storage write, log, transfer of value or tokens, deployment or upgrade takes effect, and attempts are refused. The restriction is lifted exactly when the outermost read-only call returns, not earlier and not later.",
 ["inputs", "programs", "histories"], "every call tree that contains read-only calls, nested in each other and in ordinary calls, succeeding or failing",
 "The tests make one read-only call to one contract; the flag has to survive nesting, failure and re-entry.",
 ["arwen/elrondapi/elrondei.go", "arwen/contexts/runtime.go", "arwen/contexts/storage.go"],
 [("read-only flag of the current context", "arwen/contexts/runtime.go ReadOnly/SetReadOnly, state push/pop"), ("guards", "arwen/contexts/storage.go SetStorage; arwen/elrondapi/elrondei.go writeLog; arwen/host/execution.go CreateNewContract")],
 ["VMOutput storage updates, logs and new accounts; status returned to the contract"],
 [("read-only flag", "whether writes are refused", "arwen/contexts/runtime.go")])

prop("C07", "Every asynchronous call is answered by exactly one truthful callback",
 "An asynchronous call to a contract on the same shard executes once and then the caller's callback runs exactly once with the callee's return code and data (or its error), the caller as its own address and the callee as caller; a call that leaves the shard becomes one outgoing transfer with the right value, data, gas limit and locked gas. Nothing in the caller after the asynchronous call is executed, and a failing callback or callee never undoes what the caller had done before.",
 ["inputs", "programs", "histories"], "every program mixing synchronous work and asynchronous calls with and without value, succeeding and failing callees and callbacks, any data, on one shard or across two",
 "The tests run a few fixed parent/child contracts; data encoding, gas locking and failure combinations are unbounded.",
 ["arwen/host/asyncCall.go", "arwen/contexts/runtime.go", "arwen/contexts/metering.go"],
 [("async step after the breakpoint", "arwen/host/asyncCall.go handleAsyncCallBreakpoint"), ("gas locking", "arwen/contexts/runtime.go ExecuteAsyncCall, arwen/contexts/metering.go UseGasForAsyncStep/ComputeGasLockedForAsync")],
 ["callback arguments, VMOutput.OutputTransfers, storage and balances after the transaction"],
 [("async call info", "pending asynchronous call", "arwen/contexts/runtime.go asyncCallInfo/asyncContextInfo")])

prop("C08", "Execution is deterministic and leaves no residue in the virtual machine",
 "The output of a transaction depends only on its input, the gas schedule and the blockchain state it reads: running it on a fresh machine, on one that has already run any history of succeeding, failing, panicking or out-of-gas transactions, or from cached compiled code gives the same output. Running it twice gives the same output.",
 ["inputs", "programs", "histories"], "every history of transactions on one machine instance followed by every transaction",
 "Tests start every case from a new host, so leftovers between transactions cannot show.",
 ["arwen/host/arwen.go", "arwen/host/execution.go", "arwen/contexts/runtime.go", "arwen/contexts/bigint.go", "arwen/contexts/output.go"],
 [("state reset at the start of each transaction", "arwen/host/arwen.go InitState"), ("cleanup on every exit", "arwen/host/arwen.go ClearContextStateStack, arwen/contexts/runtime.go CleanWasmerInstance")],
 ["VMOutput of the probe transaction"],
 [("contexts and instance stack", "everything the host keeps between calls", "arwen/host/arwen.go")])

prop("C09", "No contract and no input can crash or wedge the virtual machine",
 "For every contract code, function name, arguments, and every sequence of host-function calls with arbitrary arguments (handles, offsets, lengths, identifiers), execution ends with a return code instead of a crash, the host never reads or writes outside the contract's memory or hands it memory it does not own, and the machine can execute the next transaction normally.",
 ["inputs", "programs", "fault_sequences"], "every byte string as code, every call of every host function with arbitrary integer arguments, every failure of the underlying blockchain queries",
 "Tests call host functions with well-formed arguments; the hostile argument space is the attack surface.",
 ["arwen/elrondapi/elrondei.go", "arwen/elrondapi/bigIntOps.go", "arwen/elrondapi/smallIntOps.go", "arwen/cryptoapi/cryptoei.go", "arwen/contexts/runtime.go", "arwen/host/arwen.go"],
 [("bounds checks on contract memory", "arwen/contexts/runtime.go MemLoad/MemStore"), ("panic containment", "arwen/host/arwen.go RunSmartContractCall/Create"), ("fault reporting", "arwen/helpers.go WithFault")],
 ["return code and message; the next transaction's output"])

prop("C10", "Only valid contracts are deployed and only owners may upgrade them",
 "A deployment or upgrade takes effect only if the code is a valid module that exports a memory and only argument-free, result-free functions with admissible, non-reserved names and imports nothing unknown; then the code, its metadata and its owner appear in the output exactly as given and its initialiser has run once with the given arguments. Upgrades that a contract asks for are refused for anyone but the owner and for contracts not marked upgradeable (for upgrades by transaction the node decides that), and initialiser or callback functions cannot be invoked directly by a transaction.",
 ["inputs", "programs"], "every module (generated exports, signatures, names, memories, imports), metadata, caller and arguments",
 "Tests deploy a few contracts; the acceptance rule ranges over all modules, names and permissions.",
 ["arwen/host/execution.go", "arwen/contexts/validator.go", "arwen/contexts/reservedFunctions.go", "arwen/contexts/output.go", "arwen/contexts/runtime.go"],
 [("code verification on first instantiation", "arwen/contexts/runtime.go VerifyContractCode, arwen/contexts/validator.go"), ("upgrade permission", "arwen/host/execution.go checkUpgradePermission"), ("metadata", "arwen/contexts/runtime.go ExtractCodeUpgradeFromArgs")],
 ["VMOutput return code and OutputAccount.Code, CodeMetadata, CodeDeployerAddress"])

prop("C11", "Token transfers made by contracts are conserved and all-or-nothing",
 "A token transfer requested by a contract either moves exactly the requested amount of exactly the requested token and nonce from the contract to the destination, running the destination's function when one is given with the token and amount visible to it, or it fails and moves nothing at all. Token balances, names, nonces and attributes reported to contracts are those of the current state.",
 ["inputs", "programs", "histories"], "every sequence of fungible, semi-fungible and non-fungible transfers with and without a call, amounts around the balance, succeeding and failing receivers",
 "Tests cover one or two transfers with mocks; conservation must hold over histories and failures.",
 ["arwen/host/execution.go", "arwen/elrondapi/elrondei.go", "arwen/contexts/output.go", "mock/world/builtinFunctionsWrapper.go", "mock/world/mockESDT.go", "mock/world/mockESDTAccount.go"],
 [("transfer through the protocol's built-in function", "arwen/host/execution.go ExecuteESDTTransfer/callBuiltinFunction"), ("revert to snapshot when the call fails", "arwen/elrondapi/elrondei.go TransferESDTNFTExecuteWithTypedArgs")],
 ["token balances in the world after the transaction; API queries in contracts"])

prop("C12", "Big-integer operations follow exact integer arithmetic",
 "Every big-integer host operation computes the exact mathematical result of its operands, whatever their size or sign, including when result and operand handles coincide, and converts to and from bytes, signed bytes, 64-bit values, arguments, storage and return data without loss. Division or remainder by zero, and shifts and bitwise operations outside their domain, fail the execution and change no value.",
 ["inputs", "programs", "histories"], "every sequence of operations over every operand size and sign and every aliasing of handles",
 "Tests run a recorded list of results for one contract; the operand and aliasing space is unbounded.",
 ["arwen/elrondapi/bigIntOps.go", "arwen/contexts/bigint.go"],
 [("handle table", "arwen/contexts/bigint.go"), ("operations", "arwen/elrondapi/bigIntOps.go")],
 ["values read back by the contract"],
 [("handle table", "big integers owned by the running contract", "arwen/contexts/bigint.go")])

prop("C13", "Arguments, return data, logs and small integers pass through unchanged",
 "A contract receives exactly the arguments of the call, byte for byte and in order, and every byte string or integer it returns or logs appears exactly, in order, in the output. Fixed-width integers are exchanged as minimal big-endian two's complement, values that do not fit are refused, and data returned by earlier nested calls can be inspected without disturbing it.",
 ["inputs", "programs", "histories"], "every list of arguments, every 64-bit value, every byte string returned, logged or inspected, in any order",
 "Tests pass a few literals; encodings have edge values at every width and sign boundary.",
 ["arwen/elrondapi/elrondei.go", "arwen/elrondapi/smallIntOps.go", "arwen/contexts/output.go", "arwen/contexts/runtime.go"],
 [("argument access", "arwen/elrondapi/elrondei.go getArgument, arwen/elrondapi/smallIntOps.go"), ("return data", "arwen/contexts/output.go Finish/ClearReturnData"), ("logs", "arwen/contexts/output.go WriteLog")],
 ["values seen by the contract; VMOutput.ReturnData and Logs"])

prop("C14", "Cryptographic host functions agree with their standards",
 "Hash functions available to contracts return the standard digest of exactly the bytes given, and signature verification accepts exactly the valid signatures: a correct signature is accepted and any change of message, key or signature is rejected. Malformed keys, signatures and lengths are rejected rather than accepted or crashing; the only exceptions are the equivalent encodings the ECDSA standard itself allows.",
 ["inputs"], "every message, every key, every valid signature and every mutation of it",
 "Tests verify a handful of fixed vectors; acceptance and rejection must be right for all messages and all corruptions.",
 ["arwen/cryptoapi/cryptoei.go", "crypto/hashing", "crypto/signing/bls", "crypto/signing/ed25519", "crypto/signing/secp256k1"],
 [("hash wrappers", "crypto/hashing/hash.go"), ("signature wrappers", "crypto/signing/**"), ("API glue", "arwen/cryptoapi/cryptoei.go")],
 ["result code and bytes seen by the contract"])

prop("C15", "Every operation is charged exactly what the gas schedule says",
 "For every valid gas schedule, each instruction and each host function consumes the amount configured under its own name, including the per-byte and per-length parts, before it takes effect, and a schedule with missing or malformed entries is refused. Changing the schedule of a running machine changes the charges of later transactions and nothing else.",
 ["configurations", "inputs", "programs"], "every gas schedule (arbitrary distinct costs per entry), every host function and instruction, every data length",
 "Tests use schedules in which nearly all costs are equal, so a wrong name or missing charge does not show.",
 ["config/gasCost.go", "config/gasSchedule.go", "arwen/elrondapi/elrondei.go", "arwen/elrondapi/bigIntOps.go", "arwen/elrondapi/smallIntOps.go", "arwen/cryptoapi/cryptoei.go", "arwen/contexts/metering.go", "wasmer/opcodes.go"],
 [("schedule decoding", "config/gasCost.go CreateGasConfig"), ("opcode table", "config/gasCost.go ToOpcodeCostsArray"), ("charges in each host function", "arwen/elrondapi, arwen/cryptoapi")],
 ["gas left as reported in the output"])

prop("C16", "Contracts observe the true transaction and blockchain state",
 "Every query a contract can make about the transaction (caller, own address, original transaction hash, value, function, gas left) and about the chain (block nonces, rounds, epochs, timestamps, random seeds, state root, block hashes, owners, shards, balances of any account, whether an account is a contract) returns the current true value, with pending changes of the running transaction included for balances.",
 ["inputs", "histories"], "every block header, account set and transaction, at any point of a call tree",
 "Tests assert a few getters with default values, where swapped sources (current versus previous block, caller versus owner) look alike.",
 ["arwen/elrondapi/elrondei.go", "arwen/contexts/blockchain.go", "arwen/contexts/runtime.go", "arwen/elrondapi/bigIntOps.go"],
 [("queries forwarded to the blockchain hook", "arwen/contexts/blockchain.go"), ("call input", "arwen/contexts/runtime.go")],
 ["bytes and integers the contract returns"])

prop("C17", "Scenario value expressions denote the documented bytes",
 "Every value expression of the scenario language (numbers in all bases and widths, signed numbers, strings, addresses, hashes, booleans, concatenations, lists and maps) is translated to exactly the bytes its definition gives, independent of separators and nesting. Malformed expressions are reported as errors, never mistranslated and never crashing.",
 ["inputs"], "every expression of the grammar, and every byte string that is not one",
 "The interpreter tests list some dozens of examples; the grammar is recursive and every width has boundaries.",
 ["mandos-go/expression/interpreter/interpreter.go", "mandos-go/expression/interpreter/functions.go"],
 [("prefix-directed interpretation", "mandos-go/expression/interpreter/*.go")],
 ["bytes returned or error"])

prop("C18", "Values shown to users can be read back",
 "The textual form produced for a value, whatever the hint under which it is displayed (number, string, address or none), is an expression that the interpreter reads back to the same bytes: hexadecimal, decimal numbers, quoted or prefixed strings and addresses, including signs, separators and characters with a meaning of their own. Nothing is hidden or altered, except that contract code longer than ten bytes is visibly abbreviated; displaying never fails.",
 ["inputs"], "every byte string under every display hint, including every length and shard byte",
 "The reconstructor tests cover a few addresses and numbers.",
 ["mandos-go/expression/reconstructor/reconstructor.go"],
 [("hint-directed rendering", "mandos-go/expression/reconstructor")],
 ["interpret(reconstruct(bytes)) == bytes"])

prop("C19", "Scenario files survive reading and writing unchanged in meaning",
 "Writing a scenario that was read from a file and reading it again yields the same scenario: the same steps, accounts, storage, tokens, transactions, expectations and checks, with the same values. Reading the written form and writing it again gives the same text.",
 ["inputs"], "every scenario expressible in the format, in compact and expanded forms, with every step kind and optional field present or absent",
 "The round-trip test uses a few sample files; fields combine freely.",
 ["mandos-go/json/parse", "mandos-go/json/write", "mandos-go/json/model", "mandos-go/orderedjson"],
 [("parser", "mandos-go/json/parse/*.go"), ("writer", "mandos-go/json/write/*.go")],
 ["parsed model before and after"])

prop("C20", "Scenario parsing is total and faithful on arbitrary text",
 "For every input text the ordered-JSON and scenario parsers return either a result or an error, without crashing or hanging. Well-formed JSON made of objects, lists, strings and booleans is accepted with keys, order, nesting and string contents preserved through printing and re-parsing (the first of duplicate keys wins); text whose structure is not JSON is refused.",
 ["inputs"], "every byte string, and every JSON document with arbitrary nesting, escapes and whitespace",
 "Tests parse well-formed sample files.",
 ["mandos-go/orderedjson/ojParse.go", "mandos-go/orderedjson/ojModel.go", "mandos-go/orderedjson/ojToJson.go", "mandos-go/json/parse"],
 [("recursive-descent parser", "mandos-go/orderedjson")],
 ["error or tree; printed text"])

prop("C21", "A scenario passes exactly when its expectations match what happened",
 "Running a scenario succeeds when every transaction's status, message, output, logs, gas and refund and every checked account's nonce, balance, storage, tokens, code, owner and name equal what the execution produced, and fails when any single expectation is changed to a different value. Wildcards accept anything, an expectation that is not specified stands for its documented default (status, nonce, balance and refund 0, empty message, no storage or tokens) or for anything where none is documented, and steps take effect in order on one evolving world.",
 ["inputs", "histories"], "every sequence of state-setting, transaction and checking steps over generated worlds, and every single mutation of an expectation",
 "The scenario tests are almost all passing scenarios, so a check that never fails would go unnoticed.",
 ["arwenmandos/execScenario.go", "arwenmandos/stepCheckAccounts.go", "arwenmandos/stepRunTx.go", "arwenmandos/stepCheckTxResult.go", "mandos-go/json/model/valueCheck.go"],
 [("expectation comparison", "arwenmandos"), ("check values", "mandos-go/json/model/valueCheck.go")],
 ["error of the scenario run"])

prop("C22", "The simulated blockchain world applies and reverts changes faithfully",
 "Applying a transaction's output to the simulated world changes exactly the listed accounts by exactly the listed balance, storage, code and nonce changes, and undoing to an earlier point restores the storage (tokens included) that every account had at that point, any number of times. New contract addresses, balances, storage and code read back from the world are those last set, and lookups never alter it.",
 ["histories", "inputs"], "every interleaving of account creation, updates, snapshots, reverts and lookups",
 "No unit test compares the world to a model over histories.",
 ["mock/world/worldDef.go", "mock/world/worldUpdate.go", "mock/world/worldAccountMap.go", "mock/world/worldCallbacks.go", "mock/world/worldAccountsAdapter.go"],
 [("update and rollback", "mock/world/worldUpdate.go"), ("snapshots", "mock/world/worldAccountsAdapter.go")],
 ["account state read through the public interface"])

prop("C23", "Overflow-aware arithmetic is exact or says so",
 "Each checked or saturating addition, subtraction and multiplication returns the exact mathematical result whenever it is representable. Otherwise it reports an overflow error, or returns the documented saturated bound, and never a wrapped value.",
 ["inputs"], "every pair of operands",
 "One unit test checks one function on three pairs.",
 ["math/overflow.go"], [("range checks", "math/overflow.go")], ["returned value and error"])

prop("C24", "Inter-process messages arrive intact, in order, or are refused",
 "Every message sent over the node-to-machine pipes is received once, in order, with the same kind, sequence number and content, whatever the message sizes and however the pipe fragments them. A message that is truncated, announced with another length or kind, out of sequence or not decodable is reported as an error and is never delivered as a different message; one that is late is reported and can still be received.",
 ["inputs", "schedules", "fault_sequences"], "every sequence of messages and replies, every fragmentation of the byte stream, and every truncation, loss, repetition, reordering or relabelling of messages in it",
 "Tests send two or three small messages over an ideal pipe.",
 ["ipc/common/sender.go", "ipc/common/receiver.go", "ipc/common/messenger.go", "ipc/common/messages.go"],
 [("length-prefixed frames", "ipc/common/sender.go, receiver.go"), ("nonce check", "ipc/common/messenger.go")],
 ["received message or error"])

prop("C25", "Running the machine in another process gives the same results",
 "A contract deployment or call executed through the inter-process bridge produces the same output, or the same error, as executing it in process against the same blockchain, for every blockchain query the contract causes. Every query crossing the bridge returns to the machine exactly what the node's blockchain returned, and gas schedule changes and version requests are honoured.",
 ["inputs", "programs", "histories"], "every sequence of deployments, calls and other requests, with every kind of blockchain query made by the contract",
 "The bridge tests run two contracts with a trivial blockchain stub and never compare with in-process execution.",
 ["ipc/arwenpart", "ipc/nodepart", "ipc/common"],
 [("gateway forwarding each query as a message", "ipc/arwenpart/blockchainGateway.go"), ("node side dispatch", "ipc/nodepart/blockchainRepliers.go"), ("serialisable output", "ipc/common/serializableVMOutput.go")],
 ["VMOutput from the bridge versus from an in-process host"])

prop("C26", "Serialised requests and outputs decode to what was encoded",
 "Every request, response and execution output that crosses the process boundary, in each supported encoding, decodes to an equal value, including empty and nil fields, large and negative numbers, binary data and every account, transfer and log entry. Decoding arbitrary bytes gives an error or a message, never a crash.",
 ["inputs"], "every value of every message kind, each marshalizer, and every byte string",
 "The marshaling tests cover one or two populated messages.",
 ["ipc/marshaling", "ipc/common/messages.go", "ipc/common/messagesContracts.go", "ipc/common/messagesBlockchain.go", "ipc/common/serializableVMOutput.go"],
 [("marshalizers", "ipc/marshaling"), ("message factory by kind", "ipc/common/messagesFactory.go")],
 ["decoded message equality"])

prop("C27", "A node outlives the death or hang of the machine's process",
 "When the machine's process dies, hangs or cannot be started, at whatever point of whatever request, the request under way ends within the configured time with a critical error and no output, the node itself is unharmed, and later requests are served by a fresh process: with the outputs the machine would give had nothing happened, and under the last valid gas schedule asked for. Requests made at the same time are each given their own answer.",
 ["histories", "crash_points", "fault_sequences", "schedules"], "every history of deployments, calls, schedule changes and other requests, with deaths, hangs and failed starts at any point of it",
 "Tests never let the process fail while it serves a request, and restart it once at most.",
 ["ipc/nodepart/arwenDriver.go", "ipc/nodepart/part.go", "ipc/arwenpart/part.go"],
 [("restart when the process is gone", "ipc/nodepart/arwenDriver.go RestartArwenIfNecessary, Close"), ("time limit of a request", "ipc/nodepart/part.go doLoop"), ("kept arguments of the process", "ipc/nodepart/arwenDriver.go GasScheduleChange")],
 ["result or error of each request, and the time it takes"])

open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
