SPECIAL["C16"]=("stateful property-based testing across versions: a frozen copy of the deployed ledger runs the first part of each generated history, the ledger under test takes over its stable memory and runs the rest, against the reference model and the log",NOTE+" The deployed version is the frozen copy in harness/deployed.")
SPECIAL["C22"]=("stateful property-based testing over generated families of nearly equal accounts, against a reference model keyed by owner and effective subaccount",NOTE)
SPECIAL["C24"]=("property-based testing of installation: generated init arguments (and others) and short histories, against a reference model",NOTE)
SPECIAL["C27"]=("stateful property-based testing of the compiled depositor on a simulated replica: generated deposits, answers in any order and failures, against a reference model of the calls it owes",NOTE)
SPECIAL["C28"]=("stateful property-based testing of the compiled stand-in CMC on a simulated replica: generated creations, told failures and answers of the management canister, against a reference model",NOTE)
SPECIAL["C29"]=("differential property-based testing of a small ledger against one that holds the same among 66,000 other blocks: generated requests sent to both, equal answers and bounded elementary steps required",NOTE)
SPECIAL["C30"]=("property-based testing of the ledger's library: generated blocks, values that are nearly a block's, CBOR and generic values, against an independent encoder, hash and reader (round trips and differential)","Sampled: holds on every generated block and value of the run; rarer ones can be missed. Trusts native instead of wasm code.")
