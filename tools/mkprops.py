#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

E = "tfchain/encoders/"; T = "tfchain/types/"; X = "tfchain/types/transactions/"
W = "tfchain/TFChainWallet.py"; C = "tfchain/TFChainClient.py"; XC = "tfchain/TFChainExplorerClient.py"

p("C01", "Binary encoders follow rivbin/siabin and refuse what does not fit",
  "Every integer, boolean, string, byte string and (nested) sequence is encoded exactly as the rivbin and siabin specifications prescribe: little-endian integers of the requested width, length prefixes that count the encoded bytes (or elements) that follow, and nothing else. A value outside the range of the requested width is refused with the documented error and leaves the output untouched. Adding values one by one, in bulk, or as a sequence yields the same bytes.",
  ["inputs"], "all values at and around every width and length-class boundary, all short strings over an alphabet with 1-4 byte characters, all nested sequences up to a size bound, on both encoders",
  "the tests encode a dozen fixed values; they never reach the length-class boundaries (2^7, 2^14, 2^21), non-ASCII text or partial failures",
  [E + "rivine.py", E + "sia.py"], [("RivineBinaryEncoder", E + "rivine.py"), ("SiaBinaryEncoder", E + "sia.py")])

p("C02", "Every value type has the chain's binary form, text form and identity",
  "Each basic value (hashes, binary data, currency and block stake amounts, public keys, addresses, 3Bot names, network addresses, ERC20 addresses), condition, fulfillment, input and output encodes in both binary formats to exactly the bytes the chain defines for it, including nil hashes, nil addresses, nil public keys and nil conditions. Conditions and fulfillments reject other kinds' data, and building a condition from a recipient in any accepted notation gives the one condition that notation denotes.",
  ["inputs"], "all combinations of a small alphabet of component values (nil, zero, boundary and ordinary ones) for every type, both encodings, all recipient notations",
  "the tests compare a handful of recorded encodings and never a nil key, an absent parent, an empty secret or nested optional parts",
  [T + "PrimitiveTypes.py", T + "CryptoTypes.py", T + "ConditionTypes.py", T + "FulfillmentTypes.py", T + "IO.py", T + "ThreeBot.py", T + "ERC20.py", T + "AtomicSwap.py"],
  [("sia_binary_encode / rivine_binary_encode of each type", T), ("from_recipient", T + "ConditionTypes.py")])

p("C03", "Transactions encode to the chain's bytes and yield its identifiers",
  "The binary encoding of a transaction of any supported version equals the chain's encoding of that version field by field, optional parts included. The identifiers of its coin and block stake outputs, when they are derived locally, equal the chain's, are different for every output of the transaction, and asking for an output that does not exist is refused. Two transactions are the same (and hash the same) exactly when their identifiers are, or without identifiers when their contents are; a document is read only as the version it says it is.",
  ["inputs"], "every supported version with all combinations of 0-2 inputs, 0-2 outputs, fees, data, optional parts present or absent, legacy and current form",
  "one or two recorded transactions per version; absent optional fields, several outputs and mixed shapes are not sampled",
  [X + "Base.py", X + "Standard.py", X + "Minting.py", X + "ThreeBot.py", X + "ERC20.py"],
  [("binary_encode", X), ("coin_outputid_new / blockstake_outputid_new", X + "Base.py")])

p("C04", "A signature commits to the whole transaction and to its own place in it",
  "The digest a party signs equals the chain's digest for that transaction version, input position and extra objects. Changing any transferred value, recipient, parent, fee, data, nonce or version-specific field changes the digest of every signer, and two different positions of the same kind of input, or two different extra roles, never share a digest. Adding, changing or removing signatures never changes it.",
  ["inputs"], "every supported version, every single-field mutation of a set of base transactions, every pair of input positions and signer roles, every fill-state of the signatures",
  "the tests compare one digest of one fully signed transaction per version; neither sensitivity nor independence from signatures is sampled",
  [X + "Base.py", X + "Standard.py", X + "Minting.py", X + "ThreeBot.py", X + "ERC20.py"],
  [("signature_hash_get / _signature_hash_input_get", X)])

p("C05", "A transaction survives its JSON text form unchanged",
  "A transaction, condition or fulfillment written as JSON text and read back - at any stage of signing, any number of times - has the same JSON, the same binary encoding, the same signature digests, the same output identifiers and the same completeness verdict as before. Writing it always produces real JSON text, for freshly created and partially filled transactions too, and malformed or unsupported documents are refused rather than misread. (The legacy version 0 is by design written as version 1 and is left out.)",
  ["inputs", "histories"], "every supported version with all combinations of optional parts and all fill-states (unsigned, partly signed, fully signed), plus every single-field deletion/type change of the documents",
  "round trips are tested on fully signed recorded transactions as Python dicts only, never through JSON text and never half signed",
  [X + "Base.py", X + "Standard.py", X + "Minting.py", X + "ThreeBot.py", X + "ERC20.py", T + "FulfillmentTypes.py", T + "ConditionTypes.py"],
  [("from_json / json", X), ("transactions.from_json dispatch", X + "Transactions.py")])

p("C06", "Addresses are derived correctly and corrupted address texts are refused",
  "The address of a public key, of a multi-signature condition and of an atomic swap contract equals the chain's derivation; for a multi-signature it depends on the set of owners and the required count only, never on the order of the owners. An address text is accepted exactly when its checksum and shape are right, so that every single-character corruption or change of length is refused, and an accepted text is reproduced exactly.",
  ["inputs"], "all single-character substitutions, deletions, insertions and adjacent swaps of addresses of every type, all owner permutations, all short malformed strings",
  "tests use valid addresses and one malformed one",
  [T + "ConditionTypes.py", T + "CryptoTypes.py"], [("UnlockHash.from_json", T + "ConditionTypes.py"), ("PublicKey.unlockhash", T + "CryptoTypes.py"), ("ConditionMultiSignature.unlockhash", T + "ConditionTypes.py")])

p("C07", "Currency amounts are exact and never negative or over-precise",
  "Currency arithmetic, comparison, parsing and formatting are exact in units of 10^-9 TFT for every amount the chain can hold, operands keep their order and neither operand is modified by a non-assigning operation. A result or input that is negative or needs more than nine decimals is refused with the documented currency error and leaves the amount unchanged. Text and JSON forms read back to the same amount, whatever accepted notation was used.",
  ["inputs"], "all pairs of boundary and ordinary amounts under every operator in both operand orders, all accepted and rejected notations of each amount",
  "tests format nine literals; they never subtract from a plain number, go negative, overflow the precision or leave the default decimal precision",
  [T + "PrimitiveTypes.py", "tfchain/errors.py"], [("Currency", T + "PrimitiveTypes.py")])

p("C08", "The Merkle tree computes the chain's Merkle root",
  "For any sequence of leaves the tree's root equals the recursively defined Merkle root (leaf and node hashes domain separated, left subtree the largest power of two), including for no leaves at all. Asking for the root never changes it or any later root. Different leaf sequences give different roots.",
  ["inputs", "histories"], "all leaf counts up to a bound, all leaf sequences over a small alphabet up to a length, root queried after every subset of pushes",
  "one tree with five leaves is tested", ["tfchain/crypto/merkletree.py"], [("Tree.push / Tree.root", "tfchain/crypto/merkletree.py")])

p("C09", "Any order of co-signers completes a transaction, and only the right keys can",
  "When several honest wallets hold the keys for a transaction's inputs, conditions and roles, it becomes complete (for whoever knows the outputs it spends) exactly when the required signatures are present, no matter in which order they sign or how often the transaction travels between them as JSON. Every signature placed verifies against the digest and the public key named beside it, belongs to a key the condition or role asks for, and signing never alters anything but signatures. A party that owns none of the keys changes nothing, and a signature already placed is neither replaced nor duplicated.",
  ["schedules", "histories"], "all orders and all subsets of signers (with repeats and outsiders) for 1-of-1 up to 2-of-3 multi-signature inputs, time locked variants, mint conditions, 3Bot records and name transfers, with a JSON hop after every step",
  "tests sign with a single wallet in one order and never pass a half signed transaction on",
  [T + "FulfillmentTypes.py", T + "IO.py", X + "Base.py", X + "Minting.py", X + "ThreeBot.py", X + "ERC20.py", W],
  [("signature_requests_new / signature_fulfill", X + "Base.py"), ("transaction_sign", W)],
  [("fulfillments", "which signatures are present", T + "FulfillmentTypes.py")])

p("C10", "The seed determines the keys, and no key is ever skipped or repeated",
  "A wallet's keys are a function of its seed alone: they come from one infinite sequence determined by the seed, the first key is always there and none is repeated, and each matches its address and produces verifying signatures. Unused keys found by scanning are kept in reserve: exposed and reserved keys together form a prefix of the sequence. Loading a wallet finds every used key separated from the previous used one by fewer unused keys than the scan window, and keeps at least the first key. A freshly generated address is the first of the sequence not yet exposed, and an unknown address is refused. A scan that fails half-way, because the network does not answer, loses no key.",
  ["inputs", "histories", "configurations"], "all used/unused patterns of the first keys for several scan windows and initial key counts, all interleavings of generating addresses and loading, seeds as text, bytes and mnemonic",
  "tests load wallets with one or two used leading keys only",
  [W], [("key scan and key_pair_new", W)], [("key pairs", "generated and not yet assigned keys", W)])

p("C11", "Every output sits in exactly one balance bucket, whatever order it is seen in",
  "A balance counts each output once: spent, available (confirmed, unlocked, unspent), locked or unconfirmed, the verdict depending only on what is known about the output and not on the order or number of times it is reported. Its totals equal the sums over the outputs of each bucket, and merging balances gives the same result as observing all their outputs in one. Moving the chain forward moves outputs from locked to available exactly when their lock is reached.",
  ["histories", "schedules"], "all sequences, with repetition, of outputs over a small alphabet of (identity, confirmed/unconfirmed, spent/unspent, locked or not) up to a depth, all splits of a sequence over merged balances, all chain positions around the locks",
  "tests sum one recorded balance; status changes, duplicates and merges are never exercised",
  [W], [("WalletBalance.output_add / balance_add", W), ("MultiSigWalletBalance", W)], [("output buckets", "available/unconfirmed/spent outputs", W)])

p("C12", "A wallet's balance equals the ledger's view of its addresses",
  "For any history of transactions the explorer reports about the wallet's addresses, the available, locked, unconfirmed and spent amounts and outputs of the wallet equal those of a plain unspent-output ledger of that history, for the wallet itself and for every multi-signature address it co-owns. Multi-signature funds are reported separately and never added to the personal amounts. The wallet's transaction list is exactly the transactions touching its personal addresses, unconfirmed ones first, then the newest first. Asking again gives the same answer.",
  ["histories"], "all explorer histories up to a depth over receive / spend / time-locked / multi-signature / unconfirmed / minting events on two addresses, replayed through the explorer's JSON responses",
  "tests replay three recorded responses and compare two totals",
  [W, C], [("balance retrieval", W), ("ExplorerUnlockhashResult.balance", C)])

p("C13", "Funding picks distinct spendable outputs that cover the amount, or fails cleanly",
  "Whenever a transaction is funded, the chosen inputs are distinct available outputs the wallet may spend (of its personal addresses, or of the requested source only if one is given), at most 99 of them, and their sum equals the amount plus the returned remainder. It fails with the insufficient-funds error exactly when no permitted selection covers the amount. Locked, spent or already selected outputs are never chosen, unconfirmed ones only where the confirmed ones of that wallet do not suffice, and the change goes to the requested or a wallet-owned address.",
  ["inputs"], "all multisets of up to 4-5 output values over personal and multi-signature balances, all amounts around every attainable sum, all source and refund choices, pools of more than 99 outputs",
  "tests fund from one or two outputs with a generous margin",
  [W], [("WalletBalance.fund / WalletsBalance.fund", W)])

p("C14", "Wallet operations conserve value and submit only complete transactions",
  "Every transaction a wallet builds spends exactly what its inputs hold: inputs equal recipients' amounts plus miner fee plus protocol fees plus change, each recipient (and the change) gets exactly the requested amount under the requested condition, and the miner fee is at least the network's minimum. It carries the given data unchanged and is submitted to the network exactly when every required signature is present, otherwise it is returned unsubmitted. An operation that is refused, or fails because the network does not answer, has submitted nothing.",
  ["inputs", "histories"], "all wallet operations (coin sending, swap, 3Bot, ERC20, minting) over a grid of balances, amounts, fees, locks, data and source/refund choices",
  "tests assert expected JSON for a few hand picked amounts",
  [W, X + "Standard.py", X + "ThreeBot.py", X + "ERC20.py", X + "Minting.py"], [("coins_send and the sub-wallet operations", W)])

p("C15", "Draining a balance moves exactly everything spendable",
  "Draining a balance yields transactions that together spend every available output exactly once (and unconfirmed ones exactly when asked), never a locked or spent one. Each transaction has at most 99 inputs, pays exactly the given miner fee and sends all the rest to the given recipient under the given lock and data. An amount that does not exceed the fee yields no transaction or a clean refusal, never an output without value.",
  ["inputs"], "all balances of up to 4 outputs around the fee plus pools around multiples of 99, with and without unconfirmed, locked and multi-signature outputs, data and locks",
  "one recorded balance with a large surplus is drained", [W], [("drain", W)])

p("C16", "An atomic swap can be redeemed or refunded once, by the right party only",
  "A contract created by the wallet carries exactly the agreed amount, parties, secret hash and refund time. It can be redeemed only by its receiver presenting the matching secret, and refunded only by its sender once the refund time has been reached; both produce a transaction paying the amount minus the miner fee to the acting party, signed with that party's key. Verification accepts exactly the contracts that match every stated requirement, and a spent or unknown contract is refused.",
  ["histories", "inputs", "schedules"], "all sequences of initiate, participate, verify, redeem and refund by sender, receiver and outsider wallets with right and wrong secrets and all chain times around the refund time, all combinations of matching and mismatching verification requirements",
  "tests walk one script per operation with a single wallet and one clock",
  [W, T + "AtomicSwap.py", T + "FulfillmentTypes.py"], [("atomicswap operations", W), ("FulfillmentAtomicSwap", T + "FulfillmentTypes.py")])

p("C17", "3Bot fees, limits and activity rules are the chain's",
  "The fee a 3Bot transaction requires equals the chain's tariff for the months it pays (with the 12 and 24 month discounts), the names it registers, adds or transfers and a change of network addresses, and is exactly what the transaction pays besides the miner fee. One transaction carries at most five names and ten addresses per list, a registration one to twenty-four months and an update at most twenty-four, and a registration, update or transfer without any content is refused. Only active 3Bots can trade names, an inactive one has to renew to update, and a 3Bot transaction is signed by the 3Bot's own key (a transfer by the keys of both) and submitted only when it is.",
  ["inputs", "histories"], "all month counts, all counts of added and removed names and addresses around the limits, expiration times around the chain time for every role and owner, all histories of registrations, updates, transfers, signing and passing time of two wallets up to a depth",
  "tests check the fee of three recorded transactions and one expired record",
  [X + "ThreeBot.py", W, C], [("required_bot_fees / compute_monthly_bot_fees", X + "ThreeBot.py"), ("threebot operations", W)])

p("C18", "Locks mean what they say: nothing locked counts as spendable",
  "A lock value below 500000000 is a block height and any other value a timestamp, and a locked output is available exactly from the moment the chain height or time reaches the value. A lock given as a number, a date, a duration or a time offset denotes the same instant as its plain numeric form, is put unchanged on the output it was requested for, and unparsable or negative ones are refused. Spending never uses an output whose lock has not been reached.",
  ["inputs"], "all lock values around the boundaries and the current chain position, every accepted notation of a set of instants, nested lock/condition combinations",
  "tests parse two durations; the date cases are commented out as failing",
  [T + "ConditionTypes.py", "tfchain/internal/jsutils.py", W], [("OutputLock", T + "ConditionTypes.py"), ("ConditionLockTime", T + "ConditionTypes.py")])

p("C19", "Explorer requests fail over across all addresses and report the true outcome",
  "A request is answered by the first reachable explorer that gives a definite answer, each configured address being tried at most once and all of them before giving up. 'No content', success and server errors are told apart faithfully whatever the mix and order of faults, and when every address fails a clear error is raised instead of an answer. A submission reports success only if an explorer accepted it and delivers exactly the given document.",
  ["fault_sequences", "schedules"], "all assignments of outcomes (success, no content, client error, server error, connection refused, timeout, malformed body) to 1-3 addresses and all orders in which they are tried, for reads and submissions",
  "the one test needs the public internet and is not run",
  [XC, "tfchain/internal/HttpClient.py"], [("TFChainExplorerClient.get / post", XC), ("HttpClient", "tfchain/internal/HttpClient.py")])

p("C20", "Explorer answers are taken over faithfully or refused, never misread",
  "Blocks, transactions, outputs and address histories returned to the user carry exactly the identifiers, heights, conditions, values and creation/spend relations of the explorer's answer, outputs of unconfirmed transactions included. An answer of the wrong kind, about another object, or lacking required data raises the invalid-response error and an absent object the not-found error. A submission returns the identifier the network assigned.",
  ["inputs", "fault_sequences"], "all single-field deletions, type changes and substitutions of well formed answers for every kind of lookup, and all creation/spend confirmation states of an output",
  "tests feed well formed recorded answers only",
  [C], [("TFChainClient lookups", C)])

p("C21", "Minting follows the mint condition and creates exactly the requested coins",
  "Coins can be created and the mint condition replaced only with signatures that satisfy the currently active mint condition, whether it names one key or several. The created outputs are exactly the requested recipients and amounts and nothing else is spent. Block-height queries use the condition active at that height, and the wallet submits only when the condition is satisfied.",
  ["inputs", "histories"], "all mint conditions over two wallets (single key, 1/2-of-2, 2-of-3), all subsets and orders of signers, all recipient/amount lists up to a bound",
  "tests mint with a wallet that alone satisfies the condition",
  [X + "Minting.py", W, C], [("TransactionV128 / V129", X + "Minting.py"), ("minter operations", W)])

p("C22", "ERC20 bridging uses the right addresses, amounts and registrations",
  "The ERC20 address of a wallet address is the chain's derivation from that address, and registering it pays the registration fee, names exactly the wallet's own address and key, and is signed by that key; only addresses the wallet owns can be registered. Sending to ERC20 destroys exactly the requested amount, and accepts exactly well-formed ERC20 addresses. Coins created from ERC20 appear as one output with the stated receiver and value, and each such output keeps its own identity.",
  ["inputs"], "all addresses of small wallets, all corruptions of an ERC20 address text, amounts and fees around the available balance, several bridge transactions in one balance",
  "tests register two addresses and send one amount",
  [X + "ERC20.py", T + "ERC20.py", W, C], [("TransactionV208/209/210", X + "ERC20.py"), ("erc20 operations", W)])

p("C23", "3Bot names and network addresses are accepted exactly when valid",
  "A 3Bot name is accepted exactly when it matches the published name grammar and length limits, and a network address exactly when it is a host name, IPv4 or IPv6 address; everything else is refused. An accepted value denotes the same name or address after copying and after its text and JSON forms are read back, and its kind is the one its notation denotes.",
  ["inputs"], "all strings up to a length over a small alphabet of significant characters, all length-boundary names, all dotted/colon shapes, copies of values of every kind",
  "tests use a handful of valid names and addresses",
  [T + "ThreeBot.py"], [("BotName", T + "ThreeBot.py"), ("NetworkAddress", T + "ThreeBot.py")])

p("C24", "Completeness verdicts never overlook an input",
  "A transaction is reported complete exactly when every coin input, block stake input and version-specific authorisation carries the signatures its parent condition asks for; an absent or empty signature, an unknown parent, or too few signatures of a multi-signature never count as complete. The signature requests it issues name exactly the missing signatures.",
  ["inputs"], "all combinations of parent condition kind, fulfillment fill-state and known/unknown parent for up to two inputs of each kind on every transaction version",
  "tests ask for the verdict on fully signed single-key transactions",
  [X + "Base.py", T + "IO.py", T + "FulfillmentTypes.py", X + "Minting.py", X + "ThreeBot.py", X + "ERC20.py"],
  [("is_fulfilled / signature_requests_new", X + "Base.py")])

p("C25", "Looking changes nothing, and objects do not influence one another",
  "Reading anything (balances, addresses, texts, JSON, binary forms, digests, signature requests, completeness) changes no object: asked again, and after any other reading, the answer is the same. Changing one object never changes another one made from the same document, nor the document, and a new object is always blank. Any interleaving of operations on several wallets of one program, of the same or different seeds and networks, in one thread or several, gives each wallet exactly the results it would have had alone.",
  ["inputs", "histories"], "every ordered pair of readings of transactions of every version, conditions, fulfillments, balances and wallets; every single change next to a twin object; all interleavings of short scripts of two wallets on two networks; all schedules of two wallets in two threads up to a number of preemptions",
  "tests read each object once and never let two wallets or two objects live next to each other",
  [W, C, X + "Base.py", T + "IO.py", T + "ConditionTypes.py", T + "FulfillmentTypes.py"],
  [("json / binary_encode / signature_hash_get", X + "Base.py"), ("WalletBalance, MultiSigWalletBalance", W), ("TFChainClient", C)])

p("C26", "What only the wallet may know stays with it",
  "No request, submitted document, error, printed or logged text and no transaction or signature request ever contains the seed, the mnemonic or a private key of a wallet, whatever operation is done in whatever state and however it ends. The secret of an atomic swap leaves the wallet only in the document that redeems a contract with it. Every new swap and mint has a secret or nonce, and every new wallet a seed, that neither repeats nor follows from the state of the program's random number generator.",
  ["inputs", "histories", "fault_sequences"], "every wallet operation x sources x a failure of each kind at every request, all pairs of operations, all swap histories of two wallets up to a length, all pairs of created secrets around every reset of the random generator",
  "tests look at the expected fields of a few documents, never at everything that leaves the wallet, nor at failing operations",
  [W, C, XC, T + "ConditionTypes.py", T + "AtomicSwap.py", "tfchain/internal/jsutils.py", "tfchain/errors.py"],
  [("TFChainAtomicSwap", W), ("AtomicSwapSecret.random", T + "ConditionTypes.py"), ("transaction_put", C)])

p("C27", "A wallet started again from its words carries on, even after a crash",
  "A wallet started again from its seed or words has the same addresses, balances, history and registrations, and gets the same results from every operation, as one that went on: nothing a user owns or may do lives only in the memory of the program. This holds wherever the program stopped, also in the middle of an operation, before or after any request; the operation that was cut off is then either not on the network at all or there as one complete transaction.",
  ["crash_points", "histories"], "the program dies before and after every request of every operation; all pairs and triples of operations with an orderly restart between them; restarts from seed, from words, and scanning for the used keys",
  "tests never stop a wallet in the middle of an operation nor compare a new wallet with an old one",
  [W, C], [("_key_scan / address generation", W), ("balance", W), ("operations of TFChainWallet and its subclients", W)])

p("C28", "What is refused or fails changes nothing",
  "A change that is refused with an error leaves everything as it was: a refused assignment, addition or signature leaves the transaction, input, output, condition, fulfillment, value or balance with the same readings and encodings; a wallet operation that is refused because of an argument, or that fails because the network did not answer before anything was submitted, leaves the wallet, its balance and the arguments handed over as they were. Everything done afterwards has the result it would have had without the attempt. No operation is half carried out.",
  ["inputs", "fault_sequences", "histories"], "objects of every kind and fill state x every public setter and adding method x every value of a pool of 70 usable and unusable ones and 260 lists of them; all pairs of balances that may refuse to merge; every wallet operation x argument x value, and every operation x request x failure, each followed by another operation",
  "tests check that an error is raised, never what the object is afterwards",
  [W, T, T + "transactions"], [("property setters and *_add methods", T + "transactions"), ("balance_add / output_add / drain", W), ("operations of TFChainWallet and its subclients", W)])

p("C29", "Results do not depend on the surroundings of the program",
  "The same operations on the same data have the same results, byte for byte, whatever the decimal context of the calling thread, the hash seed and options of the interpreter, the time zone, locale, environment, working directory or thread of the process, and whichever module of the package was imported first; nor do they change the decimal context of the caller. (Texts of points in time, which follow the zone of the machine, are excepted.) Amounts in particular are exact whatever the context, and the order of what is listed or encoded is never that of a hash table.",
  ["inputs"], "every decimal context of a grid of precisions, roundings, exponent limits and traps, every interpreter option, hash seed, zone, locale and other surrounding (thorough: every pair of them), every module imported first x some 900 steps over all parts of the package",
  "tests run in one surrounding only",
  ["tfchain"], [("Currency", T + "PrimitiveTypes.py"), ("transactions / balance", W), ("__str__", X + "Base.py")])

p("C30", "What the network did not answer is never taken for nothing",
  "When an explorer does not answer a request, answers with an error or with something that is no answer, every reading and operation of the wallet and of the client either still gives exactly what it gives when all requests are answered, or is an error; it never gives a smaller balance, a shorter history, fewer addresses, co-owned wallets or registrations, and never says that there is no such transaction, contract, 3Bot or address, nor that funds do not suffice. Nothing is submitted other than what would have been submitted. While another explorer answers, requests which got no answer at all go to that one and the outcome is the undisturbed one.",
  ["inputs", "fault_sequences"], "every reading and operation of a menu of some fifty, over two ledgers and two scan windows, x every request that fails x every kind of failure of the explorer client; and over the real HTTP client with one to three explorers every connection x every kind of transport failure (thorough: every pair)",
  "tests neither let single requests of an operation fail, nor compare with the undisturbed outcome",
  ["tfchain"], [("balance / transactions / _key_scan", W), ("addresses_get", W), ("_http", "tfchain/TFChainExplorerClient.py")])

p("C31", "What a refusal, a contract or a report says is true",
  "Whatever an error or a report tells its reader applies to the ledger and to what was asked: an error of an atomic swap names a contract with the content and state it has on the chain, the transaction that spent it, the role, secret, amount, hash or time that really does not fit; a 3Bot that is called inactive or unknown is that one, with its expiration; a refused address, amount or precision is the one given; an error about an explorer's answer names the request and the answer. The text of a contract tells its identifier, parties, amount and hash, whether it is spent, and since when or in how long it can be refunded; two contracts are equal exactly when they are the same in content and state; the texts of the chain and of addresses tell the numbers they have.",
  ["inputs", "histories"], "all histories of one contract to depth 6 (thorough 9) over three parties and four kinds of contract, with every verification, claim and refund that has to be refused tried by everybody in every state; all pairs of 192 contracts differing in up to two fields; products of times, amounts, states, identifiers and expirations; every answer of an explorer spoilt at every place in six ways",
  "tests check the type of an error at most, never what it says",
  ["tfchain"], [("exception classes", "tfchain/errors.py"), ("AtomicSwapContract", T + "AtomicSwap.py"), ("verify / redeem / refund", W), ("__repr__", C), ("Duration", "tfchain/internal/jsutils.py")])

p("C32", "Threads may work at the same time",
  "Several threads of one program can use it at the same time: each with objects of its own (transactions, amounts, conditions, addresses, names, encodings, balances), each with a wallet of its own, on clients of their own or on one client they share, or all of them only reading one object. Wherever one of them is interrupted, and whatever the others do meanwhile, each gets exactly the results, refusals and submitted documents it would get alone, and every one of them comes to an end.",
  ["inputs", "schedules"], "jobs over all kinds of objects, every wallet operation, requests to explorers of which one is down or refuses, and every reading of one shared object x what the other thread does meanwhile x an interruption in front of every line of the program that is reached, at its first (thorough: first three) arrival, and both threads in the middle of the same job",
  "tests use one thread only, and which line a thread is interrupted at is not theirs to choose",
  ["tfchain"], [("encoder_rivine_get / encoder_sia_get", "tfchain/encoders/__init__.py"), ("HttpClient, Connection", "tfchain/internal/HttpClient.py"), ("WalletBalance", W), ("signature_hash_get", X + "Base.py"), ("TFChainExplorerClient", "tfchain/TFChainExplorerClient.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
