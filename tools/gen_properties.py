#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
MT = "merkletree/merkletree.go"

p("C01", "The Merkle tree is an exact map from entry index to entry",
  "After any sequence of insertions, a lookup by index or an existence check (of index and full value) succeeds exactly for the entries that were inserted, with exactly the data inserted, and reports every other index as absent and every other value as not matching. "
  "An insertion whose index is already present, whose data is outside the field, which goes to a read-only view, or which would need more levels than the tree allows is refused with an error. "
  "A refused insertion leaves the root, the contents and the ability to accept later insertions unchanged.",
  ["histories", "inputs", "configurations"],
  "All insertion/lookup sequences, all entry indexes (including ones sharing long path prefixes) and values differing in any of their elements, all maximum depths.",
  "Existing tests insert a few fixed entries, mostly with small integers in two elements and 140 levels; they never combine refused insertions with further use, nor compare values that differ only in later elements.",
  [MT, "merkletree/node.go", "merkletree/utils.go"],
  [("AddEntry/addLeaf/pushLeaf", MT), ("GetDataByIndex", MT), ("EntryExists", MT), ("Data.Equal/Entry.Equal", MT)],
  [("rootKey", "root of the current tree, in memory"), ("storage", "nodes by key and the stored current root")])

p("C02", "The tree root is a canonical commitment to the set of entries",
  "The root of a tree depends only on the set of entries it contains: not on insertion order, refused insertions in between, storage backend, key prefix, or reopening. "
  "Two trees with different entry sets have different roots. "
  "The root, and every node on the way, is exactly the hash prescribed by the sparse Merkle tree construction (leaf hash of index hash, value hash and one; inner hash of left and right; zero for empty; bits of the index hash choosing the side), so that circuits and contracts agree with it.",
  ["histories", "inputs", "configurations"],
  "All entry sets and all insertion orders, backends and depths at which paths diverge.",
  "Tests compare a handful of hard-coded roots; they cannot cover orders, deep divergence points or collisions between different sets.",
  [MT, "merkletree/node.go", "merkletree/utils.go"],
  [("addLeaf/pushLeaf", MT), ("Node.Key/LeafKey", "merkletree/node.go"), ("getPath, HashElems", "merkletree/utils.go")])

p("C03", "Membership proofs are complete, sound, and survive serialization",
  "For every tree root and every index, the generated proof states correctly whether the index is present and verifies against that root, and against that root only, for the index and value it was made for. "
  "No alteration of a proof, or its use for another index, value or root, makes a false statement about a tree verify: neither membership of an absent entry or wrong value, nor absence of a present index. "
  "Encoding a proof to bytes or JSON and decoding it gives an equivalent proof at every depth, and malformed encodings or inconsistent proofs are refused with an error instead of crashing or being misread.",
  ["inputs", "histories"],
  "All trees, indexes, roots past and current, proof depths from 0 to the maximum and all single-field alterations, plus arbitrary byte strings as encodings.",
  "Tests verify a few generated proofs and a couple of altered ones at small depth; malformed and deep encodings are not exercised.",
  [MT],
  [("GenerateProof", MT), ("VerifyProof/RootFromProof", MT), ("Proof.Bytes/NewProofFromBytes/JSON", MT), ("SiblingsFromProof/AllSiblingsCircom", MT)])

p("C04", "Past roots stay readable and immutable; snapshots are frozen",
  "Every root a tree has ever had keeps answering lookups, existence checks, proofs, walks and dumps exactly as when it was current, whatever is inserted later. "
  "A snapshot taken at such a root never changes, never accepts insertions and never affects the live tree; changing a hash that was given to or obtained from a tree changes neither. "
  "Asking for a root that is not a node of the tree is an error.",
  ["histories"],
  "All interleavings of insertions, snapshots, reopenings and queries against any past root.",
  "Tests take one or two snapshots and query them once.",
  [MT],
  [("Snapshot", MT), ("GenerateProof/EntryExists/Walk/DumpTree with an explicit root", MT), ("addNode (nodes are never deleted)", MT)])

p("C05", "The tree survives restart, crash and storage faults",
  "Reopening a tree on its storage yields exactly the tree of the last insertion that was reported successful (or, for an insertion interrupted by a crash, the tree either before or after it), complete and usable, and on an in-process error the tree in memory agrees with the one a reopening would give. "
  "A failed or interrupted insertion can simply be retried. "
  "A storage read error while opening is reported as an error and never turns an existing tree into an empty one.",
  ["crash_points", "fault_sequences", "histories"],
  "All insertion histories with a crash or an injected storage error at any storage operation, including opening.",
  "Tests never inject a storage fault or reopen after an interrupted insertion.",
  [MT, "db/leveldb.go", "db/memory.go"],
  [("AddEntry commit order", MT), ("NewMerkleTree root recovery", MT), ("dbInsert of the root in the same transaction", MT)])

p("C06", "Dumping and importing reproduce the tree exactly",
  "Importing a dump (node dump or entry dump) of any tree at any of its roots into an empty tree gives a tree with that same root, the same entries and the same proofs, which can be extended further and reopened from storage with the same result. "
  "A truncated or malformed dump is refused with an error and leaves the importing tree as it was. "
  "A dump contains the entries of the requested root and nothing else; a written entry dump is the JSON list of them, and a dump that could not be read or written to its end is reported as an error.",
  ["inputs", "histories"],
  "All trees and roots, all truncation points of a dump, all points at which the storage or the writer fails, and reopening or inserting after the import.",
  "Tests import one dump and compare the root in memory; they neither reopen, continue, nor truncate.",
  [MT, "components/idenpuboffchain/idenpuboffchain.go"],
  [("DumpTree/ImportTree", MT), ("DumpClaims/DumpClaimsIoWriter/ImportDumpedClaims", MT), ("serializeKV/deserializeKV", MT)])

p("C07", "Storage transactions are atomic, isolated by prefix, and backend independent",
  "A value read from storage or through a transaction is the last one committed under that prefix and key, or written earlier in that same transaction; writes of an uncommitted or closed transaction are never visible outside it, and a commit makes all of them visible at once. "
  "Different prefixes never see each other's keys, including when one prefix extends another's path, iteration yields exactly the keys under the prefix (without the prefix) in byte order, stopping when asked to, and later changes of a caller's buffers never change what is stored. "
  "The in-memory and the on-disk backends behave identically, and the on-disk one keeps committed data across reopening.",
  ["histories", "configurations", "inputs"],
  "All sequences of operations on nested prefixes and interleaved transactions, for both backends, with arbitrary keys and values including empty ones.",
  "Tests run one short script per backend; they do not interleave transactions, nest prefixes, or mutate buffers.",
  ["db/storage.go", "db/memory.go", "db/leveldb.go", "db/kvmap.go", "db/utils.go"],
  [("Tx.Get/Put/Add/Commit/Close", "db/memory.go, db/leveldb.go"), ("WithPrefix, Iterate, List", "db/memory.go, db/leveldb.go")])

p("C08", "Persistent values and lists return what was stored, in order",
  "A persistent list reports as length the number of successfully committed appends, returns by position the key appended at that position together with the value last stored under that key, and by key that same value, for any length, keys and values, and also after reopening. "
  "Reading past the end or an unknown key is an error, and an uncommitted append leaves no trace. "
  "Several lists and counters in one storage whose names do not extend one another never disturb each other, and a persistent counter returns the last value set over its whole 32-bit range.",
  ["histories", "inputs"],
  "All sequences of appends, reads, commits, aborts and reopenings over several lists and counters sharing one storage.",
  "The existing tests append a few items to a single list.",
  ["db/storageutils.go"],
  [("StorageList.Append/Get/GetByIdx/Length", "db/storageutils.go"), ("StorageValue.Set/Get", "db/storageutils.go"), ("StoreJSON/LoadJSON", "db/storageutils.go")])

p("C09", "Claims encode and decode without loss or interference between fields",
  "Every kind of claim, with any admissible content and any combination of header options (subject kind and position, expiration, version) and any revocation nonce, decodes from its tree entry to the same content, options and nonce it was built with. "
  "Each field occupies only its own place in the entry: changing one field (in particular the revocation nonce, the version or the expiration) never alters another one, options, version and identifying data are part of the index, and nonce and expiration are placed so that they do not change the index. "
  "Decoding any entry never crashes, and entry data always stays inside the field.",
  ["inputs"],
  "All claim kinds, header combinations, boundary values of nonces, versions, expirations, identifiers and payload slots.",
  "Tests check one example per claim kind.",
  ["core/claims/claim.go", "core/claims/claim_types.go", "core/claims/claimBasic.go", "core/claims/claimKeyBabyJub.go", "core/claims/claimOtherIden.go", "core/claims/revocationrootsleafs.go", "core/claims/utils.go"],
  [("Metadata.Marshal/Unmarshal, ClaimHeader", "core/claims/claim.go"), ("claim kinds Entry/New…FromEntry", "core/claims"), ("GetRevocationNonce", "core/claims")])

p("C10", "Identity identifiers are canonical, checksummed and bound to genesis",
  "The identifier of a new identity is determined by its genesis claims alone and commits to them: the same key and extra claims always give the same identifier, and different ones give different identifiers. "
  "Text and binary encodings of an identifier round trip, and any string or bytes with the wrong length or a checksum that does not match type and genesis data is rejected. "
  "The identity state is the documented hash of the three tree roots in their order, so that exchanging or altering any of them changes it.",
  ["inputs"],
  "All keys, extra claim lists, identifier types and genesis bytes, and every single-byte corruption of an identifier.",
  "Tests check a few fixed identifiers and one corrupted checksum.",
  ["core/id.go", "core/genesis/genesis.go", "identity/issuer/issuer.go"],
  [("NewID/IDFromString/IDFromBytes/CheckChecksum", "core/id.go"), ("IdenState/IdGenesisFromIdenState", "core/id.go"), ("CalculateIdGenesisMT", "core/genesis/genesis.go")])

p("C11", "Every issued claim has its own revocation nonce",
  "No two claims ever issued by an identity, genesis claims included, carry the same revocation nonce, across failed issuances, storage faults, restarts and concurrent issuance. "
  "The nonce written in the issued claim object is the one stored in the issuer's tree, and a claim whose issuance was refused is not altered. "
  "Revoking one claim therefore never revokes another.",
  ["histories", "crash_points", "schedules"],
  "All histories of issuing (successful or refused), revoking and restarting, sequential and concurrent.",
  "Tests issue two or three claims in one session and their test binary cannot even start offline.",
  ["identity/issuer/issuer.go", "identity/issuer/noncegen.go"],
  [("UniqueNonceGen.Next", "identity/issuer/noncegen.go"), ("IssueClaim", "identity/issuer/issuer.go"), ("RevokeClaim", "identity/issuer/issuer.go")])

p("C12", "State publication is single-flight, ordered and never loses a state",
  "At most one state transition is outstanding at a time: while a submitted transition is unconfirmed no other is submitted, and each submitted transition starts from the state currently on chain (or genesis) and goes to the state recorded as pending, with a matching proof. "
  "A state whose transaction is recorded is accepted as on chain only after the configured number of confirmations and only if the chain reports it, any other answer being an error; a state whose transaction failed may be submitted again; nothing is submitted when nothing changed. "
  "After any failure or crash during publication, retrying eventually publishes a state containing everything issued and revoked, and every state the identity puts on chain stays usable for credentials and has its public data published.",
  ["histories", "crash_points", "fault_sequences"],
  "All interleavings of issuing, revoking, publishing, mining, confirming, synchronizing and restarting, with a failure at any storage, proof, chain or publication call.",
  "Tests follow one success path (and need network downloads to start).",
  ["identity/issuer/issuer.go", "components/idenpubonchain/idenpubonchain.go", "components/idenpuboffchain/idenpuboffchain.go"],
  [("PublishState", "identity/issuer/issuer.go"), ("SyncIdenStatePublic", "identity/issuer/issuer.go"), ("setIdenStatePending, idenStateList", "identity/issuer/issuer.go")])

p("C13", "Existence credentials are issued exactly for claims in the on-chain state",
  "An existence credential is produced exactly when the very claim (index and value) is contained in the claims tree of the identity state known to be on chain, and then it is accepted by a verifier that reads the same chain, now and after any later activity of the issuer. "
  "For a claim issued but not yet in the on-chain state, for one never issued, and when nothing is on chain, the corresponding distinct error is returned. "
  "The credential refers to that on-chain state and its block. "
  "Credentials and state data belong to the caller: changing them changes nothing in the issuer.",
  ["histories"],
  "All histories of issuing, publishing and confirming, for every claim and every moment.",
  "Tests try one published and one unpublished claim.",
  ["identity/issuer/issuer.go", "components/verifier/verifier.go"],
  [("GenCredentialExistence", "identity/issuer/issuer.go"), ("getIdenStateTreeRoots", "identity/issuer/issuer.go"), ("VerifyCredentialExistence", "components/verifier/verifier.go")])

p("C14", "Validity credentials exist exactly for unrevoked claims and expire as stated",
  "From an existence credential a holder obtains a validity credential exactly when the claim's nonce is not revoked in the issuer state currently on chain and the public data fetched for that state matches it; otherwise the matching error is returned. "
  "A verifier accepts a validity credential exactly when the state it refers to is newer than the freshness limit or still the latest one on chain, and the claim has not expired at verification time. "
  "Once a revocation is on chain it is permanent: no validity credential can be made for that claim any more and earlier ones stop verifying when the freshness limit passes.",
  ["histories", "inputs"],
  "All histories of issuing, revoking, publishing and confirming, all freshness limits and clock readings including exact boundaries, all expirations up to the largest 64 bit number.",
  "Tests use one revocation, a few fixed times, and need network to start.",
  ["identity/holder/holder.go", "components/verifier/verifier.go", "core/claims/revocationrootsleafs.go", "identity/issuer/issuer.go"],
  [("HolderGetCredentialValidity(Data)", "identity/holder/holder.go"), ("VerifyCredentialValidity/validateFreshness", "components/verifier/verifier.go"), ("RevokeClaim", "identity/issuer/issuer.go")])

p("C15", "Verification rejects every forged or altered credential",
  "A credential of existence or of validity in which any single component (claim content or header, identity, state, block number or time, any tree root, or any part of either proof) is changed or taken from another credential so that it no longer states a fact about the issuer's on-chain state is rejected. "
  "In particular a revoked claim cannot be passed off as unrevoked, nor an unissued claim as issued, nor can one identity's state vouch for another's claim. "
  "Rejection is an error, never a crash, whatever the credential contains.",
  ["inputs", "histories"],
  "All single-component substitutions and recombinations of components of genuine credentials from several issuers, claims and times.",
  "Tests alter two or three components of one credential.",
  ["components/verifier/verifier.go", "merkletree/merkletree.go", "core/proof/proof.go", "core/id.go"],
  [("VerifyCredentialExistence", "components/verifier/verifier.go"), ("VerifyCredentialValidity", "components/verifier/verifier.go"), ("RootFromProof", MT)])

p("C16", "An issuer reloaded from storage is the same issuer",
  "Loading an issuer (or holder) from its storage at any moment gives the same identity, trees, nonces, state history, on-chain knowledge and pending transition as the instance it replaces, and every later operation behaves as if there had been no restart. "
  "After a crash at any point of any operation the loaded issuer is in the state either before or after that operation or in a documented intermediate one from which the operation can be retried to completion. "
  "A creation interrupted by a crash can be repeated.",
  ["crash_points", "histories"],
  "All operation histories with a restart or crash at any storage commit.",
  "Tests reload once right after creation or one publication.",
  ["identity/issuer/issuer.go", "identity/holder/holder.go", "db/storageutils.go"],
  [("Create/Load", "identity/issuer/issuer.go"), ("load…/set… persistence helpers", "identity/issuer/issuer.go")])

p("C17", "The off-chain publication serves exactly the recent published states",
  "After any number of publications and with any cache size, the data served for each of the last cache-size published states is complete, belongs to that state and is the same as when published, and a request naming no state gets the latest one. "
  "Any other state is reported as not found. "
  "This holds across restarts, and a publication is visible entirely or not at all; what one reader does with the data, or the publisher with the data or configuration it gave, does not reach the others.",
  ["histories", "configurations", "crash_points"],
  "All cache sizes, numbers of publications (wrapping the cache many times), request orders and restarts or failed commits in between.",
  "Tests use the default size and wrap it once.",
  ["components/idenpuboffchain/writerhttp/writerhttp.go", "components/idenpuboffchain/local/local.go"],
  [("Publish/GetPublicData", "components/idenpuboffchain/writerhttp/writerhttp.go"), ("cache index arithmetic", "components/idenpuboffchain/writerhttp/writerhttp.go")])

p("C18", "Public data is accepted only if it matches the identity state it claims",
  "Reading published data, over HTTP or directly, yields trees whose roots combine to exactly the requested identity state and which answer membership questions as the issuer's trees did at that state. "
  "Data with any root, tree dump or state altered, missing, exchanged between states or truncated is rejected with an error, never silently accepted and never a crash; so is an address that leads nowhere. "
  "Later activity of the issuer does not change the data of an already published state.",
  ["inputs", "histories"],
  "All published histories and all single-component alterations, truncations and recombinations of published blobs.",
  "Tests only read back one unaltered publication.",
  ["components/idenpuboffchain/idenpuboffchain.go", "components/idenpuboffchain/readerhttp/readerhttp.go", "components/idenpuboffchain/local/local.go", "components/httpclient/httpclient.go"],
  [("NewPublicDataFromBlobs", "components/idenpuboffchain/idenpuboffchain.go"), ("GetPublicData", "components/idenpuboffchain/readerhttp/readerhttp.go"), ("ImportTree", MT)])

p("C19", "A one-time nonce works until it expires and is consumed at most once",
  "A stored nonce is found, with its latest attached data, exactly from the moment it was added until its expiration or its consumption, and consuming it succeeds at most once, also under concurrent use. "
  "Cleaning up removes exactly the expired nonces, at whatever moment and however often it runs, and never removes a live one, including one that was consumed and added again. "
  "Generated nonces are unique, and an object handed out is a copy of its own.",
  ["histories", "schedules"],
  "All sequences and interleavings of adding, attaching data, searching, consuming, cleaning and passing of time.",
  "Tests follow one short timeline in a single goroutine.",
  ["utils/noncedb/nonce_db.go"],
  [("Add/New/AddAux/Search/SearchAndDelete", "utils/noncedb/nonce_db.go"), ("DeleteOld/DeleteOldOportunistic and the expiration heap", "utils/noncedb/nonce_db.go")])

p("C20", "The key store keeps keys safe: persistent, passphrase bound, exclusively owned",
  "Every key reported as created or imported is still there, exportable and usable after closing and reopening, with its own passphrase and only that one, whatever other keys were added; a locked key can neither sign nor be exported, and an exported secret is the caller's: it stays what it was, and what is done with it does not affect the store. "
  "At most one open key store owns a given file at a time, whatever sequence of opens and closes happens, and closing releases it so that it can be opened again. "
  "A failed or interrupted write never loses keys stored before, and a key whose storage failed is not reported as stored.",
  ["histories", "fault_sequences", "crash_points"],
  "All sequences of open, create, import, unlock, export, sign, close (also repeated) by several owners of one file, with write failures.",
  "Tests use a single owner and never fail a write.",
  ["keystore/keystore.go"],
  [("NewKeyStore/Close, FileStorage lock", "keystore/keystore.go"), ("NewKey/ImportKey/UnlockKey/ExportKey", "keystore/keystore.go"), ("EncryptData/DecryptData", "keystore/keystore.go")])

p("C21", "Signatures bind exactly the key, message, prefix and date",
  "A signature made by the key store, by the identity signer, by an issuer or with an Ethereum key verifies for the same public key (or address), message, prefix and date it was made for. "
  "It fails for any other key, message, prefix or date, for any altered signature, and malformed signatures or keys are rejected with a negative answer or an error, never a crash. "
  "Encodings of signatures and public keys round trip.",
  ["inputs"],
  "All keys, messages (any length, including empty), prefixes, dates and single-component alterations.",
  "Tests sign one message and alter at most one component.",
  ["keystore/keystore.go", "crypto/signatures.go", "crypto/ecdsa_public_key.go", "components/idensigner/idensigner.go", "identity/issuer/issuer.go"],
  [("Sign/SignRaw/SignElem and Verify…", "keystore/keystore.go"), ("SignEthMsg/VerifySigEthMsg(Date)", "crypto/signatures.go"), ("SignEthMsg(Date)", "components/idensigner/idensigner.go"), ("SignState/SignBinary", "identity/issuer/issuer.go")])

p("C22", "Zero-knowledge artifacts are used only if they match their expected hashes",
  "A proving key, verification key or witness program is handed out only if the file on disk has the expected hash, whether it was already there or has just been downloaded; any mismatch is an error, on first and on every later use. "
  "A download that fails, for any reason including an error status or an interrupted transfer, is reported as an error and leaves no partial file that is later taken for the real one. "
  "Concurrent users of one directory each get complete, checked files.",
  ["inputs", "fault_sequences", "schedules"],
  "All combinations of present, absent, corrupted and partially downloaded files, server failures, retries and concurrent requests.",
  "Tests download the genuine files from the network.",
  ["utils/zk/zk.go"],
  [("download", "utils/zk/zk.go"), ("downloadCheckFile/checkHash", "utils/zk/zk.go"), ("Load…/ProvingKey/VerificationKey/WitnessCalcWASM", "utils/zk/zk.go")])

p("C23", "The on-chain client reports exactly what the contract recorded",
  "Queries for an identity's current state, or its state at a block or time, return the state, block and timestamp recorded by the contract for that identity, and the distinct not-found errors when there is none; any transport failure is an error and is never taken for absence. "
  "Submissions carry the identity, the states and the proof unaltered, and are confirmed by as many blocks as have passed since their inclusion; a failed or missing receipt is never counted as confirmation. "
  "The in-memory chain used for development follows the same rules, including rejection of transitions whose proof does not match.",
  ["histories", "fault_sequences", "inputs"],
  "All contract histories of several identities, queried blocks and times, receipt states and node failures.",
  "Tests of the real client need a running node; the in-memory one is used on one path.",
  ["components/idenpubonchain/idenpubonchain.go", "components/idenpubonchain/local/local.go", "eth/client.go"],
  [("GetState/GetStateByBlock/GetStateByTime", "components/idenpubonchain/idenpubonchain.go"), ("InitState/SetState/TxConfirmBlocks", "components/idenpubonchain/idenpubonchain.go"), ("Call/CallAuth/GetReceipt", "eth/client.go")])

p("C24", "Concurrent use of a tree or an issuer is linearizable",
  "When several goroutines use one tree or one issuer at the same time, every operation behaves as if it took effect at one instant between its call and its return: no insertion or revocation is lost, no reader sees a root, proof or credential that never corresponded to a state between two operations, and nothing deadlocks or crashes. "
  "This holds for both storage backends.",
  ["schedules"],
  "All interleavings of insertions, lookups, proofs, snapshots and dumps on a tree, and of issuing, revoking, publishing, synchronizing and credential generation on an issuer.",
  "Existing tests are single-threaded.",
  [MT, "identity/issuer/issuer.go", "db/memory.go"],
  [("tree lock", MT), ("issuer lock", "identity/issuer/issuer.go"), ("storage access", "db/memory.go, db/leveldb.go")])

p("C25", "A genesis-only identity never changes, and misconfiguration is refused",
  "An identity created as genesis-only refuses every operation that would change its trees or publish a state, and every credential generation, with the dedicated error and without any effect, for its whole life and across restarts. "
  "An identity that is not genesis-only cannot be loaded without its chain client, proof configuration and publication writer, each missing one giving its own error. "
  "Loading from a storage that holds no identity is an error and creates none.",
  ["histories", "configurations"],
  "All operations and restart sequences, all combinations of missing collaborators and storage contents.",
  "Tests check a few of the refusals once.",
  ["identity/issuer/issuer.go", "identity/holder/holder.go"],
  [("GenesisOnly checks", "identity/issuer/issuer.go"), ("Load argument checks", "identity/issuer/issuer.go")])

p("C26", "Zero-knowledge proofs are made from, and checked against, the true identity data",
  "The inputs given to the state-transition and credential-ownership circuits are exactly the identity, its key, the claimed states and roots and valid tree proofs of the key, the claim, its non-revocation and the claims root, for the issuer state on chain, padded to the requested levels or refused if they do not fit. "
  "A revoked or unpublished claim, or public data not matching the on-chain state, yields an error and no proof. "
  "A credential proof is accepted only if it verifies, its issuer state is the one on chain for that issuer at exactly the named block, and that state satisfies the freshness limit.",
  ["inputs", "histories"],
  "All claims, tree shapes (with and without neighbouring leaves, different depths), levels, states and freshness limits, and alterations of each public value.",
  "Tests generate one proof with the real circuits, after downloading them.",
  ["identity/holder/holder.go", "identity/issuer/issuer.go", "components/verifier/verifier.go", "utils/zk/zk.go"],
  [("HolderGetCredentialProofInputs/HolderGenZkProofCredential", "identity/holder/holder.go"), ("GenIdOwnershipGenesisInputs/GenZkProofIdenStateUpdate", "identity/issuer/issuer.go"), ("VerifyZkProofCredential", "components/verifier/verifier.go")])

p("C27", "Text and byte forms of values are exact, and malformed ones are refused",
  "Every value with a text or byte form (hexadecimal with and without prefix, base64 with and without padding, fixed-width integers in both byte orders, bitmaps, field elements and hashes as numbers, entry data, claims and claim types, tree leaves) comes back unchanged when its encoding is decoded, and different values have different encodings. "
  "Decoding a text of the wrong length, with foreign characters or otherwise malformed gives an error and never a value, and no input makes an encoder or decoder crash or change the caller's data. "
  "Hashing several byte strings is hashing their concatenation, and hashing fewer elements than the maximum is hashing them followed by zeros (with the key, if any, right behind them); too many elements are refused.",
  ["inputs"],
  "All values of every length the type admits, and all edits of their encodings.",
  "Tests check a handful of fixed examples of some of the encodings, and no malformed text.",
  ["common/common.go", "merkletree/utils.go", "merkletree/merkletree.go", "core/claims/utils.go", "core/claims/claim_types.go", "core/claims/revocationrootsleafs.go", "crypto/hash.go"],
  [("HexDecode/HexDecodeInto/Hex", "common/common.go"), ("Base64Decode/Base64ToBytes", "common/common.go"), ("SetBit/TestBit, Uint…ToBytes", "common/common.go"),
   ("Hash, Data and Entry text; HexsToData/BigIntsToData; HashElems/HashElemsKey", "merkletree/utils.go, merkletree/merkletree.go"),
   ("ClaimType text, claims in hexadecimal", "core/claims")])

p("C28", "The shared parts are atomic under concurrent use",
  "When several goroutines use one storage, one server of published states (or the local one), one nonce database, one key store or one local chain at the same time, every operation behaves as if it took effect at one instant between its call and its return. "
  "A batch appears in the storage at once and a listing shows one instant; a reader of public data is given the whole of one of the states still served, never a mixture; a nonce is consumed at most once and its data is attached at most once; no imported key is lost and a key is usable exactly while it is unlocked and the store open; the outcome and order of submissions to the local chain are those of one order of the calls. "
  "What a caller was given (a nonce object, an exported key, a chain state) is its own and isn't changed by others later; nothing races, deadlocks or crashes.",
  ["schedules"],
  "All interleavings of the operations of each of these parts by several goroutines, on both backends.",
  "Existing tests of these parts use one goroutine.",
  ["db/memory.go", "db/leveldb.go", "components/idenpuboffchain/writerhttp/writerhttp.go", "components/idenpuboffchain/local/local.go", "utils/noncedb/nonce_db.go", "keystore/keystore.go", "components/idenpubonchain/local/local.go"],
  [("transactions, listings", "db/memory.go, db/leveldb.go"), ("Publish/GetPublicData", "components/idenpuboffchain"), ("Add/AddAux/Search/SearchAndDelete/DeleteOld", "utils/noncedb/nonce_db.go"),
   ("ImportKey/UnlockKey/SignElem/ExportKey/Close", "keystore/keystore.go"), ("InitState/SetState/Sync/GetState/TxConfirmBlocks", "components/idenpubonchain/local/local.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
