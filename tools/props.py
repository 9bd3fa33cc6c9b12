TECH = "path-sensitive must-fact dataflow with value numbering over go/ssa (whole-program, unexported callees inlined)"
NOTES = "One analyzer (analyzer/, built by setup.sh from source) reads /repo's current source through go/packages and go/ssa on every run; nothing of /repo is executed. See DESIGN.md."
TRUST = " Trusts the type checker, go/ssa, the analyzer's transfer functions and the contracts of opaque calls (each of which another property decides); says nothing about the strength of the primitives."
T, A = "tree/transparency/", "tree/transparency/algorithms/"
PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", title="A client only ever adopts a tree head the service operator signed",
  statement="Whenever a client stores a tree head taken from a response, the operator's signature over exactly the client's configuration, that tree size and the root recomputed from the verified proof was checked under the configured key, and the tree head is strictly larger than the one retained. A response that carries no tree head is accepted only by a client that already retains one, which is then kept unchanged.",
  over=["inputs", "histories", "configurations"], text="every response bytes, retained state, configuration and call sequence, for search, monitoring, owner initialisation and updates",
  why="Tests drive a few honest exchanges; whether any path stores an unverified or older head depends on adversarial responses and on every branch of five verification routines.",
  files=[T+"client.go", T+"client_crypto.go"], mech=[("fullTreeHead / verifyTreeHead / finish", T+"client_crypto.go"), ("the five response handlers", T+"client.go")],
  note="Decides on every path to every store of client state that the signature check over (config, size, recomputed root) succeeded and that the size grew."+TRUST)
P(id="C02", title="Auditor tree heads are checked exactly when third-party auditing is configured",
  statement="With third-party auditing a new tree head is adopted only together with an auditor tree head whose signature over the configuration, its timestamp, its size and the root of the log at that size verifies under the auditor's key, whose size does not exceed the new tree, whose timestamp is not after and not more than the allowed lag before the newest log entry, and, if state is retained, only if the retained auditor head is consistent with the configured start. In every other mode an auditor head is refused, and the auditor head retained is exactly the one that was verified.",
  over=["inputs", "histories", "configurations"], text="every response, retained state and deployment mode",
  why="Tests do not run the auditing mode end to end with a malicious server; each missing comparison is invisible to honest exchanges.",
  files=[T+"client_crypto.go", T+"client.go"], mech=[("auditor head checks", T+"client_crypto.go")],
  note="Decides the presence rule, signature, size, time window and the stored value on every path to every store of client state."+TRUST)
P(id="C03", title="Every accepted response is consistent with the state the client retains",
  statement="Before anything from a response is kept, the retained subtree roots and log entries have been given to the proof verification, the view has been updated from the retained size to the new one, and the combined inclusion and consistency proof was evaluated for exactly the new, retained and auditor tree sizes without error. What the client retains afterwards is exactly the subtrees and log entries that this verification produced.",
  over=["inputs", "histories"], text="every response and every retained state, in every handler",
  why="A skipped consistency check leaves every honest exchange unchanged; only a forked log reveals it.",
  files=[T+"client.go", T+"client_crypto.go", A+"data_provider.go"], mech=[("AddRetained/UpdateView/Finish sequence", T+"client.go")],
  note="Decides that the calls happened with exactly these arguments and without error before each store, and that their results are what is stored."+TRUST)
P(id="C04", title="Client state is stored once, after complete verification, and never otherwise",
  statement="A verification that succeeds has written the client's state exactly once, in one write; a verification that fails has written nothing, unless the write itself is what failed, in which case that error is returned. Preparing a request never writes state, and state about a label is written only under the label the exchange was about.",
  over=["inputs", "fault_sequences", "histories"], text="every response, every failing store operation, every path of every client operation",
  why="Tests use a store that never fails and look at the result of a few exchanges, not at the writes on the error paths.",
  files=[T+"client.go"], mech=[("PutState/PutLabelState calls", T+"client.go")],
  note="Decides write-after-verify, write-once and write-nowhere-else over every path and every call site of the client store's write operations."+TRUST)
P(id="C05", title="A search result is bound to the label, version and value that were committed",
  statement="A search is accepted only if every step of the complete binary ladder for the version carries a verifiable VRF proof for the requested label and that step's version, the step of the version itself has the commitment recomputed from the returned opening, label, version and value, and the search over the proof succeeds for that version and tree size. With third-party management the value must carry a valid signature of the leaf key over configuration, label, version and value; in other modes a signature is refused.",
  over=["inputs", "configurations"], text="every response to a greatest-version or fixed-version search",
  why="Tests check honest answers; substituting a value, a version or a step needs an adversarial server.",
  files=[T+"client.go", T+"client_crypto.go"], mech=[("search verification", T+"client.go"), ("ladder verification", T+"client_crypto.go")],
  note="Decides for all ladder steps (quantified over the loop index) that the VRF output and the commitment given to the proof verification are the verified ones."+TRUST)
P(id="C06", title="What a client remembers about a label comes from verified monitoring only",
  statement="State stored about a label is exactly what the monitoring algorithms produced from the state retained for that label, with every retained version's VRF output and commitment given to the verification first and kept afterwards. A search adds the searched version at the position where it was found only when a newer or equal obligation is not already there, drops an obligation only when one on its direct path covers it, and omits label state only when no monitoring can be required.",
  over=["inputs", "histories"], text="every response, retained label state, label and handler",
  why="Label state accumulates over many exchanges; tests store and reload a handful of states.",
  files=[T+"client.go", A+"monitor.go"], mech=[("label state handling", T+"client.go")],
  note="Decides the data flow from retained label state through the algorithms into the stored bytes on every path."+TRUST)
P(id="C07", title="An owner accepts an update only if it is exactly what was requested",
  statement="After an update request the owner accepts only as many new versions as values were submitted (or, when the service chose the values, as many as it returned), numbered consecutively after the greatest version known, each with a commitment recomputed from opening, label, version and value and included in the verified tree, and, with third-party management, each with a valid leaf-key signature over that version. Every ladder entry has a verified VRF proof for the label, and a commitment sent by the server is used only for versions that are not part of the update; owner initialisation requires the same of the greatest versions it learns.",
  over=["inputs", "histories", "configurations"], text="every update response, every number of values and retained owner state",
  why="Tests send a single honest update of one value; swapped, renumbered or foreign versions need a malicious server.",
  files=[T+"client.go", T+"client_crypto.go"], mech=[("update verification", T+"client.go")],
  note="Decides per value (quantified over the loop index) the version number, the commitment and the signature that are fed to the verification."+TRUST)
P(id="C08", title="Every element of a proof is used exactly once and nothing is left over",
  statement="Each timestamp, prefix-tree root and prefix proof of a combined proof is consumed in order by exactly one step of the verification; a proof with too few elements or with elements left at the end is rejected. Each prefix proof is evaluated against exactly the versions, VRF outputs and commitments the step is about, inclusion is demanded where the step requires presence, and the tree root used afterwards is the one evaluated.",
  over=["inputs"], text="every combined proof, ladder and version",
  why="Tests only see proofs of the right length with the right content.",
  files=[A+"proof_handle.go"], mech=[("ReceivedProofHandle", A+"proof_handle.go")],
  note="Decides consumption, emptiness at the end and the entries evaluated, for all steps of a ladder."+TRUST)

P(id="C09", title="Log entry timestamps are monotonic and all entries are hashed into one tree",
  statement="Every log entry position has one timestamp and one prefix tree root throughout a verification, whatever order they are learned in; timestamps never decrease with the position, also with respect to what the client retained; a second prefix tree root for a position must equal the first. Verification ends only after every log entry that was learned (other than the retained ones) was hashed with its timestamp and prefix tree root, missing roots were taken from the proof, and the log proof was evaluated for exactly those positions and hashes against the retained subtrees; what is handed back for retention is the frontier of the new size.",
  over=["inputs", "histories"], text="every combined proof, retained state and order of access",
  why="Each comparison matters only when the server lies about one position out of many; honest exchanges never make two answers disagree.",
  files=[A+"data_provider.go"], mech=[("DataProvider", A+"data_provider.go")],
  note="Decides each accessor and Finish on every path, with quantification over the maps of known timestamps and roots."+TRUST)
P(id="C10", title="A view advances over every frontier entry, and only to a current newest entry",
  statement="When a client moves from one tree size to another it never moves backwards, it reads the timestamp of every log entry on the path given by the update-view rule, and it accepts the new view only if the timestamp of the rightmost log entry is neither further behind nor further ahead of the local clock than the configuration allows; a view within these bounds is not refused.",
  over=["inputs", "configurations", "histories"], text="every pair of sizes, clock value and tolerance",
  why="Clock bounds and skipped frontier entries show only for stale or forked views, which tests do not produce.",
  files=[A+"algorithms.go"], mech=[("UpdateView", A)],
  note="Decides the size guard, the reads of every position on the path and both clock bounds."+TRUST)
P(id="C11", title="A search walks the tree as prescribed and answers only what ladders support",
  statement="The greatest-version search accepts only if the ladder of the rightmost log entry proves exactly that version as the greatest, no entry on the path from the rightmost distinguished entry shows a greater version, and the terminal entry is the first on it that shows the version. The fixed-version search follows the implicit binary search over the log, going left or right exactly as the ladder of each unexpired entry says, skips expired entries only rightwards, accepts an expired terminal entry only if an unexpired distinguished entry lies to the left as the protocol demands, and ends with an inclusion proof for the version when no entry answered exactly. The rightmost and previous rightmost distinguished log entries are computed over the same walk.",
  over=["inputs", "configurations"], text="every tree size, version, ladder outcome and timestamp assignment",
  why="The walk depends on tree shape, expiry and distinguished intervals; tests use small trees with uniform timestamps.",
  files=[A+"search.go"], mech=[("GreatestVersionSearch, FixedVersionSearch, RightmostDistinguished, PreviousRightmost", A)],
  note="Decides the walks as invariants over the loop iterations; the arithmetic of the implicit tree itself is trusted."+TRUST)
P(id="C12", title="Monitoring inspects what it must and never moves past what it has not inspected",
  statement="Monitoring of a version verifies the ladder at every log entry on its direct path up to the first distinguished one, each entry only once and always for the greatest version due there; owner monitoring visits the distinguished entries in order, rejects a ladder that shows a greater version than the owner created, and advances its starting position, version and pending versions only together and only for entries inspected. Owner initialisation checks one ladder per distinguished unexpired entry, in decreasing order of versions, and starts from nothing else. An update is verified at its own position, at every entry between the previous tree and it, and its new versions are proved included and added to what is monitored. Failure leaves the retained state as it was.",
  over=["inputs", "histories", "configurations"], text="every tree size, retained monitoring state, ladder outcome and position",
  why="A skipped entry is invisible unless the server equivocates exactly there; the state spans many exchanges.",
  files=[A+"monitor.go"], mech=[("Monitor", A+"monitor.go")],
  note="Decides every path of the monitoring algorithms, recursion by induction over the call."+TRUST)
P(id="C13", title="A log proof recomputes the root from exactly the proved and retained nodes",
  statement="A log proof is accepted only if sizes and positions are in range, it has exactly the elements the copath of the proved entries, the retained tree and the additional tree requires, each of hash size; every node learned twice has the same value; every parent is recomputed from its two children with a hash that encodes which child is a leaf; the returned full subtree values are those of the new and of the additional tree. The root of a tree is the fold of its full subtrees in order, also encoding leaves.",
  over=["inputs"], text="every proof, tree size, retained size and set of entries",
  why="Each missing check admits forged proofs only; honest proofs still verify.",
  files=["tree/log/verify.go", "tree/log/log.go"], mech=[("Verifier", "tree/log/verify.go"), ("Root, treeHash", "tree/log")],
  note="Decides the checks and the dataflow of node values; the numbering of the tree nodes is trusted."+TRUST)
P(id="C14", title="A prefix proof is canonical and recomputes the root from the searched entries",
  statement="A prefix tree proof is accepted only if entries have well-sized, distinct keys, there is one result per entry, inclusion results agree with the key found, a non-inclusion leaf differs from the searched key and lies on its path, depths agree with the reconstructed shape, and all copath elements are consumed. Leaves, parents and empty nodes are hashed with distinct domains over key and commitment, and a before/after evaluation derives the second root from the first by exactly the stated additions and removals, with agreeing results for a key that is both.",
  over=["inputs"], text="every proof and every set of searched, added and removed entries",
  why="Non-canonical and cross-key proofs never occur in honest exchanges.",
  files=["tree/prefix/verify.go", "tree/prefix/nodes.go", "tree/prefix/proof.go"], mech=[("Evaluate, EvaluateBeforeAfter", "tree/prefix/verify.go")],
  note="Decides every check and the construction of the skeleton as invariants over the path of a key."+TRUST)

P(id="C15", title="A VRF output is accepted only with a complete proof for key and input",
  statement="Verifying a VRF proof returns an output only if the proof has exactly the canonical length, its point and scalars decode canonically, the public key decodes to a valid key, and the challenge recomputed from the public key, the input's curve point, the proof's point and both recombined commitments equals the challenge in the proof; the output is the hash of the proof's point and of nothing else that the prover chooses. Proving produces exactly such a proof from the private key and the input, with a nonce derived from both. This holds for both supported curves, and points at infinity and non-canonical encodings are refused.",
  over=["inputs"], text="every key, input and proof, both curves",
  why="A proof with a reused or omitted component still verifies in every honest test; only forged proofs show it.",
  files=["crypto/vrf/p256/p256.go", "crypto/vrf/edwards25519/edwards25519.go"], mech=[("Prove, Verify, challenge and nonce generation", "crypto/vrf")],
  note="Decides the dataflow of each component through challenge, comparison and output for both curves; group arithmetic is the library's."+TRUST)
P(id="C16", title="Commitments and signatures bind every byte of what they cover",
  statement="A commitment is the keyed hash, under the suite's fixed key, of the opening followed by the committed body; it verifies only if recomputing it from opening and body gives the same bytes, and openings are random and of the suite's size. Each cipher suite parses keys only of its own curve and encoding, signs and verifies over the whole message as given (hashed where the scheme demands it), reports success only if the library verified the signature of canonical length, and names its own identifier, hash and VRF.",
  over=["inputs"], text="every message, key, signature, label and value",
  why="Ambiguous encodings and ignored verification results are invisible to honest use.",
  files=["crypto/commitments/commitments.go", "crypto/suites"], mech=[("commitments", "crypto/commitments"), ("suites", "crypto/suites")],
  note="Decides what is hashed, signed and compared on every path of every suite."+TRUST)

P(id="C17", title="Every encoding is read back as written, and writes everything it must",
  statement="For every wire, signed, hashed and stored structure, encoding a value that was decoded writes exactly the bytes that were read: the same fields in the same order, widths, length prefixes and option flags, so that decoding is the inverse of encoding and no two encodings mean the same value. Every field of a structure is written, in particular every field of the public configuration that tree head signatures cover, every list element and every prefix tree node, tile and proof element.",
  over=["inputs"], text="every value of every structure, and every byte string",
  why="Round-trip tests sample a few values; a swapped field, a lost option or a length prefix of the wrong width shows only for values no test has, or once stored state is read back.",
  files=[T+"structs", "tree/prefix/nodes.go", "tree/prefix/proof.go", T+"auditor/state.go"], mech=[("decoder and encoder pairs", T+"structs"), ("tiles and prefix proofs", "tree/prefix")],
  note="Runs each encoder abstractly on the value that its decoder returns and compares, part by part, what is written with what was read, on every path; list lengths and contents are arbitrary."+TRUST)
P(id="C18", title="Decoding is total: no crash, no unbounded allocation, no ignored data",
  statement="No byte string makes a decoder of a wire, state or storage structure index, slice, dereference or divide out of range, or allocate more than 64Ki elements beyond the size of its input. Stored state, tree heads, log entries, label values and prefix tree tiles are accepted only if their encoding ends exactly where the stored data ends, and are used only if decoding succeeded.",
  over=["inputs"], text="every byte string given to every decoder",
  why="Malformed input is unbounded in kind; unit tests decode what the encoders produced.",
  files=[T+"structs", "tree/prefix/nodes.go", "tree/prefix/proof.go", T+"auditor", T+"client.go", T+"crypto.go", T+"transparency.go"], mech=[("decoders", T+"structs"), ("loading of stored state", T)],
  note="Obligations are all index, slice, dereference, division, assertion and allocation sites reached from the decoders, discharged from the facts of every path that reaches them."+TRUST)
P(id="C19", title="A mutation changes label, index, log and prefix tree consistently or not at all",
  statement="A mutation validates every label of the request before it writes anything, refuses removals of versions that are not yet eligible for removal and logs no entry older than the newest one. When it succeeds, the prefix tree was changed by exactly the added and removed versions' VRF outputs and commitments, the new log entry holds the resulting root, every value is stored under its label and consecutive version with the opening its commitment was computed from, every label's index lists exactly the positions its versions were added at, removed versions and indexes are deleted, and the update handed to auditors describes precisely this change.",
  over=["inputs", "histories"], text="every set of additions and removals, index contents and prior tree head",
  why="Tests mutate a few labels once; grouping, repeated labels, mixed removal and addition and version numbering multiply beyond samples.",
  files=[T+"transparency.go", T+"mutate.go"], mech=[("Mutate, groupByLabel, mutateLabel", T+"mutate.go")],
  note="Decides the dataflow from the request through grouping and the store into the trees, for all labels and versions."+TRUST)
P(id="C20", title="Every tree head the server issues is signed over the root of the appended log",
  statement="Issuing a tree head stores the new log entry under its position, appends the hash of precisely that entry to the log, computes the root of the extended log, and signs, with the operator's key, exactly the public configuration, the new tree size and that root; the stored tree head is that one, and the head that the server gives out changes to it only after the commit succeeded.",
  over=["inputs", "histories", "configurations"], text="every tree, entry and configuration",
  why="A head over the wrong size, root or configuration is noticed only by clients that hold different state.",
  files=[T+"mutate.go", T+"crypto.go"], mech=[("issueTreeHead", T)],
  note="Decides every argument of the signature and of the store operations on every successful path."+TRUST)
P(id="C21", title="The server answers with exactly the proof requested, for the current head",
  statement="Every answer carries the current tree head unless the client already has it, a proof that updates the client's view from the size it said it has, and, for each step of the binary ladder, the proof for the requested label and that step's version; a search returns the opening and value stored for the version found. Monitoring entries are accepted only when strictly ordered and only at positions on the direct path of an existing version. Owner initialisation reports the greatest version present at each entry it walks and opens a ladder for all of them; owner monitoring relies only on versions the owner said it knows. Nothing is revealed about commitments that the client is not to learn.",
  over=["inputs", "histories"], text="every request, label history and tree size",
  why="Requests come from anyone; tests only send well-formed requests from the bundled client.",
  files=[T+"transparency.go", T+"monitor.go"], mech=[("Search, ContactMonitor, OwnerInit, OwnerMonitor", T)],
  note="Decides request validation and the provenance of every field of every answer."+TRUST)
P(id="C22", title="An update stream is authorised, ordered, complete and always ends",
  statement="Updates are taken from users only when the log manages its own values, and from the service operator, with a valid leaf signature for every value under its own version, only under third-party management. The stream first answers every version the user does not know, in order and grouped by log entry, then submits exactly the requested values, and after they are sequenced answers from a reloaded tree that contains them. Every response carries the openings, values, ladder and position of precisely the versions of its log entry and a proof for the current head; every stream ends by closing its channel, and ends early only after an error was sent, the submission failed or the user went away.",
  over=["inputs", "histories", "schedules"], text="every request, index, sequencing outcome and cancellation point",
  why="The streaming paths have no end-to-end unit test; grouping by log entry, versions created concurrently and cancellation depend on history and schedule.",
  files=[T+"update.go", T+"monitor.go"], mech=[("Update, ManagerUpdate, updater", T+"update.go")],
  note="Decides what is accepted, submitted and sent on every path, with the channel operations as events; a known finding (owner state never set) is recorded and every other rule still decided."+TRUST)

P(id="C23", title="The auditor advances only on legitimate updates and signs only what it checked",
  statement="The auditor accepts an update only if its timestamp does not go backwards, the added and removed entries are strictly sorted, the proof has one result per entry, every added entry is new or replaces one removed in the same update, every removed entry is present and was published in a distinguished log entry, and the proof gives the prefix root the auditor holds. It then appends precisely the entry with the timestamp of the update and the computed new root, and remembers exactly the recently inserted entries that are not yet published. A refused update changes nothing. The head it signs covers the size, timestamp and root of that log under its configuration, and becomes visible only once it is stored.",
  over=["inputs", "histories", "crash points"], text="every update, retained state and failure of storage",
  why="Tests replay honest updates; a skipped check only admits malicious ones, and the memory of recent insertions depends on long histories.",
  files=[T+"auditor/auditor.go", T+"auditor/state.go"], mech=[("Process, updateState, Commit", T+"auditor/auditor.go"), ("mergeInserted, addedSince", T+"auditor/state.go")],
  note="Decides every check and the provenance of every field of the new state on all paths; the merge is decided as an invariant of each iteration. The rules for distinguished entries are decided elsewhere (C11, C12)."+TRUST)
P(id="C24", title="No failure is swallowed: nothing reports success after a step that failed",
  statement="From every call that can fail, on every path of the function that makes it, the error is looked at before the function reports success, and if it is not nil the function reports a failure too, unless the error was handed on. This holds for storage, decoding, proof verification, signing and every other operation, in the client, server, auditor and their libraries.",
  over=["inputs", "faults"], text="every call site, fault and path",
  why="Each dropped error needs its own fault to show, and tests inject almost none.",
  files=["tree", "crypto", "db"], mech=[("every function that calls something that may fail", "tree/transparency")],
  technique="path-sensitive dataflow of error values over go/ssa control flow graphs",
  note="Decides each call site of each function; errors that are handed to another call or stored count as handled there. Calls that document a nil error (hashes, memory buffers) are left out."+TRUST)
P(id="C25", title="No message from a peer makes a client, server or auditor crash",
  statement="No response makes a client, and no request makes a server, and no update makes an auditor index or slice out of range, dereference an absent optional part, or divide by zero, whatever lists are empty, too short or too long and whatever optional parts are missing. Walks over the log entries ask for a child or the parent only of a node that has one.",
  over=["inputs"], text="every request, response, proof and audit update that can be decoded",
  why="Crashes need malformed messages, which tests do not send: one unchecked length is a remote denial of service.",
  files=[T+"client.go", T+"client_crypto.go", T+"transparency.go", T+"monitor.go", T+"update.go", T+"algorithms", "tree/prefix/verify.go", "tree/log/verify.go", T+"auditor/auditor.go"], mech=[("response handlers", T+"client.go"), ("request handlers", T+"transparency.go"), ("proof handles", T+"algorithms/proof_handle.go")],
  note="Obligations are the index, slice, dereference and division sites reached with values from the peer that the analysis knows precisely; values known only as the outcome of a loop are left out, as are explicit panics on internal misuse."+TRUST)
P(id="C26", title="The stores return what was last stored under the same identifier",
  statement="Reading an entry of a store returns exactly what was last written under that identifier (label, label and version, position, tree node, tree head) and not removed since, absence is reported as absence and not as a failure, and no failure as absence; entries of different identifiers or kinds never share a key. With the on-disk store, writes are visible to their writer at once, to others only after a commit, which writes all of them in one synchronous batch, and a read-only clone never writes; stored and returned values are not shared with the caller. The counter of a label's versions starts at -1 and hands out each number once.",
  over=["histories", "inputs", "fault_sequences"], text="every sequence of puts, deletes, commits and reads over every identifier, and every failure of the database",
  why="Tests store a handful of entries with short labels and never meet a key collision, a failing database or a process that stops between two writes.",
  files=["db/leveldb.go", "db/memory/memory.go"], mech=[("keys and pending batch", "db/leveldb.go"), ("maps", "db/memory/memory.go")],
  note="Decides the key of every read, write and removal as a text over the identifiers (equality, injectivity, disjointness of kinds), what the commit writes, and the meaning of missing entries; trusts LevelDB's own atomicity."+TRUST)
P(id="C27", title="Roles and configurations: only complete ones run, only the right key signs",
  statement="A client runs only with a configuration whose mode has exactly the keys it needs and whose lifetime exceeds the monitoring window, and refuses no other; a managed log runs only in third-party management with the private key that belongs to the published leaf key. The operator of a managed log signs, with that key, exactly (configuration, label, number, value) for numbers that were reserved before, each for one value, and submits those signatures in order; all other requests pass unchanged. A server starts from the stored tree head, entirely decoded, and uses an auditor head only in auditing mode; what it publishes of its configuration are the public halves of its own keys. A log entry is expired, or distinguished, exactly by the configured durations.",
  over=["inputs", "configurations", "histories"], text="every configuration, request and stored state",
  why="Tests use a few complete configurations; a mode run with missing keys, a number signed twice, or an off-by-one window fails only in deployment.",
  files=[T+"client.go", T+"managed/managed.go", T+"structs/config.go", T+"transparency.go"], mech=[("NewClient", T+"client.go"), ("ManagedLog", T+"managed/managed.go"), ("Config", T+"structs/config.go")],
  note="Decides the condition of every accepting and refusing path of the constructors and every argument of the signatures."+TRUST)
P(id="C28", title="The stored log is append-only and every proof is read from what was stored",
  statement="Appending an entry adds exactly its leaf and the hashes of the subtrees it completes, computed from their two children, and stores every chunk it touched; chunks that already hold siblings are extended, never replaced, and stored hashes of other nodes stay as they are. A batch proof is given only for distinct positions inside the tree and valid sizes, and consists of the nodes that the verifier will ask for, in that order, each read from its own chunk; a chunk that is missing or malformed is an error, never a made-up hash. Adding a leaf to a list of subtree roots carries exactly as a binary counter does.",
  over=["inputs", "histories"], text="every tree size, entry and stored chunk",
  why="Tests append a limited number of entries; chunk boundaries, partially filled chunks and sizes past powers of sixteen multiply beyond samples.",
  files=["tree/log/log.go", "tree/log/chunk.go"], mech=[("Tree.Append, Tree.GetBatch, Append", "tree/log/log.go"), ("chunks", "tree/log/chunk.go")],
  note="Decides the node that every write and read addresses and where each value comes from, on every path, over uninterpreted tree arithmetic; rules that read the loops of the chunk parser and of the carry are undecided (not violated) where those loops are rewritten in another form."+TRUST)
P(id="C29", title="The stored prefix tree changes only as asked and is read back faithfully",
  statement="A mutation adds exactly the given entries to the previous version of the prefix tree and removes exactly the given VRF outputs, refuses an entry that is already there, a removal of one that is not, and duplicates, and leaves every other leaf in place; the new version is written as tiles of which each is stored under its own identifier, every subtree cut off is linked by the hash it has and by the identifier of the tile it goes to, and no existing tile is overwritten. A search descends by the bits of its VRF output, fetches exactly the tiles it lacks, puts each at the place the link to it was, and reports inclusion or the kind of non-inclusion with the depth and the siblings that the tree really has, for each VRF output in turn. A change never depends on a node of the old tree that its proof shows only as a hash, so whoever checks the proof computes the same new root.",
  over=["inputs", "histories"], text="every history of insertions and removals, every set of searches and every way the tree is cut into tiles",
  why="Tests build a few small trees; tile boundaries, entries that share long prefixes, and several searches in one batch multiply beyond samples.",
  files=["tree/prefix/prefix.go", "tree/prefix/batch.go", "tree/prefix/nodes.go", "tree/prefix/proof.go"], mech=[("Tree.Mutate, Tree.Search", "tree/prefix/prefix.go"), ("batch", "tree/prefix/batch.go"), ("tiles", "tree/prefix/nodes.go"), ("proofBuilder", "tree/prefix/proof.go")],
  note="Decides the shape of every step: which child each entry, removal and search goes to, what each node is replaced with, which tile each link names. One recorded finding: a removal lifts a sibling leaf that the proof shows as a bare hash."+TRUST)
P(id="C30", title="Tree arithmetic: every node number computed is the right one",
  statement="For every tree size and every node, the functions that compute with node numbers give the node they are named after: levels, roots, children, parents, siblings, direct paths, copaths, full subtrees, storage chunks, the frontier, the entries that a client must see when the tree has grown, and the minimal set of nodes that proves a batch of leaves together with an old and an intermediate tree. Both copies of this arithmetic, the one of the stored log and the one of the search, agree with the definition of the left-balanced tree.",
  over=["inputs"], text="every tree size and node number of 64 bits (levels 0 to 62)",
  why="Tests check a few sizes; a wrong carry, shift or comparison shows only for sizes of a certain shape, and prover and verifier would be wrong together.",
  files=["tree/log/math/math.go", T+"math/math.go"], mech=[("node arithmetic of the stored log", "tree/log/math/math.go"), ("node arithmetic of the search", T+"math/math.go")],
  technique="abstract interpretation over a bit-level domain (known, free and equal bits) and path-sensitive dataflow over go/ssa",
  note="The functions on single nodes are interpreted abstractly over words whose bits are known, free or copies, for every level and every shape of size, so that all 2^64 inputs are covered; the functions that build lists are decided as facts about every iteration over the former. Rules on list-building loops are undecided (not violated) where the loops are rewritten in another form."+TRUST)
P(id="C31", title="Binary ladders: the right versions are looked up and read the right way",
  statement="For every target version, the base ladder is 0, 1, 3, 7, and so on up to the first version above the target (or the greatest number there is), followed by the bisection between the last two, which ends with neighbours. A search ladder is a prefix of it in its order, without exactly the lookups already answered to the left (present) or to the right (absent), and ends with the first lookup that differs from the target's; a monitoring ladder is exactly the part that must be present. Results are read as less, equal or greater exactly when each agrees with that reading and none is missing or left over; recorded answers count only to the right of present ones and to the left of absent ones.",
  over=["inputs", "histories"], text="every target version, greatest version, set of answers and list of results",
  why="Tests use small version numbers in a few orders; powers of two, the greatest number, repeated lookups in the same request and truncated or extended results multiply beyond samples, and prover and verifier share this code.",
  files=[T+"math/ladders.go", T+"math/tracker.go", "tree/prefix/proof.go"], mech=[("ladders", T+"math/ladders.go"), ("VersionTracker", T+"math/tracker.go")],
  note="Decides each step of each loop and the condition under which it ends, on every path; rules on a loop that is rewritten in another form are undecided (not violated)."+TRUST)

P(id="N01", title="Nobody without the keys can forge, open differently, or predict outputs",
  statement="Signatures cannot be forged, commitments cannot be opened to two values, VRF outputs of labels that were not asked for cannot be told from random, and no two inputs of the tree hashes collide.",
  over=["inputs"], text="every adversary without the private keys", why="An assumption about computation, not about this source.",
  files=["crypto/suites/suites.go"], mech=[("cipher suites", "crypto/suites/")], note="",
  na="A computational assumption on Ed25519, P-256, SHA-256 and HMAC: no static argument about this source decides it. That the primitives are given every byte, and their verdict is obeyed, is decided in C15 and C16.")

P(id="N02", title="Every honest answer is accepted, whatever the history",
  statement="For every history of mutations and every client state that earlier honest answers led to, the answer of an honest server is accepted by the client, the auditor and the manager.",
  over=["inputs", "histories"], text="every history of mutations and requests", why="Tests sample a few histories of a few entries.",
  files=[T+"transparency.go", T+"client.go"], mech=[("server and client", T)], note="",
  na="A relation between two programs over unbounded histories, which includes that two independent traversals of the same tree give equal hashes; no static abstraction in reach relates them. The local conditions it rests on are decided: codecs (C17), what answers contain (C21), ladders (C31), node arithmetic (C30), what the stored trees hold (C28, C29).")

P(id="N03", title="Two users who are shown different histories find out",
  statement="If the service shows two users, or a user and the auditor, histories of which neither extends the other, then some verification of one of them fails within the allowed lag.",
  over=["histories"], text="every history of answers to several users", why="It takes several users and a service that lies to them consistently.",
  files=[T+"client.go", T+"auditor/auditor.go"], mech=[("gossip", T)], note="",
  na="A statement about several parties over time; nothing in this repository exchanges or compares tree heads of different users. What one party can check alone is decided in C01-C03, C10, C12 and C23.")

P(id="N04", title="No secret influences the time an operation takes",
  statement="The running time and memory accesses of signing, VRF evaluation and commitment do not depend on private keys, openings or values.",
  over=["inputs"], text="every key and input", why="Tests do not measure time.",
  files=["crypto/vrf/p256/p256.go"], mech=[("Prove", "crypto/vrf/p256/")], note="",
  na="math/big, which the P-256 VRF computes with, is not constant-time by documentation, so a sound rule would reject the tree as it is and there is no repair in reach; and timing is decided below the source level.")

P(id="C32", title="A request states exactly what the client retains and asks",
  statement="Every request names the size of the tree head that the client retains, or none if it retains none; a search names the label and the version asked for; owner initialisation starts at the rightmost distinguished log entry of the retained tree and is refused for a label already owned; monitoring takes up a stale label with exactly the positions, versions, owner's start and greatest version retained for it, and asks for nothing only when no label is stale; an update names the greatest version known and exactly the values given, in order, and is refused for a label that is not owned.",
  over=["inputs", "histories"], text="every retained state, label, version and list of values",
  why="The answer is verified against the request: a request that misstates the client's state makes honest answers fail, or lets monitoring skip what it must inspect, for histories the tests do not build.",
  files=[T+"client.go", T+"client_crypto.go"], mech=[("GreatestVersionSearch, FixedVersionSearch, OwnerInit, Monitor, Update", T+"client.go")],
  note="Decides each field of each request on every path that returns one, as a term of the stored state and the arguments. The store's choice of a stale label is C26, and that the answer is verified for this request C01-C07."+TRUST)
