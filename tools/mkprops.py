#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "A file read returns exactly the authenticated plaintext, or an error",
  "For every byte string the remote may hold for a file, reading that file through the proxy either fails and yields no data, or yields exactly the in-order concatenation of the plaintexts of its ciphertext blocks, the file having a header of the current format version with a non-zero file ID and every block having authenticated under its own block index and that file ID. The only bytes returned without authentication are zeros standing for a full-size all-zero ciphertext block (file hole); a stored file with nothing behind the header (or shorter than a header) reads as empty. Reading never alters the ciphertext it was given, so reading the same stored bytes again gives the same answer.",
  ["inputs"], "all stored byte strings of any length, all file IDs, all block counts, all previous contents of recycled buffers",
  "There is no test of file decryption at all: filetree tests cover only the path cache, contentenc tests only range splitting on seven sample ranges.",
  ["filetree/decrypt.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/file_header.go", "gocrypt/contentenc/bpool.go"],
  [("header check, block loop, copy out of the pooled buffer", "filetree/decrypt.go decryptFile, readFileID"),
   ("per-block nonce/tag/AD handling and hole passthrough", "gocrypt/contentenc/content.go DecryptBlocks, DecryptBlock")],
  ["bytes and error returned by a file read"])

p("C02", "Content encryption and decryption are inverse",
  "Any sequence of non-empty plaintext blocks encrypted for a file ID and a starting block number, one block at a time or as a batch of any size, decrypts block by block and as a whole to exactly the original bytes under the same file ID and starting block number. Each encrypted block is nonce, ciphertext and tag, longer than its plaintext by exactly the fixed per-block overhead, and batch output keeps the order of the input.",
  ["inputs", "schedules"], "all plaintexts, block numbers, file IDs, batch sizes (including those that are encrypted by several goroutines)",
  "No existing test encrypts or decrypts a block; the parallel split is only taken for 32 blocks and more.",
  ["gocrypt/contentenc/content.go", "gocrypt/cryptocore/cryptocore.go", "gocrypt/siv_aead/siv_aead.go"],
  [("block encryption", "gocrypt/contentenc/content.go doEncryptBlock, doEncryptBlocks, EncryptBlocks"),
   ("block decryption", "gocrypt/contentenc/content.go DecryptBlock, DecryptBlocks")],
  ["EncryptBlocks output fed to DecryptBlocks"])

p("C03", "Ciphertext blocks are bound to their file and position",
  "The data authenticated with a block is an injective encoding of its block number (8 bytes, big endian) followed by the file ID, and is the same on encryption and decryption. Block i of a read that starts at block number n is checked against number n+i, so a block moved to another position or to another file is never accepted as valid.",
  ["inputs"], "all block numbers up to 2^64-1, all file IDs, all block sequences",
  "Tests never exercise authentication; a constant or truncated block number would go unnoticed by every test.",
  ["gocrypt/contentenc/content.go", "filetree/decrypt.go"],
  [("associated data", "gocrypt/contentenc/content.go concatAD"), ("block counter", "gocrypt/contentenc/content.go DecryptBlocks, doEncryptBlocks")],
  ["associated data passed to the AEAD"])

p("C04", "Reported plaintext sizes equal real plaintext lengths",
  "For every plaintext length n, the stored size computed for n is 0 for n=0 and otherwise n plus one file header plus one block overhead per started block, and converting that stored size back gives exactly n. For every stored size whatsoever the conversion terminates without wrap-around, never exceeds the stored size, and is 0 for sizes that hold no complete block overhead; listings and stat results for files report this value.",
  ["inputs"], "all 64-bit sizes (conversion to stored size: all sizes whose result fits in 64 bits)",
  "No test calls either conversion; boundary sizes (0, header only, exact block multiples, multiple+1) need all values.",
  ["gocrypt/contentenc/offsets.go", "filetree/filetree.go", "filetree/fileinfo.go"],
  [("size arithmetic", "gocrypt/contentenc/offsets.go CipherSizeToPlainSize, PlainSizeToCipherSize"), ("listing and stat sizes", "filetree/filetree.go ReadDir, Stat")],
  ["size in stat and directory listings"])

p("C05", "Byte ranges split into blocks that tile the range exactly",
  "Splitting any plaintext (or ciphertext) byte range yields pieces that are non-empty, stay inside one block each, start where the previous one ended, begin at the range start and end at the range end; an empty range yields no pieces. Offset translations agree with each other: a block's plaintext and ciphertext offsets are its number times the respective block size (plus the header for ciphertext), translating an offset inside a block gives back that block's number, the joint range of the pieces covers whole blocks from the first to the last piece, and cropping a block's data to a piece yields exactly those of the piece's bytes that the block has.",
  ["inputs"], "all offsets and lengths whose end does not exceed 2^63",
  "Tests sample seven ranges and check only that block numbers do not repeat and lengths are bounded.",
  ["gocrypt/contentenc/offsets.go", "gocrypt/contentenc/intrablock.go"],
  [("range splitting", "gocrypt/contentenc/offsets.go ExplodePlainRange, ExplodeCipherRange"), ("joint ranges and cropping", "gocrypt/contentenc/intrablock.go")],
  ["returned block descriptions"])

p("C06", "File header codec is exact",
  "Serialising a header gives 18 bytes (big-endian version, then the 16-byte ID), and parsing those bytes gives back the same version and ID. Parsing accepts a byte string if and only if it is exactly 18 bytes long, carries the current version and its ID is not all zero; new headers always satisfy this format.",
  ["inputs"], "all byte strings of any length", "No test parses or packs a header.",
  ["gocrypt/contentenc/file_header.go"],
  [("codec", "gocrypt/contentenc/file_header.go Pack, ParseHeader, RandomHeader")], ["ParseHeader / Pack results"])

p("C07", "Nothing the remote or a client sends can crash the proxy",
  "Whatever bytes, names, sizes and errors the (untrusted) remote returns for file contents, directory listings, directory IV files and stat calls, serving a read, listing or stat request ends with a result or an error, never with a panic or an endless loop. The same holds for names and IVs of any length given to name decryption and for any bytes given to block decryption. Nor can a logged-in client crash it: any path, any page of a listing and any channel request payload, however short, is answered or refused; and a client whose handshake or login fails, whose connection drops, or whose session ends with an error does not make the process stop serving, and one that stalls in its handshake does not keep others from logging in.",
  ["inputs", "fault_sequences"], "all byte strings and listings the remote may return, including truncated files, IV files of the wrong length and over-long or malformed names",
  "Tests only feed well-formed data; the panics sit on odd lengths.",
  ["filetree/decrypt.go", "filetree/filetree.go", "gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go", "gocrypt/contentenc/content.go", "gocrypt/contentenc/offsets.go"],
  [("length checks before slicing, decrypting and pooling", "filetree/decrypt.go, gocrypt/nametransform/names.go, gocrypt/nametransform/pad16.go"), ("channel requests", "main.go handleChannel"), ("the accept loop goes on after any client error", "main.go main")],
  ["process survives; request returns"])

p("C08", "Name encryption and decryption are inverse",
  "Every legal file name (1 to 255 bytes, no NUL, no slash, not '.' or '..') encrypted with any 16-byte directory IV decrypts with the same IV to exactly the same name, for padded and unpadded base64 alike. Padding always adds 1 to 16 bytes, fills up to a multiple of 16, and removing it accepts exactly the byte strings that padding can produce.",
  ["inputs", "configurations"], "all names and IVs, both base64 variants, all byte strings for unpadding",
  "Padding is tested on three strings and six garbage strings; name encryption is not tested at all.",
  ["gocrypt/nametransform/names.go", "gocrypt/nametransform/pad16.go"],
  [("padding", "gocrypt/nametransform/pad16.go pad16, unPad16"), ("name pipeline", "gocrypt/nametransform/names.go EncryptName, DecryptName")],
  ["DecryptName(EncryptName(name))"])

p("C09", "Decrypted names are always safe path components",
  "Name decryption never succeeds with a result that is empty, is '.' or '..', or contains a NUL byte or a slash, whatever the ciphertext name and IV. On any failure it returns an error and an empty name.",
  ["inputs"], "all ciphertext names and IVs", "No test decrypts a name; a forged name needs a specific decrypted value.",
  ["gocrypt/nametransform/names.go"],
  [("final name checks", "gocrypt/nametransform/names.go DecryptName")], ["names shown in listings"])

p("C10", "A plaintext path resolves to the entry whose decrypted names match it",
  "Resolving an absolute plaintext path walks from the encrypted root and at every step picks a listed entry whose name, decrypted with that directory's own IV, equals the path component, requiring every component that is walked through to be a directory; the path of an opened file is built from exactly these ciphertext names. Resolution fails only when some component has no such entry, is not a directory where one is needed, or the remote reported an error, and an answer taken from the path cache equals the answer a fresh walk gives.",
  ["inputs", "histories"], "all paths, listings, IVs, and all histories of previous lookups that filled or evicted the path cache",
  "No test touches path resolution; the cache is tested in isolation.",
  ["filetree/filetree.go", "filetree/fastcache.go"],
  [("walk and cache", "filetree/filetree.go findPath, findInDir, rangeInDir, ReadFile"), ("path cache", "filetree/fastcache.go")],
  ["which remote path is read"])

p("C11", "A directory listing shows exactly the decryptable entries",
  "Listing a directory returns, in the remote's order, one entry for each remote entry whose name decrypts under that directory's IV and none for any other (so the IV file, the volume config and foreign files stay hidden), each with the decrypted name, the plaintext size, and all other attributes of the remote entry. An entry that does not decrypt never hides, duplicates or reorders another entry, and an empty directory lists as empty.",
  ["inputs"], "all remote listings of any length and mixture", "No test lists a directory.",
  ["filetree/filetree.go", "filetree/fileinfo.go"],
  [("listing loop", "filetree/filetree.go ReadDir, rangeInDir")], ["SFTP directory listing"])

p("C12", "Stat describes the entry the path resolves to, file or directory",
  "A stat of an existing path, whether it names a regular file, a directory or the root, succeeds when the remote answers, and reports the requested base name, the plaintext size computed from the remote size, and the remaining attributes of exactly the remote object the path resolves to. A stat of a path that does not resolve, or whose remote stat fails, returns an error.",
  ["inputs", "histories"], "all paths and remote trees", "No test calls stat.",
  ["filetree/filetree.go", "filetree/fileinfo.go", "handlers/decrypt.go"],
  [("stat", "filetree/filetree.go Stat"), ("attribute override", "filetree/fileinfo.go")], ["SFTP stat reply"])

p("C13", "The path cache is an LRU map of bounded size",
  "After any sequence of stores, lookups and clears, a lookup returns the ciphertext path most recently stored for that plaintext path if it is still held and 'not found' otherwise, and the cache never holds more than its capacity. When a store of a new path would exceed the capacity, exactly the least recently used path (by store or successful lookup) is evicted, every other entry being kept; all access is under the cache's lock.",
  ["histories", "schedules"], "all operation sequences of any length, any capacity of at least 1, concurrent callers",
  "Tests use a capacity of 3 and at most one refresh before an eviction; list corruption needs two or more refreshes of entries in the middle or front.",
  ["filetree/fastcache.go"],
  [("linked list + map", "filetree/fastcache.go Find, Store, Clear, refreshNode")], ["Find results after Store/Find/Clear sequences"],
  [dict(name="recency list", meaning="nodes from least to most recently used", where="filetree/fastcache.go head, last, prev, next")])

p("C14", "Cached requests return only the answer to that very request",
  "Data returned for a file read, a directory read or a name decryption is a value the backend (or decrypter) itself returned without error for a call of the same kind with exactly the same arguments, under every interleaving of concurrent requests and cache clears. Requests of different kinds, for different paths, or for different (name, IV) pairs never share a cached answer, and all shared state is accessed under its lock.",
  ["schedules", "histories", "inputs"], "all interleavings of any number of requesters and workers, all arguments",
  "Tests run five goroutines on one key; cross-talk needs different keys that meet in one slot.",
  ["requester/requester.go", "requester/makerequest.go", "requester/synccache.go", "requester/complexkey.go", "requester/readfile.go", "requester/readdir.go", "requester/decryptname.go"],
  [("cache keys and kinds", "requester/makerequest.go, requester/complexkey.go, requester/requester.go worker"), ("locked map", "requester/synccache.go")],
  ["results of ReadFile/ReadDir/DecryptName"])

p("C15", "Failed requests report the failure and are never served from cache",
  "When the backend (or decrypter) call made for a request fails, the request returns an error and no data, whatever data accompanied the failure; a success is never reported without a successful backend call, and an empty successful answer is returned as an empty success. A later request for the same thing asks the backend again instead of returning the old failure.",
  ["fault_sequences", "schedules", "inputs"], "all sequences of successes, failures and empty answers, all interleavings",
  "Tests cover one always-failing key; failures with data, empty successes and fail-then-succeed sequences are not covered.",
  ["requester/requester.go", "requester/makerequest.go"],
  [("error handling and retry", "requester/makerequest.go makeRequest"), ("what is cached", "requester/requester.go performRequestAndCache, worker")],
  ["error returned to the caller; backend call count"])

p("C16", "Workers never wedge and every waiter is woken",
  "A worker answers each queued request exactly once and that answer never blocks, even if the requester has already given up; after performing a request it publishes the outcome and wakes all waiters while holding the lock they wait under, and it holds no lock when it goes back to the queue. A requester waits only while its request is marked as being performed by the worker whose ticket it holds.",
  ["schedules", "fault_sequences"], "all interleavings of requesters, workers, timeouts and cache clears",
  "Tests have fast backends: no request ever times out and waits are short.",
  ["requester/requester.go", "requester/makerequest.go"],
  [("answer channel and ticket protocol", "requester/requester.go performRequestAndCache, requester/makerequest.go")],
  ["requests issued after a burst of timed-out requests still complete"])

p("C17", "A remote connection is never used by two requests at once",
  "Every remote operation holds its connection exclusively: a connection handed to one request is not available to another until that request has finished with it, and is then either returned to the pool or closed, exactly once, never both, on success and on every error path. A connection whose liveness probe failed is closed and never reused, and no connection is used after it was returned or closed.",
  ["schedules", "fault_sequences"], "all interleavings and all combinations of failing remote calls",
  "There is no test of the backend package.",
  ["backend/pool.go", "backend/provider.go"],
  [("pool hand-over", "backend/pool.go Get, Put"), ("per-operation protocol", "backend/provider.go ReadFile, ReadDir, Stat")],
  ["connection used by each operation"])

p("C18", "The proxy is read-only and says so",
  "Every request that would write, create, rename, remove, link or change attributes is answered with an error, for every path and target, and serving any SFTP request issues only read operations (read file, read directory, stat) to the remote. File data, listings and stats are served from the decrypted view for exactly the path requested.",
  ["inputs"], "all request kinds and paths", "There is no test of the handlers.",
  ["handlers/decrypt.go", "filetree/filetree.go"],
  [("request dispatch", "handlers/decrypt.go Filewrite, Filecmd, Filelist, Fileread")], ["SFTP status replies"])

p("C19", "Paged directory listings are complete and without repetition",
  "Fetching a listing in pages of any sizes, starting at offset 0 and advancing by the number of entries received, delivers every entry exactly once and in order, and end-of-listing is signalled exactly when a page could not be filled. A page fetch never alters the listing.",
  ["inputs", "histories"], "all listing lengths, page sizes and offsets", "There is no test of the handlers; the boundary is where a page ends exactly at the end.",
  ["handlers/proxy.go"], [("paging", "handlers/proxy.go ListAt")], ["SFTP READDIR replies"])

p("C20", "Only the configured proxy credentials log in",
  "A login is accepted if and only if both user name and password equal the configured ones byte for byte. The proxy starts serving only with a configuration that loaded and in which every required field is filled in, so neither credential is ever empty.",
  ["inputs", "configurations"], "all credentials, all configuration files", "main has no test; Validate is tested on two invalid configs but nothing checks that it is used.",
  ["main.go", "config/config.go"],
  [("password callback and startup order", "main.go main"), ("validation", "config/config.go Validate, LoadConfig")], ["SSH login result; start-up"])

p("C21", "The remote is contacted only as configured, with host key verification",
  "Every connection to the remote goes to the configured address as the configured user with the configured private key, and is accepted only if the server's host key passes verification against the configured known-hosts file; if that file cannot be loaded the proxy does not start. The volume that is opened and served is the one at the configured root, read through that connection. When a connection attempt fails part way, nothing half-open is handed out.",
  ["configurations", "fault_sequences"], "all configurations and connection failures", "main and backend have no tests.",
  ["main.go", "backend/pool.go", "backend/provider.go"],
  [("client configuration", "main.go main"), ("dialling", "backend/pool.go newConn")], ["SSH client handshake"])

p("C22", "Only the right password and a valid volume config unlock a volume",
  "The volume opens only if its config parses, has the supported format version, names only known feature flags and has all required ones, and the wrapped master key authenticates under the key derived from the given password; then the key used is exactly the 32-byte unwrapped one. In every other case, including an empty password and a missing, blank or wrong-size wrapped key, the volume does not open (an error, or the process stops at start-up) and no key is produced or used.",
  ["inputs", "configurations"], "all config contents and passwords", "Tests load four sample configs with right and wrong password; forged key blobs and flag combinations are not covered.",
  ["gocrypt/configfile/config_file.go", "gocrypt/configfile/feature_flags.go", "filetree/filetree.go"],
  [("config checks and key unwrapping", "gocrypt/configfile/config_file.go Load, LoadAndDecrypt, DecryptMasterKey"), ("feature flags", "gocrypt/configfile/feature_flags.go"), ("use of the key", "filetree/filetree.go Init")],
  ["Init result"])

p("C23", "Weak key-derivation parameters are never used",
  "No key is ever derived from the password with scrypt parameters below N=2^10, r=8, p=1, a 32-byte salt or a 32-byte output, whatever the config file says; the process refuses instead. Newly created configs use a fresh 32-byte salt, r=8, p=1, 32-byte output and the requested cost (2^16 by default).",
  ["inputs", "configurations"], "all parameter values", "Tests time three costs; no test passes a weak parameter.",
  ["gocrypt/configfile/scrypt.go"], [("limits", "gocrypt/configfile/scrypt.go validateParams, DeriveKey, NewScryptKDF")], ["arguments of scrypt"])

p("C24", "Random bytes handed out are full length and never reused",
  "Every request for random bytes gets exactly the number asked for, all of them from the system's random source, and no byte taken from the prefetched random stream is ever handed out twice, for every history of request sizes and every interleaving of callers. Every block encrypted in random-nonce mode takes a new nonce of the full nonce length.",
  ["histories", "schedules"], "all sequences of request sizes up to the prefetch size and all interleavings",
  "The test checks that output is incompressible for one request size that never straddles a refill unevenly.",
  ["gocrypt/cryptocore/randprefetch.go", "gocrypt/cryptocore/nonce.go", "gocrypt/contentenc/content.go"],
  [("prefetch buffer", "gocrypt/cryptocore/randprefetch.go read"), ("nonces", "gocrypt/cryptocore/nonce.go")], ["nonces of encrypted blocks"])

p("C25", "Keys for names and content are separated and transient copies wiped",
  "With key derivation enabled, name encryption and content encryption use keys derived from the volume key under different labels (the gocryptfs v1.3+ labels), of 32 bytes each (64 for SIV), and never the volume key itself; without it they use the volume key (SHA-512 of it for SIV), as older volumes require. The caller's key is not modified, every derived copy is zeroed before returning, the content cipher takes nonces of exactly the requested length, and only keys of 32 bytes are accepted.",
  ["inputs", "configurations"], "all keys, backends, nonce lengths and flag settings", "Tests only check that construction succeeds and that the derivation function matches fixed vectors.",
  ["gocrypt/cryptocore/cryptocore.go", "gocrypt/cryptocore/hkdf.go", "gocrypt/siv_aead/siv_aead.go"],
  [("cipher construction", "gocrypt/cryptocore/cryptocore.go New"), ("derivation", "gocrypt/cryptocore/hkdf.go hkdfDerive")], ["keys given to the ciphers"])

p("C26", "Volume config files are replaced atomically",
  "Writing a volume config never opens, truncates or writes the existing config file: the complete new content goes to a newly created temporary file in the same place, readable only by its owner, which replaces the old one by a rename performed only after the content was written in full, a flush to disk was attempted and the file was closed without error. Any failure before that leaves the old file in place and is reported.",
  ["crash_points", "fault_sequences"], "a crash or error at every step of the write", "Tests that create configs fail at this commit; none injects faults.",
  ["gocrypt/configfile/config_file.go"], [("write then rename", "gocrypt/configfile/config_file.go WriteFile")], ["order of file operations"])

p("C27", "SSH key loading asks at most three times and never crashes",
  "Loading the private key returns a key only if the configured key file parsed (with the passphrase given last, if it is encrypted); an unencrypted key never prompts, an encrypted one prompts at most three times and only again after an incorrect passphrase, any other failure being returned at once. A key file with arbitrary content yields an error, not a crash.",
  ["inputs", "fault_sequences"], "all key file contents and prompt outcomes", "Tests cover four outcomes with well-formed PEM files.",
  ["config/config.go"], [("prompt loop", "config/config.go LoadSSHKey, isPrivateKeyEncrypted")], ["prompts and result"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
