#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=None)))
M="flu/messages/"; 
p("C01","Every peer message decodes to what was encoded",
  "For every kind of peer message, decoding the bytes its encoder produces yields the same kind with every field unchanged (same byte order, position and width), for all values the format can represent; chunk lists and file names longer than the format's limit are cut to it and never disturb the rest of the message. The header that opens a chunk transfer (hash, size, first data bytes) is likewise read exactly as it was written.",
  ["inputs"],"all field values of all message kinds",
  "Tests round-trip a handful of hand-picked messages; acks, data packets, transfer headers and non-empty discovery replies are never round-tripped.",
  [M+"msgConnection.go",M+"msgDataPacket.go",M+"msgDiscoverHosts.go",M+"msgListFiles.go",M+"parse.go",M+"utils.go","flu/senderConnection.go"],
  [("encoders: Serialize of each message",M),("decoders: Parse / ParseAsDataPacket / Split",M+"parse.go"),("kickstart builds the transfer header","flu/senderConnection.go")],
  observe=["messages.Parse(m.Serialize())"])
p("C02","Every message kind is distinguishable and reaches its handler",
  "The wire tags of all message kinds are pairwise distinct, each kind reports the tag it encodes, and the response kind a request announces is the tag of its response. Every kind the datagram decoder can produce is handed to the handler for that kind - requests to their responder, acks to their upload, responses to the waiting request - and the decoder recognises every kind that peers send to the datagram port.",
  ["inputs","programs"],"all message kinds and all tags",
  "Dispatch has no tests at all; a missing or crossed case shows only when that message arrives.",
  [M+"messageTypes.go",M+"parse.go","flu/server.go"],
  [("tag constants",M+"messageTypes.go"),("HandleMessage type switch","flu/server.go"),("Parse tag switch",M+"parse.go")])
p("C03","No sequence of bytes can crash a decoder",
  "Decoding any byte sequence of any length - a datagram, a transfer packet, the header of a transfer's first packet, a stored chunk bitmap - ends with a value or an error: it never reads outside the input, panics or loops forever. Input that is too short for the kind it claims to be is refused with an error, never completed with made-up bytes.",
  ["inputs"],"all byte strings of all lengths",
  "Tests feed only well-formed encodings.",
  [M+"parse.go",M+"utils.go",M+"msgDataPacket.go","common/bitset/bitset.go","main.go"],
  [("byteReader cursor",M+"utils.go"),("ParseAsDataPacket, Split",M+"msgDataPacket.go"),("Deserialize","common/bitset/bitset.go")])
p("C04","No peer message or CLI command can terminate the daemon",
  "Handling a peer's message, running a transfer or serving a CLI command never deliberately ends the daemon process (exit, fatal log or explicit panic). Unknown files, unreachable networks, bad metadata and storage failures met while doing so are returned to the caller or logged, and the daemon keeps running.",
  ["inputs","fault_sequences","histories"],"all messages, commands and failures of the calls they make",
  "flu, cli and main have no tests; the failing branches need network or disk faults or a hostile peer.",
  ["flu/server.go","flu/serverListFilesOnHost.go","flu/serverDiscoverHosts.go","flu/serverStartDownload.go","flu/senderConnection.go","catalogue/catalogue.go","common/chunkReader.go","cli/cliMethodsClean.go"],
  [("error returns of handlers and RPC methods","flu/, cli/"),("goroutine bodies of transfers","flu/serverStartDownload.go, flu/senderConnection.go, flu/recvConnection.go")])
p("C05","Announced and absent values are checked before they are used",
  "While the daemon handles messages, transfers and CLI commands, no value announced by a peer or user (packet offset, transfer size, chunk number or list, chunk size, address) causes an out-of-range access or a division by zero, and no absent result (no local address, unknown file, first packet not yet received, failed rehash, non-IPv4 address) is dereferenced. Formatting any listing or host answer for the user is likewise total.",
  ["inputs","histories"],"all announced values, all orders of packets, all absent results",
  "The handlers have no tests, and the values come from other hosts.",
  ["flu/serverStartDownload.go","flu/serverDiscoverHosts.go","flu/serverStartUpload.go","flu/ipv4.go","catalogue/catalogue.go","catalogue/progressFile.go","common/bitset/bitset.go","cli/cliMethodsList.go","cli/cliMethodsShare.go","cli/cliMethodsChims.go","cli/cliMethodsClean.go"],
  [("guards before index, slice, divide and dereference","flu/, catalogue/, cli/, common/bitset")])
p("C06","The in-memory catalogue is free of data races",
  "Whatever mix of catalogue operations runs concurrently, no two goroutines touch the in-memory index, its records or their chunk bitmaps at the same time with one of them writing: every such access happens under a lock common to all of them.",
  ["schedules"],"all interleavings of all catalogue operations issued by message handlers, transfers and CLI commands",
  "Tests run single-threaded and never through the public catalogue type.",
  ["catalogue/catalogue.go","catalogue/indexFile.go","catalogue/indexRecord.go","catalogue/progressFile.go","cli/cliMethodsShare.go"],
  [("Cat.lock","catalogue/catalogue.go"),("progressFile.lock","catalogue/progressFile.go")],
  state=[("index map","known files by hash","catalogue/indexFile.go"),("progress","chunk bitmap of a file","catalogue/progressFile.go")])
p("C07","Locks are always released and cannot deadlock on each other",
  "Every lock the program takes is released on every path out of the operation that took it, error paths included; no goroutine takes a lock it already holds or releases one it does not hold; and locks are nested in one consistent global order.",
  ["schedules","histories"],"all paths of all operations, all pairs of locks",
  "Tests never contend for a lock and rarely take error paths.",
  ["catalogue/catalogue.go","catalogue/progressFile.go","flu/server.go","flu/serverStartDownload.go"],
  [("Lock / defer Unlock pairs","all packages")])
p("C08","The server's request and transfer tables are free of data races",
  "Message handlers, transfers and CLI commands run concurrently; every access to the table of awaited responses, the tables of running downloads and uploads, and the request-number counter happens under the lock that guards it. The window and read position of an upload session are changed by one goroutine at a time.",
  ["schedules"],"all interleavings of concurrently handled datagrams, downloads and commands",
  "flu has no tests.",
  ["flu/server.go","flu/serverStartUpload.go","flu/serverContinueUpload.go","flu/serverStartDownload.go","flu/senderConnection.go"],
  [("resMapLock, reqIDLock, transferLock","flu/server.go"),("upload worker goroutine owns the session","flu/senderConnection.go")],
  state=[("resMap, uploads, downloads, reqID","tables shared by handlers","flu/server.go")])
p("C09","No lock is held while waiting for a peer, a timer or a goroutine",
  "While any lock is held, the program performs no operation that can wait for another party: no network read, write or dial, no sleep or timer wait, and no channel send or receive that can block. A late, duplicate or unwanted message can therefore never wedge the tables other requests need.",
  ["schedules","histories"],"all critical sections and all arrival orders of responses and acks",
  "Needs a specific arrival order against a timeout; flu has no tests.",
  ["flu/server.go","flu/serverStartDownload.go","flu/serverContinueUpload.go","catalogue/catalogue.go"],
  [("deliverResponse under resMapLock","flu/server.go"),("transferLock sections","flu/serverStartDownload.go")])
p("C10","What the catalogue hands out is a detached copy",
  "Every record, list or bitmap returned by the catalogue's public operations is a deep copy: mutating it, or later changes of the catalogue, never affect the other, and using it needs no lock.",
  ["histories","schedules"],"all uses of returned values after the call",
  "No test mutates a returned value and re-queries.",
  ["catalogue/catalogue.go","catalogue/indexRecord.go","catalogue/progressFile.go","common/bitset/bitset.go"],
  [("export / Export / Copy","catalogue/indexRecord.go, common/bitset/bitset.go")])
p("C11","A catalogue change reported as successful is on disk",
  "When sharing a file, registering a download, unsharing or saving a chunk reports success, the files on disk already reflect the change: the index with the record added or removed, the chunk bitmap written (or deleted on unshare), and for a chunk its bytes and its mark.",
  ["crash_points","histories"],"every successful return of every mutating catalogue operation",
  "Only index creation is tested; no mutating operation is exercised end to end.",
  ["catalogue/catalogue.go","catalogue/indexFile.go","catalogue/progressFile.go"],
  [("save of index and progress file before returning nil","catalogue/catalogue.go")])
p("C12","Storage failures are reported, never swallowed",
  "If any file-system or encoding step of a catalogue or hashing operation fails, the operation reports an error to its caller; it never returns success, and never carries on with the failed step's result. (Closing a file that was only read and removing temporary files are exempt.)",
  ["fault_sequences"],"every failing step of every operation",
  "Tests inject no faults.",
  ["catalogue/catalogue.go","catalogue/indexFile.go","catalogue/indexRecord.go","catalogue/progressFile.go","common/utils.go","common/chunkReader.go"],
  [("if err != nil { return err } after each step","catalogue/, common/")])
p("C13","A crash at any point leaves a catalogue that loads",
  "The index and the chunk bitmaps are replaced atomically on disk, so a crash of the program never leaves a truncated one in place. A record enters the stored index only once its chunk bitmap is stored, and leaves it before its bitmap is deleted, so no crash leaves an indexed file without a bitmap.",
  ["crash_points"],"a crash between any two file-system steps",
  "No test crashes or truncates a file.",
  ["catalogue/catalogue.go","catalogue/indexFile.go","catalogue/progressFile.go"],
  [("write-temporary-then-rename, bitmap before index","catalogue/")])
p("C14","A restart restores exactly the catalogue that was saved",
  "Loading the stored index yields the same records (path, size, hash, chunk size) under the same hashes that were saved, from the configured directory to which it keeps saving; each record finds its own chunk bitmap, with the same bits and size that were stored.",
  ["inputs","histories"],"all records and bitmaps",
  "The test compares two records that leave some fields zero; locations are not compared.",
  ["catalogue/indexFile.go","catalogue/indexRecord.go","catalogue/progressFile.go","common/bitset/bitset.go"],
  [("MarshalJSON/UnmarshalJSON, toJSON/fromJSON","catalogue/"),("newProgressFile/deserializeProgressFile path","catalogue/progressFile.go"),("Serialize/Deserialize","common/bitset/bitset.go")])
p("C15","Only saving a downloaded chunk ever changes a user's file",
  "Sharing, unsharing, cleaning, listing, hashing and serving never create, write, truncate, rename or delete the files users share or download; the only write to such a file is saving a chunk of it. Everything else the program writes or removes lies inside its own catalogue directory (plus its own control socket and the downloads directory itself).",
  ["histories","inputs"],"all operations and file names",
  "Tests never compare user files before and after.",
  ["catalogue/catalogue.go","catalogue/indexRecord.go","catalogue/progressFile.go","catalogue/indexFile.go","main.go"],
  [("saveChunk is the only writer of FilePath","catalogue/indexRecord.go"),("delete removes the progress file only","catalogue/progressFile.go")])
p("C16","Downloads never leave the downloads directory",
  "Whatever file name a peer announces, the file a download is stored in lies directly inside the configured downloads directory; names that would escape it or name the directory itself are reduced to a plain file name or refused.",
  ["inputs"],"all announced names",
  "No test registers a download.",
  ["catalogue/catalogue.go","flu/serverStartDownload.go"],
  [("RegisterDownload builds the path","catalogue/catalogue.go")])
p("C17","A chunk number always means the same byte range",
  "Chunk i of a file with chunk size S is exactly the bytes from i*S up to the smaller of (i+1)*S and the file size. Serving and saving a chunk use that range, computed in 64 bits without overflow; saving data that does not fit the chunk is refused before anything is written, and a file has ceil(size/S) chunks.",
  ["inputs"],"all chunk numbers, chunk sizes and file sizes",
  "Tests read only the first chunk of tiny files (the test itself has a TODO for offset > 0).",
  ["catalogue/indexRecord.go","catalogue/progressFile.go"],
  [("saveChunk / getChunkReader offset","catalogue/indexRecord.go"),("newProgressFile chunk count","catalogue/progressFile.go")])
p("C18","Only chunks that are held are served or advertised",
  "A chunk is read for a peer only if its mark in that file's bitmap is set, and a missing chunk or unknown file is answered with an error. The chunk list in a discovery answer is taken from the bitmap of the file that was asked about, restricted to the chunks asked for when any were, and is empty for files that are not known.",
  ["inputs","histories"],"all files, chunks and states of download",
  "No test opens a chunk through the catalogue or answers a discovery.",
  ["catalogue/indexRecord.go","catalogue/catalogue.go","flu/serverStartUpload.go","flu/serverDiscoverHosts.go"],
  [("bitmap test in getChunkReader","catalogue/indexRecord.go"),("Overlap/Ranges in RespondToDiscoverHosts","flu/serverDiscoverHosts.go")])
p("C19","A chunk is marked as held only after its bytes are written",
  "When a chunk is saved, its mark is set, in memory and on disk, only after all of its bytes were written successfully to the file, and only that chunk's mark is set. A freshly registered download has no chunk marked; only sharing a complete local file marks all chunks.",
  ["crash_points","fault_sequences"],"every failure and crash while saving",
  "No test saves a chunk.",
  ["catalogue/catalogue.go","catalogue/indexRecord.go"],
  [("SaveChunk order: write, mark, persist","catalogue/catalogue.go")])
p("C20","Only verified chunk data is saved",
  "Downloaded chunk data is written to the file only if the SHA-1 of the entire received buffer equals, in all 20 bytes, the hash the sender announced for it, with no change to the buffer in between; otherwise the data is dropped and the chunk stays missing. The data is saved under the file and chunk number that were requested.",
  ["inputs","fault_sequences","schedules"],"all losses, reorderings and corruptions of packets",
  "flu has no tests.",
  ["flu/serverStartDownload.go"],
  [("hash comparison before SaveChunk","flu/serverStartDownload.go")])
p("C21","An upload sends exactly the chunk that was requested",
  "For each open request the announced hash and size and all data packets come from one reader over the requested chunk of the requested file, starting at its beginning, and every packet states the position its data was read from. A new request never continues the data of an earlier session from the same address.",
  ["inputs","histories"],"all request sequences, including repeated requests from one address and port",
  "flu has no tests.",
  ["flu/serverStartUpload.go","flu/senderConnection.go","common/chunkReader.go"],
  [("session creation","flu/serverStartUpload.go"),("kickstart / kick","flu/senderConnection.go")])
p("C22","Upload sessions end and release what they hold",
  "An upload session stops after it has sent its final empty packet, after an error, or when its peer falls silent; when it stops, its table entry is removed and its file is closed. Stopping or feeding a session never blocks the goroutine that does it, even if the session has already ended.",
  ["histories","schedules"],"all sequences of acks, including lost, duplicate, late and missing ones",
  "flu has no tests.",
  ["flu/senderConnection.go","flu/serverContinueUpload.go","flu/serverStartUpload.go"],
  [("worker loop, terminate, packetChan","flu/senderConnection.go")])
p("C23","Every wait for a peer is bounded in time",
  "Each time the daemon waits for an answer or a packet from a peer - metadata, discovery answers, transfer packets, acks - the wait ends by itself after a fixed time even if nothing ever arrives.",
  ["schedules","fault_sequences"],"all silences of peers",
  "flu has no tests.",
  ["flu/recvConnection.go","flu/serverListFilesOnHost.go","flu/serverDiscoverHosts.go","flu/senderConnection.go"],
  [("read deadlines and timers","flu/")])
p("C24","Every socket and file opened is closed",
  "Each socket or file the daemon opens is closed on every path once the operation or session using it is over, error paths included, and a finished transfer leaves no goroutine behind.",
  ["histories","fault_sequences"],"all paths of all operations",
  "Leaks show only after many transfers; flu has no tests.",
  ["flu/recvConnection.go","flu/server.go","flu/serverListFilesOnHost.go","flu/serverDiscoverHosts.go","catalogue/indexRecord.go","common/utils.go"],
  [("defer Close; ownership handed to the connection","flu/, catalogue/, common/")])
p("C25","Replies reach the request they answer, and only it",
  "Each answer repeats the number of the request it answers and is sent to the host that asked (a discovery answer to that host's common port). Request numbers are handed out one at a time, without repeats until all 65536 were used; a received response goes only to the waiter registered for its number and kind, and a waiter is deregistered on every way out of the request.",
  ["schedules","histories"],"all concurrent requests and late or duplicate responses",
  "flu has no tests.",
  ["flu/server.go","flu/serverDiscoverHosts.go","flu/serverListFilesOnHost.go"],
  [("generateRequestID, registerResponseChan, deliverResponse","flu/server.go")])
p("C26","Received datagrams are never overwritten while being handled",
  "Every received datagram is stored in a buffer of its own: no later receive writes into memory that a concurrently running handler or a queued packet still reads, and only the bytes actually received are handed on.",
  ["schedules"],"all arrival timings",
  "main and flu have no tests.",
  ["main.go","flu/recvConnection.go"],
  [("buffer allocated per iteration","main.go, flu/recvConnection.go")])
p("C27","A download trusts only matching metadata from other hosts",
  "A download is registered only with metadata whose hash is the requested one, obtained from a host that advertises chunks of that file, and every chunk is requested only from such hosts, under the requested hash; the local host is never used as a source.",
  ["inputs"],"all answers of peers",
  "flu has no tests.",
  ["flu/serverStartDownload.go"],
  [("downloadMetaData check","flu/serverStartDownload.go"),("getGoodHosts filter","flu/serverStartDownload.go")])
p("C28","Every CLI command calls an existing daemon method with matching types",
  "Each remote method name the CLI uses exists on the daemon's registered service, is callable through Go's RPC rules, and takes and fills exactly the request and response types the CLI passes; every registered method that follows the RPC rules has a CLI command that reaches it.",
  ["programs"],"all CLI commands",
  "Method names are strings resolved at run time; cli has no tests.",
  ["cli/cliClient.go","cli/cliMethods.go","cli/cliMethodsShare.go","cli/cliMethodsList.go","cli/cliMethodsGet.go","cli/cliMethodsClean.go","cli/cliMethodsChims.go","main.go"],
  [("method name strings","cli/cliClient.go"),("rpc registration","main.go")])
p("C29","The CLI never indexes past its arguments",
  "Whatever arguments the user types, the CLI client reads an argument only after checking that it was given; wrong counts and malformed values end with a message, not a crash.",
  ["inputs"],"all argument lists",
  "cli has no tests.",
  ["cli/cliClient.go"],
  [("validateArgCount, len(args) checks","cli/cliClient.go")])
p("C30","Clean removes only missing or changed complete files",
  "The clean command drops a file from the catalogue only if the file is completely downloaded and either cannot be read or hashes to something else than its index entry; intact files and downloads in progress stay. It never touches the files themselves, and reports each file it looked at.",
  ["histories","inputs"],"all catalogue contents and file states",
  "cli has no tests.",
  ["cli/cliMethodsClean.go","catalogue/catalogue.go"],
  [("decision switch in Clean","cli/cliMethodsClean.go")])
p("C31","Listings mirror the catalogue and never disclose local paths",
  "Each entry of a file list - local or sent to a peer - carries the size, chunk count, chunk size, number of held chunks and hash of one catalogued file, each in its own place, and the user sees for a remote list exactly what the peer sent. A list sent to a peer names files by base name only and answers a request for one file with that file alone; no local directory path is ever sent to a peer.",
  ["inputs","histories"],"all catalogue contents",
  "flu and cli have no tests.",
  ["flu/serverListFilesOnHost.go","cli/cliMethodsList.go","cli/cliMethodsShare.go","cli/cliMethodsChims.go"],
  [("field by field construction of entries","flu/serverListFilesOnHost.go, cli/")])
p("C32","Control and debug interfaces are local only",
  "The daemon's command interface is reachable only through its Unix socket and its debug server only through the loopback interface; the only service exposed to the network is the peer UDP port, and peers cannot invoke CLI commands.",
  ["configurations"],"all listening sockets of the program",
  "main has no tests.",
  ["main.go"],
  [("listen addresses","main.go")])
p("C33","Bitmap operations change only what they name",
  "Setting or clearing a bit changes that bit and no other, whatever its previous value; reading any index, however large, reports exactly whether that bit was set and false beyond the end. Queries, copies, unions and intersections never modify their operands, and the size of a bitmap never shrinks and always includes every bit that was set; a union is at least as large as either operand, and an intersection as the smaller.",
  ["inputs","histories"],"all indexes and operation sequences",
  "Tests clear only bits they have just set, and read only indexes in range.",
  ["common/bitset/bitset.go"],
  [("word/mask arithmetic in Get, Set, Unset","common/bitset/bitset.go")])
p("C34","Hashes cover the whole content and end on errors",
  "Hashing a file or a chunk feeds every byte that was read, exactly once and in order, up to end of input, and nothing else; the reported size is the number of bytes hashed. A read error ends the hashing with an error - it is neither ignored nor retried forever.",
  ["inputs","fault_sequences"],"all contents, read sizes and read failures",
  "Tests hash three small files with no failing read.",
  ["common/utils.go","common/chunkReader.go"],
  [("read loops","common/utils.go, common/chunkReader.go")])
p("C35","An upload never exceeds its window and never wedges it",
  "The number of packets an upload session has sent beyond those acknowledged never exceeds the window the receiver asked for, except for the opening packet; each packet sent counts once, each ack frees one place, and surplus acks cannot wrap the count around.",
  ["histories","inputs"],"all ack sequences and window sizes",
  "flu has no tests.",
  ["flu/senderConnection.go"],
  [("windowSize/windowCap accounting in kickstart and kick","flu/senderConnection.go")])
p("C36","A download counts as complete only if the whole file matches",
  "A finished download is announced as complete only after all chunks are held and the SHA-1 of the whole stored file was recomputed and equals the hash the user asked for.",
  ["inputs","fault_sequences"],"all peers, including ones that announce a consistent hash for wrong chunk data",
  "flu has no tests.",
  ["flu/serverStartDownload.go","catalogue/catalogue.go"],
  [("completion branch of the download goroutine","flu/serverStartDownload.go")])
p("C37","A catalogued file is never overwritten by another entry",
  "Adding content that is already catalogued is refused with an error and leaves the existing record and its chunk bitmap, in memory and on disk, untouched. Every record is stored under its own hash, and removal deletes only the record of the hash given.",
  ["histories"],"all sequences of share, download and unshare",
  "No test adds a record.",
  ["catalogue/indexFile.go","catalogue/catalogue.go"],
  [("duplicate check in AddIndexRecord","catalogue/indexFile.go")])
p("C38","A requested download eventually completes",
  "If at least one reachable host holds every missing chunk and the network delivers a fair share of packets, a requested download eventually holds all chunks.",
  ["schedules","fault_sequences"],"all fair schedules and loss patterns",
  "Needs a live network with loss; flu has no tests.",
  ["flu/serverStartDownload.go","flu/recvConnection.go","flu/senderConnection.go"],
  [("retry loop","flu/serverStartDownload.go")])
p("C39","Lists of ranges name exactly the runs of set or clear bits",
  "Ranges lists exactly the maximal runs of set bits of the whole bitmap, UnfilledRanges exactly the maximal runs of clear bits, and Overlap exactly the runs of set bits inside each of the ranges passed in, one range after another. Each run is listed once, in ascending order, as its first and its last bit; no set (or clear) bit of those asked about is left out and no other bit is included, however long the bitmap or the list is.",
  ["inputs"],"all bitmaps of up to 65,536 bits and all lists of ranges passed in",
  "Tests use bitmaps of at most ten bits.",
  ["common/bitset/bitset.go"],
  [("filledRanges (Ranges, Overlap), UnfilledRanges","common/bitset/bitset.go")])
p("C40","Discovery answers arrive within the collection time",
  "A host that receives a discovery request answers early enough for the asker to collect the answer before it stops listening, under normal load.",
  ["schedules"],"all loads and timings",
  "Real time on a real network.",
  ["flu/serverDiscoverHosts.go"],
  [("two-second collection loop","flu/serverDiscoverHosts.go")])
p("C41","Hosts are asked and announced at exactly their own addresses",
  "A discovery request goes to the broadcast address at the port the server was started with. A list or chunk request goes to exactly the host and port passed in, and listing a named host asks that host, all four octets in order, at the server's port. A discovery answer carries one non-loopback IPv4 address of this host, each octet in its place, and its own port. The hosts a discovery returns are exactly the answers received while it waited: none is invented and none dropped.",
  ["inputs","histories"],"all addresses, ports, interface lists and sets of answering hosts",
  "Only a network of several hosts shows a request that goes astray or a wrong announcement; flu and cli have no tests.",
  ["flu/serverDiscoverHosts.go","flu/serverListFilesOnHost.go","flu/recvConnection.go","flu/server.go","cli/cliMethodsList.go"],
  [("broadcast address and collection loop; Address and Port of the answer","flu/serverDiscoverHosts.go"),("LocalIP, Port, NewServer","flu/server.go"),("net.DialUDP of lists and chunks","flu/serverListFilesOnHost.go, flu/recvConnection.go"),("octets of the IP named","cli/cliMethodsList.go")])
p("C42","A command asks for exactly what the user typed",
  "Each CLI command calls the daemon method of its name with the words typed: share the path, get the hash, chims the hash if there is one, list the address and hash if there are any; what is left out is sent as blank, never as nil or zero. A malformed hash or address, or a wrong number of words for share, clean or get, leads to no call. The daemon's answer, or its error, is printed. In the daemon each method passes the request's fields on unchanged, and lists its own files only if no host was named. The blank hash is twenty times FF: Blank writes it, and IsBlank is true of it and of no other hash.",
  ["inputs"],"all command lines and all requests",
  "cli has no tests, and a test of IsBlank could sample only a few of 2^160 hashes.",
  ["cli/cliClient.go","cli/cliMethodsShare.go","cli/cliMethodsGet.go","cli/cliMethodsChims.go","cli/cliMethodsList.go","common/sha1Hash.go"],
  [("Client.Run: one case per command","cli/cliClient.go"),("callClientMethodAndPrintResponse, validateArgCount, validate","cli/cliClient.go"),("Blank, IsBlank, FromStringSafe","common/sha1Hash.go")])
p("C43","Upload sessions are told apart by their peer's whole address",
  "An upload session is kept under a key that holds all four octets of its peer's address and all sixteen bits of its port, so that sessions with different peers, or with two sockets of one peer, never take each other's place. An ack is passed, with the offset it was sent with, only to the session kept for the complete address it came from.",
  ["inputs","histories"],"all pairs of peers and all acks",
  "Needs peers whose addresses differ in one place only; flu has no tests.",
  ["flu/serverStartUpload.go","flu/serverContinueUpload.go","flu/ipv4.go","flu/server.go"],
  [("uploads table keyed by uploadKey","flu/serverStartUpload.go, flu/serverContinueUpload.go"),("newIpv4","flu/ipv4.go")])
p("C44","The daemon serves only a catalogue that was loaded",
  "The daemon handles messages, offers its commands and uses its catalogue only after that very catalogue was loaded successfully, and looks for it only in a home directory it could determine. If either fails it does not serve at all; it never runs on an empty or other catalogue in its place.",
  ["fault_sequences","schedules"],"all failures at start and all interleavings of the goroutines started",
  "main has no tests.",
  ["main.go"],
  [("startDaemon: UserHomeDir, NewCat, Init before the goroutines are started","main.go")])
p("C45","A download asks each host for one missing chunk at a time",
  "A download requests from other hosts only chunks that the catalogue, asked for that file before, reported as missing, and the catalogue reports as missing nothing but clear bits of the bitmap of the record under that hash. A host is marked as busy with the file while a chunk is requested from it and is not asked again meanwhile; the mark, and only this mark, is taken away on every way a request ends, so that a failed request never shuts a host out.",
  ["inputs","histories","fault_sequences"],"all bitmaps, all failures of a request, all sequences of rounds of a download",
  "A host that is shut out, or asked for a chunk that is held, shows only after a failure or with several hosts; flu has no tests of downloads.",
  ["flu/serverStartDownload.go","catalogue/catalogue.go"],
  [("download loop and table of busy hosts, downloadChunk, endDownload","flu/serverStartDownload.go"),("MissingChunks","catalogue/catalogue.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
assert all(len(x["title"])<=80 for x in P)
