AI = "static analysis: path-sensitive abstract interpretation of the SSA form (value numbering, linear arithmetic, joins to a fixpoint)"
TRUST = (" Trusted: the Go type checker and SSA builder, the analyser in /verif/checker, and its models of the standard library "
         "(see DESIGN.md). Every path the engine distinguishes is analysed to a fixpoint; nothing is executed and no solver is asked.")
CHECKS = {
 "C04": (AI + "; reachability of process exits", "Sound over-approximation of all paths from HandleMessage and every RPC method: no explicit panic, os.Exit, Goexit or log.Fatal/Panic is reachable." + TRUST),
 "C05": (AI + "; run-time-check obligations", "Every implicit run-time check on every path from the daemon's entry points and formatting methods is discharged by entailment. Assumed: lengths fit 2^50, fields the program divides by are stored non-zero (itself an obligation), the program's own index file is not tampered with." + TRUST),
 "C28": (AI + "; RPC call sites against the registered method set", "All RPC call sites of the CLI are compared with the registered service under net/rpc's rules, both ways." + TRUST),
 "C29": (AI + "; index obligations on the argument list", "All paths of the CLI client for an argument list of any length and content." + TRUST),
 "C01": (AI + "; composition of each encoder with the decoder of its kind on symbolic bytes", "Every path of every encoder composed with every path of the decoder on the bytes it makes, for every field value and every length; at most 65,535 files per list; names over 255 bytes and lists over 254 numbers are compared as far as the format holds them. encoding/binary is modelled." + TRUST),
 "C02": (AI + "; tag and dispatch tables recovered from decoder and encoder paths", "Tags are read off the encoders' and decoders' paths; dispatch is followed from the daemon's receive loop to the handler called for each dynamic type." + TRUST),
 "C03": (AI + "; run-time-check obligations and loop ranking", "All decoder paths for inputs of any length: every implicit check discharged, every loop advances towards an input-dependent bound, short input reaches an error." + TRUST),
 "C06": (AI + "; lock-set discipline over every access to catalogue memory", "Every access on every path of every catalogue operation, with the lock set held there; memory is abstracted by type and field." + TRUST),
 "C07": (AI + "; lock typestate and lock-order graph", "Lock state followed on every path of every operation; acquisition order graph checked for cycles, locks abstracted by type and field." + TRUST),
 "C08": (AI + "; lock-set discipline over the server's tables", "Every access on every path from message handlers, transfers and commands, with the lock set held there; session state by ownership of its worker goroutine." + TRUST),
 "C09": (AI + "; effect analysis of critical sections", "Every operation that can wait, on every path, with the lock set held there." + TRUST),
 "C10": (AI + "; escape/alias analysis of returned values", "Every return of every catalogue operation on every path: what the returned value can reach is compared with what the catalogue still refers to." + TRUST),
 "C11": (AI + "; typestate of memory against disk", "Every successful return of every mutating operation, with the state of index and bitmap in memory and on disk followed on the path to it." + TRUST),
 "C12": (AI + "; error-flow analysis with every fallible call forked", "Every fallible call on every path fails once; the operation must then report an error." + TRUST),
 "C13": (AI + "; effect order on the catalogue directory", "Every file-system step on every path of every mutating operation, in order. A crash of the program is meant: what the operating system has been given is taken as stored." + TRUST),
 "C15": (AI + "; file-system effect analysis with path classification", "Every call that can change a file, on every path from all entry points, with the provenance of its path." + TRUST),
 "C16": (AI + "; taint analysis of the download path", "Every path to the creation of a download's record, with the term its path is built from." + TRUST),
 "C17": (AI + "; linear arithmetic over the section bounds and write offsets", "Every place a chunk of a file is opened or written and every bitmap size, for all sizes whose sums fit 64 bits." + TRUST),
 "C19": (AI + "; typestate of a chunk's write against its mark", "Every path on which a chunk is marked or a bitmap made." + TRUST),
 "C37": (AI + "; map-effect analysis with value identity", "Every addition to and deletion from the index, and every bitmap file written or removed, on every path." + TRUST),
 "C18": (AI + "; value-flow of chunk lists and opened files", "Every path of the chunk server and of the discovery responder." + TRUST),
 "C30": (AI + "; path facts at every removal, effect analysis of the command", "Every path of the clean command and of Cat.Rehash; the catalogue's own operations are taken at their results and checked by C12, C34 and C37." + TRUST),
 "C32": (AI + "; enumeration of listening and serving calls with the terms of their addresses", "Every call in the program that starts to listen or serve, on every path from main." + TRUST),
 "C33": (AI + "; word and bit addresses of every access as linear terms", "Every operation of the bitset, for bit sets of every size; what the loops of Ranges, Overlap and UnfilledRanges add up to is C39." + TRUST),
 "C39": (AI + "; typestate of the runs of bits with ghost variables for the scan, the open run and the list", "Every path of the three operations, for bitmaps of every size up to 65,536 bits; bits are taken to be tested with Bitset.Get, whose answer is C33's." + TRUST),
 "C34": (AI + "; typestate of bytes read against bytes hashed", "Every path of both hashing loops, for inputs of any length and any mix of short reads and errors." + TRUST),
 "C20": (AI + "; value-flow of the bytes saved and of the hash they were compared with", "Every path of a download to every chunk saved, with the content the buffer has there; the connection's packets are taken as arbitrary." + TRUST),
 "C23": (AI + "; wait-for analysis of receives, deadlines, timers and channels", "Every receive and every wait on every path of every entry point and of the goroutines it starts; that an armed timer or deadline fires is taken from the standard library. Waits for room are C24's and C22's." + TRUST),
 "C24": (AI + "; typestate of opened resources with ownership passed to goroutines", "Every call that yields something to close, with every path to the end of the operation or goroutine that owns it; what the command line client opens ends with its process." + TRUST),
 "C25": (AI + "; value-flow of request numbers, typestate of waiters", "Every path of message handling and of both kinds of request; responses are taken as arbitrary." + TRUST),
 "C26": (AI + "; ownership of receive buffers", "Every receive from the network on every path from main and from a download, with what was captured by goroutines or sent before it." + TRUST),
 "C27": (AI + "; value-flow of hosts and metadata with path facts", "Every path of a download to every host asked and every record registered; what a discovery or listing returns is taken as arbitrary." + TRUST),
 "C36": (AI + "; typestate of the download's completion", "Every path of a download to its announcement; the catalogue's Rehash is taken at its result and checked by C34." + TRUST),
 "C21": (AI + "; value-flow from the request to every data packet of its session", "Every path from an open request to every packet of its session, with the buffer positions last read and the position of the chunk's reader; what the chunk's reader covers is C17's." + TRUST),
 "C22": (AI + "; typestate of upload sessions", "Every path of a session from its start to the end of its worker, and of everything that feeds or stops it." + TRUST),
 "C35": (AI + "; linear arithmetic with a ghost count of unacknowledged packets", "Every send and every wait of a session's worker, for every window size and every sequence of acks." + TRUST),
 "C31": (AI + "; value-flow of every field of every list entry", "Every path of every operation that makes or shows a list, from the stored record to the message and from the message to the user." + TRUST),
 "C14": (AI + "; composition of encoder and decoder, table of stored fields against restored fields", "Every path of every catalogue operation and of start-up; the bitmap decoder is analysed on the symbolic output of the bitmap encoder, for bit sets of every size. encoding/json and encoding/hex are taken to restore what they stored." + TRUST),
 "C41": (AI + "; value-flow of addresses and ports", "Every path of every operation that sends a request or announces this host, with each octet and the port traced to where it was taken from; every answer received in the collection loop. What the operating system reports as its interfaces is not judged. Octets copied in a loop are accepted if the loop's index is not confined to less than all four." + TRUST),
 "C42": (AI + "; value-flow from the words typed to the operation carried out", "Every path of the CLI client for a command line of any length and content, every path of every RPC method; IsBlank is analysed once with all bytes FF and once per byte that is not. A hash compared as a whole is taken to be compared with the blank one." + TRUST),
 "C43": (AI + "; value-flow of table keys", "Every path of the message handler: every store into the table of uploads and every ack passed on." + TRUST),
 "C44": (AI + "; typestate of the catalogue from main", "Every path of start-up and every goroutine it starts." + TRUST),
 "C45": (AI + "; value-flow of chunk numbers, typestate of the table of busy hosts", "Every path of a download through all its rounds to every chunk requested, and every path of MissingChunks; that ranges are listed correctly is C39's." + TRUST),
}
NA = {
 "C38": "liveness under fairness: whether peers answer and the network delivers packets is not decided by any source-level fact in reach",
 "C40": "a real-time bound: depends on scheduling and network delay, not on the source",
}
