#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))

GO="protocol/genout.go"; SRV="protocol/server.go"; CLI="protocol/client.go"; FS="filesystem/filesystem.go"
p("C01","Every 9P2000 message is encoded in the exact wire format and decodes back",
 "For every 9P2000 T- and R-message the package can encode (version, attach, flush, walk, open, create, read, write, clunk, remove, stat, wstat and error) and for directory entries, encoding any field values that fit the protocol's length fields produces exactly the 9P2000 wire image: little-endian fields in order, right type byte and tag, and a leading size equal to the encoded length. Decoding that image gives back every field value and the tag unchanged and consumes it completely. The result does not depend on what the destination buffer held before.",
 ["inputs"],"all message types; all tags, integer field values over their full width, strings and stat blobs of 0..65535 arbitrary bytes, lists of 0..65535 names/QIDs, data of any length, any prior buffer content",
 "TestEncode compares two version messages; all other encoders, every decoder and every boundary (field high bytes, 16-bit length limits, messages above 64 KiB / 16 MiB) are never compared with anything.",
 [GO,"protocol/protocol.go"],[("generated Marshal*/Unmarshal* functions",GO),("Marshaldir/Unmarshaldir",GO),("message struct field order","protocol/protocol.go")],
 observe=["exported encode/decode functions"])
p("C02","Decoding arbitrary bytes is strict: exact fields or an error, never a crash",
 "Decoding any byte string as any message type or as a directory entry never panics. It succeeds exactly when the bytes are a complete well-formed body of that message with nothing left over (a directory entry may be followed by further entries, which stay unread), and then every value comes from the corresponding bytes. In particular a body that ends inside a field, or whose string, list or data count reaches past its end, is rejected.",
 ["inputs"],"all byte strings, for each of the message decoders and the directory-entry decoder, including buffers whose spare capacity holds unrelated bytes",
 "No existing test decodes a malformed packet; truncations at each offset and lying counts are an unbounded input space.",
 [GO,"protocol/gen.go"],[("length checks before each field in the decoders",GO),("decoder templates","protocol/gen.go")],observe=["exported decode functions"])
p("C03","Regenerating the RPC stubs gives the same behaviour as the committed ones",
 "Running the stub generator on the package's message definitions yields source that compiles and behaves like the committed stubs on every message: same wire bytes, same decode results and rejections, same server dispatch and client call behaviour. So a maintainer can regenerate at any time without changing the protocol spoken.",
 ["inputs","programs"],"all message values and malformed bodies, on the codec and stubs obtained by regenerating from the tree under test",
 "The tests only ever run the committed output; nothing runs the generator.",
 ["protocol/gen.go","protocol/protocol.go",GO],[("go:generate go run gen.go","protocol/protocol.go"),("templates mfunc, ufunc, sfunc, cfunc, msfunc, usfunc","protocol/gen.go")],observe=["regenerated package in a scratch copy"])
p("C04","Each request gets exactly one reply, in order, however the stream is cut up",
 "For any sequence of complete request messages on a connection, delivered in pieces of any sizes and pipelined or not, the server sends exactly one well-formed reply per request, in request order, carrying that request's tag, and of the matching reply type or an error. A message cut off by the end of the stream is never executed or answered. How the bytes are split into reads never changes the replies.",
 ["inputs","histories","schedules"],"all request sequences of known and unknown types, all fragmentations of the byte stream including one byte at a time, pipelined and lock-step, all truncation points of the last message",
 "The tests use net.Pipe with a client that writes one whole message at a time, so a header or body never arrives in pieces, and no stream ends mid-message.",
 [SRV],[("framing loop of the connection","protocol/server.go conn.serve"),("Dispatch","protocol/server.go")],observe=["bytes written to the connection","calls on the file server interface"])
p("C05","Calls reach the server with exact arguments and return exact results",
 "For every client call, the file-server implementation behind the listener is invoked exactly once with exactly the arguments the caller passed, and the call returns exactly the results, or an error with exactly the text, that the implementation returned. Returned data stays intact while later calls are made. This holds for all argument and result values the protocol can carry; an error text too long for the wire arrives as a prefix of it.",
 ["inputs","histories"],"all twelve calls, all argument and result values in protocol range (full-width integers, names and errors up to 65535 bytes, data to several hundred KiB), success and failure, call sequences, connection fragmentation",
 "TestTMessages checks a handful of calls mostly for err==nil against an echo server that ignores most arguments.",
 [GO,CLI,SRV],[("Call* stubs",GO),("Srv* stubs",GO),("Dispatch switch",SRV)],observe=["client call results","calls on the file server interface"])
p("C06","A malformed request is refused without reaching the file server or hurting it",
 "A framed message whose body is not a well-formed request of its type, or whose type is not a supported request, is answered with an error reply carrying its tag, is never passed to the file-server implementation, and leaves the connection in step for the messages that follow. A message whose declared size is smaller than a header ends that connection without being executed. No byte stream sent on one connection stops the server from serving other connections.",
 ["inputs","fault_sequences"],"all byte streams: framed bodies of any content under any type byte, any declared size, mixed with valid requests; a witness connection alongside",
 "No test sends a malformed message; the space of malformed bodies and positions in a stream is unbounded.",
 [SRV,GO],[("decode-error handling in Srv* stubs",GO),("size checks in the framing loop","protocol/server.go conn.serve"),("ServerError fallback",GO)],observe=["bytes written to the connection","calls on the file server interface","other connections"])
p("C07","Nothing is executed on a connection before its first version request",
 "On every connection, any request that arrives before that connection's first version request is answered with an error carrying its tag and is never passed to the file-server implementation. After a version request that the implementation accepts, requests are passed on. The state is per connection: negotiating on one connection does not open another.",
 ["histories","inputs"],"all request sequences before and after the version request, all message types, several interleaved connections",
 "TestTMessages sends one attach before version on one connection.",
 [SRV],[("version gate in Dispatch",SRV)],state=[("Versioned","connection has seen a version request",SRV)],observe=["replies","calls on the file server interface"])
p("C08","Connections are independent of each other",
 "Each accepted connection gets its own file-server instance and fid space: a fid established, opened, moved or clunked on one connection has no effect on the same fid number on any other. Whatever one connection sends, including disconnecting at any point and requests that take arbitrarily long to carry out, every other connection gets exactly the replies it would get alone, with requests of different connections interleaved or concurrent in any way.",
 ["histories","schedules","fault_sequences"],"all interleavings of request sequences on several connections, serialized and truly concurrent, with abrupt disconnects and requests that block",
 "All existing tests use one connection.",
 [SRV,FS],[("instance per connection","protocol/server.go newConn"),("fid table per instance","filesystem/filesystem.go NewUFS")],observe=["replies on each connection","host files"])
p("C09","Listeners serve every connection until shut down, and shut down cleanly",
 "While serving, every connection accepted from any of the listener's sockets is served, and temporary accept errors never end serving. A permanent accept error makes serving return that error. Shutdown closes every socket being served, so that all serving calls return, while connections already established continue to be served.",
 ["histories","fault_sequences"],"all sequences of accepted connections, temporary and permanent accept errors and shutdown, over one or several sockets",
 "No existing test calls Serve or Shutdown.",
 [SRV],[("accept loop with back-off","protocol/server.go Serve"),("tracked listeners","protocol/server.go trackListener/Shutdown")],observe=["Serve results","sockets closed","replies"])
p("C10","Concurrent calls on one client each get their own reply, in any reply order",
 "With any number of calls outstanding from any number of goroutines on one client, and replies arriving in any order and cut up in any way, every call returns the result of the reply to its own request. Tags of outstanding requests are distinct and are never 0 or the no-tag value, and a tag becomes available again once its reply has arrived, so a client can make any number of calls.",
 ["schedules","histories"],"all numbers of concurrent callers up to and beyond the 65534 available tags, all reply permutations and fragmentations, success and error replies",
 "The tests only make one call at a time, so only one tag is ever outstanding and replies are trivially in order.",
 [CLI,GO],[("tag pool and pending-call table","protocol/client.go IO"),("Call* stubs",GO)],state=[("Tags","free tags",CLI),("RPC","outstanding calls by tag",CLI)],observe=["request bytes","call results"])
p("C11","A client survives a faulty or dying server: every call returns, with an error",
 "Whatever bytes the server sends and whenever the connection fails in either direction, the client process does not crash and every outstanding call returns: with its result if a complete well-formed reply to it arrived before the failure, otherwise with an error. A malformed reply or one of the wrong type makes its call return an error, and a reply that no call is waiting for is ignored. Once the connection has failed, every further call returns an error promptly.",
 ["fault_sequences","inputs","schedules"],"all server byte streams (stray and duplicate tags, wrong types, malformed bodies, bad sizes, truncation at any byte), connection loss at any point, write failures, client with or without tracing",
 "All tests talk to a well-behaved server with tracing enabled, and end without closing the connection.",
 [CLI,GO],[("reply reader and dispatcher","protocol/client.go readNetPackets/IO"),("Call* stubs",GO)],state=[("Dead","connection has failed",CLI)],observe=["call results","process survival"])
p("C12","Tags and fids handed out by a client are unique",
 "Every fid a client hands out is different from all fids it handed out before, however many goroutines ask. Every tag it hands out is in 1..65534, different from all other tags handed out, and never used for the client's own calls.",
 ["schedules","histories"],"all numbers of goroutines and requests, interleaved with calls, until tags are exhausted",
 "TestTags takes one tag from one goroutine and only looks at the pool length; fids are never requested.",
 [CLI],[("atomic fid counter","protocol/client.go GetFID"),("tag pool","protocol/client.go GetTag")],observe=["returned tags and fids","request bytes"])
p("C13","Clients cannot reach anything outside the exported root",
 "Whatever names a client sends in attach, walk, create and wstat requests (including '..', absolute names, and embedded slashes), no file or directory outside the exported root is read, listed, described, created, changed, renamed or removed, and the root directory itself cannot be removed or renamed away. Names that would climb above the root stay at the root or are refused. (Symbolic links already present in the tree are the exporter's own doing and are excluded.)",
 ["inputs","histories"],"all request sequences with hostile names, for any export root and any attach name",
 "TestMount exports '/', so nothing is outside; no test sends a '..' anywhere.",
 [FS],[("cleaning of attach names","filesystem/filesystem.go Rattach"),("walk element handling","filesystem/filesystem.go Rwalk"),("name checks on create and rename","filesystem/filesystem.go Rcreate/Rwstat")],state=[("rootPath","exported directory",FS)],observe=["replies","host files outside the root"])
p("C14","File contents read through the server are exactly what was written",
 "Reading an open file at any offset and count returns exactly the bytes a plain file would hold there after all preceding writes and truncations through any fids (limited only by the negotiated message size, and empty at or past the end), and a write reports as written exactly the bytes that the file then holds at that offset. The host file's contents and length always agree, and no write changes bytes outside its range or any other file.",
 ["histories","inputs"],"all sequences of writes, reads, truncations and reopenings over several fids and files, at all offsets (including beyond 4 GiB) and sizes",
 "TestMount writes once and never reads the data back.",
 [FS],[("positional read and write","filesystem/filesystem.go Rread/Rwrite"),("truncate","filesystem/filesystem.go Rwstat, filesystem/ninep.go modeToUnixFlags")],observe=["read replies","host file contents"])
p("C15","Open modes are honoured and opening never damages a file",
 "A fid opened for reading (or execution) cannot write, one opened for writing cannot read, one opened read-write can do both, and an unopened fid can do neither. Opening truncates the file if and only if truncation was requested and the open succeeds; an open that the host's permissions or the file type refuse fails and leaves file and fid unchanged, and a fid that is already open cannot be opened again. Opening a directory for writing fails.",
 ["histories","inputs"],"all mode bytes, file permissions, file types and sequences of open/read/write on a fid",
 "TestMount tries four opens on three files.",
 [FS,"filesystem/ninep.go"],[("mode translation","filesystem/ninep.go modeToUnixFlags"),("open-state checks","filesystem/filesystem.go Ropen/Rread/Rwrite")],observe=["replies","host file contents"])
p("C16","Walks visit the right files and bind the new fid only on complete success",
 "A walk returns one QID per element successfully walked, in order, each identifying the file the host has at that path; if the first element fails the walk is an error, and if a later one fails exactly the preceding QIDs are returned. The new fid is bound, to the file reached, only if every element succeeded; otherwise both fids keep their previous meaning. A new fid that is already in use is refused unless it is the walked fid itself, '..' leads to the parent, and a walk of no elements makes an independent, unopened fid for the same file.",
 ["histories","inputs"],"all directory trees, all walks of up to 16 elements with existing, missing and non-directory components, all combinations of source and new fid",
 "TestMount does six successful walks and one failing on the first element; partial walks, reuse and clones are unexplored.",
 [FS],[("element loop and fid binding","filesystem/filesystem.go Rwalk")],state=[("files","fid table",FS)],observe=["replies","later operations on the fids"])
p("C17","A fid is valid from its creation to its clunk and always means the same file",
 "Requests on a fid that was never established, or that has been clunked or removed, fail and change nothing; clunking or removing one fid leaves all others usable, and releases the host file it held open. A fid in use cannot be attached again, and an established fid keeps denoting the same file, with the same open state, until it is itself walked onto itself, created through, renamed, removed or clunked, or its file is renamed or removed by other means. An accepted version request starts a fresh session in which no earlier fid is valid, and an attach that brings an authentication fid is refused and establishes nothing.",
 ["histories"],"all histories of attach, walk, clone, open, create, read, write, stat, clunk, remove and version over a small fid space",
 "TestMount tries a few operations on one unknown and one clunked fid in a single fixed history.",
 [FS],[("fid table operations","filesystem/filesystem.go getFile/clunk/Rattach/Rversion")],state=[("files","fid table",FS)],observe=["replies","open host files"])
p("C18","Reading a directory lists every entry exactly once",
 "Reading an open directory from offset zero, advancing by what was returned until a read returns nothing, with counts that can hold an entry, yields whole directory entries, exactly one for each entry the host has there, each equal to what a stat of that file reports. Starting again at offset zero lists it anew. No reply exceeds the requested count, and an entry that does not fit is not lost: it is returned by a following read whose count is large enough.",
 ["inputs","histories"],"all directory contents (any names up to 255 bytes, any number of entries, files, directories, symlinks), all sequences of read counts, rewinds in mid-listing",
 "TestMount lists one directory of three entries with a count of 256 and does not look at the entries.",
 [FS,"filesystem/ninep.go"],[("directory branch of read with overflow entry","filesystem/filesystem.go Rread"),("resetDir","filesystem/filesystem_unix.go")],state=[("oflow","entry saved for the next read",FS)],observe=["read replies"])
p("C19","Stat and QIDs describe the host file faithfully and consistently",
 "Stat reports the file's name, permission bits and directory flag, length (of files), modification time and configured owner and group names as the host has them at that moment. QIDs from attach, walk, open, create, stat and directory reads agree on a file's identity and type: equal paths for the same file, different paths for different files of the exported file system, and type bits for directories and symbolic links. The QID version, in all of them, changes when the modification time changes and not otherwise.",
 ["inputs","histories"],"all files and trees with all permissions, sizes, times and names, and sequences of changes between stats",
 "TestMount logs stats and QIDs without comparing them with anything.",
 [FS,"filesystem/ninep.go","filesystem/ninep_unix.go"],[("FileInfo translation","filesystem/ninep.go"),("QID from inode and mtime","filesystem/ninep_unix.go")],observe=["replies","host lstat"])
p("C20","Wstat changes exactly what it asks for",
 "A successful wstat gives the file the requested permission bits, name, length and times and leaves every attribute marked 'don't touch', and every other file, as it was; after a rename the fid denotes the file under its new name, where an absolute new name is taken relative to the exported root. A request to change owner or group, or to rename onto an existing directory, fails and changes nothing at all.",
 ["inputs","histories"],"all combinations of fields set or not, all values, on files and directories, with and without existing targets",
 "No existing test sends a wstat to the file server.",
 [FS],[("field-by-field application","filesystem/filesystem.go Rwstat")],observe=["replies","host attributes before and after"])
p("C21","Create and remove do exactly what they report",
 "A successful create makes exactly one new file or directory of the given name in the fid's directory with the requested permissions (less the host's umask), and the fid then denotes it, open in the requested mode if a file; an existing file is emptied, and creating a directory where anything exists is an error. A successful remove deletes exactly the fid's file; a remove always ends the fid, even when it fails. A failed create leaves the tree and the fid as they were; a failed remove leaves the tree as it was.",
 ["histories","inputs"],"all sequences of create and remove over files and directories, all permissions and modes, existing and missing names, non-empty directories",
 "TestMount creates one file and one directory and removes both.",
 [FS],[("create","filesystem/filesystem.go Rcreate"),("remove","filesystem/filesystem.go Rremove/clunk")],observe=["replies","host tree"])
p("C22","No request sequence can crash the file server or overrun the message size",
 "Any sequence of well-formed requests, with any field values in any session state, is answered request by request; the server neither crashes nor stops, and the connection and other connections keep working. No read reply carries more data than was asked for or is larger than the message size agreed in the session's version exchange.",
 ["inputs","histories"],"all well-formed requests with arbitrary fields (negative and huge counts, offsets to 2^64-1, unknown fids, arbitrary names and stat blobs), all agreed message sizes",
 "The tests only send sensible values.",
 [FS,SRV],[("count and message-size limits","filesystem/filesystem.go Rread/Rversion")],observe=["replies","process survival"])
p("C23","The debug wrapper is transparent",
 "Putting the debug wrapper around any file server changes nothing a client can observe: every call is passed on exactly once with the same arguments, and the same results and errors come back, for all inputs including ones the wrapper itself cannot interpret. Argument data is not modified.",
 ["inputs","histories"],"all twelve calls, all argument and result values including undecodable stat blobs, success and failure",
 "pkg/debugfs has no tests.",
 ["pkg/debugfs/debug.go",FS],[("forwarding methods","pkg/debugfs/debug.go"),("-debug flag","filesystem/filesystem.go NewUFS")],observe=["calls on the wrapped server","results"])
p("C24","The ufs command exports the tree its flags name",
 "Started with any root, address, network type, user name and debug flags, the ufs command serves exactly the given root directory at that address: attaching with no name gives that directory, attach names are resolved under it, files read the same as on the host, and stat reports the given user name. The same holds of the command built with the pprof tag, whether or not the profiler's port is free. It keeps serving across client disconnects, malformed input and many successive and simultaneous connections.",
 ["configurations","histories"],"both builds, all combinations of the command's flags, all export trees, sequences of client sessions including abusive ones",
 "cmd/ufs has no tests.",
 ["cmd/ufs/ufs.go",FS],[("main","cmd/ufs/ufs.go"),("flags root, user, debug","filesystem")],observe=["network replies of the running command"])
p("C25","Tracing changes nothing",
 "Setting a trace function on a listener or on a client changes nothing but what is traced: over any history of requests, replies, malformed messages and connection ends, the bytes sent, the calls that reach the file server and the results and errors that calls return are the same as without one, and any number of calls can be made. This holds however long the trace function takes, as long as it only looks at what it is given.",
 ["inputs","histories"],"all request and reply histories including malformed messages, cut messages and failing connections, with tracers that format everything, yield or sleep",
 "No existing test runs the same exchange with and without a tracer, or traces malformed messages and failing connections.",
 [SRV,CLI],[("listener trace","protocol/server.go logf/serve"),("client trace","protocol/client.go readNetPackets/writeNetPackets/IO")],observe=["wire bytes","calls on the file server","call results"])
p("C26","Through the client, an exported tree behaves like a file system",
 "Programs that use the client library against the file server see a file system: with any number of users sharing a client or using several, each with fids the client handed out and each working in a directory of its own, every attach, walk, open, create, read, write, stat, wstat, clunk and remove succeeds or fails as it would on a plain file system under the user's own preceding operations, returns the data, QIDs and attributes the files then have, and leaves exactly those changes in the host's tree. Data passed to a call is not modified, and data a call returned stays intact afterwards.",
 ["histories","schedules","inputs"],"all interleavings of the histories of several users over one or several clients and connections (in memory, synchronous pipes, TCP), all agreed message sizes, with and without tracing and the debug wrapper",
 "TestMount and TestTRead do one fixed sequence from one goroutine.",
 [CLI,SRV,FS],[("client calls","protocol/client.go rpc/IO, protocol/genout.go CallT*"),("server loop","protocol/server.go serve/Dispatch"),("file operations","filesystem/filesystem.go")],observe=["call results","host tree"])
p("C27","An ended connection leaves nothing behind",
 "When a connection ends, in whatever way and state (between or within messages, with files open, with replies nobody takes, by an error in either direction, or because of a message that is none), the server closes its end of it, the goroutines that served it finish, and its file-server instance and open host files are no longer held, so that connections can come and go without end. Likewise a client whose connection ended closes it, ends its goroutines and can be reclaimed once its user drops it.",
 ["histories","faults"],"all ways and moments of ending, in memory, on synchronous pipes and on TCP, one after the other and simultaneously, with files open and calls outstanding",
 "No existing test looks at what remains of a connection.",
 [SRV,CLI,FS],[("end of serving","protocol/server.go serve/Accept"),("end of a client","protocol/client.go readNetPackets/writeNetPackets/IO"),("open files","filesystem/filesystem.go")],observe=["goroutines executing the package's code","end of stream at the peer","open descriptors","reclaimed instances"])
p("C28","Version negotiation agrees on 9P2000 and a size within the request",
 "A request for version 9P2000 with a message size of at least 256 is accepted with version 9P2000 and a size no larger than the one asked for, and never is any other version agreed to. An accepted request starts a new session on that connection, in which no earlier fid is valid and read replies keep within the newly agreed size while reads that fit are served in full; an I/O unit that an open or create reports is, with the 24 bytes of header, no larger than that size either. A refused request leaves the session as it was: its fids, open files and agreed size. Other connections' sessions are unaffected either way.",
 ["inputs","histories"],"all version texts and message sizes, at any moment of sessions on several connections",
 "The tests negotiate once, at the beginning, with one size and version, and check the refusal of one other version.",
 [FS,SRV],[("negotiation","filesystem/filesystem.go Rversion"),("use of the agreed size","filesystem/filesystem.go Rread")],observe=["replies"])
p("C29","Failures of the host are reported and harm nothing else",
 "When the host can not carry out what a request needs (no file descriptor is left for an open or create, a write or a change of length exceeds what the host allows, or the file of a fid that is not open has vanished), the request fails, or, if it is a write, reports no more bytes than the file then holds. Nothing else changes: an open or create that failed leaves the file, its contents, the directory and the fid as they were, a failed change of length leaves the length, no other file or fid is affected and no host file stays open. The fid can still be given up, and once the cause is gone the same request on the same fid works.",
 ["histories","faults"],"all histories of requests, with a resource of the host running out during any of them and files vanishing at any moment",
 "The tests run on a host with everything in plenty; no call of the host ever fails in them except for a file that does not exist.",
 [FS],[("errors of host calls","filesystem/filesystem.go Ropen, Rcreate, Rwrite, Rwstat, Rstat, Rremove")],observe=["replies","host tree","open descriptors of the process"])
p("C30","Concurrent use is free of data races",
 "Whatever may be done concurrently is safe: several connections of one listener or file server, listeners started, serving and shut down from several goroutines, several goroutines that share a client and make calls, ask for FIDs and look at whether the client is dead after a call failed, with or without a trace function, while replies arrive and connections end. No execution has two accesses to the same memory by different goroutines, one of them a write, that nothing orders.",
 ["schedules","histories"],"all schedules of concurrent connections, listener operations, client calls, tracing and connection ends",
 "The tests do not run under a race detector and have little concurrency; a race seldom shows in what a test sees.",
 [SRV,CLI,"protocol/genout.go",FS],[("client state shared by its goroutines","protocol/client.go"),("FID counter and tracing in the stubs","protocol/genout.go CallT*"),("listener state","protocol/server.go"),("state shared by file servers","filesystem/")],observe=["reports of Go's race detector about accesses of the repository's code"])
p("C31","Sessions that share a tree see each other's changes at once",
 "Several sessions on one exported tree see one file system. What one session has been told it did (written, truncated, created, removed, renamed, changed by wstat) every other sees in its next request: in data it reads through fids it already had or new ones, in stat, walk, open and directory listings; a session's fids, open files and message size are its own. What sessions do at the same time comes out as if done one after another: of several that create the same directory, remove the same file or rename it to different names exactly one succeeds; renames to one name leave one of the files; writes to different parts of a file are all kept; a create or remove that is reported done was done and one that failed was not; a reader gets, per byte or attribute, a value that was current between its request and the reply; and a listing has every entry that does not change exactly once.",
 ["histories","schedules"],"all interleavings and all simultaneous executions of the operations of several sessions on shared files and directories",
 "TestMount has one session.",
 [FS,SRV],[("file operations","filesystem/filesystem.go"),("state kept per fid and per session","filesystem/filesystem.go FileServer/file")],observe=["replies of all sessions","host tree","open descriptors"])
p("C32","The Windows variant of the file server behaves as the Unix one does",
 "The file server compiles with the files that Windows builds use (filesystem_windows.go, ninep_windows.go) in place of their Unix counterparts, and then gives the same service: reading a directory from offset 0 starts its listing afresh, with every current entry exactly once, however often and wherever in a listing that happens, and releases what it held open before; walks, opens, creates, reads, writes, stats, wstats, removes and clunks succeed, fail and change the host's files just as on Unix; and the type and version in every QID follow the file's kind and modification time. Two things are left open: what the path in a QID identifies, since these files have no inode numbers to take it from, and whether a listing can start afresh while the host does not let the directory be opened.",
 ["inputs","histories"],"all sessions of requests on a server built with the Windows variants",
 "The tests are never built for Windows; before this property was checked the variant did not even compile.",
 [FS,"filesystem/filesystem_windows.go","filesystem/ninep_windows.go"],[("restarting a directory","filesystem/filesystem_windows.go resetDir"),("QIDs without inodes","filesystem/ninep_windows.go fileInfoToQID")],observe=["replies","host files","open descriptors"])
p("C33","Memory follows what arrives, and finished work leaves none in use",
 "The memory a message takes is in proportion to the bytes of it that have arrived and, for a read, to the size agreed in the version exchange, whatever sizes and counts it announces: a message header with any size whose body does not come, a count of data, names or QIDs beyond the end of its message, and a read request with any count on a file or directory of any size, on a server, on a client that receives replies, or in a decoder that is called directly. And however often a sequence of requests (or of calls on a client) is repeated on a connection, with the same fids and names or with others if it gives its fids up, whether they succeed, fail or are no requests at all, and whatever replies arrive that nobody waits for, the memory and the goroutines in use do not grow with the number of repetitions.",
 ["inputs","histories"],"all announced sizes and counts with all amounts of data that really arrive, and all sequences of requests or calls repeated any number of times",
 "The tests send well-formed messages and stop after a few.",
 [SRV,CLI,GO,FS],[("reading messages","protocol/server.go serve, protocol/client.go readNetPackets"),("counts in decoders","protocol/genout.go Unmarshal*"),("limit on reads","filesystem/filesystem.go Rread"),("per-fid and per-call state","filesystem/filesystem.go files, protocol/client.go RPC")],observe=["bytes allocated","heap in use after garbage collection","goroutines"])
p("C34","The debug wrapper's log tells what happened",
 "For every call made through the debug wrapper, and whatever its arguments and outcome, the log names the call and its arguments before the call is passed on (fids, tags, modes, permissions, offsets, counts, names, the length of data, the fields of a directory entry that can be decoded), and before it returns names the result with its values (QIDs, sizes, counts, the length of data, the fields of a directory entry), or, if and only if it failed, the error with its text.",
 ["inputs"],"all twelve calls, all argument and result values, success and failure",
 "pkg/debugfs has no tests.",
 ["pkg/debugfs/debug.go"],[("one line per call and per result","pkg/debugfs/debug.go")],observe=["log output"])
p("C35","On systems of 32 bits everything behaves as on those of 64",
 "The packages and the ufs command compile for systems whose integers and pointers have 32 bits (GOARCH=386), and what the other properties say of messages, connections, the client, the file server and the debug wrapper holds there as well, for every size, count, offset, file length, fid and tag: these have the same width on the wire everywhere, so none is cut, wraps around or turns negative where the machine's word is smaller, and nothing panics because a 64-bit word that is accessed atomically is not aligned. What such a system itself has no room for is left open: file times after 2038, and messages and buffers of 2 GB.",
 ["inputs","histories","configurations"],"all messages, sessions and calls, in programs built for a system of 32 bits",
 "The tests are only ever run on 64 bits; before this property was checked the client panicked on 32 bits at the first fid asked for.",
 [GO,SRV,CLI,FS],[("fids handed out atomically","protocol/client.go GetFID"),("sizes and counts","protocol/genout.go, protocol/server.go serve, protocol/client.go readNetPackets"),("offsets and lengths","filesystem/filesystem.go Rread/Rwrite/Rwstat, filesystem/ninep.go")],observe=["replies","values decoded","host files","whether it compiles"])
p("C36","The generator makes correct stubs for whatever the messages are defined to be",
 "The wire order of a message's members is the order in which its struct in protocol.go has them, and the generator needs nothing but that struct: if the members of any T or R messages are replaced by others, of any types that occur in messages (integers of 8 to 64 bits and the named types made of them, strings, QIDs, directory entries, byte slices with 16-bit and 32-bit counts, lists of strings and of QIDs), in any number, none included, and in any order, under names that follow the rules stated there, then running gen.go yields stubs that compile; each Marshal function encodes exactly size, type, tag and the members in their order, and each Unmarshal function returns exactly these and refuses bodies that are too short or have bytes left over; and a call of the client reaches the server's method of that message with the arguments it was given, and returns that method's results or its error.",
 ["inputs"],"all definitions of the messages with members of the types that occur, all values of the members",
 "The tests use the stubs as generated from the present definitions; the generator itself has no tests.",
 ["protocol/gen.go","protocol/protocol.go"],[("emitting codecs per member","protocol/gen.go genEncodeData, genDecodeData"),("templates of the stubs","protocol/gen.go mfunc, ufunc, sfunc, cfunc")],observe=["whether the stubs compile","bytes encoded","values decoded","arguments and results of calls"])
p("C37","A client with two streams works as with one; options are applied in order",
 "A client whose requests go out on one stream and whose replies come in on another (two pipes, say) gives the same service as one with a single stream for both, whatever the order of the replies and however they are cut up. When the stream of replies fails, ends or carries an impossible size, when a write to the stream of requests fails, or when the user closes the stream of replies or both, every outstanding and later call returns with an error, both streams are closed, and no goroutine stays behind, not even one that was blocked in a write nobody reads; and a client that was given no stream for one direction, or none at all, answers every call with an error at once. The options given to NewClient, NewListener and NewUFS are applied exactly once each, in their order, to the object that is returned; the first one that fails ends the construction with its error: no later one is applied, no stream is touched and no goroutine runs.",
 ["histories","faults","configurations"],"all kinds of pipes, histories of calls and replies, ways to end, and lists of options",
 "TManyRPCs uses two pipes and never ends them; no test has an option that fails, or more than one.",
 [CLI,SRV,FS],[("streams and their end","protocol/client.go readNetPackets, writeNetPackets, IO"),("options","protocol/client.go NewClient, protocol/server.go NewListener, filesystem/filesystem.go NewUFS")],observe=["results of calls","streams closed","goroutines","options applied"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
