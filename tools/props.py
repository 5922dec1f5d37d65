prop("C01", "Timers fire at their time, in order, the right number of times",
 "A timer set with setTimeout runs exactly once and one set with setInterval keeps running, never before its delay has passed on the monotonic clock, and both run as soon as the event loop next gets control after they are due. A cleared timer never runs again, whatever callback cleared it, and creating, clearing or failing inside a callback never disturbs other timers. update() returns no later than its limit plus the time spent in callbacks and no earlier than its minimum, unless it has run the events it was limited to and then no more than these, whatever the wall clock does.",
 [IN, SC, FS, HI], "every set of timers, delays, nested creation, clearing and throwing callbacks, every update limit, and every clock jump, interrupted sleep and slow callback",
 "Tests run a few timers in real time and tolerate any lateness; they never jump the clock, interrupt sleeps, or clear timers from callbacks at the second boundary.",
 ["src/jsiCmds.c", "src/jsiUtils.c", "src/jsiInterp.c"], [("event table", "src/jsiCmds.c: setTimeout, setInterval, clearInterval, update"), ("event loop", "src/jsiUtils.c / jsiCmds.c: Jsi_EventProcess")],
 "Oracle: a reference event loop over the simulated monotonic clock.", ["order and simulated time of callbacks"])
prop("C02", "Bytes reported as written are the bytes in the file",
 "When a whole-file write, append, copy or truncate, or a channel write, puts, seek, flush, truncate or close reports success, the file afterwards holds exactly the bytes that the sequence of operations implies, with nothing lost, duplicated or reordered. When the disk fills, a write is short or a system call fails and data is lost, at least one of the operations on that file or channel, its close included, reports a failure. Other files are not changed, and a copy keeps the permissions of its source.",
 [IN, HI, FS], "every sequence of writes, appends, copies, truncations and buffered channel operations over any data, with every placement of write, open, seek, truncate and close errors, short writes and full disks",
 "Tests write small files to a healthy disk; none sees an error, a short write or a full disk, and buffered data makes the failing call depend on sizes and history.",
 ["src/jsiFilesys.c", "src/jsiFileCmds.c"], [("channels", "src/jsiFilesys.c"), ("File.write, copy, truncate", "src/jsiFileCmds.c")],
 "Oracle: a byte-level model of the files, applied only for operations that reported success.", ["file contents and modes in the simulated file system"])
prop("C03", "A read returns the file's bytes in order, or fails",
 "Whole-file reads, channel reads, gets, seek, tell, eof, file hashing and sourcing a script always see the file's exact bytes from the current position, whatever sizes the reads are split into. When the operating system reports an error the operation fails visibly: it never returns altered, duplicated or silently shortened data, never takes an error for the end of the file, and a script that could not be read completely is not evaluated at all. Reading changes no file and leaks no descriptor.",
 [IN, HI, FS], "every file content, sequence of reads, seeks and in-place updates, and every placement of short reads, read, open and seek errors",
 "Tests read small intact files; read errors and short reads at particular offsets never occur.",
 ["src/jsiFilesys.c", "src/jsiFileCmds.c", "src/jsiEval.c", "src/jsiCmds.c"], [("channels", "src/jsiFilesys.c"), ("File.read", "src/jsiFileCmds.c"), ("source", "src/jsiEval.c")],
 "Oracle: a byte-level model with positions.", ["values returned to the script"])
prop("C05", "SQLite transactions are atomic and what was committed is durable",
 "A transaction whose function raises leaves the database as it was before, and one that returned is applied completely and stays applied across a later crash, power loss and reopening; a statement outside a transaction likewise either took full effect or, when it raised, none. Other connections never see uncommitted data, and a database locked by somebody else is waited for as the busy timeout or onBusy handler says and then raises an error. An onCommit handler that refuses a commit makes the operation fail and leaves the data unchanged; a transaction function that itself catches a disk error and carries on is outside this property.",
 [IN, HI, FS, CP], "every sequence of transactions, nested transactions, statements and handlers on two connections in every journal mode, with every placement of I/O errors, full disks, foreign locks, process crashes and power losses",
 "Tests use a healthy disk and a single connection; no crash, power loss, lock conflict or I/O error is ever injected.",
 ["src/jsiSqlite.c"], [("transactions", "src/jsiSqlite.c: SqliteTransactionCmd, DbEvalCallCmd"), ("handlers and busy timeout", "src/jsiSqlite.c: dbSetupCallbacks")],
 "Oracle: a model of the committed state, observed by an independent connection after every step and after every restart.", ["database contents seen by a monitor connection", "results and errors of operations"])
prop("C06", "A SQLite query yields every row and value exactly, or an error",
 "A query returns or hands to its callback exactly the rows and values that the SQL means for the values bound to it, in every result mode, whichever statements were run and cached before, on however many connections, and when the callback stops early, throws or runs further queries. SQL functions, collations and regular expressions given by the script do what their current definition says, and objects stored by their fields read back equal. Any failure - in preparing, binding, stepping, a user function or collation, the callback or the disk - is raised as an error: a failed or interrupted query never looks like a complete or an empty result. A query that ended, however it ended, holds no lock on the database.",
 [IN, HI, FS], "every history of queries with every bind style, result mode, callback behaviour, statement cache size, schema change and reopening on two connections, with every placement of read, write and lock errors of the disk",
 "Tests run each feature once against a healthy disk with a warm or cold cache by accident; none combines cached statements with schema changes, nested or interrupted callbacks and I/O errors.",
 ["src/jsiSqlite.c"], [("statement preparation, cache and binding", "src/jsiSqlite.c: dbPrepare, dbPrepareAndBind, dbEvalStep"), ("result modes and callbacks", "src/jsiSqlite.c: SqliteQueryCmd, DbQuery modes, DbEvalCallCmd"), ("user functions", "src/jsiSqlite.c: SqliteFuncCmd")],
 "Oracle: the same history run by the reference sqlite library through an independent binding.", ["rows seen by callbacks and returned values", "errors raised", "locks left on the database"])
prop("C09", "Each TCP connection's bytes and life cycle are exact, whatever the others do",
 "The bytes sent on a connection, by send, broadcast or echo, arrive at the other end complete, in order and unmixed with other connections as long as both ends stay open, and a receive callback gets exactly the bytes that arrived. Every connection opens once, gets data only between its open and its close, is closed once when its peer, a callback, the program or an error ends it and never otherwise, is released completely, and the list, count and last-close report follow. A slow, stalled, resetting or lost peer, an interrupted or failing system call, or a throwing callback affects only its own connection and never blocks or ends the program.",
 [IN, SC, FS, HI], "every history of connections, sends, closes and resets by peers and callbacks on servers and clients, every segmentation, delay and buffer limit of the streams, and every placement of failing, partial and interrupted socket calls",
 "Tests connect one client to one server on the loopback with small messages; no partial send, reset, stall, error or close from inside a callback occurs.",
 ["src/jsiSocket.c"], [("event loop and callbacks", "src/jsiSocket.c: sock_handler, sockEvent"), ("commands", "src/jsiSocket.c: send, recv, close, names, idconf")],
 "Oracle: per-connection byte streams and life-cycle automata over the trace of the simulated network.", ["callbacks and results seen by the script", "bytes and closes seen by the simulated peers", "descriptors left open"])
prop("C10", "Datagrams arrive whole, unmixed and at the right receiver",
 "Every datagram a UDP client or server is said to have sent is passed to the network once, to the address it was meant for, with exactly the given bytes; a send that fails raises. Every datagram that reaches a socket is given to its receive callback, or returned by recv, at most once, whole and unmixed, with the address it came from, in the order of arrival, and no datagram, however long or empty, closes the socket, ends the program or stops later datagrams. Loss, duplication and reordering by the network are passed on as they are, and interrupted or failing calls affect only their own datagram.",
 [IN, SC, FS, HI], "every history of datagrams of all sizes between servers, clients and foreign peers, every loss, duplication, reordering and delay, and every placement of failing and interrupted socket calls",
 "Tests send a few short datagrams over the loopback, where nothing is lost, reordered, empty or oversized and no call fails.",
 ["src/jsiSocket.c"], [("datagram receive", "src/jsiSocket.c: sock_handler, SocketRecvCmd"), ("datagram send", "src/jsiSocket.c: SocketSendCmd")],
 "Oracle: a datagram ledger over the trace of the simulated network.", ["callbacks and results seen by the script", "datagrams seen by the simulated network"])
prop("C04", "File operations change exactly what they name, or raise",
 "Creating, removing, renaming, linking, truncating or changing the mode of a file, directory, device or link changes exactly the object that the path names, as the same operation on a POSIX tree would, and nothing else: links are never followed where the link itself is meant, nothing existing is replaced without force, and a forced removal stays inside the tree it was given. An operation that reports success has been done completely, and one that could not be done, or was stopped by a failing call, raises with a reason and leaves no more than a part of its own effect. Queries, listings and recursive or filtered glob return exactly what is there, end even where links form cycles, change nothing and report what their callbacks throw.",
 [IN, HI, FS], "every tree of files, directories, hard links and links to files, directories, themselves and nothing, every history of operations on it under every spelling of the paths, and every placement of failing calls",
 "Tests touch a few plain files in one directory; links, cycles, unusual spellings, untyped directory entries and failing calls do not occur.",
 ["src/jsiFileCmds.c", "src/jsiFilesys.c"], [("operations", "src/jsiFileCmds.c: FileRemoveCmd, FileRenameCmd, FileLinkCmd, FileMkdirCmd, ..."), ("glob", "src/jsiFileCmds.c: FileGlobCmd, SubGlobsDirectory"), ("path resolution", "src/jsiFilesys.c: Jsi_FileRealpathStr")],
 "Oracle: an executable model of a POSIX tree; the whole simulated tree is compared after every operation.", ["the simulated tree after each operation", "results and errors seen by the script"])
prop("C14", "exec runs its command once, with all its input and output, or raises",
 "exec starts the command it was given exactly once, in the directory it was told, feeds it the whole input and returns the whole of what it printed, with its exit code when asked for. A command that stops reading its input early, dies of a signal, can not be started, or whose input, output or end can not be followed is reported as what it is, by an error or the code that the options ask for, never as a success, as a shortened output or by the end of the program. Afterwards the current directory is what it was, no process is left unreaped and no descriptor open, and with noRedir or noShell no character of the command is left to a shell.",
 [IN, FS, SC], "every sequence of commands with any output, input, exit, early end and timing under every combination of options, and every placement of failing, partial or interrupted pipe, fork, wait and directory calls",
 "Tests run a few well-behaved commands; broken pipes, signals, interrupted reads, failing forks and lost directories do not occur.",
 ["src/jsiCmds.c"], [("exec", "src/jsiCmds.c: jsi_SysExecCmd and its popen without a shell")],
 "Oracle: a model of the command from the table of simulated programs; commands are simulated, nothing is really executed.", ["results, errors and current directory seen by the script", "commands, input and ends seen by the simulated processes"])
prop("C11", "A safe interpreter reads, changes and runs nothing outside its limits",
 "Whatever program runs in a safe interpreter, or in any interpreter that it makes, no file outside its safeReadDirs is opened for reading and nothing outside its safeWriteDirs is created, changed, linked, renamed or removed, by no spelling of a path, through no symbolic link and by no command, including SQLite, archives, source, require, glob and channels; querying the metadata of a path is not restricted. No command runs except one that safeExecPattern or Vfs.exec lets through, no native code is loaded, and no option that sets these limits can be changed from inside. What lies inside the limits can be used.",
 [FS, IN], "every program of those operations, every arrangement of links across the boundary, every spelling of paths, every configuration of the limits, and every failure of the path lookups the decisions rest on",
 "Tests open one file inside and one outside; the boundary has to hold for each of some hundred ways to name, link, replace, attach, mount or execute something, and when a lookup fails.",
 ["src/jsiInterp.c", "src/jsiFilesys.c", "src/jsiFileCmds.c", "src/jsiSqlite.c", "src/jsiZvfs.c", "src/jsiCmds.c", "src/jsiVfs.c", "src/jsiLoad.c", "src/jsiEval.c"], [("containment", "src/jsiInterp.c: Jsi_InterpAccess; src/jsiFilesys.c: Jsi_Open, jsi_SafeRealpath; src/jsiFileCmds.c: SAFEACCESS; src/jsiSqlite.c: DbSafeAccess")],
 "Oracle: the tree outside the write directories is compared after every operation, and every open, database open, command and library load that reaches the (simulated) system is audited by canonical path.", ["the simulated disk after each operation", "opens, commands and library loads reaching the system"])
prop("C16", "Messages between interpreters are delivered once, in order, unchanged",
 "Every call, eval and alias callback that one interpreter sends to another one that goes on running, in its own thread or not, is run exactly once with an equal argument, in the thread of the receiver, and the messages of one sender are run in the order they were sent, whatever other messages fail, throw, update the event loop or call back. A waiting call or eval returns the value of its own script, or raises the error that script raised, and no interpreter in a thread begins a message while it runs another. The sender always gets on.",
 [SC, HI, FS, IN], "every history of asynchronous and waiting calls, evals and callbacks among a main interpreter and up to three others, every preemption of the threads, every timing of sleeps, clocks and locks, and every failing creation of a thread",
 "Tests send a few messages to a thread and pass with whatever interleaving the machine gives; lost, doubled, swapped or misdirected messages need a failure, nesting or preemption between queueing and running.",
 ["src/jsiInterp.c", "src/jsiCmds.c", "src/jsiUtils.c", "src/jsiJSON.c"], [("queues between interpreters", "src/jsiInterp.c: InterpEvalCmd_, InterpCallCmd, InterpExecWait, SubInterpEvalCallback, jsi_AliasInvoke"), ("locks and sleep", "src/jsiUtils.c: Jsi_MutexLock, Jsi_Sleep"), ("threads", "src/jsiInterp.c: NewInterpThread, InterpConstructor")],
 "Interpreters that end, or are deleted while a message is under way, are the subject of C13. Preemption happens between basic blocks, not inside one. Oracle: exactly-once FIFO queues per receiver and per sender over the recorded history.", ["order, thread and arguments of the messages run", "results and errors of waiting calls"])
prop("C13", "Interpreters may end or be dropped at any time: users are told, nothing is lost",
 "An interpreter, in its own thread or not, can end (script over, error, exit), be dropped, remade, and have its callbacks set, changed and removed at any moment of the traffic with it: every waiting call or eval returns its value, raises the error of its script, or raises that the interpreter is gone and then was not run, and every later use raises that too. The messages it ran are a first part of those sent, each run once and in order, nothing of it runs after its end or exit, and all callbacks it made before its end arrive once and in order. No use of a living interpreter is refused, nothing hangs or crashes, and the main program can end while threads go on.",
 [SC, HI, FS, IN], "every history of making, calling, evaluating in, giving callbacks to, asking and dropping interpreters whose scripts end in any way at any time, threads made by threads included, every preemption of the threads, every timing of sleeps, clocks and locks, and every failing creation of a thread",
 "Tests let threads run until the program is over; an end that falls between the queueing and the running of a message, or into the change of an alias, is a matter of microseconds.",
 ["src/jsiInterp.c", "src/jsiCmds.c", "src/jsiUtils.c"], [("end of a thread", "src/jsiInterp.c: NewInterpThread, interpThreadEnd, jsiInterpDelete"), ("use of the interp of an object", "src/jsiInterp.c: interpObjUse, InterpExecWait, SubInterpEvalCallback"), ("aliases", "src/jsiInterp.c: interpAlias, jsi_AliasInvoke, jsi_AliasFree")],
 "Preemption happens between basic blocks, not inside one; threads with a shared key table (privKeys:false) are not covered. Oracle: prefix of a FIFO queue per interpreter, state of each interpreter (running, over, exited) over the recorded history.", ["order and number of messages run and callbacks received", "results and errors of calls on running and ended interpreters"])
prop("C17", "Loading code: a file runs whole and in its own place, or the load raises",
 "A file loaded by source, import, require or the first call of an autoloaded function runs from its first to its last statement, or up to the error it raises, as itself (Info.script, Info.scriptDir, Info.isMain, relative names from its own directory), and the load gives its value or raises its very error; a file that is missing, has a syntax error, or can not be opened or read whole does not run at all and the load raises. Afterwards the state of the loading file is as before the load: script, directory, isMain, and depth, which is limited. once runs a file that has not run and never again, exists skips only a missing file, noError hides only errors, noEval runs nothing; require finds the first package in its search order, loads it once, gives its version and raises if it is too old; a failed load leaves nothing that stops or alters a later one.",
 [FS, IN, HI], "every tree of script, package and autoload files loading each other, every text, length and shape of them, every sequence of loads with changes of files in between, and every failing, short or slow open, read, stat, access, realpath or close in them",
 "Tests source one or two well-formed files once each on a healthy disk; a file that fails to open and is loaded again, an error that passes through three files, or the same text run twice does not occur.",
 ["src/jsiCmds.c", "src/jsiEval.c", "src/jsiFilesys.c"], [("source and import", "src/jsiCmds.c: SysSourceCmdEx; src/jsiEval.c: jsi_evalStrFile"), ("packages", "src/jsiCmds.c: jsi_PkgLoad, Jsi_PkgRequireEx, SysProvideCmdInt"), ("autoload", "src/jsiEval.c: jsi_LoadFunction; src/jsiInterp.c: Jsi_AddAutoFiles")],
 "A package that raised after its provide may count as loaded; shared libraries are not loaded. A stat failure at start may hide the autoload file. Oracle: a reference walk of the generated files over the recorded log.", ["files and statements run, in order", "values, errors and versions", "Info.script, isMain and depths after each load"])
prop("C18", "A failure reaches its handler, and nothing else does",
 "Whatever fails in a program, a throw or a failing operation, and however deep (functions, callbacks of arrays, strings, globs, SQL and timers, call, apply, bind, new, eval, sourced and imported files, other interpreters and their aliases), stops there and arrives at the innermost enclosing catch, as the very value thrown or a text about this very failure and no earlier one; every finally between runs once, in order, with or without the failure, and what it does not itself replace goes on after it. Breaks, continues and returns arrive where they lead, scopes, with blocks and variables are afterwards what they were, and a program in which nothing fails is never diverted. What nothing catches ends the program with a failure status and its message, and the failure of a timer is reported and ends that timer call only.",
 [IN, FS, SC], "every program of nested functions, loops, switches, with blocks, try, catch and finally with throws, returns, breaks, continues and rethrows at any place, calls by any route, and any failing, short or slow open, read, write, stat, directory read or lock in its operations",
 "Tests throw a string inside one or two try blocks; a read that fails inside a callback inside a finally while another error is pending, the same statement failing twice, or a timer failing during a try does not occur.",
 ["src/jsiEval.c", "src/jsiUtils.c", "src/jsiInterp.c", "src/jsiFunc.c", "src/jsiArray.c", "src/jsiCmds.c"], [("try, catch, finally, throw", "src/jsiEval.c: jsiDoThrow, jsiTakeException, OP_STRY to OP_EFINAL, OP_THROW, OP_RET, OP_JMP"), ("error texts", "src/jsiUtils.c: jsi_LogError path of Jsi_LogMsg"), ("callbacks and timers", "src/jsiFunc.c: Jsi_FunctionInvoke; src/jsiCmds.c: Jsi_EventProcess; src/jsiInterp.c: interpCall, jsi_AliasInvoke")],
 "A return inside try or catch leaves without running finally: the repository's own test tryreturn.jsi has it so. Objects thrown through another interpreter or SQL may arrive as text. Oracle: a reference interpreter of the generated program over the recorded log, in which an operation may fail only where a fault was injected.", ["order of statements, handlers and finally blocks", "caught values and texts", "values of calls", "exit status and messages"])
prop("C19", "A virtual file system shows exactly what it was given, until unmounted",
 "While a virtual file system is mounted, every file its list names, whether the list and the contents come from options, a callback, a defined type, a fossil repository or a sqlar archive, is found under the mount point with its listed size, time and permissions, and reads, is globbed, sourced, copied and seeked with exactly its bytes (never more than the listed size or than there is), asking the callback for a file once; the most deeply nested mount that contains a path decides. It is read-only: writes, removals and appends of its files raise and also leave alone a native file of that name, and other interpreters and threads never see it. A mount that can not be made, a callback, command or database read that fails, an unmount that is repeated, or either of them called from inside such a callback raises and leaves the other mounts as they were, after an unmount nothing of it remains but channels that were open, which read on.",
 [IN, HI, FS, SC], "every set of mounts, nested and over native directories, every file list and contents, every history of mounts, unmounts, reads, channels, globs, option changes and writes, callbacks that throw, give the wrong thing or themselves mount, unmount and read, in several interpreters and threads, and every failing or short command, pipe, file or database read",
 "No test of the suite mounts a virtual file system at all; callbacks that unmount what is being read, lists that disagree with the data, nested mounts and failing commands need generated histories.",
 ["src/jsiVfs.c", "src/jsiFilesys.c", "lib/Jsi_Vfs.jsi"], [("mount, unmount, type, conf", "src/jsiVfs.c: VfsVmountCmd, VfsUnmountCmd, VfsTypeCmd, VfsFileConfCmd"), ("file operations", "src/jsiVfs.c: jsi_VfsLookup, VfsLookupMount, Jav_FS procs; src/jsiFilesys.c: Jsi_Open, Jsi_FilesystemForPath"), ("fossil and sqlar types", "lib/Jsi_Vfs.jsi")],
 "Paths are given as mount point plus listed name; the fossil command is simulated, sqlar archives are written by the check with Python's sqlite3 and zlib. Which fossil version a mount without a version picks is not judged. Oracle: an executable reference model of mounts and callbacks walked over the recorded log.", ["results and errors of every operation", "order and arguments of callback calls", "native files afterwards"])
prop("C20", "The test runner passes a test only when it printed what it should",
 "A test file or directory run with jsish -u is reported as passed exactly when each test ran to its end and everything it printed, test lines (;expression;), expected throws (;//expression;), assertions and the text of its INPUT and ARGS blocks included, is the text of its EXPECT block; a test that has none passes when it does not fail, and every test runs on its own, whatever the others read, define, throw or print. Every listed test is run, in order, until failMax tests failed; the exit status is the number of failed tests, and never 0 when a test, or the reading of one, failed. An update puts exactly the output into the EXPECT block and changes nothing else of the file, says so, leaves failing tests alone, and a file it updated passes; showing a test prints its exact output.",
 [IN, FS, HI], "every set of test files, with every mix of printing, test lines, throws, input, arguments, timers, sourced files, globals, errors and exits, every way in which the EXPECT block can differ from the output, every combination of the options, and every failing or short read, write, directory read and output",
 "The suite is run by this very runner: a runner that passes what it should not, loses a test or damages a file is not noticed by it.",
 ["lib/Testing.jsi", "src/jsiEval.c", "src/jsiInterp.c", "src/jsiString.c"], [("the runner", "lib/Testing.jsi: runOne, main"), ("test lines", "src/jsiEval.c: jsiJsPreprocessLine"), ("captured input and output", "src/jsiCmds.c, src/jsiUtils.c: stdinStr, stdoutStr"), ("exit status", "src/jsiCmds.c: moduleRun; src/jsiInterp.c: jsi_DoExit")],
 "The options exec, find, echo and times, which do not compare or run another process, are not judged. Oracle: output, verdicts, exit status and updated files follow from how the tests were generated.", ["PASS and FAIL lines and the summary", "exit status", "contents of the test files afterwards"])
prop("C12", "What a program prints arrives whole, and its exit status is true",
 "Everything a program prints with puts and printf or writes to the stdout channel, directly, from functions, callbacks, timers, sourced files, sub-interpreters and threads, arrives on standard output once, in order and unaltered (a null character is shown as \\0), however the program ends; when it can not be written the program ends with a failure status. The exit status is the argument of exit, 0 at a normal end, and not 0, with a message, after an uncaught error or for a script that can not be read or parsed. Lines of standard input are returned whole and in order, and a read error is raised and not taken for the end.",
 [PR, IN, FS, SC], "every program of those operations run as a file, a directory, with -e, after --E code or from standard input, every output, input and line length around the buffer sizes, every way and place to end, and every failing write of the output, read of the input, and open or read of the script",
 "Tests compare short outputs of programs that end normally on a healthy output; a full disk behind stdout, an exit deep inside callbacks, or a line longer than a buffer does not occur.",
 ["src/main.c", "src/jsiEval.c", "src/jsiCmds.c", "src/jsiInterp.c", "src/jsiFilesys.c"], [("puts and printf", "src/jsiCmds.c, src/jsiUtils.c: jsiPuts"), ("exit and main", "src/jsiInterp.c: Jsi_Main, jsi_DoExit; src/main.c"), ("console.input", "src/jsiCmds.c: consoleInputCmd")],
 "Exit statuses below 0 or above 127 become 127 by design and exit in a sub-interpreter ends that interpreter only. Oracle: the output, status and input lines follow from how the program was generated.", ["bytes on standard output and error", "exit status of the process", "lines returned by console.input"])
prop("C07", "Archives and compressed files give back what was put in, or the operation fails",
 "Every member of an archive made with Zvfs.create or Zvfs.append, and of a zip archive made by another program, reads back with its exact bytes through the mount (whole, by lines, in pieces, after seeks, as a script, from several threads), with its size, mode and time, and other zip programs read it too; append keeps the members there are, create and append keep what the file held before, and truncate leaves exactly that. Data written with the 'z' and 'Z' modes in any pieces, with flushes and appends, reads back exactly and is readable by gzip. When a read, a write, a full disk or damage gets in the way the operation raises and the archive is what it was before; wrong or shortened data is never returned as if it were right, and a mount never shows or hides files outside of its mount point.",
 [FS, IN, SC], "every sequence of archive and compressed file operations, every set of members, sizes and kinds of data, every archive prefix, cut or flipped byte, and every failing or short read and write, failing seek or open, and full disk in them",
 "Tests mount one small archive made earlier; members around the buffer sizes, appends, errors inside the central directory, damaged data, and readers in several threads do not occur in them.",
 ["src/jsiZvfs.c", "src/jsiFilesys.c", "src/jsiFileCmds.c", "miniz/miniz.c"], [("create, append, truncate, list, mount, unmount", "src/jsiZvfs.c: zvfsCreateAppend, ZvfsTruncateCmd, Zvfs_Mount, ZvfsUnmount"), ("reading of members", "src/jsiZvfs.c: vfsInput, Jaz_FS procs"), ("compressed files", "src/jsiZvfs.c: Jfz_FS procs")],
 "Zip64, encryption and methods other than stored and deflated are not covered. Duplicate names in append are documented as not handled and not generated. Oracle: dictionary of members kept by the check, Python's zipfile, zlib and gzip on the resulting files.", ["bytes, size, mode and time of members", "bytes of the archive file", "lists, globs and mount names", "success or raise of each operation"])
prop("C08", "Import, export, backup and restore are whole or not at all, and exact",
 "Sqlite import puts exactly the rows of the file into the table, each cell as the separator, quotes, null value, header, limit and conflict options say, returns how many lines it read, and raises without changing anything when the file, the table or the disk does not allow it; inside a transaction it takes back its own rows only, and the transaction goes on. What query writes as csv, import reads back as the same rows. backup and restore copy the whole database as it was committed at one moment or raise and leave the destination as it was; a fault, a lock held by another process, a crash or a power loss during any of these never leaves a mixture, and never touches what it was not asked to change.",
 [HI, FS, CP], "every history of imports, exports, backups, restores and changes, every content and form of the file, and every failing, short or full write, read, sync or lock, crash and power loss inside them",
 "Tests import one small file and restore one small backup; quotes and separators at odd places, malformed lines after good ones, conflicts, locks, and faults or crashes in the middle do not occur.",
 ["src/jsiSqlite.c", "src/jsiUtils.c"], [("import", "src/jsiSqlite.c: SqliteImportCmd, dbImportRecord, dbImportSplit"), ("csv output", "src/jsiSqlite.c: dbEvalCallCmd and its output modes"), ("backup and restore", "src/jsiSqlite.c: SqliteBackupCmd, SqliteRestoreCmd")],
 "SQLite itself is real; its VFS is simulated. A restore or backup that fails while the finished copy is being put down may leave the complete copy or what was there. Oracle: a model of the tables and their row numbers, read by fresh connections after each step and after a restart.", ["rows of all tables seen by fresh connections", "results and errors of each call", "integrity after restart"])

prop("C15", "A signal is acted on the way the script last set it, and none is lost",
 "Whenever signals arrive, each one that a callback was set for runs every such callback, in its own interpreter, from the event loop and never inside itself, once for each signal or for several that came before it could run, and never without one; an ignored signal does nothing, and one that is not handled, or was reset, has its default effect. alarm delivers its signal at its time and not before, once, and returns the seconds that were left of the one it replaces, and kill sends exactly the signal named to exactly that process. A call that names no valid signal, or whose system call fails, raises and changes nothing, and the lists of handled, ignored and default signals are what was set.",
 [SC, HI, FS, IN], "every history of callback, handle, ignore, reset, kill and alarm calls and event loops, in callbacks too and in two threads, every spelling of a signal, every moment at which signals arrive, and every failing system call and interrupted or slow sleep",
 "Tests send one signal to themselves and wait for one callback; signals that arrive inside callbacks, between the test of a flag and its clearing, in other threads or in bursts need control over the moment of delivery.",
 ["src/jsiSignal.c", "src/jsiCmds.c", "src/jsiInterp.c"], [("signal state and handler", "src/jsiSignal.c: signal_handler, SignalSub, SignalCallbackCmd, SignalAlarmCmd, SignalKillCmd"), ("signal events", "src/jsiCmds.c: Jsi_EventProcess, SysUpdateCmd")],
 "Signals are delivered at basic-block edges, not inside one. The break into the debugger by ctrl-c and the interactive prompt are not covered. Oracle: state machine of each signal and counting of deliveries against runs.", ["callbacks run and their order", "system calls made", "effect of each signal on the process"])
