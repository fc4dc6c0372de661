PS = 'path-sensitive typestate dataflow over Go SSA'

prop('C01', 'A change is recorded before it is applied',
 'A request that can change the database has its record handed to the database file before any part of the change is made, for every command that can change anything. When a database file is configured, no changing command can be executed unrecorded, and none is recorded from a concurrent activity that could fall behind its execution.',
 ['histories', 'crash_points', 'schedules'], 'every request taken by the engine loop, every command name, with and without a database file, every failure of marshalling',
 'The tests never run the engine loop together with a database file, and a lost or late record only shows after a crash or restart at the wrong moment.',
 ['pkg/db/engine.go', 'pkg/db/db.go', 'pkg/log/log.go', 'pkg/log/persistent.go', 'pkg/command/'],
 [('the engine writes the log of modifying commands before executing', 'pkg/db/engine.go handleRequest/writeLog'), ('command classification', 'pkg/command/*.go Type()')],
 technique=PS + ' of the engine loop, plus mutation analysis against the command classification',
 note='Exhaustive over the paths of the engine loop and of the 43 commands in a finite abstract domain; what the file system does with bytes handed to the file is not decided.',
 how='Engine.Start is followed on every path (callees inlined down to the marshalling and the buffered writer of the database file). At each execution of a command the path must know the command is not modifying, or that there is no file, or have marshalled a record and handed it to the writer since the command was made. A spawned write does not count. Then every command\'s life is followed: reaching a container operation which the mutation analysis of the container package finds able to change its receiver, or asking for creation, requires the modifying type on that path.')

prop('C04', 'Each command does the documented operation on the documented arguments',
 'Every command name works on its documented kind of container, takes its keys from the documented argument positions and performs its documented container operation with the documented arguments. A request on existing data is never answered with success unless that operation was performed, and a command that reports a value reports one obtained from the operation.',
 ['inputs', 'programs'], 'all 43 commands, every argument list, every state of the container',
 'The command tests cover a handful of argument lists for some commands; a swapped or shifted argument position, or a path that skips the operation, depends on the input.',
 ['pkg/command/'], [('command table and constructors', 'pkg/command/command.go'), ('Execute of each command', 'pkg/command/*.go')],
 technique=PS + ' with argument-position provenance against a frozen command table',
 note='Decides which operation is called with which request positions on every path; what the operation computes is not decided here.',
 how='The life of each command (construction, type, keys, access objects, execution, result) is followed on every path with symbolic argument positions; container kind, keys, operation and the positions each operation argument depends on are compared with a frozen table of the 43 commands. A loop over arguments must cover the documented pattern. The oracle is the documented Redis command signatures.')

prop('C05', 'An accepted command always produces a reply or an error',
 'For every accepted request, execution comes back without raising a panic of its own and its result is a reply or an error, never neither.',
 ['inputs', 'histories'], 'all 43 commands, every accepted argument list, every container state including missing keys',
 'The tests check chosen results; a path that forgets to set the result leaves a client without an answer and needs a specific container state.',
 ['pkg/command/'], [('result and error fields set by Execute', 'pkg/command/*.go'), ('Result()', 'pkg/command/*.go')],
 technique=PS + ' of every command from construction to result',
 note='Exhaustive over paths in the abstract domain; run-time panics inside the containers are not decided here.',
 how='Each command\'s life is followed on every path from acceptance through execution to its result: the returned pair must have a non-nil reply or a non-nil error, and no path may end in an explicit panic.')

prop('C06', 'Requests with a wrong number or kind of arguments are rejected',
 'Every command accepts exactly its documented numbers of arguments, and rejects all others with the invalid-argument error without doing anything. Arguments documented as integers are parsed before a command is accepted, and an unknown command name is rejected with the unknown-command error.',
 ['inputs'], 'all 43 commands and any unknown name, argument lists of every length',
 'Only a few lengths per command are tested; off-by-one and parity errors in the check need particular lengths.',
 ['pkg/command/'], [('argument checks of the constructors', 'pkg/command/*.go'), ('lookup of the name', 'pkg/command/command.go NewCommand')],
 technique=PS + ' with an exact length domain (0..40 and larger)',
 note='The set of accepted lengths is computed exactly for 0..40 and as one class above.',
 how='The construction of each command is followed on every path with a set-valued length domain; the union of the lengths of accepting paths must equal the documented set, rejecting paths must carry the invalid-argument error, integer positions must be known to have parsed, and an unregistered name must give the unknown-command error.')

prop('C07', 'Commands on missing keys or fields never crash the server',
 'When the key (or the empty key, which never has a container), a field or an element a command asks for does not exist, the command never uses the missing object or value as if it were there. A value returned together with an error is not used.',
 ['inputs', 'histories'], 'all 43 commands, every combination of present and absent keys and elements',
 'The tests construct containers by hand and rarely pass missing ones; the crash needs a specific key to be absent.',
 ['pkg/command/', 'pkg/db/containers.go'], [('nil checks of access objects', 'pkg/command/*.go Execute'), ('lookups that return nil', 'pkg/db/containers.go')],
 technique=PS + ' with nilness refinement on access objects and operation results',
 note='Exhaustive over the paths of the commands; the containers\' own bodies are not part of this rule.',
 how='Each command\'s life is followed with access objects that may be nil. Method calls on one need the path to know it is not nil; unchecked assertions need every container of that kind to satisfy them; results returned with an error need the error known nil; elements of a lookup result need a nil check.')

prop('C12', 'Every request gets exactly one answer, addressed to its own client',
 'Every request the engine takes from a client, whatever its content, is answered by exactly one response, which carries the identity of the connection the request came from. Failed or malformed requests are answered as well.',
 ['inputs', 'histories', 'fault_sequences'], 'every request object the parser can produce, every outcome of the command',
 'No test runs the engine loop; a path that returns without publishing leaves one client waiting forever and needs a particular failing request.',
 ['pkg/db/engine.go'], [('the engine loop publishes a response for each request', 'pkg/db/engine.go Start/handleRequest')],
 technique=PS + ' of the engine loop',
 note='Counts publications by the engine; the delivery by the bus is not decided here.',
 how='Engine.Start is followed on every path. Between two receives (and at the loop\'s end) the path must have published exactly once on the response topic, with the id got from this event and a response set in the published map; only an event error or a malformed event (no data map, no id, no request entry) excuses the path.')

prop('C02', 'A record holds the whole command: name, database and every argument',
 'The record written for a command carries that command\'s own name, its own database number and each of its arguments exactly once and in order, every one stored byte for byte in an encoding that is read back unchanged. A command whose arguments cannot be represented is not recorded with part of them missing.',
 ['inputs', 'programs'], 'every command the engine records, every argument list of every length, every kind of argument object',
 'No test of the repository builds a log record; a lost last argument or a lossy encoding needs a particular argument and only shows after a restart.',
 ['pkg/db/engine.go', 'pkg/log/log.go'], [('the record is built from the request', 'pkg/db/engine.go writeLog'), ('arguments are converted to log arguments', 'pkg/log/log.go NewLog')],
 technique=PS + ' with an inductive cover rule over the argument list',
 note='Exhaustive over the paths from the request to the marshalled record in a finite abstract domain with symbolic indices; the protobuf encoding of the message itself is trusted.',
 how='The engine\'s log writing is followed on every path down to the marshalling. A cover rule proves that the loop over the request\'s objects starts at the first argument, steps by one, stores each element exactly once into the record\'s argument list and ends at the length of the list. The stored value must be the element\'s text or integer through lossless conversions only (a frozen list of standard functions), and the name and database number marshalled must be those the command was given.')

prop('C03', 'Goroutines never race for what they share',
 'What one goroutine of the server changes while another one may use it is guarded: a field of an object or a package variable that two goroutines share is only changed under a lock or atomically, or before the other goroutine is started, or by a sync.Once that every reader passes; a local variable shared with a goroutine is only used before it is started or after it has announced its end. The data itself (databases and containers) is only ever used by one goroutine at a time: by main while it is rebuilt, and by the one goroutine of the engine after that.',
 ['schedules'], 'every interleaving of every goroutine the server starts, for all fields of all objects of the repository',
 'A race needs two goroutines at the same place at the same time; the tests start no server and do not run the race detector.',
 ['pkg/db/engine.go', 'pkg/network/', 'pkg/concurrency/', 'pkg/replication/', 'pkg/common/logging.go', 'cmd/server/main.go'], [('the engine alone executes commands', 'pkg/db/engine.go Start'), ('one bus for all', 'pkg/concurrency/event_bus.go GetEventBus'), ('deliveries are counted and collected', 'pkg/concurrency/topic.go distributeEvent'), ('Init sets everything up before Serve starts goroutines', 'pkg/network/server.go')],
 technique='thread-modular race analysis: goroutine roots, may-run-in-parallel dataflow over the call graph, locksets',
 note='Objects are told apart by type and place of creation: objects of a type that both goroutines make themselves, data maps (which are handed over with an event), and values published through a channel (changed before a send or close, used after a receive) are taken to be handed over properly. What only a user of the packages outside the server could start is not covered.',
 how='Every function started as a goroutine, and main, is followed through its calls with the set of goroutines that may run by then. Each field, package variable or captured local that one root changes and another uses (or several goroutines of one root) must be guarded, ordered by the start of the other goroutine or by a join, or set by a Once; the data must have exactly one goroutine, started once.')

prop('C13', 'Shared state is only touched under its lock',
 'Every field that is guarded by a mutex (the topic and subscriber tables of the event bus, the writer of the database file, the content of the data map and whatever else the code changes under a lock of the same object) is read and changed only while that mutex is held, and changed only while it is held exclusively. A change that depends on an earlier lookup is made in the same critical section.',
 ['schedules'], 'every interleaving of every exported entry point of the packages that use a mutex',
 'A missing lock only shows under a particular interleaving; the tests run few goroutines and without the race detector.',
 ['pkg/concurrency/', 'pkg/log/persistent.go', 'pkg/network/', 'pkg/types/data_map.go', 'pkg/replication/'], [('mutexes of the event bus, topics, broadcaster and data map', 'pkg/concurrency/*.go, pkg/types/data_map.go'), ('mutex of the database file', 'pkg/log/persistent.go')],
 technique='lockset dataflow (path-sensitive, interprocedural) with inferred guarded-by relation',
 note='Guarded fields are inferred from the code (some path changes them under the exclusive lock); fields never changed under a lock are not judged.',
 how='Each entry point of every package with a mutex in a struct is followed on every path with the set of locks it holds on each object. A field changed somewhere under an exclusive lock of its own object is guarded: every other access outside construction needs that lock, changes need it exclusively, and an entry looked up before the lock was released may not be the reason of a change after it was taken again.')

prop('C14', 'Every lock that is taken is released, and none is taken twice',
 'No operation of the repository returns, normally or through an early exit, while it still holds a mutex it has taken, takes a mutex it already holds, or releases one that it does not hold or in another mode than it was taken.',
 ['schedules', 'fault_sequences'], 'every path, error exits included, through every entry point of the packages that use a mutex',
 'A leaked lock on an error path only shows when that error occurs and something else needs the lock afterwards.',
 ['pkg/concurrency/', 'pkg/log/persistent.go', 'pkg/types/data_map.go', 'pkg/replication/'], [('Lock and Unlock calls', 'pkg/**')],
 technique='typestate dataflow over locks (path-sensitive, interprocedural, deferred calls included)',
 note='Exhaustive over the paths of the entry points; a panic inside a library call while a lock is held is not modelled.',
 how='The same dataflow as C13 gives the locks held at every point of every path; taking a held lock, releasing one not held or in another mode, and returning from an entry point with one held are violations.')

prop('C38', 'Replay executes every record once, as it was recorded',
 'When the engine rebuilds its data from a log, each record of the log is executed exactly once and in order, as a command with the record\'s own name and all of its arguments, on the database the record names. Every argument is given back to the command unchanged, and no record that was read is skipped because of an earlier record.',
 ['inputs', 'histories', 'crash_points'], 'every log, every record in it, both sources of a log (file and master)',
 'No test of the repository replays a log; a skipped record or a misplaced argument needs a particular history and a restart.',
 ['pkg/db/engine.go', 'pkg/log/log.go'], [('BuildFromLog executes the records', 'pkg/db/engine.go'), ('arguments are restored', 'pkg/db/engine.go convertArguments')],
 technique=PS + ' with an inductive cover rule over records and arguments',
 note='Exhaustive over the paths of the replay in a finite abstract domain with symbolic indices; that parsing gives the records that were written is C22 and C40.',
 how='BuildFromLog is followed on every path. A cover rule proves that the records are taken one by one from the first to the last, that a command is made from each with the record\'s name and the whole list of converted arguments, and executed once on the database named by the record. The conversion is proved to give back each argument in order through inverse encodings. Only a failed command construction or an unreadable argument may end or skip, as the code documents.')

prop('C41', 'A command works on the containers of its own keys',
 'Before a command is executed it is given, for each key it names and in that order, the container stored under that very key in the database: of the kind the command works on, created only if the command asks for creation and it is missing. Every command handed to a database is executed exactly once, and never before it was given its containers.',
 ['inputs', 'histories'], 'every command, every list of keys, every state of the database',
 'The tests hand containers to commands directly and never go through the database; a wrong kind, key or order needs a command with several keys or a missing one.',
 ['pkg/db/db.go'], [('ExecuteCommand looks up the access objects', 'pkg/db/db.go')],
 technique=PS + ' with an inductive cover rule over the keys',
 note='Exhaustive over the paths of ExecuteCommand with symbolic keys and indices.',
 how='ExecuteCommand is followed on every path: the loop over the command\'s keys must cover them all, each lookup must use the key at hand and the kind and creation mode the path knows the command to ask for, each container found must be stored at the key\'s place, and exactly one execution must follow the hand-over.')

prop('C42', 'A container stays under its key',
 'Looking up a key gives the container last stored under exactly that key in the map of that kind, or nothing. A lookup that creates adds a new empty container under that key only if none is there, gives back the one it found or stored, and never replaces, shares or moves the container of another key.',
 ['inputs', 'histories'], 'every key, every sequence of lookups of every kind',
 'The tests do not cover the keyspace; overwriting an existing container or confusing two maps needs a history of at least two commands.',
 ['pkg/db/db.go'], [('lookup and creation of containers', 'pkg/db/db.go containers')],
 technique=PS + ' of the lookup methods with map provenance',
 note='Exhaustive over the paths of the lookup methods.',
 how='Each lookup method of the containers is followed on every path: reads and changes of a map must use the given key unchanged, the map read and the map changed must be the same field and no two kinds may share one, a change needs the path to know that the key is absent and must store a newly made container, and the result must be what was found or stored.')

prop('C15', 'No channel is closed twice or sent on after its close',
 'Whatever the interleaving of its users, no channel of the repository is closed twice, and nothing is sent on a channel that has been closed. Each close happens at most once for each channel made: closing a connection, a receiver, a server or a future again, from any number of goroutines, is harmless.',
 ['schedules'], 'every interleaving of any number of callers of the closing operations',
 'A double close needs two closers at the same moment; it ends the whole process, and no test closes concurrently.',
 ['pkg/concurrency/', 'pkg/network/', 'pkg/replication/', 'pkg/db/engine.go', 'pkg/common/'], [('close of channels', 'pkg/concurrency/*.go, pkg/network/*.go, pkg/db/engine.go, pkg/common/*.go')],
 technique='typestate dataflow over channels (path-sensitive, interprocedural) with once-only ownership of the close',
 note='Exhaustive over the close and send sites; a flag is trusted to guard a close only if a compare-and-swap or sync.Once decides and nothing sets it back.',
 how='Every close of a channel is an obligation: a channel kept in a field may only be closed on a path that has won a compare-and-swap on a flag of the same object, or inside a sync.Once of it; a local channel at one place that runs once per make. Fields closed anywhere are never sent on, local ones never after the close, and goroutines that send on them are waited for first.')

prop('C16', 'A wait on a channel ends when the other side is gone',
 'No goroutine waits for ever on a channel of an object that has been closed, cancelled or stopped: whoever is blocked in a send to or a receive from it is released by the close, the cancellation or a time limit, and whoever closes the object always closes the channel that releases the others.',
 ['schedules', 'fault_sequences'], 'every order of waits and closes, every blocking channel operation on shared objects',
 'Blocking for ever after a close needs the close to come at the moment of the wait, or an error while closing; the tests close idle objects.',
 ['pkg/concurrency/', 'pkg/network/conn.go', 'pkg/db/engine.go'], [('blocking channel operations', 'pkg/concurrency/*.go, pkg/network/conn.go')],
 technique='obligation analysis of blocking channel operations, with typestate dataflow of the closers',
 note='Decides that a releasing case exists and that the closer reaches the close of its channel; scheduling fairness is assumed.',
 how='Every operation that can block on a channel kept in a field must be a receive from a channel its object closes when done with, or a select that also has a default, a timer or such a receive of the same object. Whoever wins the right to close must close the channel on every path.')

prop('C23', 'A future settles once and tells the truth',
 'A new future runs its task exactly once. Get, Wait and WaitFor report success only once the task has ended, and Get then gives exactly the value and the error the task returned. Cancel succeeds for exactly one caller and only if the future was not done; afterwards Get gives no value and ErrCancelled, even if the task ends later. WaitFor reports ErrTimeout when the given time is over.',
 ['schedules'], 'every interleaving of the task\'s end with any calls of Cancel, Get, Wait and WaitFor',
 'The tests settle and look at futures in a fixed order; a result seen too early or after a cancellation needs a race.',
 ['pkg/concurrency/future.go'], [('futures', 'pkg/concurrency/future.go')],
 technique=PS + ' with the channels each path has closed or seen closed',
 note='Channel and atomic operations are trusted to be as the language defines them; that a task that never ends is not waited for is not claimed.',
 how='The goroutine that runs the task, and Cancel, Get, Wait and WaitFor, are followed on every path. The task\'s own results are stored before the done channel is closed; results are read only after it was seen closed; each outcome must be the one the seen channels allow.')

prop('C24', 'An event is sent to every subscriber exactly once',
 'Publishing an event on a topic sends that very event once to every subscriber of the topic, whatever happens to the others. A subscriber is taken off the topic only if its own channel was found closed. The number of deliveries reported is the number of sends that succeeded, reported once, after all sends have ended.',
 ['schedules', 'inputs'], 'every set of subscribers, every combination of open, slow and closed ones',
 'A missed or repeated delivery, or a wrongly dropped subscriber, needs a mix of slow and closed subscribers.',
 ['pkg/concurrency/topic.go'], [('distribution of events', 'pkg/concurrency/topic.go')],
 technique=PS + ' with goroutines interpreted at their start',
 note='One visit stands for every subscriber (the body of sync.Map.Range is followed once for an arbitrary entry). That every event arrives within the expiry time is not claimed.',
 how='Publish and Remove are followed down to the sends. Each visit of the subscriber table must send the published event exactly once to the subscriber visited and let the visit go on; the subscriber is noted for removal exactly when that send said Closed, counted exactly when it said Success, and the count is sent once, after the wait for all.')

prop('C25', 'A data channel reports what it did',
 'Send reports Success exactly when the event went into the channel, Closed exactly when the receiver had closed it (an event is never accepted after the close), Expired exactly when the channel\'s own time limit passed first. Receive gives each event once; after Close it always gives ErrChannelClosed and never an event. A channel made with a buffer size and a time limit uses exactly these.',
 ['schedules'], 'every interleaving of Send, Receive and Close, every size and time limit',
 'An event delivered after the close or a status that does not match what happened needs Close to come between two steps of the others.',
 ['pkg/concurrency/data_channel.go'], [('data channels', 'pkg/concurrency/data_channel.go')],
 technique=PS + ' with the select cases each path has taken',
 note='Close during a Send or Receive that is already under way may be ordered either way.',
 how='Send and Receive are followed on every path with the cases of their selects; the result must match what the path sent, received and saw closed, and the constructors must give both ends the same channels and the given options.')

prop('C26', 'A data map keeps and counts its entries',
 'Each implementation of the data map gives back under a key what was last set under exactly that key, says whether the key is present, forgets it when removed, and reports as its length the number of keys present, also when several goroutines set and remove the same keys at the same time.',
 ['histories', 'schedules'], 'every history of Set, Get, Has, Remove and Len, every interleaving for the synchronised maps',
 'A wrong count needs a repeated key, a nil value or two goroutines on the same key; the tests use few distinct keys.',
 ['pkg/types/data_map.go'], [('data maps', 'pkg/types/data_map.go')],
 technique=PS + ' with the presence of the key and the lock held',
 note='Built-in maps and sync.Map are trusted.',
 how='Every method of every data map is followed on every path: exactly the given key may be looked up, stored or removed, results must be what the lookup found, and a size counter must go up or down exactly when presence, found out in the same critical section, allows.')

prop('C17', 'A stop shuts everything down before it returns',
 'Whichever way the server is stopped (Stop, a signal, Serve ending), its topics are removed, its listener and the replication listener are closed, its workers are woken, its engine is stopped, every client connection is closed and the database file is flushed, on every path. Serve never returns before the shutdown has been carried out.',
 ['schedules', 'fault_sequences'], 'every way to stop, every state of the clients and every error met on the way',
 'An incomplete shutdown needs a stop at an unlucky moment or an error in the middle of it; no test stops a server.',
 ['pkg/network/server.go', 'pkg/db/engine.go', 'pkg/replication/master.go'], [('shutdown', 'pkg/network/server.go stop, Serve; pkg/db/engine.go Stop; pkg/replication/master.go stop')],
 technique=PS + ' with must-reach obligations for the steps of a shutdown',
 note='One visit stands for every client (the body of sync.Map.Range is followed once for an arbitrary entry). A connection accepted at the very moment of the stop is not covered.',
 how='The shutdown is followed on every path from each of its entry points, with the engine, the master and deferred calls inlined; each step listed must have been taken when it ends, unless the path knows that there is nothing to do (no master, no file), and nothing that waits for it may pass earlier.')

prop('C28', 'A reply goes to the client that asked, unchanged and once',
 'Every request read from a connection is published once, with the id of that connection. Every response on the bus is written exactly once, as it is, to the connection whose id it carries, whatever happened to other clients before: only a response whose client has left, or that is none, is not written, and a failed write does not end the delivery of other replies.',
 ['histories', 'schedules'], 'every request and response, every set of clients, every write error',
 'A reply to the wrong client or a lost reply needs several clients and errors in between; the network package has no tests.',
 ['pkg/network/server.go', 'pkg/network/conn.go'], [('routing of requests and replies', 'pkg/network/server.go newConn, responseWorker; pkg/network/conn.go Write')],
 technique=PS + ' with provenance of ids, requests and replies',
 note='Covers the way between the connection and the bus; the engine\'s part is C14, the bus is C24 and C25. That the bus loses nothing within its expiry time is not claimed.',
 how='The goroutine that serves a connection and the worker that takes responses are followed on every path: id, request, receiver and text must come from the same connection, the same response and the same table, with a data map of its own for each request, and each response must be written once unless its path shows that it cannot be.')

prop('C31', 'The server keeps accepting and serves every connection',
 'The loops that accept connections, for clients and for replicas, only end when their listener is closed or a stop is requested; any other accept error is survived. Every connection that is accepted is handed to a goroutine of its own at once, so that no client keeps others from being served.',
 ['fault_sequences', 'schedules'], 'every sequence of accepted connections and accept errors',
 'Transient accept errors do not occur in tests.',
 ['pkg/network/server.go', 'pkg/replication/master.go'], [('accept loops', 'pkg/network/server.go Serve; pkg/replication/master.go start')],
 technique=PS + ' of the accept loops',
 note='How long a serving goroutine takes is not covered.',
 how='Every loop that accepts is followed on every path: a connection must have been given to a goroutine before the next accept and before the loop ends, and the loop may only end on a path that knows that the listener was closed or has received a stop, and must end then.')

prop('C36', 'A connection that ends is closed and forgotten',
 'Once reading from a connection has failed (end of stream, broken request, network error) it is not read again, it is taken out of the client table under its own id and its network connection is closed, on every path. No other connection is taken out or closed by it, and none is closed by its goroutine as long as its reads succeed. The same holds for the connection of a replica once the database file was sent or could not be: it is closed and taken out of the master\'s table, and the files opened and the copy made for it are closed and removed.',
 ['histories', 'fault_sequences'], 'every sequence of requests and read errors',
 'A leaked connection shows up only after many clients or broken requests; the network package has no tests.',
 ['pkg/network/server.go', 'pkg/network/conn.go', 'pkg/replication/master.go'], [('end of a connection', 'pkg/network/server.go newConn; pkg/network/conn.go Close'), ('end of a transfer', 'pkg/replication/master.go handleConn')],
 technique='typestate dataflow over connections (path-sensitive, interprocedural)',
 note='Closing by the idle timer is not covered.',
 how='The goroutine that serves a connection is followed on every path, deferred calls included: after a failed read only the removal under its own id and the close may follow, and both must. Close must close the network connection on the path that wins the right to close. The goroutine that serves a replica is followed the same way, with what it has put in the table, opened and made as obligations to be met before it ends.')

prop('C10', 'Input cannot exhaust the parser',
 'No input makes the parser recurse without bound: arrays nested deeper than a fixed limit are refused with an error, the nesting depth is counted per object and is back at its start after each one, whatever its outcome. No amount of memory is set aside because the input announces a number, before as much data has arrived.',
 ['inputs', 'histories'], 'every byte stream, every sequence of objects and errors on one reader',
 'A stack overflow ends the whole process and needs millions of nested arrays; an announced length allocates at once; tests use small valid inputs.',
 ['pkg/protocol/reader.go'], [('nesting limit and reading of announced lengths', 'pkg/protocol/reader.go readArray, readBytes')],
 technique=PS + ' over the recursive functions of the parser (assume-guarantee per function)',
 note='Memory in proportion to the data that was really received is not limited, and neither is the parser\'s running time.',
 how='The functions of the parser that call themselves are found from the call graph. Each is followed on every path; a cycle of calls needs one that only happens on paths which know a depth below a constant, raised before it, and each function must leave a depth kept in a field as it found it. Sizes of make, Grow and the like must not come from a parsed number that the path has no upper limit for.')

prop('C20', 'Status and error replies stay on one line',
 'No reply that is one line by its form (simple string, error) ever holds a CR or LF in its text, so that no content of a request or error message can break the reply stream or forge replies.',
 ['inputs', 'programs'], 'every request content, every error text, every place that makes such a reply',
 'It takes a command name or argument with a line break in it that finds its way into an error text; tests use plain words.',
 ['pkg/db/engine.go', 'pkg/command/', 'pkg/protocol/resp.go', 'pkg/util/error.go'], [('error replies of the engine', 'pkg/db/engine.go'), ('results of commands', 'pkg/command/*.go')],
 technique='interprocedural backward taint (source tracing) over Go SSA',
 note='Replies re-made by the parser from replicated or logged data are excluded: there the text was delimited by CRLF.',
 how='Every call that makes a simple string or an error is found; its text is followed back over assignments, fields, parameters, results and formatting. Sources must be constants without line breaks, numbers, quoted texts, or texts from which line breaks were replaced.')

prop('C21', 'Every reply object has its RESP form',
 'Each reply object is exactly the RESP encoding of what it was made from: its type character, its payload or the decimal length of its payload in bytes, CRLF, and for a bulk string the payload and CRLF, for an array the encodings of all elements in order. Its bytes, its text, its type and its payload agree.',
 ['inputs'], 'all constructors, every text, number, and list of elements of every length',
 'A length that counts characters instead of bytes, or an element lost from an array, needs particular contents.',
 ['pkg/protocol/resp.go'], [('constructors and accessors of RESP objects', 'pkg/protocol/resp.go')],
 technique=PS + ' with an algebra of texts (constants, decimals, symbolic pieces)',
 note='A simple string or error with a line break in it is C20; that the parser reads the form back is C22.',
 how='Each constructor is followed on every path, then Type, String, Byte and the payload method of the result in the same state. Texts are normalised to lists of pieces however they are put together (Sprintf, +, Buffer, Builder, strconv, Join) and compared with the RESP form of the constructor\'s own parameters; array loops are counted per iteration.')

prop('C22', 'A request is parsed as it was sent',
 'The parser makes of each object in the stream one of the announced kind with exactly the announced content: the bytes of the line for strings, errors and numbers, the announced number of bytes for a bulk string, every element once and in order for an array. It never returns an object after a failed read, and never nothing without an error.',
 ['inputs', 'fault_sequences'], 'every byte stream, every point at which it breaks off',
 'Tests sample some encodings; binary content, unusual lengths and streams that break off in the middle are not covered.',
 ['pkg/protocol/reader.go'], [('reading of RESP objects', 'pkg/protocol/reader.go')],
 technique=PS + ' with provenance of tokens, lengths and payloads',
 note='That a bulk string is followed by CRLF is not checked by the parser and not claimed; what bufio.Reader returns is trusted.',
 how='Parse and ReadObject are followed on every path with the parser inlined. Each object made must be of the kind its first byte announces, its text must be the token without first byte and CRLF, or for a bulk string the announced number of bytes of what was read, array elements are counted per iteration; all reads before a success must have succeeded. What is read and put into a buffer must stay in it, byte by byte, until its text is taken.')

prop('C32', 'A broadcast message reaches everyone who waits for it',
 'Whoever asks a broadcaster for its message, before or after it is set, waits until it is set and gets exactly the message that was given, also when that is nil; nobody is woken before the message is there or reads a message that is still being changed, and setting it again neither crashes nor leaves a listener behind.',
 ['schedules'], 'every number of listeners, every order of Get and Set',
 'The existing test starts listeners before and after one Set, an early or missing wake-up needs a particular moment.',
 ['pkg/concurrency/broadcast.go'], [('broadcaster', 'pkg/concurrency/broadcast.go Set, Get, NewBroadCaster')],
 technique=PS + ' with the order of channel operations, stores and reads',
 note='A broadcaster that signals otherwise than by closing a channel is reported as not decided in the evidence, unless its message is stored without any signal. That the channel is closed only once is C15.',
 how='Set is followed on every path: the message given is stored before the channel is closed, a path that does not close it leaves the message alone and has asked whether another call came first. Get has received from that channel on every path before it reads the message, and gives what it read.')
prop('C33', 'The log is read as it was written',
 'What is written for a record is its length in 4 bytes (little-endian) and its encoding, and reading a log gives exactly the records written, each once and in order. A record that cannot be decoded is skipped without affecting the others. A log that ends within a record gives all records before that one and is reported as incomplete; any other end is never taken for a complete log. What is reported as the size of the complete records at the front of a file is exactly that.',
 ['inputs', 'crash_points', 'fault_sequences'], 'every sequence of records, every place at which the log breaks off, every damaged record',
 'No test writes or reads a log; a log that breaks off or holds a damaged record appears only after a crash.',
 ['pkg/log/log.go', 'pkg/util/util.go'], [('format of the log', 'pkg/log/log.go PackLog, ParseLog, readLog, CompleteSize; pkg/util/util.go ReadExactBytes')],
 technique=PS + ' with a model of byte slices and of framed reads (typestate)',
 note='The encoding of a record itself (protobuf) is trusted; that it is stored on the medium (fsync) is not claimed.',
 how='PackLog is followed on every path and the bytes it returns are compared, as a list of pieces, with the length in 4 bytes followed by the marshalled record. ParseLog is followed on every path with a typestate of its reads: 4 bytes, then exactly as many as they announce, from one reader, success before use; each decoded record is kept once; the end is reported according to what the last read has met. ReadExactBytes is followed byte by byte. In CompleteSize the result must grow, at each entry of the loop, by 4 and the announced length after a record that was read completely, and by nothing otherwise.')

prop('C29', 'A replica gets the records of the database file',
 'What a master sends to a replica is the length and then the content of its database file up to the end of a complete record, also while the engine keeps appending; the length sent is always the number of bytes that follow. The replica takes exactly the announced bytes, gives back the records decoded from them, and reports an error when the transfer breaks off instead of returning a part.',
 ['schedules', 'fault_sequences', 'inputs'], 'every state of the database file, every interleaving with the engine\'s appends, every point at which the transfer breaks off',
 'The replication package has no tests; a torn copy needs an append at the moment of the copy.',
 ['pkg/replication/master.go', 'pkg/replication/replica.go', 'pkg/log/persistent.go'], [('sending of the database file', 'pkg/replication/master.go handleConn'), ('receiving it', 'pkg/replication/replica.go Receive')],
 technique=PS + ' with a model of files, byte slices and framed reads (typestate)',
 note='Files larger than 4 GiB are outside (the code says so); that the engine appends whole records under the file\'s lock is C13 and C33.',
 how='The goroutine that serves a replica is followed on every path: what goes into the connection must be the size of one file in 4 bytes and then that file from its beginning, each only after the steps before it succeeded; the file must be an own copy of the database file, limited to a size taken under the lock right after a flush. Receive is followed with the typestate of framed reads of C33.')

prop('C30', 'The data is rebuilt before the server serves',
 'When the server has been initialised with a database file, the file was opened for appending without losing its content, was given to the engine, and all records it holds were executed, also if its last record is incomplete; only then, if a master is configured, the records received from it. An incomplete record at the end is removed, so that what is appended later can be read again. The engine takes requests only after that, and rebuilding writes nothing to the file.',
 ['histories', 'crash_points', 'fault_sequences'], 'every content of the database file, every failure of opening, parsing, calling the master and receiving',
 'No test starts a server with a database file.',
 ['pkg/network/server.go', 'pkg/db/engine.go'], [('rebuilding at the start', 'pkg/network/server.go Init, syncExternal, fromFile, fromMaster')],
 technique=PS + ' with provenance of files, record lists and settings (typestate)',
 note='What executing the records does is C38; how they are read is C33. A server whose file cannot be opened starts without it, as it did before.',
 how='Init is followed on every path: which file is opened with which flags, what the engine is given, which record lists are executed in which order and how often. At each successful end every step must have been taken unless the path knows that the setting is empty, that the list is empty, or that the very step failed.')

prop('C27', 'The event bus delivers under the name of a topic',
 'An event published under a name goes to the topic of exactly that name, once, carrying that name and the data, error and source given, and the topic\'s future is returned; a subscription goes to the topic of that name with the subscriber and options given. A name without topic is reported as ErrNoSuchTopic and nothing is published. A topic is made only where none is, and removed only after its subscribers were told with ErrTopicRemoved; the answers of the bus say what happened. Who subscribes, again too, gets the receiver of the channel that is registered. There is one bus.',
 ['inputs', 'histories'], 'every name, every history of topics made, removed and subscribed to',
 'Tests use a few topics; subscribing again, swapped arguments of the same type and the paths without topic are not covered.',
 ['pkg/concurrency/event_bus.go', 'pkg/concurrency/topic.go'], [('methods of the bus', 'pkg/concurrency/event_bus.go'), ('subscriptions and removal of a topic', 'pkg/concurrency/topic.go')],
 technique=PS + ' with a presence fact for the table of topics and the contents of events read through their getters',
 note='How a topic delivers an event to its subscribers is C24; a receiver that was subscribed again may still be taken out by an earlier failed delivery (by name).',
 how='Each method of the bus is followed on every path, the methods of a topic kept abstract: table accesses must be under the name given, what is handed to the topic is compared with the parameters, an event made on the path is read through its getters. Subscribe and Remove of a topic are followed likewise.')

prop('C44', 'Containers keep each entry under its own text',
 'In hashes, sets and the string keyspace every entry is read, changed and taken out under exactly the text of the field, member or key at hand: each item of a list is handled once, with the value of the same index, and no other entry is touched. The answers are exact: how many entries are new, were taken out or exist, also when an item is given twice; one result per item in order, nil only without entry; a listing gives every entry once; what works on one entry works on the entry found, with the arguments given, and hands on its outcome. What Pop returns is what it takes out.',
 ['inputs', 'histories'], 'every list of items of any length and content, every state of a container',
 'Tests use short lists without repetitions; items given twice, missing ones between existing ones and mixed lists are not covered.',
 ['pkg/container/hash.go', 'pkg/container/set.go', 'pkg/container/string_map.go'], [('methods of the map-backed containers', 'pkg/container/hash.go, set.go, string_map.go')],
 technique=PS + ' with per-element loop coverage and an inductive check of counters',
 note='How many members RandomMember gives and which, and the results of Diff, Intersect and Union are not part of this; methods whose loop collects texts or items in another list first are not decided.',
 how='Each method of the three interfaces is followed on every path with texts kept abstract: keys of table accesses must be the text of the element of this iteration, stored entries are compared with the item and the value of the same index, and every phi that an integer result is made of must have grown, at each entry of its loop, by the number of changes made since. Results, listings and delegated work are compared with the entry found.')

prop('C45', 'Difference, intersection and union have exactly the members they promise',
 'For all sets and every number of other sets: the difference has the members of the first set that no other set has, the intersection those that all sets have, the union those that any of them has; the sets they are made from stay as they were.',
 ['inputs'], 'all sets, every number of other sets including none, every order in which members come',
 'Tests use two or three small sets; what is wrong for the third set, for empty sets in between or for particular overlaps is not seen.',
 ['pkg/container/set.go'], [('set operations', 'pkg/container/set.go Diff, Intersect, Union')],
 technique='abstract interpretation over a finite membership domain (one arbitrary member, all loops to a fixed point) on Go SSA',
 note='That Add, Delete, IsMember, Members and Pop do what they say is C44; which command calls which operation is C04. If an operation is rewritten on other data structures than these methods and lists, it is reported as not decided in the evidence.',
 how='Each operation is interpreted with sets as one bit (holds the arbitrary member), lists as one bit and items as that member or another; the receiver holds it or not and of the others there are none, or none, all or only some hold it: 8 runs per operation that cover all inputs, because an operation treats members independently. At every return the bit of the result must be the promised one.')

prop('C11', 'A list keeps its order and its length',
 'For every history of calls: the nodes of a list can be walked from the head to the tail and the same way back, elements that stay keep their order, and the length is the number of elements. PushHead puts every item, one after the other, in front, PushTail at the end, and both give the new length. PopHead and PopTail take out and give the first and last element, and report an error only when there is none. Insert puts the value right before or after the first element equal to the pivot, or changes nothing and says so. Remove takes out elements equal to the value only, from the head or, with a negative count, from the tail, as many as the count says or all when it is zero, and gives their number.',
 ['inputs', 'histories'], 'lists of every length and content, every position of pivot and value, every history of calls',
 'Tests walk short lists forwards; prev links, elements at the ends, neighbouring equal elements and the length after mixed calls are not covered.',
 ['pkg/container/list.go'], [('methods of the list', 'pkg/container/list.go')],
 technique='shape analysis on Go SSA (symbolic nodes, gaps of any length opened on demand, loop heads abstracted) with linear size accounting',
 note='Equality of items is that of StringContainer.Equals. A count of the smallest integer is not covered (its negation overflows, nothing is removed). Positions are C46.',
 how='Every method is interpreted on a list of two sentinels and a gap for any number of nodes. Reading a link into a gap forks: the gap is empty or starts with a new node. At loop heads and returns the links are walked from the head, prev must be the exact inverse, and what was put in or taken out since is compared with the sequence of nodes, with the size field (plus what a loop counter still owes it) and with the rules of the operation; then nodes that nothing refers to become gaps again, so that all lengths are covered by finitely many states.')

prop('C46', 'Positions of a list mean what they say',
 'A position counted from the head, or from the end when it is negative, is resolved to exactly that element: Index gives it, Set replaces its data and nothing else, a position outside the list is refused and nothing changes. Range gives the elements from the left to the right position in order, without gap or repetition, Trim keeps exactly these. A right end beyond the list stands for the last element; a segment before, behind or without elements is refused.',
 ['inputs'], 'lists of every length, all positions',
 'Tests sample a few positions on short lists.',
 ['pkg/container/list.go', 'pkg/util/index.go'], [('positions in lists', 'pkg/container/list.go extract, extractSegment, Set, Index, Range, Trim'), ('resolving of positions', 'pkg/util/index.go')],
 technique='shape analysis on Go SSA with positions as linear terms tied to loop counters',
 note='What LTRIM and LRANGE answer for a refused segment is up to the command layer.',
 how='On the abstraction of C11 each node carries its distance from the head as a linear term over the size, the resolved positions and the counter of the loop at hand; comparisons of a counter with a resolved position fix the position of the node at hand, paths on which known positions do not fit the nodes in between are dropped. The element given, replaced or kept must be at the resolved position of the parameter. The functions that resolve positions are checked on every path: a result in range must be the position asked for, a refusal must be justified by the comparisons on the path.')

prop('C39', 'A string keeps one value in all its forms',
 'The text, the bytes, the length, the hash and the number of a string always stand for the same value: it has a number exactly when its text is a decimal 64-bit integer, and then that one. Equality is equality of the texts, appending gives one text after the other, a range gives the part between its resolved ends. Increasing or decreasing gives exactly the sum or difference and makes it the new value in all forms; it fails exactly when there is no number or the result does not fit in 64 bits, and then nothing changes.',
 ['inputs', 'histories'], 'all texts, amounts and sequences of changes',
 'Tests add small amounts to a few numbers; the forms diverge only after certain sequences, and the limits are 2^64 apart.',
 ['pkg/container/string.go', 'pkg/container/int_variant.go'], [('forms of a string', 'pkg/container/string.go update, NewString'), ('arithmetic', 'pkg/container/string.go Increase, Decrease; pkg/container/int_variant.go')],
 technique='symbolic invariant of an object on Go SSA; polyhedral abstraction of the overflow guards',
 note='The hash is any function of package hash, the same one everywhere. What the library functions ParseInt, Sprintf and the hashers do is taken from their documentation.',
 how='Every function that makes a string or writes one of its fields is run symbolically from a state in which the forms agree; at each return the text (normal form of pieces), the bytes, the length (linear term), the hash (what its hasher was given) and the number (parsed from this text, or this text printed from it) must agree again. In Increase and Decrease the comparisons passed on the way become linear constraints over the unbounded integers with a case for each way an operation can wrap; a success on which the exact result may not fit, or a refusal on which it may, is reported.')

prop('C08', 'What may be absent is not used',
 'Outside the command and container layers the server never takes for granted what may not be there: the result of a call that can fail is used only where the call is known to have succeeded, what a lookup or a checked type assertion gives only where it is known to have been found or to be of the type, an optional part of the engine or of the master (database file, replication) only where it is known to exist, and the text of an error only where there is one. No missing file, unreachable master, event without data or client that has left crashes the server.',
 ['inputs', 'histories', 'fault_sequences'], 'every outcome of every call that can fail, every configuration with or without its optional parts, every event on the topics',
 'The packages db, network, replication and log have no tests, and faults of the system or of other processes do not occur in tests.',
 ['pkg/db/engine.go', 'pkg/network/server.go', 'pkg/replication/master.go', 'pkg/replication/replica.go', 'pkg/log/log.go'],
 [('optional parts', 'pkg/db/engine.go engine.file, engine.master; pkg/replication/master.go master.file'), ('lookups', 'pkg/network/server.go responseWorker, parseResponse; pkg/db/engine.go parseRequest')],
 technique=PS + ' with nilness facts tied to errors, ok results and optional fields',
 note='Which fields are optional is taken from the code: those that some function compares with nil, or that start as nil and are only set by a setter. Values of types other than pointers, interfaces and functions are outside; so are values that another function of another package hands over as its only result. The command and container layers are C03.',
 how='Every function called from outside its package, or run as a goroutine, is followed on all paths together with the functions of its package it calls. Each result of a call is tied to the error or ok result of the same call; at every use (field, method, plain type assertion, hand-over to a goroutine, keeping it in the object a constructor returns) the path must know that error to be nil or that ok to be true, and optional fields not to be nil; a goroutine starts with the fields known at every go statement that starts it.')

prop('C09', 'A request is executed once and answered with its own result',
 'Each request the engine takes that is a list beginning with a text is turned into the command that its first element names, with all the elements after it as arguments. The command is executed exactly once, on the database it was made for, and recorded at most once and only if it changes something. The response published is the result of this very command, or an error reply when there is no such command, it was refused, or it gave an error.',
 ['inputs', 'histories'], 'every request of any length, every sequence of requests and every error on the way',
 'The engine has no tests; a result answered for another request, a lost last argument or an error answered as a result shows only for particular sequences and commands.',
 ['pkg/db/engine.go', 'pkg/db/db.go'], [('requests to commands to responses', 'pkg/db/engine.go Start, handleRequest, parseRequest')],
 technique=PS + ' with provenance of requests, commands and results',
 note='Which client gets the response is C12, what is recorded is C13; what each command does is C01 to C07.',
 how='The engine loop is followed on every path with its helpers inlined down to the making and executing of a command. Between two calls of Receive the name, the arguments, the command, the database, and the value and the error of its result are terms that are compared: the published value must be this command\'s result where its error is known to be nil, an error reply otherwise.')

prop('C18', 'What is configured takes effect',
 'The server listens on the port configured. The engine works for replicas exactly if replication is enabled, on the replica port configured if that is usable (positive and not the port of the server) and on another than the server\'s own otherwise. An engine made for a positive port has a master that listens on it and starts it before it takes requests, and a started master accepts replicas. The file given to the engine is the one it records to, and the master has this writer and the path of the file. The engine and the server subscribe to the topics the other side publishes on, and these exist before.',
 ['inputs', 'fault_sequences'], 'every configuration, every failure on the way',
 'No test starts a server; the settings together decide (a replica port equal to the port, replication without a file).',
 ['pkg/network/server.go', 'pkg/db/engine.go', 'pkg/replication/master.go'], [('settings to parts', 'pkg/network/server.go Init; pkg/db/engine.go NewEngine, SetFile, Start; pkg/replication/master.go NewMaster, Start, SetFile')],
 technique=PS + ' with provenance of settings, listeners and files',
 note='Rebuilding from the file configured is C26, how the command line becomes a configuration is not part of this.',
 how='Init, NewEngine, NewMaster, both SetFile and both Start are followed on every path; ports, addresses, files and paths are terms traced back to the setting or parameter they must come from. At each end the step must have been taken unless the path knows that the setting asks for none or that the very step failed.')

prop('C19', 'A connection says what happened and ends itself only when idle',
 'Read of a client connection gives exactly the object that was read where reading succeeded, and an error otherwise; Write reports success only where the network connection took the text without an error, and an error otherwise. On a closed connection both give ErrConnIsClosed and leave the network alone, so does a second Close, and IsClosed tells whether one has closed it. Every Read and Write restarts the idle timer of its connection before it goes to the network; a connection closes itself only when no restart came for the whole time it was made with, and then it does. A connection uses the network connection it was made for.',
 ['schedules', 'histories', 'fault_sequences'], 'every outcome of network reads and writes, every order of restarts, closes and the timer',
 'The network package has no tests; partial writes, errors at the end of a stream and the order of timer and restarts do not occur in ordinary use.',
 ['pkg/network/conn.go'], [('operations of a connection', 'pkg/network/conn.go Read, Write, Close, IsClosed'), ('idle timer', 'pkg/network/conn.go NewConnWithExpire, startExpireWorker')],
 technique=PS + ' with the cases of selects and provenance of objects, errors and intervals',
 note='That a restart and the firing of the timer happen at the same moment is outside: either may win. What the server does with the errors is C28 and C36.',
 how='Read, Write, Close and IsClosed are followed on every path and case of a select: results are compared with those of the reader, of the network connection and of the compare-and-swap that decides who closes. The function that makes a connection is followed together with the goroutine of its timer: every wait for the timer must take restarts and have a timer started since the last one with the time given, the connection is closed only after the timer fired, and the worker ends only after that or a close.')
