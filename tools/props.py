import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("C01","A save persists exactly the changes of its unit of work",
 "When a command succeeds, every entity it added to an aggregate is inserted, every loaded entity it marked as changed is updated to its in-memory values, and every loaded entity it took out is deleted, whatever the shape of the aggregate (single, list, map, interface-typed or custom-declared children, any depth, several roots). Nothing else in the store is written. Entities of a type that has no stored form are skipped without affecting their neighbours.",
 ["inputs","programs"],"all aggregate shapes and all sets of in-memory edits",
 "Tests edit one or two fixed order/item aggregates; the diff must be right for every shape and edit set.",
 ["engine.go","snapshot.go","domain.go"],[("diff of snapshot against live aggregate","snapshot.go"),("batching of changes into actions","engine.go")],
 [("unit-of-work snapshot","what each known entity looked like when loaded or last saved","engine.go")],["statements received by the executor","contents of the store after the run"])
p("C02","Loads, adds, removals and saves interleave without losing work",
 "Inside one command, loading, adding, removing and editing roots and saving part-way may be interleaved in any order and the store ends up as if each change had been applied in that order. A later load, removal or save never makes the command forget an earlier add, edit or removal, and a change saved part-way is not written again at the end. A repository misuse (removing or adding twice, adding something already loaded) is reported as an error and rolls the command back.",
 ["histories","programs"],"all interleavings of repository calls within a command",
 "Tests call the repository in one fixed order; the property is about every order.",
 ["engine.go"],[("snapshot maintenance after load/remove/save","engine.go"),("repository error accumulation","engine.go")],
 [("unit-of-work snapshot","known entities","engine.go")],["statements received by the executor","store contents"])
p("C03","Moving entities between parents updates them in place",
 "An entity that leaves one parent and joins another within one save is updated in place with its new parent link, never deleted or inserted again, however many siblings move or are deleted in the same save and also when the old parent itself is removed. Deletions and insertions made alongside are unaffected. Attaching the same new entity in two places is reported as an error and leaves the store unchanged.",
 ["inputs","programs"],"all re-parentings of any number of entities, mixed with inserts and deletes",
 "Tests move one child between two parents once.",
 ["snapshot.go"],[("move detection over the change list","snapshot.go")],[],["statements received by the executor","store contents"])
p("C04","Every inserted entity has an identity and the right parent link",
 "An entity inserted without an ID gets exactly one fresh ID from the configured generator, before any row is written, and the row, the in-memory entity and its children's parent links all carry it. IDs chosen by the caller or by a before-create hook are kept. If the generator fails the command fails and nothing is stored.",
 ["inputs","fault_sequences"],"all new sub-trees, ID presence patterns and generator failures",
 "Tests insert small fixed trees and never fail the generator.",
 ["engine.go"],[("ID assignment before building models","engine.go")],[],["inserted rows","entities after the run"])
p("C05","Recursive deletion removes exactly the removed sub-trees",
 "With recursive deletion enabled, removing an entity also deletes every entity currently beneath it, at any depth, each exactly once, and nothing outside those sub-trees. Without it, only the entities that were themselves taken out are deleted.",
 ["inputs","configurations"],"all trees and removal sets, with the option on or off",
 "Tests delete one two-level tree.",
 ["snapshot.go","engine.go"],[("recursive expansion of the delete set","snapshot.go")],[],["delete statements","store contents"])
p("C06","Lifecycle hooks run once, at the right time, for the right entities",
 "For each save, every entity inserted, updated or deleted has its matching before-hook run exactly once before any of that save's writes and its matching after-hook exactly once after all of them; entities that are not changed get no hook. What a before-hook changes on its entity is what gets stored. An error from any hook fails the command, and nothing it wrote remains.",
 ["programs","fault_sequences"],"all change sets and all hook failure positions",
 "Tests run one hook of each kind on one entity.",
 ["engine.go","domain.go"],[("hook dispatch around persistence","engine.go")],[],["order of hooks and statements"])
p("C07","A failed command leaves no trace in the store",
 "With transactions on, if anything in a command fails - its own logic (error, break request or panic), a hook, any statement of any save including part-way saves, event storage, event dispatch, or the commit - then none of its writes remain and the outcome is not reported as a success. The transaction it opened is ended exactly once, and a panic is passed on to the caller after the rollback.",
 ["fault_sequences","crash_points"],"a failure, break or panic at every step of every generated command",
 "Tests fail at one or two fixed points; atomicity must hold at each possible point.",
 ["engine.go"],[("transaction wrapper around a run","engine.go")],[],["begin/commit/rollback calls","store contents"])
p("C08","Commands hold all their locks around their whole transaction",
 "Every lock key a command declares is acquired before its transaction begins and released exactly once after the transaction has ended, whatever the outcome, including errors, panics and failure to get a later key. If a key is declared twice or cannot be acquired the command's logic does not run, nothing is written and an error is returned. Keys are taken in an order that depends only on their names, so commands declaring overlapping keys in different orders cannot deadlock each other.",
 ["schedules","fault_sequences","inputs"],"all key lists, lock failures, run outcomes and interleavings of concurrent commands",
 "Tests lock one key with a lock that always succeeds.",
 ["engine.go"],[("lock wrapper around a run","engine.go")],[],["order of lock/unlock/begin/commit calls"])
p("C09","The result of a run reports its outcome and runs its callbacks once",
 "A run's result carries an error exactly when the run failed and the error tells the cause; a break request yields no error and is flagged as a break. The engine's and the command's own after-save callbacks each run exactly once, in order, after the transaction and locks are released, and only when there is no error; no run ever executes a callback that belongs to another run, however many run sequentially or concurrently on one engine. Output set by the command is delivered in the result.",
 ["histories","configurations","schedules"],"all sequences and overlaps of runs of all command kinds on engines with any number of callbacks",
 "Tests run one command per engine, so leakage between runs is invisible.",
 ["engine.go","command.go"],[("per-run options","engine.go"),("result building","engine.go")],[],["returned results","callback invocations"])
p("C10","Domain events of a command are dispatched exactly once, in order",
 "A successful command hands the event bus every event raised by any entity of its aggregates - new, unchanged, changed, moved or removed, at any depth, before or after part-way saves - exactly once and in the order they were raised, and no other events. When event storage is configured, exactly one record per event is stored as part of the same transaction. A command that fails before dispatching hands over nothing.",
 ["programs","histories"],"all event emission patterns over all aggregate edits",
 "Tests emit one or two events from a root.",
 ["engine.go","event.go"],[("event collection over live and removed entities","engine.go")],[],["bus dispatch calls","stored event records"])
p("C11","Transactional events are confirmed only if the command committed",
 "With a transactional bus and transactions on, transactional events are announced before the database commit, confirmed exactly once after it succeeded, and cancelled if the run fails after announcing; they are neither confirmed nor cancelled when the commit itself fails. The other events of the run are dispatched normally. With a plain bus, or with transactions off, every event is dispatched normally.",
 ["fault_sequences","configurations"],"all mixes of events, bus kinds and failure points",
 "Tests cover one happy path of the two-phase protocol.",
 ["engine.go","event.go"],[("two-phase dispatch","engine.go")],[],["order of bus and transaction calls"])
p("C12","A dry run changes nothing outside memory",
 "In dry-run mode a command executes its logic, loads, hooks and ID assignment as usual and reports success or failure as usual, but issues no insert, update or delete and hands no event to the bus, whatever the command does, part-way saves included.",
 ["programs"],"all commands run in dry-run mode",
 "Tests dry-run a single creation.",
 ["engine.go"],[("dry-run gates","engine.go")],[],["executor and bus calls"])
p("C13","Loading an aggregate returns what is stored",
 "Loading a root by ID fills it with its stored values and fills each requested child place with exactly the stored children of that root: all of them for a list, the one or nothing for a single child. A missing root is reported as not found. Loading followed by saving without edits writes nothing, and loading what a command stored gives the same values back.",
 ["inputs"],"all stored aggregates and all combinations of requested children",
 "Tests load one fixed aggregate.",
 ["engine.go"],[("entity builder","engine.go")],[],["entities after load"])
p("C14","Each delivered event or timer tick reaches exactly its handlers",
 "An event delivered by a bus, or a tick delivered by a timer, invokes every handler registered for its type (or key), in registration order, each once with the payload that was sent, and no handler of another type; the first failing handler stops the delivery and its error is returned to the bus or timer. Handlers that build a command have it run by their engine, and its failure is reported the same way.",
 ["inputs","configurations"],"all handler tables, payloads and failure positions",
 "Tests register one handler per type.",
 ["event.go","timer.go","engine.go"],[("handler registry and routing","event.go"),("cron task registration","engine.go")],[],["handler invocations"])
p("C15","Transaction checks are answered by the registered checker",
 "When a bus asks about an undecided transactional event, the checker registered for that event's type is called with that event and its answer is returned unchanged, for every checker signature that registration accepts. Without a checker, or when the event cannot be decoded, the answer is rollback.",
 ["inputs","configurations"],"all checkers, payloads and unregistered types",
 "Tests use one checker.",
 ["event.go"],[("checker registry and routing","event.go")],[],["answers returned to the bus"])
p("C16","The engine gives executors well-formed batches",
 "Every insert, update or delete batch handed to an executor is non-empty and holds models of one type only; each save issues at most one batch per operation and type, inserts before updates before deletes. Update batches carry, position by position, the previously known model of the same entity. The result of a successful run lists exactly the batches executed, in order.",
 ["programs"],"all commands",
 "Tests look at final rows, not at the batches, which other executors rely on.",
 ["engine.go","executor.go"],[("action building","engine.go")],[],["actions received by the executor"])
p("C17","SQL updates write exactly the columns that changed",
 "An update through the SQL executor writes a column if and only if its value differs between the previous and current model, for every supported field kind, including changes to zero values, to and from null, inside embedded structs and in custom value types. Columns not changed keep whatever the database holds, even if someone else changed them meanwhile. If no column differs, no statement is sent.",
 ["inputs"],"all pairs of models over the supported field kinds",
 "Tests compare a handful of fixed pairs, and the database ones need a MySQL server so they never run here.",
 ["executor/mysql/diff.go","executor/mysql/executor.go"],[("model diff","executor/mysql/diff.go"),("selective update","executor/mysql/executor.go")],[],["database rows"])
p("C18","The SQL executor applies batches to exactly the given rows",
 "Insert, delete and query batches on the SQL executor act on exactly the rows identified by their models, for single and composite keys and any batch size: inserts store all models or fail, deletes remove only the named rows, queries return exactly the rows matching the example. Inside a transaction its effects appear together on commit and not at all after rollback, and a transaction of one executor is never used by another executor, even when both share a call context.",
 ["inputs","histories","configurations"],"all batches, key shapes, transaction histories and several executors in one context",
 "The executor tests need MySQL and never run here; none of them uses two executors at once.",
 ["executor/mysql/executor.go"],[("operation table","executor/mysql/executor.go"),("transaction handle in the call context","executor/mysql/executor.go")],[],["database rows"])
p("C19","The in-memory bus delivers each event once, in order, and stops",
 "Every event dispatched to a started in-memory bus is passed to the handler exactly once, in dispatch order, one at a time, regardless of handler errors, of how many goroutines dispatch, and of how often start is called. After its context is cancelled the bus goes quiet: it stops consuming and leaves no running worker behind.",
 ["schedules","histories"],"all dispatch/start/cancel schedules and bus capacities",
 "Tests dispatch a few events and never cancel.",
 ["eventbus/mem/eventbus.go"],[("single consumer goroutine","eventbus/mem/eventbus.go")],[],["handler invocations","live goroutines"])
p("C20","The database bus delivers every event once to every service",
 "Every event dispatched through the database bus is handled successfully exactly once by each registered service as long as no process crashes, however many bus instances per service scan concurrently, whatever their timing, handler concurrency and batch limit. A service never handles another service's copy, and the event its handler receives equals the one dispatched.",
 ["schedules","histories","configurations"],"all interleavings of database steps of several bus instances",
 "The bus tests need MySQL and never run here, and they sample a single timing.",
 ["eventbus/mysql/eventbus.go","eventbus/mysql/po.go"],[("row lock and status re-check before handling","eventbus/mysql/eventbus.go")],
 [("per-service event row","handling state of one event for one service","eventbus/mysql/po.go")],["handler invocations","bus tables"])
p("C21","Database bus dispatch is atomic and survives crashes",
 "A dispatch call on the database bus either stores all its events for all services or, if it fails or the process dies part-way, none of them. If a consumer process dies at any point, every event it had not finished is handled again by a surviving instance, so each stored event is handled at least once per service. Events whose handling was recorded as successful are not handled again.",
 ["crash_points","fault_sequences"],"a fault or crash at every database step",
 "No test injects a database failure or crash.",
 ["eventbus/mysql/eventbus.go"],[("dispatch transaction","eventbus/mysql/eventbus.go"),("handling transaction","eventbus/mysql/eventbus.go")],[],["bus tables","handler invocations"])
p("C22","Failed events are retried as configured, then given up",
 "When a handler returns an error or panics, the database bus retries the event no earlier than the configured retry interval, and does so until it succeeds or the configured number of retries is used up, after which it is never handled again by that service and is recorded as failed. Custom interval lists give exactly one retry per entry at its interval; other events are not affected.",
 ["histories","configurations"],"all retry configurations and failure patterns over time",
 "The retry tests need MySQL and sample a few patterns.",
 ["eventbus/mysql/eventbus.go"],[("retry strategies","eventbus/mysql/eventbus.go")],[],["handler invocation times","bus tables"])
p("C23","Ordered events of a sender are handled in order",
 "For events a sender dispatches as strictly ordered, a service starts handling one only after all earlier ones of that sender succeeded, and a permanently failed one holds back its successors; for laxly ordered ones it waits until the earlier ones succeeded or were given up. Ordering never holds back other senders' or unordered events, and holds with several bus instances and concurrent handling.",
 ["schedules","histories"],"all sender/failure patterns and interleavings of instances",
 "The ordering tests need MySQL, one instance, and a few fixed failures.",
 ["eventbus/mysql/eventbus.go"],[("preceding-event check","eventbus/mysql/eventbus.go")],[],["handler invocation order"])
p("C24","Transactional messages are delivered if and only if committed",
 "Events of a bus transaction are never handled before it is committed, are handled once per service after commit, and are never handled after rollback. If the outcome is not reported before the timeout, including because the process died at any point, the checker is asked and its answer applied; an unknown answer is asked again later. Once decided, a transaction is not processed again.",
 ["histories","crash_points","schedules"],"all outcome histories, checker answers and crash points",
 "The transaction tests need MySQL and cover the plain paths.",
 ["eventbus/mysql/eventbus.go"],[("transaction table and due-time scan","eventbus/mysql/eventbus.go")],
 [("pending transaction row","undecided transactional events","eventbus/mysql/po.go")],["handler invocations","bus tables"])
p("C25","Cleaning removes only finished, expired events",
 "The periodic clean of the database bus removes a service's handling record only if it succeeded and is older than the retention time, and removes an event only when no service has a record of it left. Pending, retrying and failed events, and other services' records, survive, and everything eligible is removed, at any batch size.",
 ["inputs","histories"],"all table contents and retention settings",
 "The clean test needs MySQL and one fixed population.",
 ["eventbus/mysql/eventbus.go"],[("clean job","eventbus/mysql/eventbus.go")],[],["bus tables"])
p("C26","The database lock is exclusive, owned and expiring",
 "At most one holder has a given key at a time as long as it releases or renews before the time-to-live; locking a held key fails with the locked error after the configured retries, and a released or expired key can be taken by exactly one contender, however their steps interleave. Releasing only ever releases the holder's own lock; releasing one that was lost is an error and leaves the new holder's lock in place. Different keys never interfere.",
 ["schedules","histories"],"all interleavings of lock, unlock and expiry by several clients",
 "Tests lock and unlock sequentially; contention on creation and take-over is not exercised.",
 ["lock/db/sql.go"],[("conditional take-over update","lock/db/sql.go"),("unique row per key","lock/db/po.go")],
 [("lock row","holder and renewal time of one key","lock/db/po.go")],["return values","lock table"])
p("C27","A locked run keeps its lock, stops when it loses it, and cleans up",
 "Running a function under the database lock keeps the lock renewed for as long as the function runs, even far beyond the time-to-live, so nobody else can take it. If the lock is lost or cannot be renewed, the function's context is cancelled. When the function returns or panics the lock is released and no background work is left behind; if the lock cannot be taken the function is not run and an error is returned.",
 ["histories","fault_sequences"],"all run durations, renewal failures and endings",
 "Tests run one short function.",
 ["lock/db/sql.go"],[("renewal goroutine","lock/db/sql.go")],[],["lock table over time","function context","live goroutines"])
p("C28","Timers fire when due, once per due time, with their payload",
 "A one-shot timer fires exactly once, never before its time and at the first poll after it, and a cron timer fires once per cron time reached while polled, never before it, as long as its store works; each call receives the key, cron text and payload that were set. A failing callback does not stop the timer. Times already past and cron texts that are invalid or never match are rejected.",
 ["inputs","histories"],"all cron expressions, times, poll intervals and callback outcomes",
 "The timer tests need MySQL, real time and two fixed schedules.",
 ["d_timer/sql/timer.go","d_timer/sql/model.go"],[("due-job scan","d_timer/sql/timer.go"),("next-time computation","d_timer/sql/model.go")],
 [("timer row","next due time and status","d_timer/sql/model.go")],["callback invocation times"])
p("C29","Timer administration is safe across instances and services",
 "With several timer instances of a service polling concurrently, each due time is run by exactly one of them, however their steps interleave. Setting a timer whose key is already set does not change the existing one, also when instances set it at the same time; a cancelled timer never fires afterwards and can be set anew; a timer set by one service is never run by another.",
 ["schedules","histories"],"all interleavings of set, cancel and poll by several instances",
 "The timer tests need MySQL and do not control interleavings.",
 ["d_timer/sql/timer.go"],[("row lock per job","d_timer/sql/timer.go"),("create-if-absent","d_timer/sql/timer.go")],[],["callback invocations","timer table"])
p("C30","The Redis lock is exclusive, owned and expiring",
 "At most one client holds a key within its time-to-live; locking a key that stays held fails with the locked error, and a released or expired key can be taken. Releasing removes only the holder's own lock, and releasing one that was lost is an error that leaves the new holder's lock in place; errors of the server are reported, not taken for a lock.",
 ["histories","schedules","fault_sequences"],"all lock/unlock/expiry histories of several clients and server errors",
 "There is no test for the Redis lock.",
 ["lock/redis/redis.go"],[("obtain/release wrapper","lock/redis/redis.go")],[],["return values","keys held by the server"])
p("C31","Commands using the database bus publish if and only if they commit",
 "With an engine, SQL executor and database bus wired together, each transactional event of a command is eventually handled exactly once by every service if the command's writes were committed and never if they were rolled back, as judged by a checker that looks at the stored rows; ordinary events of successful commands are handled exactly once too. This holds for any mix of successful and failing commands run by several instances.",
 ["histories","fault_sequences","schedules"],"all mixes of commands, failures and instances on the full stack",
 "No test runs the whole stack without MySQL.",
 ["engine.go","executor/mysql/executor.go","eventbus/mysql/eventbus.go"],[("commit then confirm","engine.go"),("check-back of undecided transactions","eventbus/mysql/eventbus.go")],[],["handler invocations","business rows"])
p("C32","The sample sale service keeps orders consistent",
 "In the bundled sale service, after any sequence of commands that create, change and remove orders and add items and coupons, the order read back has exactly the items and coupons that were added, and its total equals what its items and coupons add up to. Commands on one order never change another, and queries return what was stored.",
 ["histories","inputs"],"all command sequences on the sample service",
 "The example has no tests.",
 ["example/biz/sale/domain/order.go","example/biz/sale/infrastructure/repo/repo.go","example/biz/sale/infrastructure/dal/order.go"],[("order aggregate","example/biz/sale/domain/order.go")],[],["query results","database rows"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
