NA={}
R1="Generated-input search on the real registration and dispatch code of the root package with recording handlers; sampled, no proof."
for pid in "C14 C15".split(): c(pid,"property-based testing: generated registrations and deliveries against a reference router (rapid)","exploration",R1)
c("C19","property-based testing: generated dispatch/start/cancel schedules in simulated time (rapid, synctest)","exploration","Real bus, several goroutines in simulated time; sampled schedules. Leftover goroutines are detected exactly for each schedule played.")

SQ="Real SQL executor (gorm) on SQLite instead of MySQL; sampled models, histories and faults, compared with a reference table store. MySQL-specific SQL dialect differences are out of reach."
for pid in "C17 C18".split(): c(pid,"model-based property testing of the SQL executor against a reference store with injected faults (rapid, SQLite)","exploration",SQ)
DB="Real bus code of several services and instances in simulated time on SQLite with emulated row locks, generated interleavings, latencies, faults and crashes; sampled. SQLite isolation differs from MySQL in that a writing transaction is exclusive."
for pid in "C20 C21 C22 C23 C24 C25".split(): c(pid,"stateful property testing: multi-process simulation with generated schedules, faults and crashes (rapid, synctest, SQLite)","exploration",DB)
LK="Real lock code of several processes in simulated time on SQLite, with generated interleavings, stalls, faults, crashes and outside interference; sampled."
for pid in "C26 C27".split(): c(pid,"stateful property testing: multi-process simulation with generated schedules, stalls and faults (rapid, synctest, SQLite)","exploration",LK)
TM="Real timer code of several instances in simulated time on SQLite, with generated crons, times, schedules, callback outcomes, faults and crashes; cron times are computed independently; sampled."
for pid in "C28 C29".split(): c(pid,"stateful property testing: multi-process simulation against an independent cron evaluator (rapid, synctest, SQLite)","exploration",TM)
RD="Real lock and client library code of several clients against a simulated Redis server in simulated time, with generated schedules, server errors and broken connections; sampled. The server's commands are modelled, not Redis itself."
c("C30","stateful property testing: clients against a simulated Redis server with generated schedules and faults (rapid, synctest)","exploration",RD)
c("C31","stateful property testing: the whole stack as a multi-process simulation with generated schedules, faults and crashes (rapid, synctest, SQLite)","exploration","Real engine, executor, bus and database lock of several services and instances in simulated time on two SQLite databases with emulated row locks; generated commands, faults and crashes, judged against the stored rows; sampled.")
c("C33","property-based testing: generated option sets over sequences of nested runs against a reference of the effective options (rapid)","exploration","Real engine and stage code with recording components; sampled, no proof.")
c("C32","stateful property testing of the sample service through its HTTP handler against a reference model (rapid, synctest, SQLite)","exploration","Real example code on the real engine and SQL executor in simulated time on SQLite, with generated concurrent requests and injected faults; sampled. Lock and bus are stand-ins of the harness.")
