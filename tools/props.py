"""The properties, in one place; gen.py writes properties.jsonl and MANIFEST.json from it."""

P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, note='', observe=None):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               **({'observe_at': observe} if observe else {})), note=note)


SRC = 'src/hypershell/'

prop('C01', 'Submission loses and duplicates no task',
     'Every task read from the input is handed on exactly once: to the database when there is one, or to the server\'s '
     'scheduling queue when there is none. This holds whichever queue operations time out or find the queue full on the way, '
     'and includes the tasks still buffered when the input ends; as many are reported as were read.',
     ['inputs', 'schedules'], 'all interleavings of queue-full and queue-empty outcomes, buffer limits and end of input',
     'Tests submit a few lines through queues that never fill up; losses need a full queue at one particular step.',
     [SRC + 'submit.py'], [('reading and buffering of tasks', 'Loader, DatabaseCommitter, QueueCommitter state machines')])
prop('C02', 'A client starts every task it received exactly once, confirmed first',
     'Every task in a bundle a client takes from the server is passed to its executors exactly once. Unless confirmations are '
     'disabled the bundle is confirmed to the server exactly once before any of its tasks is passed on; when they are disabled '
     'nothing is confirmed.',
     ['schedules', 'configurations'], 'all interleavings of queue-full and queue-empty outcomes, with and without confirmation',
     'Tests run one short workload on an idle machine; retries after a full local or remote queue are never exercised.',
     [SRC + 'client.py'], [('receiving of bundles', 'ClientScheduler state machine')])
prop('C03', 'Every task an executor takes is returned finished exactly once',
     'Every task an executor takes is returned exactly once, with its exit status and completion time recorded, whether it ends by '
     'itself, fails, times out, or is stopped. The only exception is a process that survives the kill signal.',
     ['schedules', 'histories'], 'all orders of task exit, timeout, stop request, full and empty queues',
     'Timeouts, signals and full result queues are not produced together by any test.',
     [SRC + 'client.py'], [('execution of tasks', 'TaskExecutor state machine')])
prop('C04', 'Every finished task a client collected is returned to the server once',
     'Every finished task the client collected is sent to the server exactly once, whatever remote queue operation times out, '
     'including those still buffered when the client is told to stop.',
     ['schedules'], 'all interleavings of full and empty queues, buffer limits and the stop request',
     'Needs the stop request to arrive while results are buffered or the server queue is full.',
     [SRC + 'client.py'], [('collection of results', 'ClientCollector state machine')])
prop('C05', 'Every result and confirmation the server takes is recorded; failures reported',
     'Unless it runs without a database the server writes every returned result and every confirmation it takes from its queues to '
     'the database exactly once before it takes the next. The arguments of a task are written to the failure output, when there is '
     'one, exactly if its exit status is not zero.',
     ['schedules', 'inputs', 'configurations'], 'all queue outcomes, all exit statuses, with and without database and failure output',
     'Tests look at a handful of runs with zero and positive exit status.',
     [SRC + 'server.py'], [('receiving of results', 'Receiver state machine'), ('receiving of confirmations', 'Confirm state machine')])
prop('C06', 'Every task selected for scheduling is posted exactly once',
     'Every task the server selects from the database is put on the scheduling queue exactly once before the next selection and '
     'before the scheduler ends, however often the queue is full.',
     ['schedules'], 'all interleavings of full queues, signals and stop conditions',
     'The queue is never full in a test.', [SRC + 'server.py'], [('scheduling', 'Scheduler state machine')])
prop('C07', 'Buffered tasks are pushed when the buffer is full or has waited',
     'Submitters and the client\'s result collector push a partly filled buffer once the waiting period since the last push has '
     'passed, also when nothing new arrives, and push it as soon as it reaches the bundle size.',
     ['schedules', 'histories'], 'all sequences of arrivals, silent periods and pushes',
     'Tests feed complete inputs at once, so a silent source never occurs.',
     [SRC + 'submit.py', SRC + 'client.py'], [('buffer limits', 'DatabaseCommitter, QueueCommitter, ClientCollector')])

WORKERS = [SRC + 'server.py', SRC + 'client.py', SRC + 'submit.py', SRC + 'cluster/remote.py']

prop('C08', 'No worker waits without limit on a queue, process or lock',
     'No step of a worker of the server, client, submitter or autoscaler waits for ever on a queue, a process or a lock: each such '
     'wait has a timeout. A request to stop and a received signal are therefore noticed within a bounded time.',
     ['schedules', 'fault_sequences'], 'all paths of all steps of every worker', 'A hang shows only when the other side never answers.',
     WORKERS, [('worker steps', 'the action methods of all state machines')])
prop('C09', 'A full or empty queue never ends a worker',
     'Finding a queue full or empty, or a process still running when a wait times out, never ends a worker with an error: the worker '
     'carries on and tries again.',
     ['schedules', 'fault_sequences'], 'every queue operation and every timed wait of every worker',
     'Tests run short workloads in which queues do not stay full or empty at the critical moment.',
     WORKERS, [('timeouts of queue operations', 'the action methods of all state machines')])
prop('C10', 'Every worker always has a next step and can be stopped',
     'From every state a worker can reach it has a defined next step that leads to one of its own states, and it can reach its end '
     'from there (except the autoscaler, which runs until stopped). Once told to stop a worker does no further work and ends, and '
     'stopping a worker\'s thread tells the worker.',
     ['schedules', 'histories'], 'all reachable states of every worker', 'Rare states (retries, timeouts, evictions) are not visited by tests.',
     WORKERS + [SRC + 'core/fsm.py'], [('state machine protocol', 'StateMachine.next, run, halt'), ('stopping', 'stop methods of threads')])
prop('C11', 'The server shuts down in an order that loses no result',
     'The server waits for submission, then for scheduling, and only then has clients disconnected; it waits until all clients are '
     'gone before it ends its receivers of results and confirmations, each with exactly one end marker, and keeps its queues open '
     'until all of these have ended. Each part is started at most once and only if the chosen options call for it.',
     ['schedules', 'configurations'], 'all combinations of source, database, confirmation and database availability',
     'A wrong order loses results only when a client is still returning them at that moment.',
     [SRC + 'server.py'], [('orchestration', 'ServerThread')])
prop('C12', 'A client shuts down in an order that loses no task or result',
     'When no more tasks come a client lets every executor finish its work, one end marker each, then lets the collector return every '
     'result, and only then reports itself finished; the connection to the server is kept until the end. It starts as many '
     'executors as requested, and each is connected to the same two local queues.',
     ['schedules', 'configurations'], 'all paths through construction, start and shutdown of a client',
     'A wrong order loses results only with unlucky timing.',
     [SRC + 'client.py'], [('orchestration', 'ClientThread')])
prop('C13', 'Submission ends only after all input was read and committed',
     'Submitting waits until all input was read, then tells the committing part, through the queue both share and exactly once, that '
     'nothing more comes, and waits until everything is committed. Stopping a submission stops both parts.',
     ['schedules', 'inputs'], 'all paths through start and end of database and live submission',
     'A wrong order loses tasks only if the input is slow or the queue is full at the end.',
     [SRC + 'submit.py'], [('orchestration', 'SubmitThread, LiveSubmitThread')])
prop('C14', 'An error in any worker reaches the caller, which stops the rest',
     'An error that ends any part of a server, client, submission or cluster is not lost: it is raised again to whoever waits for '
     'that part, up to the caller of the library function, after the other parts were told to stop. A part that ended normally '
     'raises nothing.',
     ['fault_sequences'], 'a failure in any one part, for each library function that runs a server, client, submission or cluster',
     'Tests do not make parts fail one at a time.',
     [SRC + 'core/thread.py'] + WORKERS + [SRC + 'cluster/local.py', SRC + 'cluster/ssh.py'],
     [('storing and raising of errors', 'Thread.run, Thread.join'), ('entry points', 'serve_*, run_*, submit_*')])
prop('C15', 'Stopping a task escalates INT, TERM, KILL and waits in between',
     'A task is sent signals once its time limit has passed (to the nearest second) or on request to stop at once, and only then: '
     'first interrupt, then terminate, then kill, no other and none twice. Each further one is sent once the configured waiting '
     'period has passed again, and not before; until it ends, the process is looked at again and again.',
     ['schedules', 'histories'], 'all orders of time limit, requests, waiting periods and exit of the process',
     'Tests contain at most one task that ignores a signal.',
     [SRC + 'client.py'], [('signal escalation', 'TaskExecutor')])
prop('C16', 'Shutdown signals stop new work and, if asked, running work',
     'After the first user signal the server schedules no further tasks, and a stand-alone client takes no further tasks from the '
     'server, while running tasks finish; on the second user signal running tasks are stopped as well. Both are looked at between any '
     'two bundles of tasks.',
     ['schedules', 'histories'], 'all moments at which a signal may arrive', 'Tests send no signals.',
     [SRC + 'server.py', SRC + 'client.py', SRC + 'core/signal.py'],
     [('checks for signals', 'Scheduler, ClientScheduler, TaskExecutor'), ('handlers', 'register_handlers')])
prop('C17', 'A client sends heartbeats until it finished, and says so at the end',
     'A client sends heartbeats, one each time the configured period has passed, for as long as it runs; its last heartbeat says that '
     'it finished, and it does not end before the server\'s queue accepted that. A heartbeat that finds the queue full is sent again.',
     ['schedules', 'fault_sequences'], 'all orders of full queues, periods and the end of the client',
     'Needs a full heartbeat queue, or an end at a certain moment.',
     [SRC + 'client.py'], [('heartbeats', 'ClientHeartbeat')])
prop('C18', 'Every client is registered, told to disconnect, and evicted only if silent',
     'The server records every client that connects, disconnects or is evicted. It evicts a client exactly if its last heartbeat is '
     'older than the limit, and then takes back that client\'s tasks; once scheduling is over every connected client is sent one '
     'disconnect request, also one that registers late. The server does not end before every client has gone.',
     ['schedules', 'histories', 'fault_sequences'], 'all histories of heartbeats, silence, disconnects, evictions and full queues of a client',
     'Tests run one or two clients which all connect at once and never fall silent.',
     [SRC + 'server.py'], [('client registry', 'HeartMonitor')])
prop('C19', 'Scheduling ends only when nothing is left to do, and then it ends',
     'Unless told by a signal or a stop request the server ends scheduling only if it is not to run for ever, submission is over, no '
     'task remains unfinished, and a later look found none to schedule or retry. It does not end before it has seen a task, except '
     'when it restarts from a database in which all are finished. When nothing is left to do it does end.',
     ['schedules', 'histories', 'configurations'], 'all orders of submission, completion, failure and selection of tasks',
     'Ends too early only if the input is slow or the last task fails at the wrong moment.',
     [SRC + 'server.py'], [('end of scheduling', 'Scheduler, ServerThread')])
MODEL = [SRC + 'data/model.py']
LIFE = ['histories', 'configurations']
prop('C20', 'A selection takes exactly the tasks that are due, once each, and marks them',
     'Selecting tasks for scheduling takes exactly waiting tasks, in the order they were submitted, and failed ones with attempts '
     'left: never tasks that are scheduled, finished, cancelled or already retried. It returns each at most once and no more than asked for, prefers new '
     'tasks unless in eager mode, and before returning has committed when and by which server they were scheduled.',
     LIFE, 'every phase of a task record, every number of attempts, both modes, every limit',
     'Tests see a few histories of a few tasks; the combination of an earlier failure, eager mode and free places is not among them.',
     MODEL, [('selection', 'Task.next')])
prop('C21', 'A failed task gets one linked new attempt exactly while attempts remain',
     'A task that finished with a non-zero exit status gets one new attempt if it has attempts left and was not retried before, and '
     'no other task does. The new attempt has the same arguments and tag, the next attempt number and nothing else carried over; it and the failed '
     'record, which is marked as retried and otherwise kept, refer to each other.',
     LIFE, 'every phase of a task record, every exit status, every number of attempts, both modes',
     'Tests retry one kind of failure with one setting.', MODEL, [('retries', 'Task.next')])
prop('C22', 'Remaining and interrupted tasks are counted exactly',
     'The number of remaining tasks counts exactly the tasks neither finished nor cancelled; the number of interrupted tasks exactly '
     'those of them that were scheduled.',
     LIFE, 'every phase of a task record', 'The counts are taken by tests in two or three phases.', MODEL,
     [('counts', 'Task.count_remaining, Task.count_interrupted')])
prop('C23', 'Taking tasks back restores exactly the unfinished ones to waiting',
     'Recovering from an interruption takes back every task that was scheduled and has not finished, and taking back the tasks of an '
     'evicted client exactly those confirmed by it. A task taken back or reverted equals a newly submitted one in every column that scheduling, '
     'confirming or running had set; all other tasks are left as they are.',
     LIFE, 'every phase of a task record, every column', 'A column that is left over shows only in a later operation.',
     MODEL, [('taking back', 'Task.revert_interrupted, Task.revert_orphaned, Task.revert_all')])
prop('C24', 'A cancelled task is never scheduled, retried, taken back or waited for',
     'A task cancelled before it has finished is not selected for scheduling, not retried, not taken back after an interruption or '
     'eviction, and not counted among the tasks a server waits for.',
     LIFE, 'every operation after a cancellation in every unfinished phase', 'Tests do not cancel tasks.', MODEL,
     [('cancelling', 'Task.cancel_all'), ('later operations', 'Task.next, counts and reverts')])
prop('C25', 'Record changes are committed as a whole or rolled back',
     'An operation on task records returns normally only after its changes are committed, and if any of its statements fails it rolls back and '
     'raises the error, so that later operations work. Whenever the process dies, a new attempt and the mark on the failed record it replaces '
     'are either both recorded or neither.',
     ['crash_points', 'fault_sequences'], 'a failure of every single statement and a crash after every commit of every operation',
     'Tests make no statement fail and do not kill the process between two commits.', MODEL,
     [('transactions', 'Entity.add_all, Entity.update_all, Task.next')])
CONF = ['inputs', 'configurations']
prop('C26', 'Every server option does exactly what it says',
     'Whatever options the server is started with, each value reaches the part of the server it is for, unchanged, and without an option the '
     'configured value does. Tasks are read from the file named, failed ones written to the file named, confirmations received exactly if '
     'enabled; the database is initialized or checked before use, and left alone when disabled.',
     CONF, 'all combinations of given and absent options, with any values, and configuration settings',
     'Tests use a few options with one value each; a crossed or dropped value changes nothing they look at.',
     [SRC + 'server.py', SRC + 'data/__init__.py'], [('application', 'ServerApp, ServerThread')])
prop('C27', 'Every client option does exactly what it says',
     'Whatever options a client is started with, each value reaches the part of the client it is for, unchanged, and without an option the '
     'configured value does. As many tasks run at once as asked for; output goes to the files named or captured, never both; '
     'contradictory or meaningless values are refused before anything runs.',
     CONF, 'all combinations of given and absent options, with any values, and configuration settings',
     'Tests start clients with one or two options.',
     [SRC + 'client.py'], [('application', 'ClientApp, ClientThread')])
prop('C28', 'Every cluster option reaches server and clients, local or remote',
     'Whatever the launch mode and options of a cluster, its server and each of its clients behave as if started by hand with them. '
     'Remote clients are launched by the launcher and on the hosts asked for, with a command line the client accepts, connect to the port of the '
     'cluster\'s server with its secret, and run with the options given.',
     CONF, 'all launch modes (local, MPI, launcher, SSH, SSH group, autoscaling) and all combinations of options, with any values',
     'Tests run local clusters only; remote modes need other hosts.',
     [SRC + 'cluster/__init__.py', SRC + 'cluster/local.py', SRC + 'cluster/remote.py', SRC + 'cluster/ssh.py'],
     [('application', 'ClusterApp, LocalCluster, RemoteCluster, SSHCluster, AutoScalingCluster')])
prop('C29', 'Submission makes every line a task as the options say',
     'Submitting makes each task from a line of the file named, without surrounding blanks and put into the template, with exactly the tags given, '
     'and records it in the database, in bundles and at intervals as asked for or configured. The database is initialized or '
     'checked before; one in memory, which no server would see, is refused.',
     CONF, 'all combinations of options, with any values, and any lines', 'Tests submit a few plain lines.',
     [SRC + 'submit.py'], [('application', 'SubmitApp, Loader')])
prop('C30', 'Library functions pass on every argument',
     'Each function offered to programs (serve from an iterable or a file or for ever, submit from an iterable or a file, run a client) passes each argument, '
     'unchanged, to the part of the system it is for, and submits to the queue exactly if one is given.',
     CONF, 'all combinations of arguments with any values', 'Tests use the command line rather than these functions.',
     [SRC + 'server.py', SRC + 'submit.py', SRC + 'client.py', SRC + 'core/queue.py'], [('functions', 'serve_from, submit_from, run_client')])
prop('C31', 'What server and clients send each other arrives as it was sent',
     'Every task, client record and heartbeat that is put on a queue between server and clients comes out at the other end with each '
     'field as it was, whatever its value and type. Both ends use the same address, secret and four separate channels, which are there '
     'before the first client can connect and hold as many bundles as configured.',
     CONF, 'all fields of all messages with every value their type allows, all configurations',
     'Tests send a few plain task lines; values that look like something else and other addresses do not occur.',
     [SRC + 'core/queue.py', SRC + 'core/heartbeat.py', SRC + 'data/model.py', SRC + 'client.py'],
     [('messages', 'pack and unpack of Entity and Heartbeat'), ('connection', 'QueueServer, QueueClient')])
TASKPY = [SRC + 'task.py', SRC + 'data/model.py', SRC + 'core/types.py']
prop('C32', 'A search finds exactly the tasks that meet every condition',
     'Searching for tasks finds exactly those that meet all conditions, aliases and tags given, in the order and up to the number asked for, '
     'whatever operators, fields and values are used; null meets only the test for null. The number shown by counting is that of the '
     'tasks found; conditions and fields that are not understood are refused, and searching changes nothing.',
     ['inputs', 'configurations'], 'all operators, kinds of fields, values, aliases, tags and limits on both kinds of database',
     'Tests search for a few finished tasks; a wrong comparison or a dropped condition is seen only with other values.',
     TASKPY, [('search', 'SearchableMixin, WhereClause, Tag, TaskSearchApp')])
prop('C33', 'An update changes all and only the matching tasks, as asked and once confirmed',
     'Updating tasks makes every requested change to exactly the tasks that meet the conditions (in the order and up to the number asked for), '
     'saves it, and leaves everything else as it was; cancelled, reverted and deleted tasks end in the documented state. Nothing changes '
     'without --no-confirm or an explicit yes, nor when an argument, field, tag, condition or combination of options is invalid.',
     ['inputs', 'configurations'], 'all kinds of changes, actions, conditions, limits, answers and invalid arguments on both kinds of database',
     'Tests never update tasks; combined changes, other databases and declined questions all have to be right.',
     TASKPY, [('update', 'TaskUpdateApp')])
prop('C34', 'What is shown of a task is what is recorded',
     'The information shown of a task or of the tasks found has every field asked for with the value recorded, in the format asked for, whatever the '
     'value; one that is not set is shown as not set, not zero or false, nor the reverse. The output shown is that captured for the task asked '
     'for, wherever it ran; a malformed or unknown identifier and impossible combinations of options are refused.',
     ['inputs', 'configurations'], 'all fields, values, formats and options, on terminals and in pipes',
     'Tests show finished tasks with plain values; zero, empty, absent and special values are where display goes wrong.',
     TASKPY, [('output', 'TaskSearchApp, TaskInfoApp')])
prop('C35', 'A single task is submitted as given and waited for until it is done',
     'Submitting a single task records it once, with the command line and tags given, and prints its identifier. Waiting for a task ends if and '
     'only if its exit status is recorded, whenever that happens, looks for it at the interval asked for, and then gives the information or status '
     'asked for. Running a task submits it, waits for it, and then copies its output to output and its errors to errors.',
     ['inputs', 'schedules'], 'all command lines, tags, identifiers, intervals and options, and any time at which a task finishes',
     'Tests do not wait for tasks that finish while they wait; objects kept by the session hide what others have recorded.',
     TASKPY + [SRC + 'core/exceptions.py'], [('commands', 'TaskSubmitApp, TaskWaitApp, TaskRunApp')])
prop('C36', 'Every task runs with its own command line, directory, environment and streams',
     'A task runs, by the shell, the command line made from its own arguments, in the directory configured, with the variables of the client, those '
     'exported to tasks, those documented for the task itself and one for each of its tags, whatever ran before it. Output goes to the streams given, '
     'or to the files of this task if output is captured, which are closed when it is done. What is recorded of it (command, client, times, '
     'duration, exit status, files) is that of this run, also if it cannot be started, and nothing else of the task changes.',
     ['inputs', 'schedules'], 'two tasks after one another on every path of an executor, with symbols for all their fields, tags of all kinds, and '
     'exported variables',
     'Tests run single tasks and look at their output, not at the environment or what is recorded of tasks that fail to start or follow others.',
     [SRC + 'client.py', SRC + 'core/config.py', SRC + 'data/model.py', SRC + 'core/template.py'], [('executor', 'TaskExecutor, task_env')])
prop('C37', 'A template puts into a command exactly what its notations stand for',
     'Every documented notation in a template is replaced by exactly the part of the arguments, or the result of the expression or shell command, that '
     'it stands for, wherever and however often it occurs; everything around it stays as it is. Slices, expressions and commands may be anything the '
     'documentation allows (also with negative indices, or "=" and "%" inside); a notation that is not understood, or fails, is an error.',
     ['inputs'], 'all notations at all positions, for arbitrary arguments',
     'Tests use the plain notation {} only.',
     [SRC + 'core/template.py', SRC + 'core/types.py'], [('expansion', 'Template')])
prop('C38', 'An autoscaling cluster launches exactly the clients its policy calls for',
     'An autoscaling cluster first launches the initial number of clients, then looks at them whenever a full period has passed since the last time, and '
     'forgets those that ended and no other. At each look it launches exactly one client if fewer than the minimum run, or, by a fixed policy, none runs '
     'though tasks remain, or, by a dynamic one, the pressure exceeds one below the maximum (unknown pressure counts like a fixed policy); else none. '
     'Each is started as configured, with the exported variables.',
     ['schedules', 'histories'], 'all combinations of clients that ended, around every limit, for both policies and any clock',
     'Tests start no autoscaling cluster.',
     [SRC + 'cluster/remote.py'], [('autoscaler', 'AutoScaler')])
prop('C39', 'A cluster starts its server first, each client once, and waits for all of them',
     'Every kind of cluster starts its server before any client, starts one client (one per given host with SSH), and waits for all clients without '
     'limit before it waits for the server. Launchers inherit the environment, with the exported variables on top, and the standard streams.',
     ['inputs', 'schedules'], 'every path of the four kinds of clusters, for all their options',
     'Tests start local clusters only.',
     [SRC + 'cluster/local.py', SRC + 'cluster/ssh.py', SRC + 'cluster/remote.py'], [('clusters', 'LocalCluster, SSHCluster, RemoteCluster, AutoScalingCluster')])
prop('C40', 'Stopping a server, client, submission or cluster stops all its parts',
     'Whenever a server, submission or cluster is told to stop, before, while or after it runs, and however it ended, each of its parts is told to '
     'stop and each client process still running is terminated; a client is told to take no more tasks, after which the rest of it ends in order. Stopping '
     'never fails for parts that do not exist; it waits for the end, and for as long as asked, just when it is asked to.',
     ['histories', 'fault_sequences'], 'every state left behind by construction and by each path of running, including failed launches',
     'Tests do not stop anything half way.',
     [SRC + 'server.py', SRC + 'client.py', SRC + 'submit.py', SRC + 'cluster/local.py', SRC + 'cluster/ssh.py', SRC + 'cluster/remote.py'],
     [('stopping', 'stop() of all threads that own others')])
prop('C41', 'Settings come from the most specific source and are shown as they are',
     'A setting in the environment wins over the local file, that over the user file, then the system file, then the defaults; if a configuration file is '
     'named in the environment, it is the only file. `config get` shows exactly the value (or section) in the source asked for, with the right path and '
     'type, and is an error for what does not exist. `config which` names the source that wins and the value in effect, whatever the source.',
     ['inputs', 'configurations'], 'settings and sections at several depths of every type with arbitrary values, in every source',
     'Tests look at one value; precedence, missing files, special characters and sections are not covered.',
     [SRC + 'config.py', SRC + 'core/config.py'], [('settings', 'load, reload, reload_local, ConfigGetApp, ConfigWhichApp')])
prop('C42', 'Changing a setting changes exactly that setting in the named file',
     '`config set` changes or adds the named setting, with the type of the value given, in the file asked for (by default that of the user), and leaves all '
     'other settings and files as they are. The old file is read before it is emptied, and a copy of it is kept; `config edit` only opens the file asked for. A setting must be in a section.',
     ['inputs', 'histories'], 'settings at several depths, existing and new, in existing and new files of every source',
     'Tests do not change settings; nested sections, other sources and what happens to the old content are not covered.',
     [SRC + 'config.py', SRC + 'core/config.py'], [('setting', 'ConfigSetApp, update')])
prop('C43', 'The database that is configured is the one that is used',
     'The program connects to exactly the database that is configured: provider, file or database, user, password, host, port, schema and additional parameters '
     'are used as they are, also if they have special characters or come from a variable or command; tasks are kept in memory only if no database is configured. '
     'Every thread has a session of its own. Settings that contradict each other are refused with an error before anything is connected.',
     ['inputs'], 'combinations of the database settings, valid and invalid, with unknown values',
     'Tests build a few URLs with plain values; special characters, indirect settings, the engine and its sessions are not covered.',
     [SRC + 'data/core.py', SRC + 'data/model.py', SRC + 'data/__init__.py'], [('engine', 'top level of data/core.py; DatabaseURL; checkdb')])
prop('C44', 'The database is ready before it is used, and is never emptied unasked',
     'Every command that works with tasks first makes sure that the tables are there: for a local file (or when asked to) they are made, otherwise missing tables are '
     'reported and nothing is done; without a database, commands that need one are refused. Making tables keeps existing ones. Only `initdb --truncate` empties '
     'the database, only after it was confirmed by an option or by a positive answer on a terminal, and it makes all tables again.',
     ['inputs', 'histories'], 'all commands, kinds of configured databases, options (one at a time), answers and terminals',
     'Tests run with a fresh local file only; servers, missing tables, declined or impossible confirmations are not covered.',
     [SRC + 'data/__init__.py', SRC + 'submit.py', SRC + 'server.py', SRC + 'cluster/__init__.py', SRC + 'task.py'],
     [('readiness', 'ensuredb, initdb, checkdb and __enter__/run of the applications'), ('emptying', 'InitDBApp, truncatedb')])
prop('C91', 'Autoscaling keeps the work ahead of the clients without overshooting',
     'With dynamic autoscaling the number of clients follows the load: the estimated time to finish approaches the configured factor, '
     'clients are not launched for work that will be done before they are up, and idle ones go away.',
     ['inputs', 'schedules', 'time'], 'rates of arriving tasks, durations of tasks, delays of the scheduler of the cluster',
     'Depends on rates and durations over time.', [SRC + 'cluster/remote.py', SRC + 'data/model.py'], [('estimate', 'Task.task_pressure and its callers')])
prop('C92', 'A task runs once even if a client that is alive was taken for lost',
     'A task that was taken back from a client that was considered lost, but which still runs, is not run a second time as well, or its two runs leave '
     'the result of one of them and not a mixture.',
     ['schedules', 'faults', 'histories'], 'delays of heartbeats, networks that come back',
     'Depends on delays between hosts.', [SRC + 'server.py', SRC + 'client.py', SRC + 'data/model.py'], [('eviction', 'HeartMonitor, Receiver, Task.revert_orphaned')])
prop('C93', 'A pattern of host names stands for exactly the hosts it describes',
     'Every pattern with ranges and lists of numbers, as accepted for the hosts of a cluster, is expanded to exactly the host names it describes, '
     'each once, in order and with leading zeros kept.',
     ['inputs'], 'patterns of any length, nesting and number of ranges',
     'Tests expand a few patterns.', [SRC + 'cluster/ssh.py'], [('patterns', 'NodeList')])
prop('C45', 'Autoscaling is driven by the documented ratio, measured on connected clients',
     'The task pressure is the number of remaining tasks divided by the rate of all connected clients together (finished tasks by the time they took), divided by the '
     'factor times the average duration of finished tasks; only tasks of the current server and of clients that are still connected are measured. It is unknown exactly '
     'as long as there is nothing to measure, and it is the same on every supported database.',
     ['inputs', 'histories'], 'all paths of the computation; the queries and formulas as terms',
     'No test computes it; it needs finished tasks of several clients in either database.',
     [SRC + 'data/model.py'], [('pressure', 'Task.task_pressure and what it calls')])
prop('C46', 'A command that fails ends with a failure status and says why',
     'An error that stops a command, whatever its kind and whichever part of the program raised it, makes the program end with a status '
     'other than success and a message about the error; a wrong configuration always ends it with the status for that. '
     'No command goes on as if nothing had happened after something it relies on failed, and none reports a failure of its own and then '
     'ends successfully.',
     ['inputs', 'faults', 'configurations'], 'all kinds of errors, of every command, raised by any function the command calls',
     'Scripts and schedulers act on the status alone; tests provoke few errors and each error has its own way to the status.',
     [SRC + '__init__.py', SRC + 'core/exceptions.py', SRC + 'client.py', SRC + 'server.py', SRC + 'submit.py', SRC + 'task.py', SRC + 'config.py',
      SRC + 'cluster/__init__.py', SRC + 'data/__init__.py', SRC + 'core/queue.py', SRC + 'core/remote.py'],
     [('handlers of errors', 'exceptions of every Application, core.exceptions'), ('leaving of commands and connections', '__exit__ methods'),
      ('entry point', 'main and the application groups'), ('loading', 'module-level try statements')])
prop('C47', 'Contradictory options are refused, all others are accepted',
     'The cluster, server and client refuse every combination of options that is documented as contradictory, or that lacks an option '
     'another one needs, before anything is started; time limits for a client have to be positive. Every other combination is accepted.',
     ['inputs', 'configurations'], 'all single options and pairs of them, and all triples with an option that has a documented conflict',
     'There are over a thousand combinations, and each test starts one.',
     [SRC + 'cluster/__init__.py', SRC + 'server.py', SRC + 'client.py'],
     [('checks of options', 'check_arguments, check_args'), ('options', 'interface of ClusterApp, ServerApp, ClientApp')])
prop('C48', 'Nothing a command refers to is missing',
     'Whatever options and input are given, and whichever part of the program is reached, every name, attribute and module it uses there exists '
     'and every function and constructor is called with arguments it accepts. What a state machine or thread reads of itself has been set on every '
     'way to that point.',
     ['inputs', 'configurations', 'faults'], 'all places of the program where a name, attribute, module or function of it is used',
     'These are looked up only when the place is reached, so a missing one ends a command in just those situations the tests leave out.',
     [SRC + m for m in ('__init__.py', 'client.py', 'server.py', 'submit.py', 'task.py', 'config.py', 'cluster/__init__.py', 'cluster/local.py',
                        'cluster/remote.py', 'cluster/ssh.py', 'core/config.py', 'core/remote.py', 'core/queue.py', 'data/model.py', 'data/core.py')],
     [('names, attributes, imports and calls', 'every function and method')])
prop('C49', 'A cluster uses exactly the hosts that were named',
     'With `--ssh` a cluster uses the names or patterns given, otherwise the configured list or pattern, and with `--ssh-group` the list or pattern '
     'of that group. A missing, empty or meaningless list, an unknown group, and groups without a choice among them are refused.',
     ['inputs', 'configurations'], 'every kind of configured host list, with and without a group, and plain and composed names given',
     'Tests expand patterns; the configuration and the choice between the ways of naming hosts are not covered.',
     [SRC + 'cluster/ssh.py', SRC + 'cluster/__init__.py'], [('lists of hosts', 'NodeList.from_cmdline, NodeList.from_config, ClusterApp.run_ssh')])
prop('C50', 'Messages go to the error stream, at the level and in the style configured',
     'Every level name is accepted in any spelling of its case and sets exactly that level, every style name sets its format, anything else is refused. '
     'From the start of a command, messages are written to the error stream only, in the configured format, and carry every documented attribute, with '
     'colors only where these are enabled. Outside the commands that exist to show something nothing is printed among the output of tasks.',
     ['inputs', 'configurations'], 'every level and style, in several spellings, and values that are neither; records of every level with and without colors',
     'Tests never look at messages, nor at levels, styles and attributes other than the defaults.',
     [SRC + 'core/logging.py', SRC + 'core/config.py', SRC + '__init__.py'],
     [('set-up of logging', 'level_from_name, LogRecord, Logger, initialize_logging, get_logging_style, build_preloads, main')])
prop('C51', 'Files have one owner: opened once, closed at the end, standard streams never',
     'A command opens each file it was given once, for writing what it writes and for reading what it reads, hands it to the work it belongs to and '
     'closes it however the work ends; the standard streams, taken for `-` or when there is no file, are never closed, and a refused command empties no '
     'file. An executor closes the files of its own task but no stream that executors share.',
     ['inputs', 'faults'], 'every choice of paths and modes of the four commands, with work that returns or fails; executors of zero to two tasks',
     'Tests give one file and never look at whether it is closed, or at what a refused command leaves behind.',
     [SRC + 'client.py', SRC + 'server.py', SRC + 'submit.py', SRC + 'cluster/__init__.py'],
     [('streams of the commands', 'ClientApp, ServerApp, SubmitApp, ClusterApp: __enter__, run, __exit__; TaskExecutor.finalize')])
prop('C52', 'Waiting times are measured from the last bundle',
     'A client without a time-out waits for tasks for as long as it takes, and one with a time-out gives up only once that much time has passed since '
     'the last bundle arrived. Finished tasks and submitted tasks that do not fill a bundle are passed on once the configured waiting time has passed '
     'since the bundle before, which every bundle renews and nothing else does.',
     ['schedules', 'configurations'], 'every path of the actions that wait for, collect or pass on bundles',
     'Tests run short workloads whose last bundle is sent at the end anyway; clients in them are never idle.',
     [SRC + 'client.py', SRC + 'submit.py'], [('waiting and bundling', 'ClientScheduler, ClientCollector, DatabaseCommitter, QueueCommitter')])
prop('C53', 'Tags are checked and understood as documented',
     'A tag given to a submission or search is a name with an optional value after the first colon, without surrounding blanks; the value is a '
     'number, truth value, null or text, whichever it looks like, and empty if there is none. A new task keeps the tags given exactly. A value is '
     'refused, before anything is recorded, if it is text of more than 120 characters or with other characters than letters, digits, [+._-] '
     '(blank text is allowed), or is not a plain value; every other value is accepted.',
     ['inputs'], 'all names and values of tags', 'Tests use a few tags, all of them short words.',
     [SRC + 'task.py', SRC + 'data/model.py', SRC + 'core/types.py'],
     [('reading of tags', 'Tag'), ('check of tags', 'Task.new, Task.ensure_valid_tag')])
NA = {
    'C91': 'Quantifies over rates, durations and delays at run time, which no static bound in reach covers. What is decided statically instead: '
           'the decision of the autoscaler for each pressure, number of clients and number of tasks (C38), and the formula of the pressure (C45).',
    'C92': 'Not a guarantee the code can give: whether a silent client still runs is not observable for the server. What is decided statically instead: '
           'tasks of evicted clients are taken back, tasks of others are not (C18, C23), and recording a result is one update (C05, C25).',
    'C93': 'The result is computed by splitting unknown text with regular expressions, recursively; relating it to the pattern for every text needs '
           'either running it or a solver over strings. What is decided statically instead: the host list is used as it is, one client per host (C39).',
}
