#!/usr/bin/env python3
"""Writes properties.jsonl (the text of every property lives here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


p('C01', 'A process gets exactly the environment its spec asks for',
  "For every environment of the agent and every env spec, a variable is in the started process's environment exactly if the spec sets it "
  "explicitly, or the spec does not explicitly unset it, the inheritance rule (none, all, or a list of names) includes it, the agent's environment has "
  "it, and it is not one of the agent's connection secrets (certificate, key, access token). The value is the explicit one if given, otherwise the "
  "inherited one. Secrets are never inherited, whichever rule is used, but may be set explicitly.",
  ['inputs', 'configurations'], 'all agent environments, all inherit rules, all explicit assignments and removals',
  'The unit tests try a handful of fixed environments; the guarantee is over all names, lists and their interactions (explicit over inherited, removal, secrets).',
  ['src/environ.rs', 'src/spec.rs'], [('build', 'src/environ.rs: build'), ('inherit rule', 'src/spec.rs: EnvInherit'), ('use at launch', 'src/procs.rs: start_procs')],
  ['environment of the started process'])

p('C02', 'Fd specs are accepted exactly when well-formed and all pipes pair up',
  "A set of process specs passes fd validation exactly if every fd name is valid, no process names the same fd twice (also under different spellings), "
  "and pipe ends match one to one: every pipe reader names a process and fd that writes to a pipe, every pipe writer has a reader, and no writer has two readers. "
  "Otherwise it is rejected with an error that names an actual offending fd; validation never crashes.",
  ['inputs'], 'all maps of process ids to fd lists, of any size, with any fd names and any pipe references',
  'Tests cover a few small specs; duplicates under two spellings, double readers, or a reader and writer of the same process over any number of processes are not enumerated.',
  ['src/spec.rs'], [('validate_procs_fds', 'src/spec.rs: validate_procs_fds'), ('fd names', 'src/spec.rs: parse_fd')],
  ['error reply of a start request', 'exit code with an input file'])

p('C03', 'A start request starts all of its processes or none of them',
  "A start request is rejected, before any process is forked or registered, if any of its process ids is in use, its fd specs are not valid, or the agent is shutting down. "
  "Otherwise every requested process is forked exactly once and registered under its own id with its own pid, with exactly one start notification each, "
  "one task awaiting it and one eventual not-running notification; processes already registered are untouched.",
  ['inputs', 'histories'], 'all registries, all sets of specs (any number), all shutdown states',
  'Tests start small sets against an empty registry; all-or-nothing over mixed valid/duplicate ids and shutdown states is not sampled.',
  ['src/procs.rs'], [('start_procs', 'src/procs.rs: start_procs'), ('validation', 'src/spec.rs: validate_procs_fds'), ('insert', 'src/procs.rs: SharedProcs::insert')],
  ['process list', 'notifications', 'forked children'])

p('C04', 'With a restricted executable, no other executable is ever run',
  "If the agent is restricted to an executable, then no child it forks ever replaces itself with a different executable, however the spec names it (explicit path or first argument); "
  "the attempt is reported as an error of that process and the child exits with code 63. A spec naming exactly the restricted executable is not affected.",
  ['inputs', 'configurations', 'fault_sequences'], 'all restrictions, all specs (with or without exe, with or without arguments), all outcomes of the set-up calls in the child',
  'Tests run one allowed and one refused executable; the guarantee must hold on every path through the child, including those where other set-up steps fail or succeed.',
  ['src/procs.rs'], [('check in child', 'src/procs.rs: start_procs'), ('get_exe', 'src/procs.rs: get_exe')], ['execve call', 'errors of the process'])

p('C05', 'A child either execs exactly what was asked or reports why and exits 63',
  "In every forked child, the program image is replaced only if every set-up step (each fd, leftover pipes, session, restriction) succeeded, and then with exactly the requested executable (first argument if none is given), "
  "the requested arguments in order, and the constructed environment. If any step or the exec fails, a message for each failure is sent to the parent and the child exits with code 63; it never returns into the agent's code.",
  ['inputs', 'fault_sequences'], 'all specs and every combination of failing system calls in the child',
  'Tests exercise a missing file or executable; failures of each system call, in combination, and strings such as embedded NUL bytes are not reachable by samples.',
  ['src/procs.rs', 'src/sys.rs'], [('child branch', 'src/procs.rs: start_procs'), ('execve', 'src/sys.rs: execve'), ('argument vectors', 'src/sys.rs: CStringVec::new')],
  ['execve call', 'exit code', 'errors of the process'])

p('C06', 'Each fd of a process is attached exactly as its spec says',
  "When a child has been set up, each specified fd refers to exactly the object its spec names (nothing, the opened file, a duplicate, its capture file, the correct end of its own capture pipe or of the pipe it shares with its peer), "
  "the agent's private fds for it are closed in the child, and no other fd is changed; in the agent, exactly the child's pipe ends are closed, and a capture file when the record of its process goes. This holds whatever numbers the fds have and whichever order the processes are set up in, and a failed set-up is reported.",
  ['inputs', 'fault_sequences', 'configurations'], 'all fd specs and fd numbers (including a private fd equal to the target), all descriptor tables, all failures of the calls used',
  'Tests see ordinary numberings only; coincidences between private and target fd numbers, failed calls, and reader-before-writer orders need quantification over descriptor tables.',
  ['src/fd.rs', 'src/sys.rs'], [('SharedFdHandler::new', 'src/fd.rs'), ('in_child', 'src/fd.rs: SharedFdHandler::in_child'), ('in_parent', 'src/fd.rs: SharedFdHandler::in_parent'), ('Pipes', 'src/fd.rs: Pipes')],
  ['fd table of the child', 'fd table of the agent'])

p('C07', 'Files are opened with the documented mode, under the documented fd names',
  "Opening a file for a process uses the access and creation behaviour documented for the chosen mode (read, write, create, replace, append, create-append, read-write), and the default mode means read for stdin, write for stdout and stderr, read-write otherwise. "
  "The names stdin, stdout and stderr mean 0, 1 and 2, any other name must be a decimal number, and naming an fd and parsing its name are inverse to each other.",
  ['inputs'], 'all modes times all fd numbers; all fd names',
  'Tests use two or three modes on a few fds; the table and the naming are total functions over all values.',
  ['src/fd.rs', 'src/spec.rs'], [('get_oflags', 'src/fd.rs: get_oflags'), ('get_fd_name', 'src/fd.rs: get_fd_name'), ('parse_fd', 'src/spec.rs: parse_fd')], ['open(2) flags', 'keys of fds in results'])

p('C08', 'Captured output is returned complete, in order, and over the requested range',
  "Whatever a process writes to a captured fd is what results and data requests return, byte for byte, up to what was written so far: a range request returns exactly the bytes from its start to the smaller of its stop and the end, "
  "results carry the text (UTF-8) or base64 form as the spec's encoding says, or only the exact length and encoding if detached. Reading captured output never disturbs the file position the process writes at, the capture itself, or a later read.",
  ['inputs', 'histories'], 'all contents, all ranges, all interleavings of writes and reads, both capture modes',
  'Tests read short complete outputs; arbitrary ranges, chunk boundaries, and reads while the process still writes are not sampled.',
  ['src/fd.rs', 'src/sys.rs', 'src/res.rs'], [('get_data', 'src/fd.rs'), ('get_result', 'src/fd.rs'), ('run_capture_memory', 'src/fd.rs'), ('read_from_file', 'src/sys.rs'), ('from_bytes', 'src/res.rs')],
  ['fds in results', 'fd data replies', 'HTTP output data'])

p('C09', 'State, status and times in a result agree with what happened to the process',
  "A process is reported as error if anything failed while starting it, else as running exactly until it has been reaped, else as terminated. Status, resource usage and stop time are present exactly once it was reaped; the status decodes the wait status exactly (exit code, or signal number, its name if it has one, and core dump flag), "
  "resource usage is in the documented units, and every fd of the process appears under its name.",
  ['inputs', 'histories'], 'all wait statuses, all resource usages, all process records',
  'Tests see exit codes and one or two signals; real-time signals, core dumps and every combination of error and termination are not sampled.',
  ['src/procs.rs', 'src/res.rs'], [('get_state', 'src/procs.rs: Proc::get_state'), ('to_result', 'src/procs.rs: Proc::to_result'), ('Status::new', 'src/res.rs'), ('ResourceUsage::new', 'src/res.rs')], ['process results'])

p('C10', 'Signals go exactly to the processes they are meant for',
  "A signal request sends exactly the requested signal to exactly the pid of the named process, and nothing once that process was reaped (its pid may be reused); a failure to deliver is reported, distinguishing a missing process. Signalling all processes signals each running one exactly once and no other. "
  "Signal names and numbers translate consistently for all standard signals.",
  ['inputs', 'histories'], 'all registries and process states, all signal numbers and names, all outcomes of the kill call',
  'Tests send one or two signals to one live process; reaped processes, partial failures and the whole name table are not sampled.',
  ['src/procs.rs', 'src/sig.rs', 'src/sys.rs'], [('send_signal', 'src/procs.rs: Proc::send_signal'), ('send_signal_all', 'src/procs.rs: SharedProcs::send_signal_all'), ('names', 'src/sig.rs'), ('kill', 'src/sys.rs: kill')], ['kill(2) calls', 'error replies'])

p('C11', 'Only a process that is not running can be deleted, and only that one goes',
  "Deleting a process removes exactly its record if it exists and is not running, and otherwise changes nothing and says why (unknown, or still running). Collecting all results returns one result per registered process and leaves none, "
  "and every removal by whatever way is announced exactly once.",
  ['inputs', 'histories'], 'all registries, process states and ids',
  'Tests delete one terminated or running process; frame conditions on all other records and notification counts are not observed.',
  ['src/procs.rs'], [('remove_if_not_running', 'src/procs.rs'), ('pop', 'src/procs.rs'), ('collect_results', 'src/procs.rs')], ['process list', 'notifications'])

p('C12', 'Every change to the set of processes is announced to the server, faithfully',
  "Registering, terminating, deleting a process and every change of shutdown state produces exactly one notification of that kind with that id or state to whoever subscribes, and none fails when nobody does; the completed shutdown, which ends the agent's connection, is announced after the deletion that completed it. A start or termination notification is forwarded to the server as the current result of that process (nothing if it was deleted meanwhile), a deletion as a deletion, a shutdown change as that state.",
  ['inputs', 'histories'], 'all notifications, registries and subscriber counts',
  'Tests observe a few sequences end to end; absence of lost or duplicated notifications must hold for all states.',
  ['src/procs.rs', 'src/agent.rs'], [('notify', 'src/procs.rs: SharedProcs::notify'), ('insert', 'src/procs.rs'), ('notification_to_message', 'src/agent.rs')], ['messages to the server'])

p('C13', 'Shutdown proceeds as requested and completes exactly when it should',
  "Once shutdown-when-idle is requested, no new process is accepted and shutdown completes exactly when the last process is deleted (at once if there is none), never earlier. A terminate request sends SIGTERM to all running processes and waits up to 60 s for them to end, sending SIGKILL only if some are still running then; a quit request sends SIGKILL at once; both then allow up to 5 s for the processes to be deleted and complete the shutdown. Waiting for no running processes, for idleness or for shutdown returns only when that condition holds, and misses no change.",
  ['histories', 'schedules', 'inputs'], 'all registries, shutdown states, signals and orders of deletion and notification',
  'Tests exercise one order each; idle-then-delete versus delete-then-idle and all notification orders need an invariant.',
  ['src/procs.rs', 'src/shutdown.rs'], [('set_shutdown', 'src/procs.rs'), ('check_idling', 'src/procs.rs'), ('wait_running', 'src/procs.rs'), ('wait_idle', 'src/procs.rs'), ('install_signal_handler', 'src/shutdown.rs')], ['exit of the agent', 'shutdown notifications'])

p('C14', 'Every server request gets the right reply, and bad ones are answered, not fatal',
  "For every decodable request the agent performs exactly the requested operation and replies as the protocol documents: the result, ids or data for queries about known processes, an unknown-process reply for unknown ids, an error reply carrying the request for anything that cannot be done, and no reply where success is silent. "
  "An undecodable message is dropped and a ping is answered with the same payload; nothing a server sends makes the agent crash.",
  ['inputs', 'histories'], 'all requests in all registry states, all byte strings as messages',
  'Integration tests exercise the normal replies; unknown ids, invalid fds, out-of-range positions and malformed messages in every state are not sampled.',
  ['src/proto.rs', 'src/agent.rs'], [('handle_incoming', 'src/proto.rs'), ('handle', 'src/agent.rs: handle')], ['messages to the server'])

p('C15', 'The HTTP interface routes and answers every request as documented',
  "Each documented route and method performs exactly its operation: listing, reading one process, starting, deleting, signalling and reading output; an unknown path or process gives 404, a known path with another method 405, a malformed body, fd, signal or refused operation 400, success 200, each with the documented JSON shape or the exact output bytes and content type. "
  "No request crashes the service or changes anything other than what its route says.",
  ['inputs', 'histories'], 'all paths, methods, bodies and registry states',
  'HTTP tests make a few requests; every route and method combination and every error path is a finite but unsampled space over unbounded inputs.',
  ['src/http.rs'], [('dispatch', 'src/http.rs: Router::dispatch'), ('handlers', 'src/http.rs: procs_*'), ('json_response', 'src/http.rs')], ['HTTP responses'])

p('C16', 'The agent keeps reconnecting with bounded backoff and registers first',
  "After a failed connection attempt the agent waits, tries again, and multiplies the wait by the configured factor up to the configured maximum; a success resets wait and count; it gives up exactly when the configured number of consecutive attempts has failed, and once shutdown is complete it attempts no more and ends the connection it has. "
  "On every connection the first message is a registration with its identity (its ids, the names of its effective user and group if they have one, its whole host name), token, all current process ids and shutdown state, and no request is served before the server confirms it. While connected it handles every message and passes on every notification since the registered state; it leaves a connection only when that has ended or failed or notifications were missed, and then registers anew.",
  ['fault_sequences', 'histories', 'configurations'], 'all sequences of connection failures and successes, all configurations',
  'Tests see one or two reconnects with default settings; interval growth, cap, reset and the attempt limit range over unbounded sequences.',
  ['src/agent.rs', 'src/procinfo.rs', 'src/sys.rs'], [('run', 'src/agent.rs: run'), ('connect', 'src/agent.rs: connect'), ('new_self', 'src/procinfo.rs: ProcessInfo::new_self')], ['connection attempts', 'first message'])

p('C17', 'Errors in the child reach the parent complete, in order and exactly once',
  "Each error a child reports before exec appears in the process's errors once, in order, with the exact text (cut off at the format's 65535 bytes), whatever its length and however the pipe splits the data; the parent stops reading when the child execs or exits. A damaged or truncated message is reported as an error, and reading never blocks or crashes the agent.",
  ['inputs', 'fault_sequences'], 'all sequences of messages of all lengths, all splits of the byte stream, truncation at every point',
  'Tests see one short message; lengths around the limits, multiple messages and truncation are not sampled.',
  ['src/err_pipe.rs', 'src/fdio.rs'], [('write', 'src/err_pipe.rs: ErrorWriter::write'), ('get_errors', 'src/err_pipe.rs: ErrorPipe::get_errors'), ('close-on-exec', 'src/err_pipe.rs: ErrorPipe::new')], ['errors of the process'])

p('C18', 'Process statistics read from /proc mean what they say',
  "For every process, the reported statistics are the kernel's fields of the same name, converted as documented (ticks to seconds, pages to bytes, device number to major and minor, signal masks to the names of exactly the signals in them, signal number to its name), whatever the process is called; a missing file is no error.",
  ['inputs'], 'all contents the kernel can produce, including process names with spaces and parentheses, all signal masks and device numbers',
  'Tests parse the line of an ordinary process; names with parentheses, masks and device numbers are not sampled.',
  ['src/procinfo.rs'], [('ProcStat::parse', 'src/procinfo.rs'), ('expand_sig_bitmap', 'src/procinfo.rs'), ('ProcStatm::parse', 'src/procinfo.rs')], ['proc_stat and proc_statm in results'])

p('C19', 'Every started process is reaped once, and its fate recorded then',
  "Whenever a child terminates, its task eventually reaps exactly that pid, once, and records its wait status, resource usage, last statistics, stop time and elapsed time, after which the not-running notification is sent; until then nothing is recorded. A wait that is interrupted or finds nothing changes nothing and is retried at the next child signal.",
  ['schedules', 'fault_sequences'], 'all sequences of child signals and wait outcomes',
  'Tests see one child signal per child; spurious, coalesced and interrupted waits are schedules tests cannot force.',
  ['src/procs.rs', 'src/sys.rs'], [('wait_for_proc', 'src/procs.rs'), ('run_proc', 'src/procs.rs'), ('wait', 'src/sys.rs: wait')], ['process results', 'notifications'])

p('C20', 'Command-line options select exactly the documented configuration and run',
  "Asking to print or write results implies --exit; a command line that selects no way to run, or both --exit and --wait, is refused before anything starts. The processes of the input start, restricted as asked, before any service; the HTTP and agent services run exactly if asked, on the hosts and ports given (or, for the agent, the environment, or the default port). With --exit the command ends once no process runs or shutdown was requested, with --wait once none is left, printing and writing the collected results exactly where asked. Termination signals act as documented. Reconnection settings are used as given, or else have their defaults.",
  ['inputs', 'configurations', 'schedules'], 'all combinations of options, environment variables and outcomes of the steps',
  'Tests use a few option combinations; each option is independent of the others, and the product with failures and signals is not enumerated.',
  ['src/argv.rs', 'src/proto.rs', 'src/main.rs', 'src/res.rs', 'src/spec.rs', 'src/sys.rs'],
  [('parse', 'src/argv.rs: parse'), ('get_connect_config', 'src/argv.rs'), ('expand_hostname', 'src/proto.rs'), ('main', 'src/main.rs: main'), ('maybe_run_until_exit', 'src/main.rs')],
  ['behaviour of the command'])

p('C21', 'A failing system call is always reported with its own error, and a good one used',
  "Every wrapped system call passes exactly its caller's arguments to the kernel and returns success with the kernel's result exactly if the call succeeded; otherwise it returns the error the kernel gave for that call (missing process distinguished for signals). No failure is taken for success, and no success for failure.",
  ['inputs', 'fault_sequences'], 'all arguments and all results and error numbers of each call',
  'Tests run against a kernel that almost always succeeds; each failing result must be checked for every call.',
  ['src/sys.rs'], [('wrappers', 'src/sys.rs')], ['system calls', 'results of the wrappers'])

p('C22', 'The server-side library tracks each connection and process exactly once',
  "On the server side, each agent connection is known under its id exactly while registered, a reconnect under the same id takes over the old connection, and each process reported by an agent is tracked once, with every result, deletion or error message delivered to the waiter for that process.",
  ['histories', 'schedules'], 'all interleavings of connects, disconnects and messages of any number of agents',
  'Tests exercise one or two agents in one order.',
  ['python/procstar/agent/conn.py', 'python/procstar/agent/proc.py', 'python/procstar/agent/server.py'],
  [('Connections', 'python/procstar/agent/conn.py'), ('Processes', 'python/procstar/agent/proc.py')], ['server API'])

p('C23', 'Specs and messages mean the same on both sides of the wire',
  "Every spec and request the server-side library can build is decoded by the agent to the same meaning, every reply the agent encodes is decoded by the library to the same values, and a spec with an unknown field or value is refused.",
  ['inputs'], 'all values of all message and spec types',
  'Tests pass a few messages through; agreement of two independent encoders and decoders is over all values.',
  ['src/proto.rs', 'src/spec.rs', 'python/procstar/proto.py', 'python/procstar/spec.py'], [('serde derives', 'src/proto.rs, src/spec.rs'), ('python messages', 'python/procstar/proto.py')], ['messages on the wire'])

p('C24', 'The agent talks only to a server it can authenticate',
  "The agent sends no request or message to a server before a TLS handshake in which that server proved, with a certificate for the host asked for, a chain to a root certificate of the system or to the certificate PROCSTAR_AGENT_CERT names. That certificate is trusted in addition to the system's, exactly if the variable is set; if it cannot be read or parsed, the connection attempt fails. No check is ever turned off, and the access token of the environment goes only into the registration on that connection.",
  ['inputs', 'fault_sequences'], 'all environments, certificate files and results of reading and parsing them, and all servers',
  'Tests use one certificate that is right; a check turned off, or a failure ignored, shows only with a server that should be refused.',
  ['src/net.rs', 'src/agent.rs'], [('get_tls_connector', 'src/net.rs'), ('connect', 'src/agent.rs'), ('maybe_run_agent', 'src/main.rs')], ['environment', 'TLS connections'])

p('C25', 'Results and messages are encoded, and specs and requests decoded, as documented',
  "Every result, reply and notification is encoded with each of its values, unchanged, exactly once under its documented name and type tag, absent values as null, data as bytes. A spec or request means what its entries say: each value is that of the entry of its documented name, an absent optional one has its documented default; a missing required one, a repeated entry, an unknown variant and (in specs) an unknown entry are refused.",
  ['inputs'], 'all values of all result, message and spec types; all sequences of entries in any order, with any of them missing, repeated or unknown',
  'Tests look at a few fields of a few results; an entry omitted, renamed or defaulted otherwise in one case of one variant is seen only by the reader it breaks.',
  ['src/res.rs', 'src/proto.rs', 'src/spec.rs', 'src/procinfo.rs', 'src/state.rs', 'src/shutdown.rs'],
  [('serde derives', 'src/res.rs, src/proto.rs, src/spec.rs'), ('EnvInherit', 'src/spec.rs: visit_bool, visit_seq'), ('defaults', 'src/spec.rs: get_default_mode, Default impls')],
  ['results', 'messages on the wire', 'specs'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
