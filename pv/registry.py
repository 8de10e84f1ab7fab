"""Properties -> contracts, and the searches that look for a failing input on the real code.

A contract is (module, class) or (module, class, pattern): with a pattern the property is decided by those obligations
of that function whose names match; the function's other obligations decide other properties."""
from .search import harness
from .command_search import command
from .tls_search import tls

CHECKS = {
    'C01': dict(
        contracts=[
            ('decode', 'Dec_spec_Env'), ('decode', 'InheritBool'), ('decode', 'InheritSeq'), ('env', 'EnvBuild'), ('startp', 'StartProcs', 'the environment is built|exec: the constructed environment'),
            ('sysc', 'W_execve', 'environment|once|no exec|only with an error')],
        search=[harness('env'), harness('start'), harness('encode')],
        note='The environment construction is proved for all start environments and specs; assumes std collections behave as modelled.'),
    'C02': dict(
        contracts=[
            ('validate', 'Validate'), ('names', 'ParseFd')],
        search=[harness('validate')],
        note='Proved for all sets of specs of any size; fd names through the contract of parse_fd, which is proved with it.'),
    'C03': dict(
        contracts=[
            ('startp', 'StartProcs',
             'validated|fork|registered|task|rejected|accepted|unchanged|notification|each process|as many|a child never returns|agent does not exit|in the parent|awaits'), ('procs', 'Insert'), ('validate', 'Validate'), ('names', 'ParseFd'),
            ('lifecycle', 'RunProc', 'waits for the given|returns once'), ('requests', 'HandleIncoming', '^(ProcStartRequest|start):'),
            ('http', 'Http', '^POST procs:')],
        search=[harness('start'), harness('requests'), harness('http')],
        note='Proved for all sets of specs of any size, registered processes and shutdown states; validation, registration and fd handlers through their own contracts.'),
    'C04': dict(
        contracts=[
            ('startp', 'StartProcs',
             'exec: (in the child|only|the executable)|exits with 63|could exec|one message for each failure|a child never returns'), ('startp', 'GetExe'), ('startp', 'RestrictExe'), ('startp', 'GetRestricted'),
            ('sysc', 'W_execve', 'the program|once|no exec'), ('command', 'Main', 'restricted|restricts|executable given'), ('errpipe', 'TryWrite'),
            ('errpipe', 'FdioWrite')],
        search=[harness('start'), harness('errors')],
        note='Proved for all specs and restrictions: every exec call is of the restricted executable.'),
    'C05': dict(
        contracts=[
            ('startp', 'StartProcs',
             'in the child|a child (does not|that|never)|exits with 63|message for each|every fd|kept clear|leftover|private|fds are set up|exec: |error pipe of this|environment'), ('startp', 'GetExe'), ('sysc', 'W_execve'), ('sysc', 'W_setsid'), ('env', 'EnvBuild'), ('startp', 'GetRestricted'),
            ('errpipe', 'FdioWrite'), ('errpipe', 'WriterWrite'), ('errpipe', 'TryWrite'), ('errpipe', 'PipeInChild'), ('fd', 'InChild', 'a failed handler'),
            ('fd', 'HandlerAvoid'), ('fd', 'WriterAvoid'), ('fd', 'PipesClose')],
        search=[harness('start'), harness('errors'), harness('fds')],
        note='Proved for all specs and all failures of the set-up steps; the wrappers of the system calls through their own contracts.'),
    'C06': dict(
        contracts=[
            ('fd', 'InChild'), ('fd', 'InParent'), ('fd', 'HandlerDrop'), ('fd', 'AvoidFds'), ('fd', 'HandlerAvoid'), ('fd', 'WriterAvoid'), ('fd', 'PipesClose'),
            ('fdnew', 'MakeHandler'),
            ('startp', 'StartProcs', "fd handler|fds|kept clear|each fd once|set up in the child|leftover pipes|private descriptors|every fd that cannot|parent's side of each fd|the fd specs are valid"),
            ('sysc', 'W_dup2'), ('sysc', 'W_close'), ('sysc', 'W_dup_above'), ('sysc', 'W_fcntl_getfd'), ('sysc', 'W_fcntl_setfd'),
            ('sysc', 'W_set_cloexec'), ('sysc', 'W_open'), ('sysc', 'W_pipe'), ('sysc', 'W_mkstemp')],
        search=[harness('fds'), harness('start'), harness('syscalls')],
        note='Proved for all descriptor tables and all failures of the calls used, per handler; assumes the kernel descriptor-table model.'),
    'C07': dict(
        contracts=[
            ('decode', 'Dec_spec_Fd'), ('decode', 'Dec_spec_Fd_File'), ('decode', 'Dec_spec_Fd_Null'), ('decode', 'Dec_spec_OpenFlag'),
            ('names', 'ParseFd'), ('names', 'NameRoundTrip'), ('names', 'OpenMode'), ('fdnew', 'MakeHandler'), ('fd', 'InChild', '^file: '),
            ('sysc', 'W_open')],
        search=[harness('fds'), harness('encode'), harness('syscalls')],
        note='Proved for every mode, descriptor and name; the open call itself is the wrapper of C21.'),
    'C08': dict(
        contracts=[
            ('capture', 'ReadFromFile'), ('capture', 'GetData'), ('capture', 'GetResult'), ('capture', 'DrainTask'),
            ('fdnew', 'MakeHandler', '^(Memory|TempFile):'), ('fd', 'InParent', 'CaptureMemory'), ('fd', 'InChild', 'CaptureMemory|UnlinkedFile'),
            ('requests', 'GetFdData'), ('requests', 'HandleIncoming', '^(ProcFdDataRequest|data):'), ('http', 'Http', '^GET output:'),
            ('results', 'ProcToResult', 'descriptor|handler'), ('sysc', 'W_get_file_length'), ('sysc', 'W_fstat'), ('sysc', 'W_read'), ('sysc', 'W_mkstemp')],
        search=[harness('capture'), harness('requests'), harness('http')],
        note='Proved for all contents, ranges and interleavings of writes between the reads of the draining task.'),
    'C09': dict(
        contracts=[
            ('results', 'GetState'), ('results', 'StatusNew'), ('results', 'ResourceUsageNew'), ('results', 'ProcToResult'), ('signals', 'GetAbbrev'),
            ('names', 'NameRoundTrip'), ('lifecycle', 'WaitForProc'), ('lifecycle', 'RunProc'), ('sysc', 'W_wait'), ('sysc', 'W_wait4'),
            ('procs', 'ToResult')],
        search=[harness('results'), harness('lifecycle'), harness('registry')],
        note='Proved for all process records, wait statuses and resource usages; floating point is treated as real arithmetic.'),
    'C10': dict(
        contracts=[
            ('signals', 'ParseSignum'), ('signals', 'GetAbbrev'), ('procs', 'SendSignal'), ('procs', 'SendSignalAll'), ('sysc', 'W_kill'),
            ('requests', 'HandleIncoming', '^(ProcSignalRequest|signal):'), ('http', 'Http', '^POST signal:'),
            ('startp', 'StartProcs', 'registered under its own id|registered with its own pid'), ('procs', 'Get'), ('lifecycle', 'WaitForProc')],
        search=[harness('signals'), harness('requests'), harness('http'), harness('start')],
        note='Proved for all sets of processes and all outcomes of kill(2).'),
    'C11': dict(
        contracts=[
            ('procs', 'RemoveIfNotRunning'), ('procs', 'Pop'), ('procs', 'CollectResults'), ('procs', 'ToResult'), ('procs', 'Get'), ('procs', 'Notify'),
            ('requests', 'HandleIncoming', '^(ProcDeleteRequest|delete):'), ('http', 'Http', '^DELETE proc:'), ('results', 'GetState')],
        search=[harness('registry'), harness('requests'), harness('http')],
        note='Proved for all sets of processes, shutdown states and subscriber counts.'),
    'C12': dict(
        contracts=[
            ('procs', 'Notify'), ('procs', 'Insert'), ('procs', 'RemoveIfNotRunning'), ('procs', 'Pop'), ('procs', 'CollectResults'),
            ('procs', 'SetShutdown'), ('waits', 'NotiRecv'), ('waits', 'NotiMessage'), ('agent', 'Connect'), ('agent', 'Run'),
            ('startp', 'StartProcs', 'registered|the task|notification|awaits|shutdown state unchanged'),
            ('lifecycle', 'RunProc', 'waits for the given|returns once')],
        search=[harness('registry'), harness('agent'), harness('start'), harness('lifecycle')],
        note='Proved for all sets of processes, notifications and subscriber counts.'),
    'C13': dict(
        contracts=[
            ('procs', 'SetShutdown'), ('procs', 'GetShutdown'), ('procs', 'RemoveIfNotRunning'), ('procs', 'Pop'), ('procs', 'CollectResults'),
            ('procs', 'SendSignalAll'), ('waits', 'First'), ('waits', 'FirstRunning'), ('waits', 'WaitRunning'), ('waits', 'WaitIdle'),
            ('waits', 'WaitForShutdown'), ('waits', 'SignalHandler'), ('startp', 'StartProcs', 'shutting down|shutdown state unchanged|rejected: nothing'),
            ('waits', 'NotiRecv'), ('command', 'Main', 'signal|caught|handles no other'), ('results', 'GetState')],
        search=[harness('registry'), harness('handler'), harness('start')],
        note='Proved for all sets of processes, states and interleavings at awaits.'),
    'C14': dict(
        contracts=[
            ('requests', 'GetFdData'), ('requests', 'HandleIncoming'), ('agent', 'Handle'), ('procs', 'Get'), ('procs', 'RemoveIfNotRunning'),
            ('procs', 'SendSignal'), ('names', 'ParseFd'), ('capture', 'GetData')],
        search=[harness('requests'), harness('agent'), harness('registry'), harness('signals'), harness('capture')],
        note='Proved for all requests, registry states and messages; that the codec decodes what the server encoded is assumed.'),
    'C15': dict(
        contracts=[
            ('http', 'Http'), ('requests', 'GetFdData'), ('names', 'ParseFd'), ('signals', 'ParseSignum'), ('procs', 'ToResult'), ('procs', 'Get'),
            ('procs', 'RemoveIfNotRunning'), ('procs', 'SendSignal'), ('capture', 'GetData'), ('command', 'RunHttp')],
        search=[harness('http'), harness('registry'), harness('signals'), harness('capture')],
        note='Proved for all methods, path shapes, path texts, bodies and registry states, from accepting a connection to the response handed to hyper; hyper itself, percent-encodings in paths and serde_json stay assumed.'),
    'C16': dict(
        contracts=[
            ('agent', 'Run'), ('agent', 'Connect'), ('agent', 'Handle'), ('net', 'NewSelf'), ('net', 'GetUsername'), ('net', 'GetGroupname'), ('net', 'GetHostname'), ('net', 'Id_getpid'), ('net', 'Id_getppid'), ('net', 'Id_getuid'), ('net', 'Id_geteuid'), ('net', 'Id_getgid'), ('net', 'Id_getegid'),
            ('agent', 'ConnectionNew'), ('waits', 'NotiRecv'), ('command', 'AccessToken'),
            ('command', 'ConnectConfig'), ('waits', 'NotiMessage'), ('requests', 'HandleIncoming', '^Registered:')],
        search=[harness('agent'), harness('identity')],
        note='Proved for all sequences of connection attempts, messages and notifications and all configurations; the websocket library and select! as stated.'),
    'C17': dict(
        contracts=[
            ('errpipe', 'FdioWrite'), ('errpipe', 'WriterWrite'), ('errpipe', 'TryWrite'), ('errpipe', 'PipeNew'), ('errpipe', 'PipeInChild'),
            ('errpipe', 'GetErrors'), ('errpipe', 'PipeInParent'), ('lifecycle', 'RunProc', 'error|pipe'),
            ('startp', 'StartProcs', 'error pipe|one message for each failure|every fd that cannot'), ('sysc', 'W_read'), ('sysc', 'W_write'),
            ('sysc', 'W_pipe'), ('sysc', 'W_set_cloexec'), ('sysc', 'W_close')],
        search=[harness('errors'), harness('start'), harness('lifecycle')],
        note='Proved for all messages, all ways the pipe splits them and all failures of reads and writes; that the bytes of a pipe arrive unchanged is the kernel.'),
    'C18': dict(
        contracts=[
            ('procinfo', 'Stat'), ('procinfo', 'Statm'), ('procinfo', 'SigBitmap'), ('signals', 'GetAbbrev'), ('results', 'ProcToResult', 'statistics'),
            ('lifecycle', 'WaitForProc', 'statistics')],
        search=[harness('procinfo'), harness('lifecycle')],
        note='Proved for all process names, field values in the kernel ranges, masks and device numbers; the format of the files, f64 rounding and chrono stay assumed.'),
    'C19': dict(
        contracts=[
            ('lifecycle', 'WaitForProc'), ('lifecycle', 'RunProc'), ('lifecycle', 'WatchNew'), ('lifecycle', 'Watch'), ('lifecycle', 'ReceiverSignal'),
            ('sysc', 'W_wait'), ('sysc', 'W_wait4'), ('startp', 'StartProcs',
             'child signals|the task|awaits|tasks|watcher|own pid'), ('results', 'GetState'), ('procs', 'Insert'), ('errpipe', 'PipeInParent')],
        search=[harness('lifecycle'), harness('start')],
        note='Proved for all sequences of child signals and wait outcomes and all interleavings at awaits; that a child signal follows each end is the kernel and tokio.'),
    'C20': dict(
        contracts=[
            ('command', 'Parse'), ('command', 'DurationValue'), ('command', 'ConnectConfig'), ('command', 'Getenv'), ('command', 'ExpandHostname'),
            ('command', 'ExpandPort'), ('command', 'LogLevel'), ('command', 'UntilExit'), ('command', 'UntilIdle'), ('command', 'RunHttp'),
            ('command', 'RunAgent'), ('command', 'Main'), ('command', 'ResPrint'), ('command', 'ResDump'), ('command', 'LoadFile'), ('command', 'LoadStdin'),
            ('startp', 'RestrictExe'), ('startp', 'GetRestricted'), ('waits', 'WaitRunning'), ('waits', 'WaitIdle'), ('waits', 'WaitForShutdown'),
            ('procs', 'SetShutdown'), ('procs', 'CollectResults'), ('waits', 'SignalHandler')],
        search=[command, harness('registry'), harness('handler')],
        note='Proved for all options, environments and outcomes of the steps of main; the option parser generated by clap, serde_json and hyper stay assumed.'),
    'C21': dict(
        contracts=[
            ('sysc', 'W_close'), ('sysc', 'W_dup2'), ('sysc', 'W_fork'), ('sysc', 'W_setsid'), ('sysc', 'W_fcntl_getfd'), ('sysc', 'W_fcntl_setfd'),
            ('sysc', 'W_open'), ('sysc', 'W_pipe'), ('sysc', 'W_read'), ('sysc', 'W_write'), ('sysc', 'W_kill'), ('sysc', 'W_fstat'), ('sysc', 'W_wait4'),
            ('sysc', 'W_dup_above'), ('sysc', 'W_mkstemp'), ('sysc', 'W_execve'), ('sysc', 'W_execv'), ('sysc', 'W_set_cloexec'),
            ('sysc', 'W_get_file_length'), ('sysc', 'W_wait')],
        search=[harness('syscalls')],
        note='Each wrapper is proved for every result the kernel can give; pointers handed to the kernel are modelled by what they point at.'),
    'C24': dict(
        contracts=[
            ('net', 'TlsConnector'), ('agent', 'Connect', 'secured|connects|token|sent over a connection|nothing but the registration'), ('command', 'AccessToken'),
            ('command', 'RunAgent', 'url|host and port')],
        search=[tls],
        note='Proved for all environments and all results of reading and parsing the certificate; that native-tls and tungstenite check what they are asked to is assumed.'),
    'C25': dict(
        contracts=[
            ('encode', 'Enc_res_ResourceUsage'), ('encode', 'Enc_res_FdRes'), ('encode', 'Enc_res_Status'), ('encode', 'Enc_res_Times'),
            ('encode', 'Enc_res_ProcRes'), ('encode', 'Enc_state_State'), ('encode', 'Enc_shutdown_State'),
            ('encode', 'Enc_procinfo_ProcessInfo'), ('encode', 'Enc_procinfo_ProcStat'), ('encode', 'Enc_procinfo_ProcStatm'),
            ('encode', 'Enc_proto_ConnectionInfo'), ('encode', 'Enc_proto_OutgoingMessage'), ('encode', 'Enc_proto_IncomingMessage'),
            ('encode', 'Enc_spec_CaptureEncoding'), ('decode', 'Dec_spec_Proc'), ('decode', 'Dec_spec_Env'), ('decode', 'Dec_spec_Input'),
            ('decode', 'Dec_spec_Fd_Null'), ('decode', 'Dec_spec_Fd_File'), ('decode', 'Dec_spec_Fd_Dup'), ('decode', 'Dec_spec_Fd_Capture'),
            ('decode', 'Dec_spec_Fd_PipeRead'), ('decode', 'Dec_spec_Fd'), ('decode', 'Dec_spec_OpenFlag'), ('decode', 'Dec_spec_CaptureMode'),
            ('decode', 'Dec_spec_CaptureEncoding'), ('decode', 'InheritBool'), ('decode', 'InheritSeq'),
            ('decode', 'Dec_proto_IncomingMessage'), ('decode', 'Dec_proto_IncomingMessage_ProcStartRequest'),
            ('decode', 'Dec_proto_IncomingMessage_ProcidListRequest'), ('decode', 'Dec_proto_IncomingMessage_ProcResultRequest'),
            ('decode', 'Dec_proto_IncomingMessage_ProcSignalRequest'), ('decode', 'Dec_proto_IncomingMessage_ProcFdDataRequest'),
            ('decode', 'Dec_proto_IncomingMessage_ProcDeleteRequest')],
        search=[harness('encode')],
        note='Proved for the encoders and decoders that serde generates from the attributes, for all values and all sequences of entries; the formats themselves (JSON, MessagePack) are assumed.'),
}

NOT_APPLICABLE = {
    'C22': 'Python code (server-side library): no deductive verifier for Python is installed, and the Rust contracts cannot reach it.',
    'C23': 'Agreement of two codecs, one of them in Python, for which no deductive verifier is installed; what the agent encodes and decodes under which name is C25.',
}
