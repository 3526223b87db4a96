ARCH = ('specs/ArchiveModel (TLC, all histories up to the depth in its cfg, and a deeper one in the thorough tier) and specs/ArchiveTrace: '
        'histories chosen at random and by TLC -simulate run on the real HZ_Archive; every result and the segments read back from the '
        'stored bytes by an independent reader are compared with the specification')
CONC = ('small concurrent programs run on the real code under a deterministic scheduler (systematic with two preemptions, random, '
        'priority-based; preemption at synchronisation calls and between basic blocks); ')
NET = ('the real server runs in one process on a network and under schedules that the driver chooses; '
       'everything that the clients receive is parsed and predicted by specs/Session; ')
CLAIMS = {
    'C01': ARCH, 'C03': ARCH, 'C04': ARCH, 'C06': ARCH, 'C07': ARCH,
    'C02': ARCH + '; each history is run with and without reopenings (same and other process), every difference is reported',
    'C05': ARCH + '; each history is run with and without its failing operations, every difference is reported',
    'C08': CONC + 'the results and the final archive of concurrent operations must be explained by some sequential order of specs/Archive (specs/ArchiveLinearTrace); specs/LockedModel checks the argument for locked operations exhaustively',
    'C09': CONC + 'specs/OpenModel (safety and liveness) and specs/OpenTrace: one holder per file, whatever the spelling, also among real processes; one instance per file from the provider',
    'C10': CONC + 'specs/SemaphoreModel checks the mutex-and-condition construction exhaustively, with liveness; specs/SemaphoreTrace counts permits in recorded schedules',
    'C11': CONC + 'specs/JobsModel (safety and liveness) and specs/JobsTrace: outcomes predicted for each job, slots counted',
    'C12': CONC + 'specs/ProgramsModel (both mutexes, step by step) and specs/CachesTrace, specs/ProgramsTrace: requests must be explained by some order that hands out resources in turn with their locks',
    'C13': NET + 'specs/FramesModel (transfers call by call over a network that splits, stalls and fails, with termination); single transfers against specs/FramesTrace and whole conversations against specs/ServerTrace',
    'C14': NET + 'specs/HandshakeModel (sessions, observers who replay tokens, all short passwords), specs/SessionModel, and conversations against specs/ServerTrace; specs/Session masks the tokens itself',
    'C15': NET + 'specs/AdmissionModel, specs/SessionModel with liveness (everybody is served or sent away), and conversations against specs/ServerTrace',
    'C16': NET + 'specs/SessionModel and conversations with many queries against specs/ServerTrace: every answer is computed from the archive as other sessions left it',
    'C17': NET + 'specs/StreamModel, byte-level conversations with a small codec against specs/ServerTrace and whole requests with the real codec against specs/StreamTrace',
    'C18': NET + 'specs/StreamModel, byte-level conversations with a small codec against specs/ServerTrace and whole requests with the real codec against specs/StreamTrace',
    'C31': CONC + 'specs/ShutdownModel (safety and liveness: sessions, provider, archive and semaphore, every lock a step) and specs/ShutdownTrace: operations around closings and the next opening must be explained by some order in which the first closing ends everything; a server that is shut down while clients work is compared with specs/ServerTrace',
}
