"""Which harness modules decide which property."""
# kani: has proof harnesses; hook: needs `--cfg verif`; unwind: default bound of the proof harnesses
MODULES = {
    'coord': dict(kani=True, hook=True),
    'chan': dict(),
    'acker': dict(kani=True),
    'lease': dict(kani=True),
    'publish': dict(kani=True),
    'retry': dict(kani=True),
    'errors': dict(kani=True),
    'fold': dict(hook=True),
    'contig': dict(kani=True),
    'operation': dict(kani=True),
    'task': dict(kani=True, needs=['operation']),
    'serializer': dict(kani=True, needs=['operation']),
    'stream': dict(kani=True),
    'map': dict(hook=True),
    'queues': dict(kani=True),
    'channel': dict(kani=True),
    'conn': dict(kani=True),
    'amqp': dict(),
    'lapin_': dict(kani=True, hook=True, native=False),
    'rt': dict(kani=True, hook=True, native=False),
    'remote': dict(),
    'worker': dict(),
}
TRUSTED = [
    'rustc, Kani 0.68 (MIR to GOTO translation, stubbing), CBMC 6.11 and CaDiCaL',
    'the contracts of third-party crates written as executable Rust in /verif/models (anyhow, async-trait, backoff, bytes, crossbeam, crossbeam-skiplist, dashmap, futures-util, futures-channel, lapin, rand, tokio, tokio-util, tracing)',
]
ASSUME = [
    'a future is polled by one thread at a time; between two atomic accesses of the code under proof other threads act only as the rely condition of the harness says',
    'memory ordering: sequentially consistent interleavings (Relaxed/Acquire/Release are not distinguished)',
    'tracing has no effect on the behaviour',
]
PROPS = {}
PROOF_NOTE = 'Every obligation of the contract harnesses is discharged for all values within the stated bounds; third-party crates are replaced by contracts. '


def prop(id, **k):
    k.setdefault('kani', [m for m in k['native'] if MODULES[m].get('kani')])
    k['id'] = id
    PROPS[id] = k


B = 'Bounded: '
prop('C01', native=['fold'], level='other', note=B, pick=r'fold::(?!.*errors)', slow_native=['fold::four'], native_timeout=20)
prop('C02', native=['fold', 'map'], level='other', note=B, pick=r'.*errors|map::literal', native_timeout=15)
prop('C03', native=['map'], level='other', note=B, pick=r'map::(?!.*errors)', native_timeout=12)
prop('C04', native=['stream'], level='proof', note=PROOF_NOTE, native_timeout=15)
prop('C05', native=['queues'], level='proof', note=PROOF_NOTE, pick=r'queues::(concurrent::)?eo_', native_timeout=15,
     slow=['queues::eo_once'])
prop('C06', native=['queues'], level='other', note=B, pick=r'queues::(concurrent::)?bc_', native_timeout=15,
     slow=['queues::' + x for x in ('bc_all', 'bc_all_ephemeral', 'bc_shared', 'bc_shared_ephemeral', 'bc_history', 'bc_history_ephemeral', 'concurrent::bc_publish')])
prop('C07', native=['conn'], level='other', note=B, native_timeout=15, slow=['conn::same', 'conn::delete'])
prop('C08', native=['channel'], level='proof', note=PROOF_NOTE, native_timeout=15, slow=['channel::issue'])
prop('C09', native=['coord', 'chan'], native_timeout=15, level='proof', note=PROOF_NOTE)
prop('C10', native=['acker'], level='proof', note=PROOF_NOTE)
prop('C11', native=['lease'], level='proof', note=PROOF_NOTE)
prop('C12', native=['publish'], level='proof', note=PROOF_NOTE, slow=['publish::publish_all'])
prop('C13', native=['retry'], level='proof', note=PROOF_NOTE)
prop('C14', native=['errors'], level='proof', note=PROOF_NOTE)
prop('C15', native=['operation'], level='proof', note=PROOF_NOTE)
prop('C16', native=['task'], level='proof', note=PROOF_NOTE)
prop('C19', native=['contig'], level='proof', note=PROOF_NOTE, native_timeout=15)
prop('C20', native=['serializer'], level='proof', note=PROOF_NOTE)
prop('C21', native=['amqp'], kani=['lapin_'], level='proof', note=PROOF_NOTE, native_timeout=15)
prop('C17', native=['remote'], level='other', note=B, native_timeout=15)
prop('C18', native=['worker'], kani=['rt'], slow=['rt::command_receiver'], level='other', note=B, native_timeout=15)
