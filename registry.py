"""Which harness package and test decides each property, and how."""

SEQ = ('generated operation histories run against the real code under a virtual clock, '
       'judged step by step by a reference model, with a complete drain at the end')

CHECKS = {
    'C01': dict(pkg='qm', technique='stateful model-based property testing: ' + SEQ),
    'C02': dict(pkg='qm', technique='stateful model-based property testing: ' + SEQ),
    'C03': dict(pkg='qm', technique='stateful model-based property testing: ' + SEQ),
    'C04': dict(pkg='qm', technique='stateful model-based property testing: ' + SEQ),
    'C05': dict(pkg='qm', technique='stateful model-based property testing: ' + SEQ),
    'C06': dict(pkg='qm', technique='stateful model-based property testing: ' + SEQ),
    'C07': dict(pkg='qm', technique='stateful model-based property testing: ' + SEQ),
    'C08': dict(pkg='qm', technique='differential property testing: every operation of a generated history runs at once on a store with all queues and on a store holding only its own queue; answers, counts, rates and lists must agree'),
    'C09': dict(pkg='qm', technique='stateful model-based property testing with generated close and crash points on real files: ' + SEQ),
    'C10': dict(pkg='node', server=True, more={'C10Proc': 2}, technique='stateful model-based property testing with generated stops and crashes of a node: ' + SEQ),
    'C11': dict(pkg='node', technique='differential property testing: the command log of generated histories is applied by several replicas at different times, in different batches and repeatedly; answers and final states must agree'),
    'C12': dict(pkg='node', server=True, more={'C12Proc': 1}, technique='stateful model-based property testing of a three-node cluster under virtual time with generated node failures, isolation and requests in flight'),
    'C13': dict(pkg='store', technique='stateful model-based property testing of the log store against a map, with generated reopen and crash points'),
    'C14': dict(pkg='store', technique='stateful model-based property testing: generated interleavings of stable-store, log-store and queue operations on one database, all three compared with models after every step'),
    'C15': dict(pkg='front', technique='stateful model-based property testing over HTTP and gRPC: ' + SEQ),
    'C16': dict(pkg='front', more={'C16Real': 2}, technique='differential property testing: generated requests to a follower and the same requests to its leader, with generated leader changes and failures; executed calls and answers must agree'),
    'C18': dict(pkg='qm', server=True, more={'C18Real': 2}, technique='stateful model-based property testing: all Prometheus series of all queues scraped and compared with a model after every step'),
    'C19': dict(pkg='node', server=True, more={'C19Real': 1}, technique='property testing of generated concurrent schedules: ids of all clients and nodes of a cluster under virtual time, with leadership changes, restarts and joins; uniqueness and order over the whole history'),
    'C20': dict(pkg='front', technique='stateful property testing of streams: generated histories of consumers, producers and bursts under a virtual clock; every message must reach exactly one consumer, intact'),
    'C21': dict(pkg='front', technique='property-based fuzzing: generated invalid commands, HTTP requests and gRPC messages inside valid histories; each must be refused and the reference model must not notice'),
    'C24': dict(pkg='front', more={'C24Joiner': 2}, technique='stateful model-based property testing with injected faults: generated patterns of hosts that accept, refuse or die for a joining node, and generated sequences of join requests to real clusters whose raft configuration is compared with a model'),
    'C23': dict(pkg='conf', k8s=True, more={'C23Raft': 2, 'C23Boot': 1}, technique='stateful model-based property testing: generated hostnames, service records, address changes and leadership sequences against a fake DNS and Kubernetes API; views and endpoint slices compared with a model after every step'),
    'C22': dict(pkg='conf', server=True, more={'C22Real': 2}, technique='property testing: generated flags and configuration files, loaded by fresh processes; every option compared with an independent precedence model'),
    'C17': dict(pkg='qm', technique='stateful model-based property testing: counts and rates of every queue compared with a model after every step'),
    'C25': dict(pkg='conc', race=True, procs=4, technique='property testing of generated concurrent schedules under a virtual clock with the race detector: clients run in parallel at the instants of the background scan; the operations on every message must have a sequential explanation (linearizability search), and nothing may be lost or left over'),
}

NOTE = ('Random search: no violation among the generated cases (thousands per quick run, seeded by VERIF_SEED), '
        'each judged against an explicit oracle; not a proof. ')

NOT_APPLICABLE = {}
