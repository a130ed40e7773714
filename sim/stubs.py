COMPONENTS = {
    'real code': ['openleadr (VTN: OpenADRServer and all services; VEN: OpenADRClient), imported from the repository under test, '
                  'one private copy of the package per simulated process',
                  'aiohttp client and server (HTTP parsing, connection pool, time-outs)', 'APScheduler', 'asyncio tasks, queues, futures',
                  'lxml schema validation, xmltodict, jinja2 templates', 'signxml / cryptography signatures'],
    'simulated': ['event loop selector, timers and clocks (virtual time, per-host wall clock skew and jumps)',
                  'TCP connections (latency, loss, delay, duplication, reset, truncation, partition, refused connections)',
                  'TLS handshake and peer certificate (the certificate checks are modelled; records are not encrypted)',
                  'process start, crash and stall (a restarted process keeps nothing: openleadr stores nothing on disk)',
                  'os.urandom, random, uuid (seeded per process)',
                  'the application on both sides (handlers and callbacks driven by the plan); the scripted VTN and raw clients, '
                  'which build messages without openleadr'],
}
ASSUMPTIONS = [
    'Seeded sampling: runs that were not drawn are not covered.',
    'Two callbacks of one event loop run in the order asyncio schedules them; the simulator varies times, latencies and faults, which decide the order of '
    'everything that crosses processes or timers.',
    'The simulated TCP delivers bytes in order per connection and loses them only with the connection or until a retransmission after a partition heals.',
    'The run-time environment (Python, aiohttp, APScheduler, lxml, signxml) behaves as installed.',
]
