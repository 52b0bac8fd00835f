from sim.runner import Check, Scenario
from checks import pipelib as L

CHECK = Check(
    'C01',
    [Scenario('seq', L.seq, 9000), Scenario('spsc', L.spsc, 9000),
     Scenario('multi', L.multi, 5000), Scenario('rflag', L.rflag_pattern, 4000)],
    rule='Random operation sequences on a Pipe: alone against an exact model, '
    'or by writer, reader and observer threads under a random schedule.',
    real=['pyslet.streams.Pipe'],
    stub=['threads, locks, conditions, events and clock (simulated)'],
    faults=['would-block', 'timeout', 'thread-stall'],
    line_files=('pyslet/streams.py',), probes=['rflag-wait', 'line-preemption'])
