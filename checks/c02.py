from sim.runner import Check, Scenario
from checks import pipelib as L

CHECK = Check(
    'C02',
    [Scenario('liveness', L.liveness, 12000), Scenario('seq', L.seq, 5000),
     Scenario('spsc', L.spsc, 7000), Scenario('rflag', L.rflag_pattern, 5000)],
    rule='Threads blocked in Pipe operations, released by data, space, EOF or '
    'close, or left to time out, under random schedules and stalls.',
    real=['pyslet.streams.Pipe'],
    stub=['threads, locks, conditions, events and clock (simulated)'],
    faults=['would-block', 'timeout', 'thread-stall'],
    line_files=('pyslet/streams.py',), probes=['rflag-wait', 'line-preemption'])
