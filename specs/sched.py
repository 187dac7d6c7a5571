S = dict(file='sched.cpp', tus=['core/sched/thread_pool.cpp', 'core/sched/thread_count.cpp'], threads=True)
def d(w, t, **k): return dict(defs=[f'-DWORKERS={w}', f'-DTASKS={t}'], bounds=f'{w} workers, {t} tasks, every interleaving at synchronisation points', **k)
P = {
 'C08': dict(harnesses=[
   dict(S, name='pool', entry='harness_pool', reach=['exception', 'no exception'], quick=[d(2, 2), d(1, 3)], thorough=[d(2, 3), d(3, 3), d(2, 4)]),
   dict(S, name='pool_error', entry='harness_pool_error', reach=['exception', 'no exception'], quick=[d(2, 2), d(1, 2)], thorough=[d(2, 3), d(1, 3), d(3, 3)]),
   dict(S, name='result', entry='harness_result', reach=['value', 'thrown', 'dropped'], quick=[d(1, 1)], thorough=[d(2, 1)])]),
 'C09': dict(harnesses=[
   dict(S, name='counter', entry='harness_counter', reach=['done', 'up'], quick=[d(2, 0)], thorough=[d(3, 0)]),
   dict(S, name='countto', entry='harness_countto', reach=['done'], quick=[d(2, 0)], thorough=[d(3, 0)]),
   dict(S, name='event', entry='harness_event', reach=['done'], quick=[d(2, 0)]),
   dict(S, name='again', entry='harness_again', reach=['done'], quick=[d(2, 0)])]),
 'C10': dict(harnesses=[dict(S, name='fifo', entry='harness_fifo', reach=['end'], quick=[dict(defs=['-DCHUNKS=2', '-DMAXCHUNK=2'], bounds='2 chunks of 1..2 symbolic bytes, reads of 1..3 bytes, every interleaving'), dict(defs=['-DCHUNKS=1', '-DMINCHUNK=9', '-DMAXCHUNK=17'], bounds='1 chunk of 9..17 bytes, reads of 1..3 bytes')], thorough=[dict(defs=['-DCHUNKS=3', '-DMAXCHUNK=3'], bounds='3 chunks of 1..3 bytes')])]),
}
