SYS = ['pipe', 'pipe2', 'fork', 'execve', 'read', 'write', 'close', 'dup2', 'fcntl', 'waitpid', '_exit', 'exit', 'signal']
E = dict(file='exec.cpp', tus=['core/exec/execve.cpp', 'core/exec/command.cpp'], threads=True, native_shadow=True, redefine=SYS, args=['--no-race'])
H = [dict(E, name='exec', entry='harness_exec', reach=['ran', 'error', 'launched', 'not launched'], quick=[dict(defs=['-DOUT=2'], split=4, depth=6, bounds='output and error streams of 0..2 symbolic bytes delivered in any pieces, 0..3 arguments, any wait status, failure of any pipe/fork/exec, every interleaving')], thorough=[dict(defs=['-DOUT=3'], split=16, depth=8, bounds='as quick with streams of 0..3 bytes')]),
     dict(E, name='exec_input', entry='harness_exec_input', reach=['ran'], quick=[dict(defs=['-DOUT=1'], split=4, depth=6, bounds='0, 1, 3, 4095, 4096, 4097, 8192 or 8200 bytes of input')])]
P = {'C17': dict(only='C17:|abort|terminate', harnesses=H), 'C18': dict(only='C18:|memory|deadlock|uncaught|step-bound|threads|terminate', harnesses=H)}
