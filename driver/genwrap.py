"""genwrap.py <script> <arguments>: runs a generator script of the repository with chosen or seeded
random numbers. CHOICES: the numbers, in units of 1/2^20; SEED otherwise."""
import os, runpy, sys, types
import numpy as np

# simple_gen.py also solves the instance, with a library that is not installed; nothing uses the result
stub = types.ModuleType('python_tsp')
exact = types.ModuleType('python_tsp.exact')
exact.solve_tsp_dynamic_programming = lambda m: (list(range(len(m))), 0.0)
stub.exact = exact
sys.modules['python_tsp'] = stub
sys.modules['python_tsp.exact'] = exact

if os.environ.get('CHOICES'):
    given = [int(x) / 2 ** 20 for x in os.environ['CHOICES'].split(',')]
    at = [0]

    def draw(*shape):
        k = int(np.prod(shape)) if shape else 1
        l = [given[(at[0] + i) % len(given)] for i in range(k)]
        at[0] += k
        return np.array(l).reshape(shape) if shape else l[0]
    np.random.rand = draw
    np.random.random = np.random.random_sample = lambda size=None: draw(*(size if isinstance(size, tuple) else () if size is None else (size,)))
else:
    np.random.seed(int(os.environ.get('SEED', '1')))
script = sys.argv[1]
sys.argv = sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(script)))
sys.dont_write_bytecode = True
if os.environ.get('REFERENCE'):
    # the reference implementation of nearest neighbour, with another matrix than its usual one
    try:
        import inspect
        main = runpy.run_path(script, run_name='reference')['main']
        seed, size = map(int, os.environ['REFERENCE'].split(','))
        inspect.signature(main).bind(seed=seed, size=size)
    except (KeyError, TypeError):
        sys.exit(77)
    main(seed=seed, size=size)
else:
    runpy.run_path(script, run_name='__main__')
