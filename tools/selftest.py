"""setup_cmd: the tools are present and the engine rejects a wrong contract (guards against a vacuous prover)."""
import sys, os
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H + '/engine']
import z3, driver
assert os.path.exists(driver.LL + 'clang++') and os.path.exists(driver.LL + 'opt')
from prover import Prover
x = z3.Int('x'); p = Prover()
assert p.prove([x > 2], [], x > 1)[0] == 'proved' and p.prove([x > 2], [], x > 3)[0] == 'refuted'
print('setup ok')
