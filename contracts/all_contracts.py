"""All contracts."""
import importlib

MODULES = ['c_tools', 'c_basis', 'c_operator', 'c_opstring', 'c_helpers', 'c_algebra', 'c_graph', 'c_lie', 'c_vec', 'c_lattice', 'c_transform', 'c_convert', 'c_structure', 'c_symm', 'c_matrix', 'c_core', 'c_bits', 'c_diag', 'c_states', 'c_quad', 'c_clusters', 'c_gen', 'c_sci']
CONTRACTS = []
LEMMA_PROPS = {}
for m in MODULES:
    CONTRACTS += importlib.import_module(m).CONTRACTS
