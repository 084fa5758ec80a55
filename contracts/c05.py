"""C05: the flat listing is exactly the complete paths."""
from contracts.spec import *
from contracts.words import *
BOUND = 'all 4096 graphs on four nodes with up to two labels per pair; random graphs of up to 9 nodes and 24 edges'
ASSUMPTIONS = ['std::multimap, std::list: the C++ standard\'s description',
               'the graph is acyclic (a rank decreases along every edge), as the property presupposes',
               'syllable labels are compared by identity of all components']
FN = 'IOutput::DAGSylStrings'

def tasks(P, tier):
    return path_tasks(FN, 'PronunDAG', 'DAG<Syl>', False, HOOKS, FH) + seq_tasks(P)

def bounded(B):
    B.drive('drv_lat', ['f', B.scale(3000, 100000, 20000), B.seed])
