from proofs.search import *
def prove(P):
    G = setup(P)
    for verbose in (False, True):
        for kind in ('integer', 'list'): explore_search(P, G, kind, verbose)
        continuation(P, G, verbose)
