from proofs.search import *
def prove(P):
    G = setup(P, 'beam')
    for kind in ('integer', 'list'):
        for verbose in (False, True): explore_search(P, G, kind, verbose)
    reject(P, G)
