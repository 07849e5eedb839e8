from proofs import simplify
def prove(P): simplify.prove(P, {'meaning'})
